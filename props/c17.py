"""C17: model selection scores equal refitting and scoring by hand."""
import io, contextlib, copy, warnings
import numpy as np
import joblib
from sklearn.base import clone
from sklearn.preprocessing import StandardScaler
from vlib.core import family, Skip
from vlib import gen, lin
from datafold.appfold import EDMD, EDMDCV
from datafold.appfold.edmd import EDMDWindowPrediction
from datafold.dynfold import TSCIdentity, TSCTakensEmbedding, TSCPolynomialFeatures, TSCPrincipalComponent, TSCFeaturePreprocess
from datafold.dynfold.dmd import DMDStandard, gDMDFull, DMDControl
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.metric import TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime, TSCMetric, TSCScoring

RULE = "random collections, dictionaries, parameter grids, splitters, parallel back ends, failing candidates and windows; distinct by (family, grid, splitter, jobs, sizes)"


def metric(kind, A, B, w=None):
    """negated mean over features of the min-max scaled RMSE (default) or of the plain MAE"""
    if kind == "default":
        lo, hi = A.min(0), A.max(0); s = np.where(hi - lo == 0, 1, hi - lo)
        e = np.sqrt((((A - B) / s) ** 2).mean(0))
    else:
        e = np.abs(A - B).mean(0)
    return -np.average(e, weights=w)


def labelled(X):
    o = gen.observe(X)
    return {(i, int(np.asarray(t).astype("datetime64[ns]").astype(np.int64)) if np.issubdtype(np.asarray(t).dtype, np.datetime64) else float(t)): v
            for i, ts, V in zip(o.ids, o.times, o.vals) for t, v in zip(ts, V)}, [str(f) for f in o.feats]


def score_by_hand(kind, truth, est, w=None):
    a, fa = labelled(truth); b, fb = labelled(est)
    keys = sorted(b)
    pos = [fb.index(f) for f in fa]
    return metric(kind, np.array([a[k] for k in keys]), np.array([b[k][pos] for k in keys]), w)


def use_metric(e, kind):
    if kind != "default":
        e._score_eval = TSCScoring(TSCMetric("mae", "feature"))
    return e


def data(rng, kind, min_len, max_len, n_series=None, n=None, equal=False, noise=.3):
    n = n or int(rng.integers(1, 4)); dt = lin.draw_dt(rng, kind)
    A = lin.rand_system(rng, n)
    m = n_series or int(rng.integers(2, 6)); ids, _ = gen.rand_ids(rng, m)
    L = int(rng.integers(min_len, max_len + 1)); k0 = int(rng.integers(0, 5))
    T, V = [], []
    for i in range(m):
        l = L if equal else int(rng.integers(min_len, max_len + 1)); k = k0 if equal else int(rng.integers(0, 9))
        x = [2 * rng.normal(size=n)]
        for _ in range(l - 1):
            x.append(A @ x[-1] + noise * rng.normal(size=n))
        T.append(lin.grid(kind, dt, k + np.arange(l))); V.append(np.array(x))
    return gen.Ref(ids, T, V, [str(f) for f in gen.FEATS[:n]])


def segments(R, rows):
    """series of consecutive samples in the selected rows (positions in the order of R)"""
    rows = set(int(r) for r in rows); T, V = [], []; p = 0
    for t, v in zip(R.times, R.vals):
        cur = []
        for k in range(len(t) + 1):
            if k < len(t) and p + k in rows:
                cur.append(k)
            elif cur:
                T.append(t[cur[0]:cur[-1] + 1]); V.append(v[cur[0]:cur[-1] + 1]); cur = []
        p += len(t)
    return gen.Ref(list(range(len(T))), T, V, R.feats)


def candidates(rng, n):
    """(name, base model, grid, maker)"""
    T = lambda d: ("delay", TSCTakensEmbedding(delays=d))
    P = lambda d: ("poly", TSCPolynomialFeatures(degree=d, include_bias=False))
    k = str(rng.choice(["delays", "degree", "mode", "generator", "rank", "identity", "replace", "list", "const", "pca"]))
    if k == "delays":
        return k, EDMD([T(1)]), {"delay__delays": [1, 2, 3]}, lambda p: EDMD([T(p["delay__delays"])])
    if k == "degree":
        return k, EDMD([P(1)]), {"poly__degree": [1, 2], "include_id_state": [True]}, lambda p: EDMD([P(p["poly__degree"])])
    if k == "mode":
        m0 = str(rng.choice(["matrix", "spectral"]))
        return k, EDMD([T(1)], dmd_model=DMDStandard(sys_mode=m0)), {"dmd__sys_mode": ["spectral", "matrix"], "delay__delays": [2, 1]}, \
            lambda p: EDMD([T(p["delay__delays"])], dmd_model=DMDStandard(sys_mode=p["dmd__sys_mode"]))
    if k == "generator":
        return k, EDMD([("id", TSCIdentity())], dmd_model=DMDStandard(approx_generator=bool(rng.random() < .5))), {"dmd__approx_generator": [False, True]}, \
            lambda p: EDMD([("id", TSCIdentity())], dmd_model=DMDStandard(approx_generator=p["dmd__approx_generator"]))
    if k == "rank":
        return k, EDMD([T(2)], include_id_state=False), {"dmd__rank": [1, 2, None], "dmd__reconstruct_mode": ["exact", "project"]}, \
            lambda p: EDMD([T(2)], include_id_state=False, dmd_model=DMDStandard(rank=p["dmd__rank"], reconstruct_mode=p["dmd__reconstruct_mode"]))
    if k == "identity":
        return k, EDMD([P(2)]), {"include_id_state": [True, False], "poly__include_first_order": [False]}, \
            lambda p: EDMD([("poly", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=False))], include_id_state=p["include_id_state"])
    if k == "replace":
        models = [DMDStandard(), gDMDFull(), DMDStandard(sys_mode="matrix"), gDMDFull(sys_mode="matrix", rcond=1e-10)]
        use = [models[i] for i in rng.permutation(4)[:int(rng.integers(2, 4))]]
        return k, EDMD([T(1)]), {"dmd": use}, lambda p: EDMD([T(1)], dmd_model=clone(p["dmd"]))
    if k == "list":
        def make(p):
            if "poly__degree" in p:
                return EDMD([T(1), P(p["poly__degree"])])
            return EDMD([T(p["delay__delays"]), P(1)])
        return k, EDMD([T(1), P(1)]), [{"poly__degree": [1, 2]}, {"delay__delays": [3, 1]}], make
    if k == "const":
        return k, EDMD([("id", TSCIdentity())]), {"id__include_const": [True, False]}, lambda p: EDMD([("id", TSCIdentity(include_const=p["id__include_const"]))])
    q = list(range(1, 2 * n + 1))
    return "pca", EDMD([T(1), ("pca", TSCPrincipalComponent(n_components=1))], include_id_state=False), {"pca__n_components": q}, \
        lambda p: EDMD([T(1), ("pca", TSCPrincipalComponent(n_components=p["pca__n_components"]))], include_id_state=False)


def splitter(rng, R):
    if rng.random() < .5 and R.n > 1:
        k = int(rng.integers(2, R.n + 1)); sh = bool(rng.random() < .4); s = int(rng.integers(100)) if sh else None
        return "series", lambda: TSCKfoldSeries(n_splits=k, shuffle=sh, random_state=s)
    k = int(rng.integers(2, 4))
    return "time", lambda: TSCKFoldTime(n_splits=k)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def close(rec, a, b, mech, **kw):
    a, b = np.asarray(a, float), np.asarray(b, float)
    s = np.maximum(1, np.abs(np.nan_to_num(b)))
    rec.check(a.shape == b.shape and bool((np.isnan(a) == np.isnan(b)).all() and (np.abs(np.nan_to_num(a) - np.nan_to_num(b)) <= 1e-6 * s).all()), mech, lambda: f"observed {a} expected {b}")


def by_hand(rec, base, make, params, R, X, cv, kind, fails=()):
    """(candidate, split) tables of test and train score"""
    folds = list(cv.split(X)); n = len(params)
    te, tr = np.zeros((n, len(folds))), np.zeros((n, len(folds)))
    big = 0
    for j, (a, b) in enumerate(folds):
        A, B = segments(R, a), segments(R, b)
        for i, p in enumerate(params):
            if i in fails:
                te[i, j] = tr[i, j] = np.nan
                continue
            with quiet():
                e = make(p).fit(A.tsc())
                te[i, j] = score_by_hand(kind, B.tsc(), e.reconstruct(B.tsc()))
                tr[i, j] = score_by_hand(kind, A.tsc(), e.reconstruct(A.tsc()))
    if not np.isfinite(np.delete(te, list(fails), 0)).all() or np.abs(np.nan_to_num(te)).max() > 1e4:
        raise Skip()
    return te, tr


def tables(rec, r, te, tr, n_splits, train=True):
    for name, M in [("test", te)] + ([("train", tr)] if train else []):
        close(rec, np.column_stack([r[f"split{j}_{name}_score"] for j in range(n_splits)]), M, f"{name} scores equal refitting and scoring")
        close(rec, r[f"mean_{name}_score"], M.mean(1), f"mean {name} score"); close(rec, r[f"std_{name}_score"], M.std(1), f"std of the {name} score")
    rec.check(f"split{n_splits}_test_score" not in r, "number of splits in the results")
    if not train:
        rec.check("mean_train_score" not in r, "no train scores unless requested")


def ranks(means):
    key = np.where(np.isnan(means), -np.inf, means)
    return np.array([1 + int((key > k).sum()) for k in key])


def same_model(rec, got, want, R, mech):
    with quiet():
        lin.same_collection(rec, got.reconstruct(R.tsc()), gen.observe(want.reconstruct(R.tsc())), mech, 1e-8)


@family(quick=90, thorough=1500)
def grid_search(rec, rng):
    kind = str(rng.choice(["int", "float", "float", "datetime"]))
    R = data(rng, kind, 18, 24, equal=True); n = len(R.feats)
    name, base, grid, make = candidates(rng, n)
    if kind == "datetime" and name in ("generator", "replace"):
        raise Skip()
    sname, cv = splitter(rng, R); score = "default" if rng.random() < .7 else "mae"
    jobs = str(rng.choice(["none", "threads"])); train = bool(rng.random() < .7); refit = bool(rng.random() < .8)
    rec.sig(name, sname, jobs, score, R.n, n, kind); rec.note(grid=str(grid), cv=str(cv()), jobs=jobs, **R.describe())
    X = R.tsc(); snap = gen.snapshot(X)
    use_metric(base, score)
    search = EDMDCV(base, param_grid=grid, cv=cv(), refit=refit, verbose=int(rng.integers(0, 3)), return_train_score=train, n_jobs=None if jobs == "none" else 3)
    fitted_before = rng.random() < .2
    if fitted_before:
        with quiet():
            base.fit(X)
    state = {k: v for k, v in base.get_params(deep=True).items() if not hasattr(v, "fit") and not isinstance(v, list)}
    with quiet(), joblib.parallel_backend("threading"):
        search.fit(X)
    rec.check(gen.snapshot(X) == snap, "model selection leaves the data as it is")
    rec.equal({k: v for k, v in base.get_params(deep=True).items() if k in state}, state, "model selection leaves the passed model as it is")
    r = search.cv_results_; params = list(r["params"])
    for vals in (grid.values() if isinstance(grid, dict) else []):
        for v in vals:
            if hasattr(v, "fit"):
                rec.check(not [k for k in vars(v) if k.endswith("_") and not k.startswith("_")], "model selection leaves the candidates as they are", lambda: f"{sorted(vars(v))}")
    te, tr = by_hand(rec, base, make, params, R, X, cv(), score)
    check_result(rec, search, te, tr, params, make, R, train, refit)


def check_result(rec, search, te, tr, params, make, R, train, refit):
    r = search.cv_results_
    rec.equal(int(search.n_splits_), te.shape[1], "number of splits")
    tables(rec, r, te, tr, te.shape[1], train)
    m = np.asarray(r["mean_test_score"], float)
    rec.equal([int(x) for x in r["rank_test_score"]], ranks(m).tolist(), "ranking follows the mean test score")
    if not np.isnan(m).all():
        best = int(search.best_index_)
        rec.equal(int(r["rank_test_score"][best]), 1, "best candidate has rank one")
        rec.close(search.best_score_, np.nanmax(m), "best score", rtol=0, atol=0)
        rec.check(search.best_params_ is params[best] or str(search.best_params_) == str(params[best]), "best parameters")
        if refit:
            with quiet():
                fresh = make(params[best]).fit(R.tsc())
            same_model(rec, search.best_estimator_, fresh, R, "refitted best model")
        else:
            rec.check(not hasattr(search, "best_estimator_"), "no refitted model unless requested")


@family(quick=50, thorough=600)
def candidates_enumerated(rec, rng):
    """every combination of the grid is evaluated exactly once"""
    R = data(rng, "int", 14, 16, n_series=3, n=1, equal=True)
    d = sorted(rng.choice(np.arange(1, 5), size=int(rng.integers(1, 4)), replace=False).tolist()); q = [True, False][:int(rng.integers(1, 3))]
    grid = {"delay__delays": [int(x) for x in d], "include_id_state": q}
    if rng.random() < .5:
        grid = [grid, {"delay__delays": [5]}]
    rec.sig(str(grid)); rec.note(grid=grid)
    s = EDMDCV(EDMD([("delay", TSCTakensEmbedding(delays=1))]), param_grid=grid, cv=TSCKfoldSeries(3), verbose=0)
    with quiet():
        s.fit(R.tsc())
    want = [{"delay__delays": a, "include_id_state": b} for a in d for b in q] + ([{"delay__delays": 5}] if isinstance(grid, list) else [])
    got = list(s.cv_results_["params"])
    rec.equal(sorted(map(str, [sorted(p.items()) for p in got])), sorted(map(str, [sorted(p.items()) for p in want])), "all candidates are evaluated once")
    for key in ("delay__delays", "include_id_state"):
        col = s.cv_results_["param_" + key]
        rec.check(all((p[key] == c) if key in p else np.ma.is_masked(c) for p, c in zip(got, col)), "parameter columns of the results")


@family(quick=60, thorough=700)
def failing_candidates(rec, rng):
    kind = str(rng.choice(["int", "float", "datetime"]))
    R = data(rng, kind, 20, 24, equal=True); n = len(R.feats)
    good = [int(x) for x in rng.permutation([1, 2, 3])[:int(rng.integers(1, 4))]]; bad = [int(x) for x in rng.permutation([10 ** 5, 2 * 10 ** 5])[:int(rng.integers(1, 3))]]
    d = [int(x) for x in rng.permutation(good + bad)]
    make = lambda p: EDMD([("delay", TSCTakensEmbedding(delays=p["delay__delays"]))])
    sname, cv = splitter(rng, R); err = float(rng.choice([np.nan, np.nan, -1e3, 0.5]))
    rec.sig("fail", sname, len(good), len(bad), err, kind); rec.note(delays=d, error_score=err, **R.describe())
    X = R.tsc()
    s = EDMDCV(make({"delay__delays": 1}), param_grid={"delay__delays": d}, cv=cv(), verbose=int(rng.integers(0, 3)), error_score=err)
    caught = []
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if err == .5:   # the failing candidate would win and refitting raises the error
            rec.raises(lambda: s.fit(X), "refitting a failing candidate raises")
            s = clone(s).set_params(refit=False)
        s.fit(X)
    names = {w.category.__name__ for w in caught}
    rec.check("FitFailedWarning" in names, "a failing candidate is reported by a warning", lambda: f"{names}")
    params = list(s.cv_results_["params"]); fails = [i for i, p in enumerate(params) if p["delay__delays"] in bad]
    te, tr = by_hand(rec, None, make, params, R, X, cv(), "default", fails)
    for i in fails:
        te[i] = tr[i] = err
    check_result(rec, s, te, tr, params, make, R, True, s.refit)
    s2 = EDMDCV(make({"delay__delays": 1}), param_grid={"delay__delays": d}, cv=cv(), verbose=0, error_score="raise")
    with quiet():
        rec.raises(lambda: s2.fit(X), "a failing candidate raises if requested")
        rec.raises(lambda: EDMDCV(make({"delay__delays": 1}), param_grid={"delay__delays": [1]}, cv=3, verbose=0).fit(X), "other splitters are rejected", TypeError)


@family(quick=120, thorough=1800)
def score(rec, rng):
    """EDMD.score and DMD.score: metric between data and reconstruction at equal labels"""
    kind = str(rng.choice(["int", "float", "datetime"])); R = data(rng, kind, 8, 14); n = len(R.feats)
    name, _, grid, make = candidates(rng, n)
    if isinstance(grid, list): grid = grid[0]
    p = {k: v[int(rng.integers(len(v)))] for k, v in grid.items()}
    if name == "list": p = {k: p[k] for k in list(p)[:1]}
    if kind == "datetime" and name in ("generator", "replace"): raise Skip()
    dmd = rng.random() < .3
    kindm = str(rng.choice(["default", "mae"]))
    with quiet():
        e = use_metric((DMDStandard() if rng.random() < .6 or kind == "datetime" else gDMDFull()) if dmd else make(p), kindm).fit(R.tsc())
    T = data(rng, kind, 8, 14, n=n); T.times = [R.times[0][0] + (R.times[0][1] - R.times[0][0]) * np.arange(len(t)) for t in T.times]
    if kind == "float":
        T.times = [np.round(t, 10) for t in T.times]
    rec.sig("score", name if not dmd else "dmd", kindm, kind, T.n, n); rec.note(**T.describe())
    w = rng.random(n) + .1 if rng.random() < .5 else None
    for S in (R, T):
        with quiet():
            want = score_by_hand(kindm, S.tsc(), e.reconstruct(S.tsc()), w)
            if not np.isfinite(want) or abs(want) > 1e5: raise Skip()
            X = S.tsc(); snap = gen.snapshot(X)
            got = e.score(X, sample_weight=w) if w is not None else e.score(X)
        rec.close(got, want, "score = metric between data and reconstruction", rtol=1e-7, atol=1e-10)
        rec.check(isinstance(got, float), "score is a number"); rec.check(gen.snapshot(X) == snap, "scoring leaves the data as it is")


@family(quick=60, thorough=800)
def controlled_score(rec, rng):
    n, nu = 2, 1; kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    A, B = lin.rand_system(rng, n), rng.normal(size=(n, nu)); U = {}
    def step(x, i, k):
        u = rng.normal(size=nu); U.setdefault(i, []).append(u); return A @ x + B @ u + .1 * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, 30, kind, dt, n_series=3, min_len=5)
    Q = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], ["u"])
    d = int(rng.integers(0, 3)); steps = [("id", TSCIdentity())] if d == 0 else [("delay", TSCTakensEmbedding(delays=d))]
    rec.sig("control", d, kind, R.n); rec.note(**R.describe())
    e = EDMD(steps, dmd_model=DMDControl()).fit(R.tsc(), U=Q.tsc())
    want = score_by_hand("default", R.tsc(), e.reconstruct(R.tsc(), U=Q.tsc()))
    rec.close(e.score(R.tsc(), U=Q.tsc()), want, "score of a controlled model", rtol=1e-7, atol=1e-10)


def windows(R, size, offset):
    T, V = [], []
    order = range(R.n)
    for j in order:
        for s in range(0, len(R.times[j]) - size + 1, offset):
            T.append(R.times[j][s:s + size]); V.append(R.vals[j][s:s + size])
    return gen.Ref(list(range(len(T))), T, V, R.feats)


def same_windows(rec, got, want, mech):
    """equal collections up to the numbering of the windows"""
    g = gen.observe(got); order = lambda o: sorted(range(o.n), key=lambda j: (str(o.times[j][0]), tuple(np.round(np.asarray(o.vals[j], float)[0], 5))))
    rec.equal(g.n, want.n, mech + ": number of windows")
    for a, b in zip(order(g), order(want)):
        gen.same_times(rec, g.times[a], want.times[b], mech + ": time values"); rec.close(g.vals[a], want.vals[b], mech + ": states", rtol=1e-6, atol=1e-6 * max(1, np.abs(want.vals[b]).max()))


@family(quick=80, thorough=1000)
def window_prediction(rec, rng):
    kind = str(rng.choice(["int", "float", "datetime"])); R = data(rng, kind, 14, 22); n = len(R.feats)
    d = int(rng.integers(0, 3)); nic = d + 1
    make = lambda p=None: EDMD([("id", TSCIdentity())] if d == 0 else [("delay", TSCTakensEmbedding(delays=d))], dmd_model=DMDStandard(sys_mode=str(np.array(mode))))
    mode = str(rng.choice(["matrix", "spectral"]))
    size = int(rng.integers(nic + 1, 9)); off = int(rng.integers(1, 8))
    rec.sig("window", d, size, off, kind, mode, R.n); rec.note(window=size, offset=off, **R.describe())
    fit_first = rng.random() < .5
    e = make()
    if fit_first: e.fit(R.tsc())
    e = EDMDWindowPrediction(window_size=size, offset=off).adapt_model(e)
    if not fit_first: e.fit(R.tsc())
    plain = make().fit(R.tsc())
    W = windows(R, size, off)
    if W.n == 0: raise Skip()
    P = gen.observe(plain.reconstruct(W.tsc()))
    P = gen.Ref(W.ids, [P.by_id()[i][0] for i in W.ids], [P.by_id()[i][1] for i in W.ids], R.feats)
    X = R.tsc(); snap = gen.snapshot(X)
    out = e.reconstruct(X)
    same_windows(rec, out, P, "windowed reconstruction")
    a, b = e.reconstruct(X, return_windows=True)
    same_windows(rec, a, P, "windowed reconstruction"); same_windows(rec, b, W, "returned windows")
    q = [R.feats[i] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]; pos = [R.feats.index(f) for f in q]
    same_windows(rec, e.reconstruct(X, qois=q), gen.Ref(P.ids, P.times, [v[:, pos] for v in P.vals], q), "windowed reconstruction of selected features")
    w = rng.random(n) + .1 if rng.random() < .5 else None
    cut = [v[nic - 1:] for v in W.vals]
    rec.close(e.score(X, sample_weight=w), metric("default", np.vstack(cut), np.vstack(P.vals), w), "score of windows", rtol=1e-6, atol=1e-9)
    rec.check(gen.snapshot(X) == snap, "windowed reconstruction leaves the data as it is")
    short = R.sub([0]); short.times = [short.times[0][:size - 1]]; short.vals = [short.vals[0][:size - 1]]
    if size > 2:
        rec.raises(lambda: e.reconstruct(short.tsc()), "series shorter than the window are rejected")


@family(quick=40, thorough=600)
def window_controlled(rec, rng):
    """windows of controlled series are predicted with the control input of the same window"""
    n, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    A, B = lin.rand_system(rng, n), rng.normal(size=(n, nu)); U = {}
    def step(x, i, k):
        u = rng.normal(size=nu); U.setdefault(i, []).append(u); return A @ x + B @ u + .1 * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, 45, kind, dt, n_series=int(rng.integers(1, 4)), min_len=9, max_len=24)
    full = rng.random() < .6; names = ["p", "q"][:nu]       # with or without a control input at the last state
    Q = gen.Ref(R.ids, [t if full else t[:-1] for t in R.times], [np.array(U[i] + ([rng.normal(size=nu)] if full else [])) for i in range(R.n)], names)
    d = int(rng.integers(0, 3)); nic = d + 1; size = int(rng.integers(nic + 2, 9)); off = int(rng.integers(1, 8))
    make = lambda: EDMD([("id", TSCIdentity())] if d == 0 else [("delay", TSCTakensEmbedding(delays=d))], dmd_model=DMDControl())
    rec.sig("window control", d, size, off, kind, R.n, full); rec.note(window=size, offset=off, full=full, **R.describe())
    short = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], names)
    plain = make().fit(R.tsc(), U=short.tsc())
    e = EDMDWindowPrediction(window_size=size, offset=off).adapt_model(make().fit(R.tsc(), U=short.tsc()))
    W = windows(R, size, off)
    if W.n == 0: raise Skip()
    if not full and windows(Q, size, off).n != W.n:
        raise Skip()
    vals = []
    for j in range(R.n):
        for s in range(0, R.lengths[j] - size + 1, off):
            vals.append(np.array(U[j])[s + nic - 1:s + size - 1])
    Z = gen.Ref(W.ids, [t[nic - 1:-1] for t in W.times], vals, names)
    outs = []
    for j in range(W.n):
        ic = gen.Ref([W.ids[j]], [W.times[j][:nic]], [W.vals[j][:nic]], R.feats)
        outs.append(gen.observe(plain.predict(ic.tsc(), U=Z.sub([j]).tsc())).vals[0])
    P = gen.Ref(W.ids, [t[nic - 1:] for t in W.times], outs, R.feats)
    X, V = R.tsc(), Q.tsc(); snap = gen.snapshot(X), gen.snapshot(V)
    same_windows(rec, e.reconstruct(X, U=V), P, "windowed reconstruction with control")
    a, b, c = e.reconstruct(X, U=V, return_windows=True)
    same_windows(rec, a, P, "windowed reconstruction with control"); same_windows(rec, b, W, "returned windows"); same_windows(rec, c, Z, "returned control windows")
    rec.check((gen.snapshot(X), gen.snapshot(V)) == snap, "windowed reconstruction leaves the data as it is")


@family(quick=50, thorough=600)
def window_search(rec, rng):
    """model selection of a model adapted to windows uses the windows"""
    kind = str(rng.choice(["int", "float"])); R = data(rng, kind, 16, 22, equal=True); n = len(R.feats)
    size, off = int(rng.integers(4, 7)), int(rng.integers(1, 5)); D = [1, 2]
    make = lambda p: EDMD([("delay", TSCTakensEmbedding(delays=p["delay__delays"]))])
    base = EDMDWindowPrediction(window_size=size, offset=off).adapt_model(make({"delay__delays": 1}))
    sname, cv = "series", (lambda: TSCKfoldSeries(2)) if R.n > 1 else None
    rec.sig("window search", size, off, R.n, kind); rec.note(window=size, offset=off, **R.describe())
    X = R.tsc()
    s = EDMDCV(base, param_grid={"delay__delays": D}, cv=cv(), verbose=0)
    with quiet():
        s.fit(X)
    te = np.zeros((2, 2)); tr = np.zeros((2, 2))
    for j, (a, b) in enumerate(cv().split(X)):
        for i, d in enumerate(D):
            e = make({"delay__delays": d}).fit(segments(R, a).tsc())
            for M, rows in ((te, b), (tr, a)):
                W = windows(segments(R, rows), size, off); P = gen.observe(e.reconstruct(W.tsc())).by_id()
                M[i, j] = metric("default", np.vstack([v[d:] for v in W.vals]), np.vstack([P[k][1] for k in W.ids]))
    if np.abs(te).max() > 1e4: raise Skip()
    tables(rec, s.cv_results_, te, tr, 2)
    P = gen.observe(make(s.best_params_).fit(X).reconstruct(windows(R, size, off).tsc()))
    same_windows(rec, s.best_estimator_.reconstruct(X), P, "refitted best model predicts windows")
