"""C16: EDMD prediction and reconstruction agree with dictionary, system and time labels."""
import numpy as np
import pandas as pd
import scipy.linalg as sl
from sklearn.base import clone
from sklearn.preprocessing import StandardScaler
from vlib.core import family, Skip
from vlib import gen, lin
from datafold.appfold import EDMD
from datafold.dynfold import (TSCIdentity, TSCTakensEmbedding, TSCPolynomialFeatures, TSCFeaturePreprocess, TSCPrincipalComponent,
                              TSCColumnTransformer, TSCApplyLambdas)
from datafold.dynfold.transform import TSCFeatureSelect
from datafold.dynfold.dmd import DMDStandard, gDMDFull, DMDControl
from datafold.pcfold import TSCDataFrame
from datafold.utils.general import projection_matrix_from_feature_names

RULE = ("random systems, dictionaries (delay, polynomial, scaling, PCA, functions, column-wise, chains), inverse maps, modes, unequal series; "
        "distinct by (dictionary, model, inverse map, sizes, time kind)")


def Subset(feats):
    """keeps the first state and all products, drops the other states"""
    prod = [f"{a} {b}" if a != b else f"{a}^2" for i, a in enumerate(feats) for b in feats[i:]]
    return TSCFeatureSelect(np.array([feats[0]] + prod, dtype=object))


def dictionary(rng, n, feats, invertible=False):
    """name, steps, samples per initial condition"""
    opts = ["identity", "const", "takens", "takens2", "scale", "pca", "scale+takens", "takens+scale"]
    if not invertible:
        opts += ["poly", "poly-no-first", "lambda", "column", "takens+poly"] + (["subset"] if n > 1 else [])
    k = str(rng.choice(opts))
    T = lambda d, f=1: ("delay", TSCTakensEmbedding(delays=d, frequency=f))
    P = lambda first=True: ("poly", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=first))
    S = lambda: ("scale", TSCFeaturePreprocess(StandardScaler()))
    d = int(rng.integers(1, 4)); f = int(rng.integers(1, 3)) if d > 1 else 1
    table = {
        "identity": ([("id", TSCIdentity())], 1), "const": ([("id", TSCIdentity(include_const=True))], 1),
        "takens": ([T(d)], d + 1), "takens2": ([T(d, f)], 1 + (d - 1) * f + 1), "scale": ([S()], 1),
        "pca": ([("pca", TSCPrincipalComponent(n_components=n))], 1),
        "scale+takens": ([S(), T(1)], 2), "takens+scale": ([T(1), S()], 2),
        "poly": ([P()], 1), "poly-no-first": ([P(False)], 1), "takens+poly": ([T(1), P()], 2),
        "lambda": ([("fn", TSCApplyLambdas([np.sin, np.cos]))], 1),
        "subset": ([P(), ("select", Subset(list(feats)))], 1),
        "column": ([("col", TSCColumnTransformer([("id", TSCIdentity(), list(feats)), ("sq", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=False), [feats[0]])]))], 1),
    }
    return (k,) + table[k]


class Lift:
    """the dictionary as a chain of separately fitted copies of the transformers"""

    def __init__(self, steps, include, by_name=True):
        self.steps, self.include, self.by_name = [clone(t) for _, t in steps], include, by_name

    def fit(self, X):
        D = X
        for t in self.steps:
            D = t.fit(D).transform(D)
        self.n_in = X.shape[1]
        self.attach = self.include and not np.isin(X.columns, D.columns).all()
        self.preserves = self.by_name and bool(np.isin(X.columns, D.columns).all())
        return self.finish(X, D)

    def finish(self, X, D):
        if self.attach:
            i = X.index.get_indexer(D.index)
            D = pd.DataFrame(np.hstack([X.to_numpy()[i], D.to_numpy()]), index=D.index, columns=list(X.columns) + list(D.columns))
        return gen.observe(D)

    def __call__(self, X):
        D = X
        for t in self.steps:
            D = t.transform(D)
        return self.finish(X, D)

    def back(self, V, ids, times, feats):
        D = gen.Ref(ids, times, V, feats).tsc()
        if self.attach:
            D = D.iloc[:, self.n_in:]
        for t in reversed(self.steps):
            D = t.inverse_transform(D)
        return gen.observe(D)


def series(rng, n, kind, dt, nic, need=40, noise=None, n_series=None, A=None):
    A = lin.rand_system(rng, n) if A is None else A
    noise = float(rng.choice([0.1, .5, 1.])) if noise is None else noise
    R = lin.trajectories(rng, lambda x, i, k: A @ x + noise * rng.normal(size=n), n, need, kind, dt, n_series=n_series or int(rng.integers(2, 6)),
                         min_len=nic + 1, max_len=nic + 12)
    return A, R


def dpairs(D):
    return np.vstack([v[:-1] for v in D.vals]), np.vstack([v[1:] for v in D.vals])


def well(Z, limit=300.):
    s = np.linalg.svd(Z, compute_uv=False)
    if len(Z) < Z.shape[1] + 1 or s[0] / s[-1] > limit:
        raise Skip()


def model(rng, kind):
    k = int(rng.integers(0, 3 if kind == 'datetime' else 4))
    if k == 0:
        return "matrix", DMDStandard(sys_mode="matrix")
    if k == 1:
        return "spectral", DMDStandard()
    if k == 2:
        return "diagonalized", DMDStandard(diagonalize=True)
    return "generator approx", DMDStandard(approx_generator=True)


def setup(rng, invertible=None, stepwise=False, sort=None, need=40):
    n = int(rng.integers(1, 4)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    feats = [str(f) for f in gen.FEATS[:n]]
    inv = bool(rng.random() < .25) if invertible is None else invertible
    name, steps, nic = dictionary(rng, n, feats, inv)
    include = bool(rng.random() < .6)
    # scaling keeps the feature names, but not the states
    extra = {} if "scale" not in name else dict(dict_preserves_id_state=False)
    include = include and not extra and name != "subset"   # the names would appear twice
    A, R = series(rng, n, kind, dt, nic, need=need)
    R.feats = feats
    mname, m = model(rng, kind)
    sort = bool(rng.random() < .3) and m.sys_mode == "spectral" and not inv if sort is None else sort
    e = EDMD(steps, dmd_model=m, include_id_state=include, use_transform_inverse=inv, sort_koopman_triplets=sort, stepwise_transform=stepwise, **extra)
    L = Lift(steps, include, not extra)
    return n, kind, dt, name, steps, nic, include, inv, mname, e, L, R, sort


def fitted(rec, rng, **kw):
    n, kind, dt, name, steps, nic, include, inv, mname, e, L, R, sort = setup(rng, **kw)
    X = R.tsc()
    D = L.fit(X)
    # scaling etc. produce exactly the same names as the input: then attaching is not possible and not required
    Z, Y = dpairs(D); well(Z)
    A = np.linalg.lstsq(Z, Y, rcond=None)[0].T
    w, V = np.linalg.eig(A)
    gap = np.abs(w[:, None] - w) + 9 * np.eye(len(w))
    if np.linalg.cond(V) > 200 or gap.min() < 1e-3 or np.abs(w).min() < 1e-3:
        raise Skip()
    if mname == "generator approx" and (np.abs(np.angle(w)) > 2.8).any():
        raise Skip()
    rec.sig(name, mname, include, inv, sort, n, kind, R.n); rec.note(dictionary=name, model=mname, include_id_state=include, use_transform_inverse=inv, sort=sort, **R.describe())
    e.fit(X)
    if inv:
        back = None
    elif include or L.preserves:
        pos = [list(map(str, D.feats)).index(f) for f in R.feats]
        back = np.eye(len(D.feats))[:, pos]
    else:
        rows = np.vstack([v[len(v) - len(d):] for v, d in zip([R.by_id()[i][1] for i in D.ids], D.vals)])
        back = np.linalg.lstsq(np.vstack(D.vals), rows, rcond=None)[0]
    return n, kind, dt, nic, e, L, R, D, A, back


def powers(A, x0, T):
    X = [x0]
    for _ in range(T):
        X.append(A @ X[-1])
    return np.array(X)


def oracle(L, D, A, back, ic, steps, nic, kind, dt, feats, k0=0):
    """predicted Ref for the Ref of initial conditions"""
    d = L(ic.tsc())
    V = [powers(A, d.by_id()[i][1][-1], max(steps))[steps] for i in ic.ids]
    t = lin.grid(kind, dt, k0 + nic - 1 + np.asarray(steps))
    if back is None:
        o = L.back(V, ic.ids, [t] * ic.n, D.feats)
        return gen.Ref(ic.ids, [t] * ic.n, [o.by_id()[i][1] for i in ic.ids], feats), t
    return gen.Ref(ic.ids, [t] * ic.n, [v @ back for v in V], feats), t


def conditions(rng, n, nic, kind, dt, feats, q=None, k0=None):
    q = q or int(rng.integers(1, 4)); k0 = int(rng.integers(0, 6)) if k0 is None else k0
    ids = [int(i) for i in rng.choice(70, size=q, replace=False)]
    t = lin.grid(kind, dt, k0 + np.arange(nic))
    R = gen.Ref(ids, [t] * q, [rng.normal(size=(nic, n)) for _ in range(q)], feats)
    R.k0 = k0
    return R


def scale_of(A, P, T):
    return max(1., np.linalg.norm(A, 2)) ** T * max(1., max(np.abs(v).max() for v in P.vals))


@family(quick=250, thorough=4000)
def predict_parts(rec, rng):
    """predict = dictionary, linear system, map back"""
    n, kind, dt, nic, e, L, R, D, A, back = fitted(rec, rng)
    rec.equal(int(e.n_samples_ic_), nic, "samples per initial condition")
    rec.equal([str(f) for f in e.feature_names_out_], [str(f) for f in D.feats], "dictionary feature names")
    rec.equal(int(e.n_features_out_), len(D.feats), "dictionary size")
    rec.equal([str(f) for f in e.feature_names_pred_], R.feats, "predicted feature names")
    for src in (R, conditions(rng, n, nic + int(rng.integers(0, 3)), kind, dt, R.feats)):
        lin.same_collection(rec, e.transform(src.tsc()), L(src.tsc()), "transform = dictionary", 1e-9)
    T = int(rng.integers(1, 6)); steps = list(range(T + 1))
    if rng.random() < .4:
        steps = [0] + sorted(rng.choice(np.arange(1, 9), size=int(rng.integers(1, 4)), replace=False).tolist())
    ic = conditions(rng, n, nic, kind, dt, R.feats)
    P, t = oracle(L, D, A, back, ic, steps, nic, kind, dt, R.feats, ic.k0)
    sc = scale_of(A, P, max(steps))
    got = e.predict(ic.tsc(), time_values=t)
    lin.same_collection(rec, got, P, "predict = dictionary, linear system, inverse map", 1e-5, scale=sc)
    # default: initial condition and one step
    P1, t1 = oracle(L, D, A, back, ic, [0, 1], nic, kind, dt, R.feats, ic.k0)
    lin.same_collection(rec, e.predict(ic.tsc()), P1, "predict without time values", 1e-5, scale=sc)
    if nic == 1 and kind != "datetime" and n > 1:
        x = ic.vals[0][0]
        a = gen.observe(e.predict(x, time_values=t))
        rec.close(a.vals[0], P.vals[0], "predict with an array", rtol=1e-5, atol=1e-5 * sc)
        gen.same_times(rec, a.times[0], t, "predict with an array: time values")
    # parts of the model used by hand
    d0 = e.transform(ic.tsc())
    part = e.dmd_model.predict(d0, time_values=t)
    lin.same_collection(rec, e.inverse_transform(part), P, "step-wise use of the parts", 1e-5, scale=sc)
    lin.same_collection(rec, e.inverse_transform(e.transform(R.tsc())),
                        gen.Ref(R.ids, [x[nic - 1:] for x in R.times], [v[nic - 1:] for v in R.vals], R.feats) if back is None or e.include_id_state or L.preserves
                        else gen.Ref(D.ids, D.times, [v @ back for v in D.vals], R.feats), "inverse_transform", 1e-6)
    # features of interest
    q = [R.feats[i] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    pos = [R.feats.index(f) for f in q]
    for qq in (q, pd.Index(q), np.array(q)):
        lin.same_collection(rec, e.predict(ic.tsc(), time_values=t, qois=qq),
                            gen.Ref(P.ids, P.times, [v[:, pos] for v in P.vals], q), "features of interest", 1e-5, scale=sc)
    rec.raises(lambda: e.predict(ic.tsc(), time_values=t, qois=q + ["not there"]), "unknown features of interest are rejected", ValueError)


@family(quick=120, thorough=2000)
def spectral_triplet(rec, rng):
    n, kind, dt, nic, e, L, R, D, A, back = fitted(rec, rng, invertible=False)
    if not e.dmd_model.is_spectral_mode:
        raise Skip()
    w = np.asarray(e.koopman_eigenvalues)
    gen_ = isinstance(e.dmd_model, DMDStandard) and e.dmd_model.approx_generator
    secs = float(dt) if kind != "datetime" else float(dt)
    modes = e.koopman_modes
    rec.equal([str(i) for i in modes.index], R.feats, "rows of the Koopman modes")
    rec.equal(modes.shape[1], len(D.feats), "number of Koopman modes")
    if not gen_:
        lin.match_spectrum(rec, w, np.linalg.eigvals(A), "Koopman eigenvalues", tol=1e-4)
    phi = e.koopman_eigenfunction(R.tsc())
    rec.check(isinstance(phi, TSCDataFrame), "eigenfunctions: collection")
    rec.check(phi.index.equals(L(R.tsc()).tsc().index) or sorted(map(tuple, phi.index)) == sorted(map(tuple, L(R.tsc()).tsc().index)), "eigenfunctions: labels")
    Phi = phi.to_numpy(); Dx = np.vstack(L(R.tsc()).vals)
    # intertwining: phi is linear in the dictionary, phi(A d) = lambda phi(d)
    W = np.linalg.lstsq(Dx, Phi, rcond=None)[0]
    rec.close(Dx @ W, Phi, "eigenfunctions are linear in the dictionary", rtol=1e-6, atol=1e-6 * max(1, np.abs(Phi).max()))
    if not gen_:
        rec.close((Dx @ A.T) @ W, Phi * w[None, :], "eigenfunctions evolve with the eigenvalue", rtol=1e-4, atol=1e-4 * max(1, np.abs(Phi).max()))
    rec.close((Phi @ modes.to_numpy().T).real, Dx @ back, "modes and eigenfunctions give the states", rtol=1e-5, atol=1e-5 * max(1, np.abs(Dx).max()))
    if e.sort_koopman_triplets:
        ic = e.transform(R.tsc()).initial_states()
        imp = np.abs(np.linalg.norm(modes.to_numpy(), axis=0)[:, None] * e.dmd_model.compute_spectral_system_states(ic.to_numpy().T)).mean(axis=1)
        rec.check(bool((np.diff(imp) <= 1e-9 * imp.max()).all()), "triplets are sorted by importance", lambda: f"{imp}")


def closed(rng, kind):
    """x1 -> a x1, x2 -> b x2 + c x1^2 : linear in (x1, x2, x1^2)"""
    a, b, c = rng.uniform(.6, 1.02), rng.uniform(.3, .95), rng.normal()
    if abs(a * a - b) < .05 or abs(a - b) < .05 or abs(a * a - a) < .03:
        raise Skip()
    return lambda x: np.array([a * x[0], b * x[1] + c * x[0] ** 2])


@family(quick=100, thorough=1500)
def exact_dynamics(rec, rng):
    """systems which are linear in the dictionary are reproduced for new initial conditions"""
    kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    which = str(rng.choice(["linear+delay", "closed", "linear+poly"]))
    mname, m = model(rng, kind)
    if which == "closed":
        n, f = 2, closed(rng, kind); feats = ["x2", "x1"] if rng.random() < .5 else ["x1", "x2"]
        o = [feats.index("x1"), feats.index("x2")]
        step = lambda x: f(x[o])[o] if True else None
        steps = [("col", TSCColumnTransformer([("id", TSCIdentity(), feats), ("sq", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=False), ["x1"])]))]
        nic = 1
    else:
        n = int(rng.integers(1, 4)); A = lin.rand_system(rng, n); step = lambda x: A @ x; feats = [str(x) for x in gen.FEATS[:n]]
        steps = [("poly", TSCPolynomialFeatures(degree=2, include_bias=False))] if which == "linear+poly" else [("id", TSCIdentity())]
        nic = 1
    R = lin.trajectories(rng, lambda x, i, k: step(x), n, 25, kind, dt, n_series=int(rng.integers(5, 9)), min_len=2, max_len=6, feats=feats)
    L = Lift(steps, True); D = L.fit(R.tsc()); Z, Y = dpairs(D); well(Z, 150.)
    K = np.linalg.lstsq(Z, Y, rcond=None)[0].T
    w, V = np.linalg.eig(K)
    if (np.abs(w[:, None] - w) + 9 * np.eye(len(w))).min() < 1e-2 or np.linalg.cond(V) > 100 or (np.abs(np.angle(w)) > 2.6).any():
        raise Skip()
    rec.sig(which, mname, n, kind, R.n); rec.note(system=which, model=mname, **R.describe())
    e = EDMD(steps, dmd_model=m).fit(R.tsc())
    lin.same_collection(rec, e.reconstruct(R.tsc()), R, "reconstruction of the training data", 1e-5)
    P = lin.trajectories(rng, lambda x, i, k: step(x), n, 1, kind, dt, n_series=2, min_len=5, max_len=5, feats=feats)
    P.times = [P.times[0]] * P.n
    lin.same_collection(rec, e.predict(lin.initial(P).tsc(), time_values=P.times[0]), P, "prediction of new initial conditions", 1e-5)


def per_series(rec, e, L, D, A, back, R, nic, kind, dt, feats, stride):
    want = []
    for j in range(R.n):
        t, v = R.times[j], R.vals[j]
        ic = gen.Ref([R.ids[j]], [t[:nic]], [v[:nic]], feats)
        P, _ = oracle(L, D, A, back, ic, [s * stride[j] for s in range(len(t) - nic + 1)], nic, kind, dt, feats)
        want.append(P.vals[0])
    return gen.Ref(R.ids, [t[nic - 1:] for t in R.times], want, feats)


@family(quick=200, thorough=3000)
def reconstruct_labels(rec, rng):
    """every series is reconstructed from its own initial condition under its own labels"""
    n, kind, dt, nic, e, L, R0, D, A, back = fitted(rec, rng)
    m = int(rng.integers(1, 6))
    ids, _ = gen.rand_ids(rng, m)
    mixed = nic == 1 and rng.random() < .3 and not e.dmd_model.approx_generator and kind != "datetime"
    stride = [int(rng.integers(1, 3)) if mixed else 1 for _ in range(m)]
    times, vals = [], []
    common = rng.random() < .4
    k0c, Lc = int(rng.integers(0, 5)), nic + 1 + int(rng.integers(0, 5))
    for j in range(m):
        k0, ln = (k0c, Lc) if common and rng.random() < .7 else (int(rng.integers(0, 9)), nic + 1 + int(rng.integers(0, 6)))
        times.append(lin.grid(kind, dt, k0 + stride[j] * np.arange(ln))); vals.append(rng.normal(size=(ln, n)))
    R = gen.Ref(ids, times, vals, R0.feats)
    rec.sig("labels", m, mixed, len(set(R.lengths)), len({str(t[0]) for t in times}), sorted(ids) == list(ids))
    rec.note(reconstruct=R.describe())
    W = per_series(rec, e, L, D, A, back, R, nic, kind, dt, R.feats, stride)
    sc = max(scale_of(A, W, 1), max(np.linalg.norm(np.linalg.matrix_power(A, s * (len(t) - nic)), 2) for s, t in zip(stride, times)) * 10)
    X = R.tsc(); snap = gen.snapshot(X)
    out = e.reconstruct(X)
    lin.same_collection(rec, out, W, "reconstruction", 1e-5, scale=sc)
    gen_unchanged(rec, X, snap, "reconstruct")
    q = [R.feats[i] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    pos = [R.feats.index(f) for f in q]
    lin.same_collection(rec, e.reconstruct(X, qois=q), gen.Ref(W.ids, W.times, [v[:, pos] for v in W.vals], q), "reconstruction of selected features", 1e-5, scale=sc)
    j = int(rng.integers(m))
    lin.same_collection(rec, e.reconstruct(R.sub([j]).tsc()), W.sub([j]), "reconstruction of a single series", 1e-5, scale=sc)
    true = np.vstack([R.by_id()[i][1][nic - 1:] for i in W.ids])
    span = np.ptp(true, axis=0)
    if span.min() > .1:
        # default metric: root mean squared error per feature after min-max scaling with the true values
        err = np.sqrt(((np.vstack(W.vals) - true) ** 2).mean(0)) / span
        rec.close(float(e.score(X)), -float(err.mean()), "score of the reconstruction", rtol=1e-4, atol=1e-5 * sc / span.min())
        w8 = rng.uniform(.1, 2, size=len(span))
        rec.close(float(e.score(X, sample_weight=w8)), -float(np.average(err, weights=w8)), "weighted score of the reconstruction", rtol=1e-4, atol=1e-5 * sc / span.min())


def gen_unchanged(rec, X, snap, mech):
    rec.check(gen.snapshot(X) == snap, mech + " leaves its input as it is")


@family(quick=80, thorough=1200)
def stepwise(rec, rng):
    """with stepwise_transform every step lifts the current state again"""
    n, kind, dt, nic, e, L, R, D, A, back = fitted(rec, rng, stepwise=True, invertible=False)
    T = int(rng.integers(1, 5)); ic = conditions(rng, n, nic, kind, dt, R.feats)
    t = lin.grid(kind, dt, ic.k0 + nic - 1 + np.arange(T + 1))
    vals = []
    for j in range(ic.n):
        x = list(ic.vals[j])
        for k in range(T):
            cur = gen.Ref([ic.ids[j]], [lin.grid(kind, dt, k + np.arange(nic))], [np.array(x[-nic:])], R.feats)
            x.append((A @ L(cur.tsc()).vals[0][-1]) @ back)
        vals.append(np.array(x[nic - 1:]))
    P = gen.Ref(ic.ids, [t] * ic.n, vals, R.feats)
    sc = max(1., max(np.abs(v).max() for v in vals)) * 10
    if sc > 1e6:
        raise Skip()
    lin.same_collection(rec, e.predict(ic.tsc(), time_values=t), P, "stepwise prediction", 1e-5, scale=sc)
    q = [R.feats[i] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    pos = [R.feats.index(f) for f in q]
    lin.same_collection(rec, e.predict(ic.tsc(), time_values=t, qois=q), gen.Ref(P.ids, P.times, [v[:, pos] for v in P.vals], q), "stepwise prediction of selected features", 1e-5, scale=sc)
    Rr = gen.Ref(ic.ids, [lin.grid(kind, dt, ic.k0 + np.arange(nic + T))] * ic.n, [np.vstack([v, rng.normal(size=(T, n))]) for v in ic.vals], R.feats)
    lin.same_collection(rec, e.reconstruct(Rr.tsc()), P, "stepwise reconstruction", 1e-5, scale=sc)


@family(quick=120, thorough=1800)
def controlled(rec, rng):
    """dictionary for the states, control acts linearly in the dictionary space"""
    n, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    feats = [str(f) for f in gen.FEATS[:n]]; cn = ["p", "q"][:nu]
    name, steps, nic = dictionary(rng, n, feats)
    if "scale" in name or name == "subset":
        raise Skip()
    A0 = lin.rand_system(rng, n); B0 = rng.normal(size=(n, nu)); U = {}
    def step(x, i, k):
        u = rng.normal(size=nu); U.setdefault(i, []).append(u)
        return A0 @ x + B0 @ u + .3 * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, 45, kind, dt, n_series=int(rng.integers(2, 5)), min_len=nic + 1, max_len=nic + 14, feats=feats)
    Q = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], cn)
    L = Lift(steps, True); D = L.fit(R.tsc())
    Um = {i: v[nic - 1:] for i, v in zip(Q.ids, Q.vals)}
    Z = np.hstack([dpairs(D)[0], np.vstack([Um[i] for i in D.ids])]); Y = dpairs(D)[1]; well(Z)
    M = np.linalg.lstsq(Z, Y, rcond=None)[0].T
    N = len(D.feats); A, B = M[:, :N], M[:, N:]
    mode = str(rng.choice(["matrix", "spectral"]))
    w, V = np.linalg.eig(A)
    if mode == "spectral" and (np.linalg.cond(V) > 200 or (np.abs(w[:, None] - w) + 9 * np.eye(N)).min() < 1e-3):
        raise Skip()
    pos = [list(map(str, D.feats)).index(f) for f in feats]
    rec.sig("control", name, mode, n, nu, kind, R.n); rec.note(dictionary=name, **R.describe())
    e = EDMD(steps, dmd_model=DMDControl(sys_mode=mode)).fit(R.tsc(), U=Q.tsc())
    rec.equal([str(c) for c in e.control_names_in_], cn, "control names")
    def run(d0, us):
        x = [d0]
        for u in us:
            x.append(A @ x[-1] + B @ u)
        return np.array(x)[:, pos]
    ic = conditions(rng, n, nic, kind, dt, feats); T = int(rng.integers(1, 5))
    t = lin.grid(kind, dt, ic.k0 + nic - 1 + np.arange(T + 1)); us = rng.normal(size=(ic.n, T, nu))
    d0 = L(ic.tsc()).by_id()
    P = gen.Ref(ic.ids, [t] * ic.n, [run(d0[i][1][-1], us[j]) for j, i in enumerate(ic.ids)], feats)
    PU = gen.Ref(ic.ids, [t[:-1]] * ic.n, list(us), cn)
    sc = max(1., np.linalg.norm(A, 2)) ** T * max(1., max(np.abs(v).max() for v in P.vals))
    lin.same_collection(rec, e.predict(ic.tsc(), U=PU.tsc()), P, "controlled prediction", 1e-5, scale=sc)
    lin.same_collection(rec, e.predict(ic.tsc(), U=PU.tsc(), time_values=t), P, "controlled prediction with time values", 1e-5, scale=sc)
    q = [feats[i] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    qp = [feats.index(f) for f in q]
    lin.same_collection(rec, e.predict(ic.tsc(), U=PU.tsc(), qois=q), gen.Ref(P.ids, P.times, [v[:, qp] for v in P.vals], q), "controlled prediction of selected features", 1e-5, scale=sc)
    if ic.n == 1:
        lin.same_collection(rec, e.predict(ic.tsc(), U=us[0], time_values=t), P, "controlled prediction with a control array", 1e-5, scale=sc)
    # lift again in every step
    es = EDMD(steps, dmd_model=DMDControl(sys_mode=mode), stepwise_transform=True).fit(R.tsc(), U=Q.tsc())
    vals = []
    for j in range(ic.n):
        x = list(ic.vals[j])
        for k in range(T):
            cur = gen.Ref([ic.ids[j]], [lin.grid(kind, dt, k + np.arange(nic))], [np.array(x[-nic:])], feats)
            x.append((A @ L(cur.tsc()).vals[0][-1] + B @ us[j][k])[pos])
        vals.append(np.array(x[nic - 1:]))
    if max(np.abs(v).max() for v in vals) < 1e4:
        W = gen.Ref(ic.ids, [t] * ic.n, vals, feats)
        lin.same_collection(rec, es.predict(ic.tsc(), U=PU.tsc(), time_values=t), W, "controlled stepwise prediction", 1e-5, scale=max(1., max(np.abs(v).max() for v in vals)) * 10)
    # reconstruction of unequal series
    dd = L(R.tsc()).by_id()
    W = gen.Ref(R.ids, [x[nic - 1:] for x in R.times], [run(dd[i][1][0], Um[i]) for i in R.ids], feats)
    sc = max(1., max(np.abs(v).max() for v in W.vals)) * 100 * max(1., np.linalg.norm(np.linalg.matrix_power(A, max(R.lengths)), 2))
    lin.same_collection(rec, e.reconstruct(R.tsc(), U=Q.tsc()), W, "controlled reconstruction", 1e-5, scale=sc)


@family(quick=60, thorough=1000)
def observables(rec, rng):
    """state transition map: the model is fitted to predict other observables y"""
    n = int(rng.integers(1, 4)); kind = str(rng.choice(["int", "float"])); dt = lin.draw_dt(rng, kind)
    A0 = lin.rand_system(rng, n)
    R = lin.trajectories(rng, lambda x, i, k: A0 @ x, n, 25, kind, dt, n_series=4, min_len=4)
    k = int(rng.integers(1, 4)); C = rng.normal(size=(n, k)); names = ["o1", "o2", "o3"][:k]
    Yr = gen.Ref(R.ids, R.times, [v @ C for v in R.vals], names)
    well(np.vstack(R.vals))
    rec.sig("observables", n, k, kind); rec.note(**R.describe())
    e = EDMD([("id", TSCIdentity())], dmd_model=DMDStandard(sys_mode=str(rng.choice(["matrix", "spectral"]))), include_id_state=False)
    e.fit(R.tsc(), y=Yr.tsc())
    rec.equal([str(f) for f in e.feature_names_pred_], names, "predicted feature names")
    P = lin.trajectories(rng, lambda x, i, k: A0 @ x, n, 1, kind, dt, n_series=2, min_len=4, max_len=4)
    P.times = [P.times[0]] * P.n
    want = gen.Ref(P.ids, P.times, [v @ C for v in P.vals], names)
    lin.same_collection(rec, e.predict(lin.initial(P).tsc(), time_values=P.times[0]), want, "prediction of observables", 1e-5)
    lin.same_collection(rec, e.inverse_transform(e.transform(R.tsc())), Yr, "inverse_transform to observables", 1e-5)


@family(quick=60, thorough=600)
def projection(rec, rng):
    N = int(rng.integers(1, 9)); names = [str(x) for x in rng.permutation([f"f{i}" for i in range(N)])]
    sel = [names[i] for i in rng.permutation(N)[:int(rng.integers(1, N + 1))]]
    rec.sig(N, len(sel)); rec.note(names=names, select=sel)
    M = rng.normal(size=(3, N))
    wrap = (lambda x: pd.Index(x)) if rng.random() < .5 else (lambda x: np.array(x))
    P = projection_matrix_from_feature_names(wrap(names), wrap(sel))
    rec.close(M @ P, M[:, [names.index(s) for s in sel]], "projection to selected columns", rtol=0, atol=0)
    rec.raises(lambda: projection_matrix_from_feature_names(wrap(names), wrap(sel + ["zz"])), "projection to unknown columns", ValueError)
