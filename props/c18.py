"""C18: predictions are returned exactly at the requested times and bad requests fail."""
import copy
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen, lin, models
from datafold.pcfold import TSCDataFrame

RULE = "all models that predict x initial conditions x requested time values (valid and invalid); distinct by (model, settings, request)"
TNAME, INAME = TSCDataFrame.tsc_time_idx_name, TSCDataFrame.tsc_id_idx_name


def fitted(rec, rng):
    M = models.draw(rng, ["dmd", "edmd"]); m = M.make()
    o = models.outcome(lambda: M.fit(m, 0))
    rec.note(model=M.kind, tag=M.tag, fit=str(o)[:200] if o[0] == "raises" else "")
    if o[0] == "raises":
        raise Skip()
    return M, m


def exact_state(M):
    """the predicted initial state is the given one (otherwise only a projection of it)"""
    if M.which in ("rank", "project", "pydmd"):
        return False
    if M.kind == "edmd":
        d, model, inc, inv = M.tag[:4]
        return bool(inc or inv or d in ("id", "takens", "poly", "column")) and bool(inv or d != "scale+takens")
    return True


def well_posed(m):
    """condition of the eigenvectors (spectral systems represent states by eigenvectors)"""
    d = getattr(m, "dmd_model", m)
    V = getattr(d, "eigenvectors_right_", None)
    if V is None:
        return True
    V = np.asarray(V)
    return V.shape[0] == V.shape[1] and np.linalg.cond(V) < 1e6


def times_of(P):
    """ID -> time values in row order, read from the raw index"""
    ids = P.index.get_level_values(0).to_numpy(); t = P.index.get_level_values(1).to_numpy()
    out = {}
    for i, x in zip(ids, t):
        out.setdefault(i, []).append(x)
    return {i: np.asarray(x) for i, x in out.items()}


def by_id(P, ids, nt):
    """values as array (initial condition, time, feature)"""
    A = np.asarray(P); T = P.index.get_level_values(0).to_numpy()
    return np.stack([A[T == i] for i in ids]) if len(A) == len(ids) * nt and all((T == i).sum() == nt for i in ids) else np.full((len(ids), nt, A.shape[1]), np.nan)


def check_labels(rec, M, P, ids, t, feats, what, exact=True):
    w = f"{M.kind} {M.tag} {what}"
    rec.check(isinstance(P, TSCDataFrame), "prediction: time series collection", lambda: f"{w}: {type(P)}")
    rec.check(list(map(str, P.columns)) == list(map(str, feats)), "prediction: features", lambda: f"{w}: {list(P.columns)} instead of {list(feats)}")
    T = times_of(P)
    rec.check(set(T) == set(ids), "prediction: IDs of the initial conditions", lambda: f"{w}: {list(T)} instead of {list(ids)}")
    for i in T:
        rec.check(T[i].shape == t.shape and ((T[i] == t).all() if exact or t.dtype.kind != "f" else np.allclose(T[i], t, rtol=1e-12, atol=1e-12)), "prediction: exactly the requested time values", lambda: f"{w}: ID {i} {T[i]} instead of {t}")
    rec.check(len(P) == len(ids) * len(t), "prediction: one row per initial condition and time", lambda: f"{w}: {len(P)}")


def draw_times(rng, M, k0, first):
    """(description, requested time values, expected time values)"""
    kind, dt = M.time, M.dt
    g = lambda k: lin.grid(kind, dt, np.asarray(k))
    op = str(rng.choice(["grid", "grid", "later", "single", "gaps", "only initial"]))
    T = int(rng.integers(1, 7))
    if op == "grid":
        t = g(k0 + np.arange(T + 1))
    elif op == "later":
        t = g(k0 + 1 + int(rng.integers(0, 3)) + np.arange(T))
    elif op == "single":
        t = g([k0 + int(rng.integers(1, 9))])
    elif op == "gaps":
        t = g(k0 + np.sort(rng.choice(12, size=T, replace=False)))
    else:
        t = g([k0])
    want = t if t[0] == first else np.append(first, t)
    return op, t, want


def as_input(rng, t):
    r = rng.random()
    if r < .2:
        return list(t) if t.dtype.kind != "M" else pd.DatetimeIndex(t)
    if r < .35:
        return pd.Index(t)
    return t


@family(quick=260, thorough=4000)
def valid(rec, rng):
    M, m = fitted(rec, rng)
    n, s = M.n, M.samples
    if M.nu:
        return controlled(rec, rng, M, m)
    q = int(rng.integers(1, 4)); k0 = int(rng.integers(0, 5)) + s - 1
    ids = [int(i) for i in rng.choice(40, size=q, replace=False)]
    g = lambda k: lin.grid(M.time, M.dt, np.asarray(k))
    R = gen.Ref(ids, [g(k0 - s + 1 + np.arange(s))] * q, [rng.normal(size=(s, n)) for _ in ids], M.feats)
    first = g([k0])[0]
    step = M.kind == "edmd" and M.tag[5]
    op, t, want = draw_times(rng, M, k0, first)
    if step and op != "grid":                                # the dictionary is evaluated in every step, only the sampling of the data is possible
        op, t = "grid", g(k0 + np.arange(len(t) + 1)); want = t
    form = str(rng.choice(["collection", "collection", "array"])) if s == 1 else "collection"
    qois = None
    if M.kind == "edmd" and rng.random() < .3:
        qois = [M.feats[j] for j in sorted(rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))]
    kw = dict(qois=qois) if qois else {}
    feats = qois or list(M.feats)
    none = rng.random() < .15
    rec.sig(M.kind, M.which, M.time, op, form, none, q, bool(qois), M.tag)
    if form == "array":
        X = np.vstack([v for v in R.vals])
        if q == 1 and rng.random() < .5:
            X = X[0]
        if none:
            if M.time == "datetime":                          # starts at the current time
                P = m.predict(X.copy(), **kw); T = times_of(P)
                for i in T:
                    rec.check(len(T[i]) == 2 and (T[i][1] - T[i][0]) == np.timedelta64(int(M.dt), "s"), "prediction: default time values", lambda: f"{M.kind} {M.tag} {T[i]}")
                return
            P = m.predict(X.copy(), **kw); want = g([0, 1])
        else:
            P = m.predict(X.copy(), time_values=as_input(rng, t.copy()), **kw); want = t
        ids = list(range(q))
    else:
        P = m.predict(R.tsc(), **kw) if none else m.predict(R.tsc(), time_values=as_input(rng, t.copy()), **kw)
        if none:
            want = g([k0, k0 + 1])
    rec.note(request=op, times=str(want), form=form)
    check_labels(rec, M, P, ids, want, feats, f"{op} {form} {'default' if none else t}", exact=not none)
    cols = [list(M.feats).index(f) for f in feats]
    ok = well_posed(m)
    if exact_state(M) and ok:
        for k, got in enumerate(by_id(P, ids, len(want))[:, 0]):
            rec.close(got, R.vals[k][-1][cols], "prediction: starts with the initial condition", 1e-6, 1e-6)
    # the prediction of one initial condition / at one time does not depend on the others
    if form == "collection" and not none and ok:
        V = by_id(P, ids, len(want))
        sc = 1 + np.abs(V).max()
        j = int(rng.integers(q))
        one = m.predict(gen.Ref([ids[j]], [R.times[j]], [R.vals[j]], M.feats).tsc(), time_values=t, **kw)
        rec.close(np.asarray(one), V[j], "prediction: independent of other initial conditions", 1e-6, 1e-7 * sc)
        if not step:
            sel = np.sort(rng.choice(len(want), size=int(rng.integers(1, len(want) + 1)), replace=False))
            sub = m.predict(R.tsc(), time_values=want[sel], **kw)
            got = by_id(sub, ids, len(sel) + (sel[0] != 0))
            got = got if want[sel][0] == first else got[:, 1:]
            check_labels(rec, M, sub, ids, want[sel] if want[sel][0] == first else np.append(first, want[sel]), feats, f"subset of times {want[sel]}")
            rec.close(got, V[:, sel], "prediction: independent of other time values", 1e-6, 1e-7 * sc)


def controlled(rec, rng, M, m):
    n, s, nu = M.n, M.samples, M.nu
    ic, t, V = models.request(rng, gen.Ref([0], [lin.grid(M.time, M.dt, [0])], [np.zeros((1, n))], M.feats), n, nu, M.time, M.dt, samples=s)
    if M.which == "affine":
        if len(t) < 4:                                       # needed to interpolate the control
            raise Skip()
        V = gen.Ref(V.ids, [t] * V.n, [rng.normal(size=(len(t), nu)) for _ in V.ids], V.feats)
    given = rng.random() < .5
    kw = dict(time_values=as_input(rng, t.copy())) if given else {}
    form = "collection"
    if ic.n == 1 and M.which != "affine" and rng.random() < .3:
        form = "array control"; U = V.vals[0]
        if nu == 1 and rng.random() < .5 and M.kind == "dmd":
            U = U[:, 0]
    else:
        U = V.tsc()
    rec.sig(M.kind, M.which, M.time, "controlled", form, given, ic.n, M.tag)
    if form == "collection" and s == 1 and M.kind == "dmd" and rng.random() < .25:   # states as array, IDs of the control
        P = m.predict(np.vstack(ic.vals), U=U, **kw); form = "array states"
    else:
        P = m.predict(ic.tsc(), U=U, **kw)
    rec.note(request="controlled", form=form, times=str(t))
    check_labels(rec, M, P, ic.ids, t, M.feats, f"controlled {form} {'times given' if given else 'times of the control'}", exact=given)
    if exact_state(M) and well_posed(m):
        for k, got in enumerate(by_id(P, ic.ids, len(t))[:, 0]):
            rec.close(got, ic.vals[k][-1], "prediction: starts with the initial condition", 1e-6, 1e-6)


@family(quick=80, thorough=1500)
def reconstructed(rec, rng):
    """reconstructions have exactly the samples of the data (without the samples that define the initial condition)"""
    M, m = fitted(rec, rng)
    if M.which == "affine":
        raise Skip()
    s = M.samples
    if rng.random() < .5:
        f = M.data[0][0]; X, U = f.args[0], f.kwargs.get("U")
        if callable(f.method):
            X = f.args[0]
    else:
        R, Q, *_ = models.linear(rng, M.n, M.nu, M.time, int(rng.integers(1, 5)), M.dt, min_len=s + 2, max_len=s + 7)
        X, U = R.tsc(), (Q.tsc() if M.nu else None)
    P = m.reconstruct(X.copy(), **(dict(U=U.copy()) if U is not None else {}))
    T, W = times_of(P), times_of(X)
    rec.sig(M.kind, M.which, M.time, len(W), M.tag)
    rec.check(list(P.columns) == list(X.columns), "reconstruction: features", lambda: f"{M.kind} {M.tag}: {list(P.columns)}")
    rec.check(set(T) == set(W), "reconstruction: IDs", lambda: f"{M.kind} {M.tag}: {list(T)} instead of {list(W)}")
    for i in W:
        rec.check(i in T and T[i].shape == W[i][s - 1:].shape and (T[i] == W[i][s - 1:]).all(), "reconstruction: exactly the time values of the data", lambda: f"{M.kind} {M.tag}: ID {i} {T.get(i)} instead of {W[i][s - 1:]}")
    if exact_state(M) and well_posed(m):
        for i in W:
            rec.close(np.asarray(P.loc[[i]])[0], np.asarray(X.loc[[i]])[s - 1], "reconstruction: starts with the state of the data", 1e-6, 1e-6 * (1 + np.abs(np.asarray(X)).max()))


def bad_ic(rng, M, R):
    """initial conditions that do not fit; R is the valid one"""
    n, s = M.n, M.samples
    g = lambda k: lin.grid(M.time, M.dt, np.asarray(k))
    ops = ["renamed", "extra feature", "nan", "inf", "more samples", "different times", "different lengths", "nan array", "array with more features", "3d array", "object", "none"]
    if n > 1:
        ops += ["missing feature", "permuted features", "array with fewer features"]
    if s > 1:
        ops += ["fewer samples", "other sampling", "irregular sampling", "array"]
    op = str(rng.choice(ops))
    X = R.tsc(); A = np.vstack([v[-1:] for v in R.vals])
    k = int(rng.integers(R.n)); j = int(rng.integers(n))

    def rebuild(times, vals):
        return gen.Ref(R.ids, times, vals, R.feats).tsc()
    if op == "renamed":
        c = list(X.columns); c[j] = "zz"; X.columns = pd.Index(c, name=X.columns.name)
    elif op == "extra feature":
        X = gen.Ref(R.ids, R.times, [np.column_stack([v, v[:, 0]]) for v in R.vals], list(R.feats) + ["zz"]).tsc()
    elif op == "missing feature":
        X = X.drop(columns=X.columns[j])
    elif op == "permuted features":
        X = X.iloc[:, ::-1]
    elif op in ("nan", "inf"):
        X.iloc[int(rng.integers(len(X))), j] = np.nan if op == "nan" else np.inf
    elif op == "more samples":
        e = int(rng.integers(1, 3))
        k0 = {i: t for i, t in zip(R.ids, R.times)}
        t = gridx(M, s + e); X = rebuild([t] * R.n, [rng.normal(size=(s + e, n)) for _ in R.ids])
    elif op == "fewer samples":
        t = gridx(M, s - 1); X = rebuild([t] * R.n, [rng.normal(size=(s - 1, n)) for _ in R.ids])
    elif op == "different times":
        if R.n < 2:
            raise Skip()
        T = list(R.times); T[k] = T[k] + (g([1]) - g([0]))[0]
        X = rebuild(T, R.vals)
    elif op == "different lengths":
        if R.n < 2:
            raise Skip()
        T, V = list(R.times), list(R.vals)
        T[k] = gridx(M, s + 1); V[k] = rng.normal(size=(s + 1, n))
        X = rebuild(T, V)
    elif op == "other sampling":
        t = g(2 * np.arange(s)); X = rebuild([t] * R.n, R.vals)
    elif op == "irregular sampling":
        if s < 3:
            raise Skip()
        t = g(np.append(np.arange(s - 1), s + 1)); X = rebuild([t] * R.n, R.vals)
    elif op == "array":
        X = A
    elif op == "nan array":
        A[k, j] = np.nan; X = A
    elif op == "array with more features":
        X = np.column_stack([A, A[:, 0]])
    elif op == "array with fewer features":
        X = A[:, 1:]
    elif op == "3d array":
        X = A[:, :, None]
    elif op == "object":
        X = pd.DataFrame(A, columns=list(R.feats))
    else:
        X = None
    return op, X


def R_earlier(rng, M, R):
    d = lin.grid(M.time, M.dt, [1])[0] - lin.grid(M.time, M.dt, [0])[0]
    if R.n < 2 or (M.time != "datetime" and R.times[0][0] - d < 0):
        return None
    T = list(R.times); k = int(rng.integers(R.n)); T[k] = T[k] - d
    return gen.Ref(R.ids, T, R.vals, R.feats).tsc()


def gridx(M, k):
    return lin.grid(M.time, M.dt, np.arange(k))


def bad_times(rng, M, t, k0, array):
    g = lambda k: lin.grid(M.time, M.dt, np.asarray(k))
    ops = ["unsorted", "duplicate", "2d", "strings", "complex", "empty", "reversed", "bool"]
    if not array:
        ops.append("before the initial condition")
    if M.time == "float":
        ops += ["nan", "inf", "negative", "-inf"]
    if M.time == "int":
        ops += ["negative", "nan"]
    if array and M.time != "datetime":   # an array has no time, so it is not "before the initial condition"
        ops += ["negative"] * 4
    if M.time == "datetime":
        ops += ["nat"]
    op = str(rng.choice(ops))
    b = t.copy()
    if op == "unsorted":
        b = g(k0 + np.array([0, 2, 1, 3]))
    elif op == "reversed":
        b = g(k0 + np.array([2, 1, 0]))
    elif op == "duplicate":
        b = np.repeat(b, 2)[: len(b) + 1]
    elif op == "2d":
        b = np.stack([b, b])
    elif op == "strings":
        b = np.array([f"a{i}" for i in range(len(b))])
    elif op == "complex":
        b = np.arange(len(b)) + 1j
    elif op == "bool":
        b = np.array([False, True])
    elif op == "empty":
        b = b[:0]
    elif op == "before the initial condition":
        if k0 == 0 and M.time != "datetime":
            raise Skip()
        b = g(np.append(k0 - 1, k0 + np.arange(3)))
    elif op == "nan":
        b = b.astype(float); b[-1] = np.nan
    elif op in ("inf", "-inf"):
        b = b.astype(float); b[-1 if op == "inf" else 0] = np.inf if op == "inf" else -np.inf
    elif op == "negative":
        b = np.append(g([-1]), b)
    elif op == "nat":
        b[-1] = np.datetime64("NaT")
    return op, b


@family(quick=260, thorough=4000)
def invalid(rec, rng):
    """requests the model cannot serve raise an error"""
    M, m = fitted(rec, rng)
    n, s, nu = M.n, M.samples, M.nu
    base = gen.Ref([0], [lin.grid(M.time, M.dt, [0])], [np.zeros((1, n))], M.feats)
    for _ in range(6):
        ic, t, V = models.request(rng, base, n, nu, M.time, M.dt, samples=s)
        k0 = int(np.round((t[0] - lin.grid(M.time, M.dt, [0])[0]) / (lin.grid(M.time, M.dt, [1])[0] - lin.grid(M.time, M.dt, [0])[0])))
        if M.which == "affine":
            V = gen.Ref(V.ids, [t] * V.n, [rng.normal(size=(len(t), nu)) for _ in V.ids], V.feats)
        kw = dict(U=V.tsc()) if nu else {}
        r = rng.random()
        try:
            if r < .45:
                op, X = bad_ic(rng, M, ic)
                if nu and isinstance(X, np.ndarray) and M.kind == "edmd" and s > 1 and op == "array":
                    continue
                tk = dict(time_values=t) if rng.random() < .7 or isinstance(X, np.ndarray) and M.time == "datetime" else {}
                if op == "different times" and not nu and not isinstance(X, np.ndarray) and rng.random() < .7:
                    d = (lin.grid(M.time, M.dt, [1])[0] - lin.grid(M.time, M.dt, [0])[0])
                    if s == 1 and R_earlier(rng, M, ic) is not None and rng.random() < .5:
                        X = R_earlier(rng, M, ic)                 # one of them earlier, the requested times begin at the others
                    else:
                        tk = dict(time_values=t + 2 * d)          # requested times are after all initial conditions
                call = lambda: m.predict(X, **tk, **kw)
            elif r < .8:
                arr = not nu and s == 1 and rng.random() < .4
                op, b = bad_times(rng, M, t, k0, arr)
                op = "time values: " + op
                X = np.vstack(ic.vals) if arr else ic.tsc()
                call = lambda: m.predict(X, time_values=b, **kw)
            elif nu:
                op, U = bad_control(rng, M, V)
                tk = dict(time_values=t) if rng.random() < .5 else {}
                X = ic.tsc()
                call = lambda: m.predict(X, time_values=t, U=U) if tk else m.predict(X, U=U)
            else:
                op = str(rng.choice(["control of an uncontrolled model", "unknown qois", "not fitted"]))
                X = ic.tsc()
                if op.startswith("control"):
                    U = gen.Ref(ic.ids, [t[:-1]] * ic.n, [rng.normal(size=(len(t) - 1, 1)) for _ in ic.ids], ["p"]).tsc()
                    call = lambda: m.predict(X, time_values=t, U=U)
                elif op == "unknown qois":
                    if M.kind != "edmd":
                        continue
                    call = lambda: m.predict(X, time_values=t, qois=["zz"])
                else:
                    call = lambda: M.make().predict(X, time_values=t)
        except Skip:
            continue
        rec.sig(M.kind, M.which, M.time, op)
        rec.note(**{"request": op})
        try:
            P = call()
        except Exception as e:
            if type(e).__name__ in ("CaseTimeout", "AbortCase"):
                raise
            rec.check(True, "invalid request raises")
            continue
        rec.fail("invalid request raises", f"{M.kind} {M.tag}: {op} returned\n{str(P)[:600]}\nfor times {t}")


def bad_control(rng, M, V):
    nu = V.nf if hasattr(V, "nf") else V.vals[0].shape[1]
    ops = ["no control", "renamed", "extra", "nan", "inf", "shifted", "gap", "irregular", "different times", "array with more columns", "none series", "wrong type"]
    if nu > 1:
        ops += ["permuted", "missing", "array with fewer columns"]
    op = str(rng.choice(ops)); U = V.tsc()
    d = lin.grid(M.time, M.dt, [1])[0] - lin.grid(M.time, M.dt, [0])[0]
    k = int(rng.integers(V.n))
    if op == "no control":
        return op, None
    if op == "renamed":
        c = list(U.columns); c[0] = "zz"; U.columns = pd.Index(c, name=U.columns.name)
    elif op == "extra":
        U = gen.Ref(V.ids, V.times, [np.column_stack([v, v[:, 0]]) for v in V.vals], list(V.feats) + ["zz"]).tsc()
    elif op == "permuted":
        U = U.iloc[:, ::-1]
    elif op == "missing":
        U = U.iloc[:, 1:]
    elif op in ("nan", "inf"):
        U.iloc[int(rng.integers(len(U))), 0] = np.nan if op == "nan" else np.inf
    elif op == "shifted":
        U = gen.Ref(V.ids, [t + d for t in V.times], V.vals, V.feats).tsc()
    elif op == "irregular":
        if len(V.times[0]) < 3:
            raise Skip()
        U = gen.Ref(V.ids, [np.append(t[:-1], t[-1] + d) for t in V.times], V.vals, V.feats).tsc()
        if M.which == "affine":
            raise Skip()
    elif op == "gap":
        if len(V.times[0]) < 2:
            raise Skip()
        U = gen.Ref(V.ids, [t[0] + 2 * (t - t[0]) for t in V.times], V.vals, V.feats).tsc()
        if M.which == "affine":
            raise Skip()
    elif op == "different times":
        if V.n < 2:
            raise Skip()
        T, W = list(V.times), list(V.vals)
        T[k] = np.append(T[k], T[k][-1] + d); W[k] = np.vstack([W[k], W[k][-1:]])
        U = gen.Ref(V.ids, T, W, V.feats).tsc()
    elif op == "array with more columns":
        if V.n > 1:
            raise Skip()
        U = np.column_stack([V.vals[0], V.vals[0][:, 0]])
    elif op == "array with fewer columns":
        if V.n > 1:
            raise Skip()
        U = V.vals[0][:, 1:]
    elif op == "none series":
        U = gen.Ref([i + 50 for i in V.ids], V.times, V.vals, V.feats).tsc()
    else:
        U = "control"
    return op, U


@family(quick=80, thorough=1500)
def unfit(rec, rng):
    """data the model cannot be fitted to or which does not belong to the fitted model"""
    M, m = fitted(rec, rng)
    s = M.samples
    R, Q, *_ = models.linear(rng, M.n, M.nu, M.time, int(rng.integers(1, 4)), M.dt, min_len=s + 4, max_len=s + 9)
    kw = dict(U=Q.tsc()) if M.nu else {}
    g = lambda k: lin.grid(M.time, M.dt, np.asarray(k))
    op = str(rng.choice(["nan", "inf", "irregular", "different sampling of series", "array", "frame", "renamed", "other sampling", "too short", "control does not match", "control nan"]))
    fit = op in ("nan", "inf", "irregular", "different sampling of series", "array", "frame", "control does not match", "control nan")
    X = R.tsc()
    if op in ("nan", "inf"):
        X.iloc[int(rng.integers(len(X))), 0] = np.nan if op == "nan" else np.inf
    elif op == "irregular":
        k = int(rng.integers(1, R.lengths[0] - 1)); X = X.drop(index=X.index[k])
        if M.nu:
            U = Q.tsc(); kw = dict(U=U.drop(index=U.index[k]))
    elif op == "different sampling of series":
        if R.n < 2:
            raise Skip()
        X = gen.Ref(R.ids, [R.times[0][0] + 2 * (R.times[0] - R.times[0][0])] + list(R.times[1:]), R.vals, R.feats).tsc()
        if M.nu:
            kw = dict(U=gen.Ref(Q.ids, [Q.times[0][0] + 2 * (Q.times[0] - Q.times[0][0])] + list(Q.times[1:]), Q.vals, Q.feats).tsc())
    elif op == "array":
        X = X.to_numpy()
    elif op == "frame":
        X = pd.DataFrame(X.to_numpy(), columns=list(R.feats))
    elif op == "renamed":
        X.columns = pd.Index(["zz"] + list(X.columns[1:]), name=X.columns.name)
    elif op == "other sampling":
        if M.kind != "edmd" or s == 1:
            raise Skip()
        X = gen.Ref(R.ids, [t[0] + 2 * (t - t[0]) for t in R.times], R.vals, R.feats).tsc()
        if M.nu:
            kw = dict(U=gen.Ref(Q.ids, [t[0] + 2 * (t - t[0]) for t in Q.times], Q.vals, Q.feats).tsc())
    elif op == "too short":
        if s == 1:
            raise Skip()
        X = X.groupby(INAME).head(s - 1) if s > 2 else X.groupby(INAME).head(1)
    elif op.startswith("control"):
        if not M.nu:
            raise Skip()
        U = Q.tsc()
        if op == "control nan":
            U.iloc[s, 0] = np.nan
        else:
            U = U.iloc[:-1] if rng.random() < .5 else U.drop(index=U.index[len(U) - 2])
        kw = dict(U=U)
    rec.sig(M.kind, M.which, M.time, op)
    rec.note(request=op, model=M.kind, tag=M.tag)
    calls = [("fit", lambda: M.make().fit(X, **kw))] if fit else [("reconstruct", lambda: m.reconstruct(X, **kw)), ("score", lambda: m.score(X, **kw))]
    if M.which == "streaming" and fit:
        raise Skip()
    for name, fn in calls:
        try:
            P = fn()
        except Exception as e:
            if type(e).__name__ in ("CaseTimeout", "AbortCase"):
                raise
            rec.check(True, "unusable data raises"); continue
        rec.fail("unusable data raises", f"{M.kind} {M.tag}: {name} with {op} returned\n{str(P)[:500]}")
