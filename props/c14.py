"""C14: controlled models recover control dynamics and apply control at the right time."""
import numpy as np
import pandas as pd
from scipy.integrate import solve_ivp
import scipy.linalg as sl
from vlib.core import family, Skip
from vlib import gen, lin, zoo
from datafold.dynfold.dmd import DMDControl, gDMDAffine
from datafold.pcfold import TSCDataFrame

RULE = "random controlled systems, excitations, unequal series, control layouts, valid and misaligned requests; distinct by (mode, sizes, time kind, layout)"
CN = ["p", "q", "r"]


def controlled(rng, n, nu, kind, dt, A, B, noise=0., n_series=None, need=0, **kw):
    """states R and controls Q (one control per state except the last one)"""
    U = {}
    def step(x, i, k):
        u = rng.normal(size=nu)
        U.setdefault(i, []).append(u)
        return A @ x + B @ u + noise * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, n + nu + 2 + need, kind, dt, n_series=n_series, **kw)
    Q = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], CN[:nu])
    return R, Q


def excite(R, Q, limit=100.):
    Z = np.hstack([lin.pairs(R)[0], np.vstack(Q.vals)])
    if np.linalg.cond(Z) > limit:
        raise Skip()
    return Z


def draw(rng):
    n, nu = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    mode = str(rng.choice(["matrix", "spectral"]))
    return n, nu, kind, dt, mode


def run(A, B, x0, U):
    X = [x0]
    for u in U:
        X.append(A @ X[-1] + B @ u)
    return np.array(X)


def operators(m):
    if m.is_matrix_mode:
        return np.asarray(m.sys_matrix_), np.asarray(m.control_matrix_)
    V, w = m.eigenvectors_right_, m.eigenvalues_
    return (V * w) @ np.linalg.inv(V), np.asarray(m.control_matrix_)


def request(rng, A, B, n, nu, kind, dt, feats, q=None, T=None):
    """initial conditions P0, controls PU and the true states PX (all for the same time values)"""
    q = q or int(rng.integers(1, 5)); T = T or int(rng.integers(1, 8)); k0 = int(rng.integers(0, 6))
    ids = [int(i) for i in rng.choice(60, size=q, replace=False)]
    t = lin.grid(kind, dt, k0 + np.arange(T + 1))
    x0 = rng.normal(size=(q, n)); U = rng.normal(size=(q, T, nu))
    PX = gen.Ref(ids, [t] * q, [run(A, B, x0[j], U[j]) for j in range(q)], feats)
    return lin.initial(PX), gen.Ref(ids, [t[:-1]] * q, list(U), CN[:nu]), PX, t


@family(quick=300, thorough=5000)
def recover(rec, rng):
    n, nu, kind, dt, mode = draw(rng)
    A = lin.rand_system(rng, n); B = rng.normal(size=(n, nu))
    R, Q = controlled(rng, n, nu, kind, dt, A, B); excite(R, Q)
    rec.sig(mode, n, nu, kind, R.n, len(set(R.lengths)), len(set(R.k0))); rec.note(A=A.tolist(), B=B.tolist(), **R.describe())
    m = DMDControl(sys_mode=mode).fit(R.tsc(), U=Q.tsc())
    a, b = operators(m)
    rec.close(a, A, f"{mode}: system operator", rtol=1e-6, atol=1e-7)
    rec.close(b, B, f"{mode}: control operator", rtol=1e-6, atol=1e-7)
    lin.same_collection(rec, m.reconstruct(R.tsc(), U=Q.tsc()), R, "reconstruction with control", 1e-6)
    P0, PU, PX, t = request(rng, A, B, n, nu, kind, dt, R.feats)
    lin.same_collection(rec, m.predict(P0.tsc(), U=PU.tsc()), PX, f"{mode}: prediction with control", 1e-6)
    lin.same_collection(rec, m.predict(P0.tsc(), U=PU.tsc(), time_values=t), PX, f"{mode}: prediction with control and time values", 1e-6)
    j = int(rng.integers(P0.n))
    one, uone, xone = P0.sub([j]), PU.sub([j]), PX.sub([j])
    lin.same_collection(rec, m.predict(one.tsc(), U=uone.tsc()), xone, "individual prediction with control", 1e-6)
    lin.same_collection(rec, m.predict(one.tsc(), U=uone.vals[0].copy()), xone, "control as an array", 1e-6)
    arr = m.predict(np.vstack([v for v in P0.vals]) if P0.ids == sorted(P0.ids) else one.vals[0], U=PU.tsc() if P0.ids == sorted(P0.ids) else uone.tsc())
    lin.same_collection(rec, arr, PX if P0.ids == sorted(P0.ids) else xone, "initial states as an array", 1e-6)
    if PU.lengths[0] > 1:   # a later control sample does not act on earlier states
        c = int(rng.integers(1, PU.lengths[0]))
        mod = PU.map(lambda v: np.vstack([v[:c], v[c:] + 1.0]))
        o1, o2 = gen.observe(m.predict(P0.tsc(), U=PU.tsc())).by_id(), gen.observe(m.predict(P0.tsc(), U=mod.tsc())).by_id()
        for i in P0.ids:
            rec.close(o2[i][1][:c + 1], o1[i][1][:c + 1], "control acts only after its time value", rtol=1e-9, atol=1e-9)
            rec.close(o2[i][1][c + 1] - o1[i][1][c + 1], B @ np.ones(nu), "control acts on the next step", rtol=1e-5, atol=1e-6)


@family(quick=200, thorough=3000)
def optimal(rec, rng):
    n, nu, kind, dt, mode = draw(rng)
    A = lin.rand_system(rng, n); B = rng.normal(size=(n, nu))
    R, Q = controlled(rng, n, nu, kind, dt, A, B, noise=.4, need=2); Z = excite(R, Q)
    Xp = lin.pairs(R)[1]
    M = np.linalg.lstsq(Z, Xp, rcond=None)[0].T
    a0, b0 = M[:, :n], M[:, n:]
    if mode == "spectral" and (np.linalg.cond(np.linalg.eig(a0)[1]) > 200 or np.abs(np.linalg.eigvals(a0)).min() < 1e-2):
        raise Skip()
    rec.sig(mode, n, nu, kind, R.n); rec.note(**R.describe())
    m = DMDControl(sys_mode=mode).fit(R.tsc(), U=Q.tsc())
    a, b = operators(m)
    rec.close(a, a0, f"{mode}: least-squares system operator", rtol=1e-6, atol=1e-7)
    rec.close(b, b0, f"{mode}: least-squares control operator", rtol=1e-6, atol=1e-7)
    # order of series, IDs and time origin
    perm = list(rng.permutation(R.n)); ids = [int(i) for i in rng.choice(90, size=R.n, replace=False)]; sh = int(rng.integers(0, 30))
    S = lin.relabel(R, ids, sh, perm)
    W = gen.Ref(S.ids, [t[:-1] for t in S.times], [Q.vals[p] for p in perm], Q.feats)
    a2, b2 = operators(DMDControl(sys_mode=mode).fit(S.tsc(), U=W.tsc()))
    rec.close(a2, a0, "system operator independent of order, IDs and time origin", rtol=1e-6, atol=1e-7)
    rec.close(b2, b0, "control operator independent of order, IDs and time origin", rtol=1e-6, atol=1e-7)
    P0, PU, PX, t = request(rng, a0, b0, n, nu, kind, dt, R.feats)
    lin.same_collection(rec, m.predict(P0.tsc(), U=PU.tsc()), PX, f"{mode}: prediction of the fitted system", 1e-5)
    sh = int(rng.integers(1, 20))
    t2 = lin.grid(kind, dt, sh + 7 + np.arange(len(t)))
    mv = lambda r, tt: gen.Ref(r.ids, [tt] * r.n, r.vals, r.feats)
    lin.same_collection(rec, m.predict(mv(P0, t2[:1]).tsc(), U=mv(PU, t2[:-1]).tsc()), mv(PX, t2), "prediction independent of the time origin", 1e-5)


def damage(rng, what, R, Q):
    ids, times, vals, feats = list(Q.ids), [t.copy() for t in Q.times], [v.copy() for v in Q.vals], list(Q.feats)
    j = int(rng.integers(len(ids)))
    if what == "id":
        ids[j] = 91
    elif what == "late":      # one step too late
        times[j] = R.times[j][1:]
    elif what == "all late":
        times = [t[1:] for t in R.times]
    elif what == "drop":
        if len(times[j]) < 2:
            raise Skip()
        k = int(rng.integers(len(times[j]))); times[j] = np.delete(times[j], k); vals[j] = np.delete(vals[j], k, axis=0)
    elif what == "extra":
        times[j] = R.times[j]; vals[j] = np.vstack([vals[j], vals[j][-1:]])
    elif what == "missing":
        if len(ids) < 2:
            raise Skip()
        for L in (ids, times, vals):
            del L[j]
    elif what == "swap":      # series in other order than the states
        if len(ids) < 2:
            raise Skip()
        p = [1, 0] + list(range(2, len(ids)))
        ids, times, vals = [ids[i] for i in p], [times[i] for i in p], [vals[i] for i in p]
    elif what == "nan":
        vals[j][0, 0] = np.nan
    elif what == "column name":
        feats = ["other"] + feats[1:]
    elif what == "column order":
        if len(feats) < 2:
            raise Skip()
        feats = feats[::-1]
    elif what == "column count":
        feats = feats + ["more"]; vals = [np.hstack([v, v[:, :1]]) for v in vals]
    return gen.Ref(ids, times, vals, feats)


@family(quick=400, thorough=6000)
def misaligned(rec, rng):
    """mismatching control data is rejected; if accepted it must be aligned by ID and time"""
    n, nu, kind, dt, mode = draw(rng)
    A = lin.rand_system(rng, n); B = rng.normal(size=(n, nu))
    R, Q = controlled(rng, n, nu, kind, dt, A, B, min_len=3); excite(R, Q, 1e3)
    m = DMDControl(sys_mode=mode).fit(R.tsc(), U=Q.tsc())
    where = str(rng.choice(["fit", "predict", "reconstruct"]))
    common = ["id", "late", "all late", "drop", "extra", "missing", "swap", "nan"]
    what = str(rng.choice(common if where == "fit" else common + ["column name", "column order", "column count"]))
    rec.sig(where, what, mode, kind, n, nu, R.n); rec.note(where=where, what=what, **R.describe())
    if where == "fit":
        D = damage(rng, what, R, Q)
        rec.raises(lambda: DMDControl(sys_mode=mode).fit(R.tsc(), U=D.tsc()), f"fit rejects control: {what}")
        rec.raises(lambda: DMDControl(sys_mode=mode).fit(R.tsc(), U=None), "fit rejects missing control")
        return
    if where == "predict":
        P0, PU, PX, t = request(rng, A, B, n, nu, kind, dt, R.feats, T=int(rng.integers(2, 6)))
        S = gen.Ref(P0.ids, [t] * P0.n, PX.vals, R.feats)
        if what == "extra":   # a longer control sequence is a longer request
            S = gen.Ref(P0.ids, [lin.grid(kind, dt, np.arange(len(t) + 1))] * P0.n, PX.vals, R.feats)
            if P0.n < 2:
                raise Skip()
            D = damage(rng, what, gen.Ref(P0.ids, [t] * P0.n, PX.vals, R.feats), PU)
        else:
            D = damage(rng, what, S, PU)
        call = lambda: m.predict(P0.tsc(), U=D.tsc())
        if what == "drop":
            if len(set(D.lengths)) == 1 and len(D.ids) == 1 and len(D.times[0]) and D.times[0][0] == t[0] and np.array_equal(D.times[0], t[:len(D.times[0])]):
                raise Skip()   # a shorter request
    else:
        S = R; D = damage(rng, what, R, Q)
        if what == "drop" and any(np.array_equal(d, s[:len(d)]) and len(d) < len(s) - 1 for d, s in zip(D.times, R.times)):
            raise Skip()       # control ends earlier: shorter reconstruction
        if what in ("extra", "missing"):
            raise Skip()
        call = lambda: m.reconstruct(R.tsc(), U=D.tsc())
        P0, PX = lin.initial(R), R
    if what == "swap":
        try:
            out = call()
        except Exception:
            rec.check(True, f"{where}: swapped series rejected or aligned")
        else:
            lin.same_collection(rec, out, PX, f"{where}: swapped series aligned by ID", 1e-6)
        return
    rec.raises(call, f"{where} rejects control: {what}")
    if where == "predict":
        rec.raises(lambda: m.predict(P0.tsc()), "prediction without control is rejected")
        bad = np.append(t, lin.grid(kind, dt, [200]))
        rec.raises(lambda: m.predict(P0.tsc(), U=PU.tsc(), time_values=bad), "time values that do not match the control are rejected")
        short = t[:-1]
        rec.raises(lambda: m.predict(P0.tsc(), U=PU.tsc(), time_values=short), "too few time values are rejected")
        if P0.n == 1:
            rec.raises(lambda: m.predict(P0.tsc(), U=PU.vals[0], time_values=short), "too few time values are rejected (array)")


def affine_system(rng, n, nu, decay=True):
    A = .6 * rng.normal(size=(n, n)) - (np.eye(n) if decay else 0)
    B = .5 * rng.normal(size=(n, n, nu))       # xdot = A x + sum_j u_j B[:, :, j] x
    return A, B


@family(quick=150, thorough=2000)
def affine_optimal(rec, rng):
    """gDMDAffine: least squares for finite-difference derivatives of every series by itself"""
    n, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3)); kind = str(rng.choice(["int", "float"])); dt = lin.draw_dt(rng, kind)
    scheme = str(rng.choice(["center", "forward", "backward"])); acc = int(rng.choice([2, 4]))
    need = zoo.fd_len(scheme, 1, acc)
    A = lin.rand_system(rng, n)
    R = lin.trajectories(rng, lambda x, i, k: A @ x + .5 * rng.normal(size=n), n, 0, kind, dt, n_series=int(rng.integers(2, 5)), min_len=need + 6, max_len=need + 14)
    Q = gen.Ref(R.ids, R.times, [rng.normal(size=(len(t), nu)) for t in R.times], CN[:nu])
    rec.sig(n, nu, kind, scheme, acc, R.n); rec.note(scheme=scheme, acc=acc, **R.describe())
    off = zoo.fd_offsets(scheme, 1, acc); w = zoo.fd_weights(off, 1)
    lo, hi = -min(min(off), 0), max(max(off), 0)
    D, Z = [], []
    for v, u in zip(R.vals, Q.vals):
        for j in range(lo, len(v) - hi):
            D.append(sum(c * v[j + o] for c, o in zip(w, off)) / float(dt))
            Z.append(np.concatenate([v[j]] + [u[j, c] * v[j] for c in range(nu)]))
    D, Z = np.array(D), np.array(Z)
    if len(Z) < Z.shape[1] + 2 or np.linalg.cond(Z) > 200:
        raise Skip()
    M = np.linalg.lstsq(Z, D, rcond=None)[0].T
    m = gDMDAffine(diff_scheme=scheme, diff_accuracy=acc).fit(R.tsc(), U=Q.tsc())
    s = max(1., np.abs(M).max())
    rec.close(m.sys_matrix_, M[:, :n], "affine: least-squares system operator", rtol=1e-6, atol=1e-7 * s)
    want = np.stack([M[:, n + c * n: n + (c + 1) * n] for c in range(nu)], axis=2)
    rec.close(m.control_matrix_, want, "affine: least-squares control operator", rtol=1e-6, atol=1e-7 * s)
    what = str(rng.choice(["id", "late", "drop", "missing", "nan", "short"]))
    Dm = gen.Ref(Q.ids, [t[:-1] for t in Q.times], [v[:-1] for v in Q.vals], Q.feats) if what == "short" else None
    if what == "late":
        Dm = gen.Ref(Q.ids, [t + dt for t in Q.times], Q.vals, Q.feats)
    Dm = Dm or damage(rng, what, R, Q)
    rec.raises(lambda: gDMDAffine().fit(R.tsc(), U=Dm.tsc()), f"affine fit rejects control: {what}")


@family(quick=12, thorough=150)
def affine_recover(rec, rng):
    n, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3)); dt = .02
    A, B = affine_system(rng, n, nu)
    vals, us, times = [], [], []
    m = int(rng.integers(3, 6)); lens = rng.integers(40, 70, size=m); k0 = rng.integers(0, 5, size=m)
    ids, _ = gen.rand_ids(rng, m)
    for j in range(m):
        f, ph = rng.uniform(1, 4, size=nu), rng.uniform(0, 6, size=nu)
        t = dt * (k0[j] + np.arange(lens[j])); u = lambda s: np.sin(f * s + ph)
        sol = solve_ivp(lambda s, x: A @ x + (B @ u(s)) @ x, (t[0], t[-1]), rng.normal(size=n) + 1, t_eval=t, rtol=1e-10, atol=1e-12)
        vals.append(sol.y.T); us.append(np.array([u(s) for s in t])); times.append(t)
    R, Q = gen.Ref(ids, times, vals, gen.FEATS[:n]), gen.Ref(ids, times, us, CN[:nu])
    Z = np.vstack([np.hstack([v] + [u[:, [c]] * v for c in range(nu)]) for v, u in zip(vals, us)])
    if np.linalg.cond(Z) > 60:
        raise Skip()
    rec.sig(n, nu, m); rec.note(A=A.tolist(), B=B.tolist())
    g = gDMDAffine(diff_accuracy=4).fit(R.tsc(), U=Q.tsc())
    rec.close(g.sys_matrix_, A, "affine: true system operator", rtol=1e-3, atol=1e-3)
    rec.close(g.control_matrix_, B, "affine: true control operator", rtol=1e-3, atol=1e-3)
    j = int(rng.integers(m))
    one, u1 = R.sub([j]), Q.sub([j])
    out = g.predict(lin.initial(one).tsc(), U=u1.tsc())
    lin.same_collection(rec, out, one, "affine: prediction with control", 1e-2)
