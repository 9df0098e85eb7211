"""C13: dynamic mode decomposition recovers linear dynamics and is least-squares optimal."""
import numpy as np
import scipy.linalg as sl
from vlib.core import family, Skip
from vlib import gen, lin, zoo
from datafold.dynfold.dmd import DMDStandard, gDMDFull, PyDMDWrapper
from datafold.pcfold import TSCDataFrame

RULE = "random diagonalizable systems and noisy data, model variants, unequal series, time axes; distinct by (variant, sizes, time kind, mode)"

VARIANTS = {
    "spectral": dict(), "diagonalized": dict(diagonalize=True), "matrix": dict(sys_mode="matrix"),
    "generator": dict(approx_generator=True), "generator diagonalized": dict(approx_generator=True, diagonalize=True),
    "generator matrix": dict(approx_generator=True, sys_mode="matrix"),
}


def excite(R, limit=100.):
    Xm = lin.pairs(R)[0]
    if np.linalg.cond(Xm) > limit:
        raise Skip()


def operator(model, dt=None):
    """the system matrix of the fitted model, assembled from public attributes"""
    if hasattr(model, "sys_matrix_"):
        return np.asarray(model.sys_matrix_)
    V, w = np.asarray(model.eigenvectors_right_), np.asarray(model.eigenvalues_)
    return (V * w) @ np.linalg.inv(V)


def common(rng, variants):
    name = str(rng.choice(list(variants)))
    n = int(rng.integers(1, 6))
    genr = name.startswith("generator")
    kind = str(rng.choice(["int", "float"] if genr else ["int", "float", "datetime"]))
    return name, n, genr, kind, lin.draw_dt(rng, kind)


@family(quick=300, thorough=5000)
def recover(rec, rng):
    name, n, genr, kind, dt = common(rng, VARIANTS)
    A = lin.rand_system(rng, n, negative=not genr, close=.25)
    R = lin.trajectories(rng, lambda x, i, k: A @ x, n, n + 1, kind, dt)
    excite(R)
    rec.sig(name, n, kind, R.n, len(set(R.lengths)), len(set(R.k0)))
    rec.note(A=A.tolist(), **R.describe())
    m = DMDStandard(**VARIANTS[name])
    X = R.tsc()
    if rng.random() < .3:
        lin.same_collection(rec, m.fit_predict(X), R, "fit and reconstruct in one step", 1e-6)
    else:
        m.fit(X)
    L = (sl.logm(A) / dt) if genr else A
    lin.match_spectrum(rec, np.linalg.eigvals(m.sys_matrix_) if "matrix" in name else m.eigenvalues_, np.linalg.eigvals(L), f"{name}: eigenvalues of the true system", 1e-6)
    rec.close(operator(m), L, f"{name}: true operator", rtol=1e-5, atol=1e-6)
    if "matrix" not in name:
        V = np.asarray(m.dmd_modes)
        rec.close(A @ V, V * (np.exp(m.eigenvalues_ * dt) if genr else m.eigenvalues_), f"{name}: modes are eigenvectors", rtol=1e-5, atol=1e-6)
    lin.same_collection(rec, m.reconstruct(X), R, "reconstruction", 1e-6)
    # unseen initial conditions, later and skipped time values
    q = int(rng.integers(1, 4)); ids = [int(i) for i in rng.choice(50, size=q, replace=False)]
    k0 = int(rng.integers(0, 5)); steps = np.sort(rng.choice(np.arange(1, 9), size=int(rng.integers(1, 6)), replace=False))
    ks = np.append(0, steps)
    x0 = rng.normal(size=(q, n))
    if genr and rng.random() < .5:
        ks = np.append(0., np.sort(rng.uniform(.1, 6, size=4)))
        times = k0 * dt + ks * float(dt)
        P = [sl.expm(np.real(sl.logm(A)) * k) for k in ks]
    else:
        times = lin.grid(kind, dt, k0 + ks)
        P = [np.linalg.matrix_power(A, int(k)) for k in ks]
    want = [np.array([p @ x for p in P]) for x in x0]
    W = gen.Ref(ids, [times] * q, want, R.feats)
    ic = gen.Ref(ids, [times[:1]] * q, [x[None] for x in x0], R.feats).tsc()
    with_start = rng.random() < .5
    tv = times if with_start else times[1:]
    lin.same_collection(rec, m.predict(ic, time_values=tv), W, "prediction of new initial conditions", 1e-6)
    j = int(rng.integers(q))
    one = m.predict(gen.Ref([ids[j]], [times[:1]], [x0[j][None]], R.feats).tsc(), time_values=tv)
    lin.same_collection(rec, one, W.sub([j]), "prediction of one initial condition", 1e-6)
    arr = m.predict(x0, time_values=times)
    lin.same_collection(rec, arr, gen.Ref(range(q), [times] * q, want, R.feats), "prediction from an array", 1e-6)
    nxt = m.predict(ic)
    lin.same_collection(rec, nxt, gen.Ref(ids, [lin.grid(kind, dt, k0 + np.arange(2))] * q, [np.array([x, A @ x]) for x in x0], R.feats), "prediction of the next step", 1e-6)
    if "matrix" not in name:
        C = rng.normal(size=(int(rng.integers(1, 4)), n)); cf = [f"c{i}" for i in range(len(C))]
        mapped = gen.Ref(ids, [times] * q, [v @ C.T for v in want], cf)
        kw = dict(post_map=C) if rng.random() < .5 else dict(modes=C @ m.dmd_modes)
        lin.same_collection(rec, m.predict(ic, time_values=tv, feature_columns=cf, **kw), mapped, "prediction of linear observables", 1e-5)


@family(quick=60, thorough=600)
def recover_pydmd(rec, rng):
    n = int(rng.integers(2, 6))
    A = lin.rand_system(rng, n)
    kind = str(rng.choice(["int", "float"])); dt = lin.draw_dt(rng, kind)
    R = lin.trajectories(rng, lambda x, i, k: A @ x, n, n + 4, kind, dt, n_series=1)
    excite(R, 1e3)
    exact = bool(rng.integers(2)); method = "dmd"
    rec.sig(n, kind, exact, method); rec.note(A=A.tolist(), **R.describe())
    m = PyDMDWrapper(method, svd_rank=-1, exact=exact).fit(R.tsc())
    lin.match_spectrum(rec, m.eigenvalues_, np.linalg.eigvals(A), "wrapped model: eigenvalues", 1e-5)
    lin.same_collection(rec, m.reconstruct(R.tsc()), R, "wrapped model: reconstruction", 1e-5)
    two = gen.Ref([0, 1], [R.times[0]] * 2, [R.vals[0]] * 2, R.feats)
    rec.raises(lambda: PyDMDWrapper(method, svd_rank=-1).fit(two.tsc()), "wrapped model rejects several series")


def noisy(rng, n, kind, dt, need, **kw):
    A = lin.rand_system(rng, n)
    return lin.trajectories(rng, lambda x, i, k: A @ x + rng.normal(size=n) * .5, n, need, kind, dt, **kw)


@family(quick=300, thorough=5000)
def optimal(rec, rng):
    name, n, genr, kind, dt = common(rng, VARIANTS)
    R = noisy(rng, n, kind, dt, n + 3); excite(R)
    rec.sig(name, n, kind, R.n, len(set(R.lengths))); rec.note(**R.describe())
    Xm, Xp = lin.pairs(R)
    w = rng.uniform(.1, 3, size=len(Xm)) if rng.random() < .4 else None
    if w is not None and rng.random() < .3:
        w[rng.integers(len(w))] = 0.
    s = np.sqrt(w)[:, None] if w is not None else 1.
    if np.linalg.cond(s * Xm) > 300:
        raise Skip()
    K = np.linalg.lstsq(s * Xm, s * Xp, rcond=None)[0].T
    ev, V = np.linalg.eig(K)
    if np.linalg.cond(V) > 300 or np.abs(ev).min() < 1e-2:
        raise Skip()
    if genr and ((np.abs(np.imag(ev)) < 1e-9) & (np.real(ev) < 0)).any():
        raise Skip()
    want = (sl.logm(K) / dt) if genr else K
    kw = {} if w is None else dict(sample_weights=w.copy())
    store = "matrix" not in name and rng.random() < .4
    if store:
        kw["store_system_matrix"] = True
    m = DMDStandard(**VARIANTS[name]).fit(R.tsc(), **kw)
    op = operator(m)
    rec.close(op, want, f"{name}: least-squares operator" + (" (weighted)" if w is not None else ""), rtol=1e-5, atol=1e-6)
    if store:
        rec.close(m.generator_matrix_ if genr else m.system_matrix_, want, f"{name}: stored operator", rtol=1e-5, atol=1e-6)
    if not genr:
        def cost(M): return np.linalg.norm(s * (Xm @ M.T - Xp))
        base = cost(np.real(op))
        for _ in range(3):
            P = rng.normal(size=(n, n)) * 10. ** rng.uniform(-3, 0)
            rec.check(cost(np.real(op) + P) >= base * (1 - 1e-9), "no perturbed operator has a smaller residual")
    # evolution of the fitted system equals its operator
    x0 = rng.normal(size=n); k = np.arange(4)
    out = m.predict(x0[None], time_values=lin.grid(kind, dt, k))
    E = [np.linalg.matrix_power(K, int(j)) @ x0 for j in k]
    lin.same_collection(rec, out, gen.Ref([0], [lin.grid(kind, dt, k)], [np.array(E)], R.feats), "prediction with the least-squares operator", 1e-5)
    if w is not None and not genr:   # integer weights count a pair several times
        reps = rng.integers(1, 4, size=R.n)
        big = gen.Ref(range(int(reps.sum())), [t for t, q in zip(R.times, reps) for _ in range(q)], [v for v, q in zip(R.vals, reps) for _ in range(q)], R.feats)
        ww = np.concatenate([np.full(len(v) - 1, float(q)) for v, q in zip(R.vals, reps)])
        rec.close(operator(DMDStandard(**VARIANTS[name]).fit(R.tsc(), sample_weights=ww)), operator(DMDStandard(**VARIANTS[name]).fit(big.tsc())),
                  "integer weights equal repeated series", rtol=1e-5, atol=1e-6)


@family(quick=250, thorough=4000)
def reduced(rec, rng):
    n = int(rng.integers(2, 7)); r = int(rng.integers(1, n)) ; kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    mode = str(rng.choice(["exact", "project"])); exact_data = rng.random() < .4
    if exact_data:   # dynamics inside an r-dimensional invariant subspace
        A = lin.rand_system(rng, r); B = np.linalg.qr(rng.normal(size=(n, r)))[0]
        M = B @ A @ B.T
        S = lin.trajectories(rng, lambda x, i, k: A @ x, r, r + 2, kind, dt)
        excite(S)
        R = gen.Ref(S.ids, S.times, [v @ B.T for v in S.vals], gen.FEATS[:n]); R.k0, R.kind, R.dt = S.k0, kind, dt
    else:
        R = noisy(rng, n, kind, dt, n + 3); excite(R)
    genr = bool(rng.random() < .25) and kind != "datetime"
    rec.sig(n, r, mode, exact_data, kind, R.n, genr); rec.note(**R.describe())
    Xm, Xp = lin.pairs(R); Y0, Y1 = Xm.T, Xp.T
    U, s, Vt = np.linalg.svd(Y0, full_matrices=False)
    if (not exact_data and (s[r - 1] - s[r]) / s[0] < 1e-3):
        raise Skip()
    U, s, V = U[:, :r], s[:r], Vt[:r].T
    At = U.T @ Y1 @ V / s
    w, W = np.linalg.eig(At)
    if np.linalg.cond(W) > 300 or np.abs(w).min() < 1e-2 or (genr and ((np.abs(w.imag) < 1e-9) & (w.real < 0)).any()):
        raise Skip()
    Phi = (Y1 @ V / s) @ W if mode == "exact" else U @ W
    if np.linalg.cond(Phi) > 1e4:
        raise Skip()
    m = DMDStandard(rank=r, reconstruct_mode=mode, approx_generator=genr).fit(R.tsc())
    lin.match_spectrum(rec, m.eigenvalues_, np.log(w.astype(complex)) / dt if genr else w, "reduced eigenvalues", 1e-6)
    if not genr:
        lin.match_spectrum(rec, m.eigenvalues_, np.linalg.eigvals(U.T @ (Y1 @ np.linalg.pinv(Y0, rcond=1e-10)) @ U) if exact_data else w, "reduced eigenvalues of the projected operator", 1e-5)
    got = np.asarray(m.dmd_modes)
    rec.equal(got.shape, (n, r), "reduced modes shape")
    rec.close(np.linalg.norm(got - Phi @ np.linalg.lstsq(Phi, got.astype(complex), rcond=None)[0]), 0., f"reduced modes ({mode}) span", rtol=0, atol=1e-6 * max(1, np.linalg.norm(got)))
    k = np.arange(int(rng.integers(1, 6))); x0 = R.vals[0][0]
    c = np.linalg.lstsq(Phi, x0.astype(complex), rcond=None)[0]
    E = np.array([np.real(Phi @ (w.astype(complex) ** int(j) * c)) for j in k])
    out = m.predict(x0[None], time_values=lin.grid(kind, dt, k))
    lin.same_collection(rec, out, gen.Ref([0], [lin.grid(kind, dt, k)], [E], R.feats), f"reduced prediction ({mode})", 1e-5)
    if exact_data:
        lin.same_collection(rec, m.reconstruct(R.tsc()), R, f"reduced model of low-rank data ({mode}): reconstruction", 1e-5)
    rec.raises(lambda: DMDStandard(rank=n + 1).fit(R.tsc()), "rejects a rank larger than the number of features")
    rec.raises(lambda: DMDStandard(rank=0).fit(R.tsc()), "rejects rank zero")
    rec.raises(lambda: DMDStandard(rank=r, reconstruct_mode="none").fit(R.tsc()), "rejects unknown reconstruct mode")


@family(quick=200, thorough=3000)
def invariance(rec, rng):
    """order of series, IDs and time origin do not matter; joint and individual predictions agree"""
    name, n, genr, kind, dt = common(rng, list(VARIANTS) + ["reduced", "gdmd"])
    if name == "gdmd":
        kind, dt = "float", .1
    A = lin.rand_system(rng, n, negative=not genr)
    R = lin.trajectories(rng, lambda x, i, k: A @ x + .02 * rng.normal(size=n), n, n + 2, kind, dt, min_len=4 if name == "gdmd" else 2)
    excite(R)
    if name == "reduced" and n < 2:
        raise Skip()
    def make():
        if name == "reduced":
            return DMDStandard(rank=n - 1)
        if name == "gdmd":
            return gDMDFull()
        return DMDStandard(**VARIANTS[name])
    m = make().fit(R.tsc())
    if name == "reduced":
        s = np.linalg.svd(lin.pairs(R)[0], compute_uv=False)
        if (s[-2] - s[-1]) / s[0] < 1e-2:
            raise Skip()
    if "matrix" not in name and np.linalg.cond(m.dmd_modes) > 1e3:
        raise Skip()
    if not np.isfinite(np.asarray(getattr(m, "eigenvalues_", 0.))).all():
        raise Skip()
    what = str(rng.choice(["order", "ids", "time", "all"]))
    order = list(rng.permutation(R.n)) if what in ("order", "all") else None
    ids = [int(i) for i in rng.choice(90, size=R.n, replace=False)] if what in ("ids", "all") else None
    shift = int(rng.integers(1, 60)) if what in ("time", "all") else 0
    S = lin.relabel(R, ids, shift, order)
    rec.sig(name, n, what, kind, R.n); rec.note(what=what, shift=shift, **R.describe())
    m2 = make().fit(S.tsc())
    q = int(rng.integers(1, 5)); x0 = rng.normal(size=(q, n)); k = np.append(0, np.sort(rng.choice(np.arange(1, 7), size=3, replace=False)))
    times = lin.grid(kind, dt, k)
    pid = [int(i) for i in rng.choice(90, size=q, replace=False)]
    ic = gen.Ref(pid, [times[:1]] * q, [x[None] for x in x0], R.feats)
    a = m.predict(ic.tsc(), time_values=times); A_ = gen.observe(a)
    b = m2.predict(ic.tsc(), time_values=times)
    base = gen.Ref(pid, [times] * q, [A_.by_id()[i][1] for i in pid], R.feats)
    lin.same_collection(rec, b, base, f"model does not depend on {what}", 1e-5)
    # initial conditions elsewhere on the time axis
    t2 = lin.grid(kind, dt, k + int(rng.integers(1, 40)))
    ic2 = gen.Ref(pid, [t2[:1]] * q, [x[None] for x in x0], R.feats)
    lin.same_collection(rec, m.predict(ic2.tsc(), time_values=t2), gen.Ref(pid, [t2] * q, base.vals, R.feats), "prediction does not depend on the time origin", 1e-5)
    j = int(rng.integers(q))
    lin.same_collection(rec, m.predict(ic.sub([j]).tsc(), time_values=times), base.sub([j]), "individual prediction equals the joint one", 1e-6)
    perm = list(rng.permutation(q))
    lin.same_collection(rec, m.predict(ic.sub(perm).tsc(), time_values=times), base, "order of initial conditions", 1e-6)
    # linearity of the fitted map
    al = rng.normal(size=q)
    lc = m.predict((al @ x0)[None], time_values=times)
    lin.same_collection(rec, lc, gen.Ref([0], [times], [np.tensordot(al, np.stack(base.vals), 1)], R.feats), "prediction is linear in the initial condition", 1e-5)


@family(quick=150, thorough=2500)
def generator_fd(rec, rng):
    """gDMDFull: the generator is the least-squares solution for the finite-difference derivatives"""
    n = int(rng.integers(1, 5)); kind = str(rng.choice(["int", "float"])); dt = lin.draw_dt(rng, kind)
    scheme = str(rng.choice(["center", "forward", "backward"])); acc = int(rng.choice([2, 4, 6])) if scheme == "center" else int(rng.choice([2, 4]))
    need = zoo.fd_len(scheme, 1, acc)
    R = noisy(rng, n, kind, dt, 2 * n + 8, min_len=need + 3, max_len=need + 9); excite(R)
    mode = str(rng.choice(["spectral", "matrix"])); diag = bool(rng.integers(2))
    rec.sig(n, kind, scheme, acc, mode, R.n); rec.note(scheme=scheme, acc=acc, **R.describe())
    off = zoo.fd_offsets(scheme, 1, acc); wts = zoo.fd_weights(off, 1)
    lo, hi = -min(min(off), 0), max(max(off), 0)
    D, Z = [], []
    for v in R.vals:
        for j in range(lo, len(v) - hi):
            D.append(sum(c * v[j + o] for c, o in zip(wts, off)) / float(dt)); Z.append(v[j])
    D, Z = np.array(D), np.array(Z)
    if np.linalg.cond(Z) > 200:
        raise Skip()
    G = np.linalg.lstsq(Z, D, rcond=None)[0].T
    ev, V = np.linalg.eig(G)
    if mode == "spectral" and (np.linalg.cond(V) > 300 or (np.abs(ev).min() < 1e-2 * np.abs(ev).max())):
        raise Skip()
    kw = dict(scheme=scheme, accuracy=acc) if (scheme, acc) != ("center", 2) or rng.random() < .5 else None
    m = gDMDFull(sys_mode=mode, is_diagonalize=diag, kwargs_fd=kw)
    st = dict(store_generator_matrix=True) if mode == "spectral" and rng.random() < .5 else {}
    m.fit(R.tsc(), **st)
    sc = max(1., np.abs(G).max())
    rec.close(operator(m), G, f"finite-difference generator ({scheme})", rtol=1e-5, atol=1e-6 * sc)
    if st:
        rec.close(m.generator_matrix_, G, "stored generator", rtol=1e-5, atol=1e-6 * sc)
    x0 = rng.normal(size=n); t = np.append(0., np.sort(rng.uniform(.05, 1., size=3)) * float(dt))
    if kind == "int":
        t = np.arange(3) * dt
    E = np.array([sl.expm(G * s) @ x0 for s in t])
    out = m.predict(x0[None], time_values=t)
    lin.same_collection(rec, out, gen.Ref([0], [t], [E], R.feats), "prediction with the generator", 1e-5)
    rec.raises(lambda: gDMDFull(kwargs_fd=dict(diff_order=2)).fit(R.tsc()), "rejects other derivative orders")


@family(quick=100, thorough=1500)
def generator_recover(rec, rng):
    """true generator: exact for polynomial (nilpotent) systems, convergent for general ones"""
    n = int(rng.integers(2, 5)); dt = float(rng.choice([.1, .25, .5, 1.]))
    N = np.triu(rng.normal(size=(n, n)), 1)
    T = np.linalg.qr(rng.normal(size=(n, n)))[0]; N = T @ N @ T.T
    E = sl.expm(N * dt)
    R = lin.trajectories(rng, lambda x, i, k: E @ x, n, 12, "float", dt, n_series=int(rng.integers(2, 5)), min_len=n + 6, max_len=n + 9)
    if np.linalg.cond(lin.pairs(R)[0]) > 3e3:
        raise Skip()
    rec.sig(n, dt, R.n); rec.note(N=N.tolist(), **R.describe())
    acc = 2 if n <= 3 else 4
    m = gDMDFull(sys_mode="matrix", kwargs_fd=dict(accuracy=acc)).fit(R.tsc())
    rec.close(m.sys_matrix_, N, "generator of a polynomial system", rtol=1e-4, atol=1e-4)
    scale = max(np.abs(v).max() for v in R.vals)
    lin.same_collection(rec, m.reconstruct(R.tsc()), R, "polynomial system: reconstruction", 1e-3, scale=scale)
    # general system, small step
    A = np.real(sl.logm(lin.rand_system(rng, n, negative=False))); h = .005
    Eh = sl.expm(A * h)
    S = lin.trajectories(rng, lambda x, i, k: Eh @ x, n, 5, "float", h, n_series=n + 2, min_len=15, max_len=25)
    if np.linalg.cond(lin.pairs(S)[0]) > 100:
        raise Skip()
    g = gDMDFull(kwargs_fd=dict(accuracy=4)).fit(S.tsc())
    lin.match_spectrum(rec, g.eigenvalues_, np.linalg.eigvals(A), "eigenvalues of the true generator", 1e-3)
    lin.same_collection(rec, g.reconstruct(S.tsc()), S, "small steps: reconstruction", 1e-4)


@family(quick=60, thorough=800)
def residual_filter(rec, rng):
    """components kept by the residual filter are components of the unfiltered model, selected by their residual"""
    n = int(rng.integers(2, 6)); R = noisy(rng, n, "float", .5, n + 6); excite(R)
    rec.sig(n, R.n); rec.note(**R.describe())
    full = DMDStandard().fit(R.tsc())
    k = int(rng.integers(1, n)); how = str(rng.choice(["keep_n", "quantile", "threshold"]))
    probe = DMDStandard(residual_filter=dict(quantile=1.0, store_residuals=True)).fit(R.tsc())
    res = np.asarray(probe.residuals_)
    if not np.isfinite(res).all():
        raise Skip()
    rec.equal(len(res), n, "one residual for each component")
    if how == "keep_n":
        par, keep = dict(keep_n=k), res <= np.sort(res)[k - 1]
    elif how == "quantile":
        par, keep = dict(quantile=.5), res <= np.quantile(res, .5)
    else:
        th = float(np.sort(res)[k - 1] * (1 + 1e-6)); par, keep = dict(threshold=th), res <= th
    f = DMDStandard(residual_filter=par).fit(R.tsc())
    ties = (np.isclose(res[:, None], res[None, :], rtol=1e-6) & ~np.eye(n, dtype=bool)).any()
    if ties:   # conjugate pairs have the same residual up to rounding
        rec.check(1 <= len(f.eigenvalues_) <= n, "residual filter keeps components")
    else:
        lin.match_spectrum(rec, f.eigenvalues_, full.eigenvalues_[keep], f"residual filter ({how})", 1e-7)
    s = DMDStandard(residual_filter=dict(quantile=1.0, sort=True, store_residuals=True)).fit(R.tsc())
    lin.match_spectrum(rec, s.eigenvalues_, full.eigenvalues_, "sorted components", 1e-7)
    V = np.asarray(s.eigenvectors_right_)
    rec.close(operator(s), operator(full), "sorted components stay paired", rtol=1e-5, atol=1e-6)
    # on exact linear data all true components have a vanishing residual
    A = lin.rand_system(rng, n); Q = lin.trajectories(rng, lambda x, i, k: A @ x, n, n + 4, "float", .5); excite(Q)
    ex = DMDStandard(residual_filter=dict(quantile=1.0, store_residuals=True)).fit(Q.tsc())
    r = np.asarray(ex.residuals_); r = r[np.isfinite(r)]
    rec.check((r < 1e-3).all(), "residuals_vanish_for_the_eigenpairs_of_exact_linear_data", lambda: f"{r}")
    B = np.linalg.qr(rng.normal(size=(n, n)))[0]
    A = (B * np.linspace(.4, 1., n)) @ B.T     # symmetric system: modes and eigenfunctions coincide
    Q = lin.trajectories(rng, lambda x, i, k: A @ x, n, n + 4, "float", .5); excite(Q)
    unit = float(rng.choice([1., 1., 1e-4, 1e4])); Q.vals = [v * unit for v in Q.vals]   # the residual is relative, it does not depend on the unit
    r = np.asarray(DMDStandard(residual_filter=dict(quantile=1.0, store_residuals=True)).fit(Q.tsc()).residuals_)
    rec.check((r[np.isfinite(r)] < 1e-5).all(), "residuals vanish for symmetric exact linear data", lambda: f"{r}")
    rec.check(np.isfinite(r).all(), "the residual of an exact eigenpair is finite", lambda: f"{r} unit={unit}")


@family(quick=120, thorough=2000)
def scores(rec, rng):
    """reconstruction, fit_predict and score are consistent with predictions of the single series"""
    from datafold.dynfold.dmd import DMDControl, OnlineDMD
    n = int(rng.integers(1, 4)); nu = int(rng.integers(1, 3)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    make = {"standard": lambda: DMDStandard(), "matrix": lambda: DMDStandard(sys_mode="matrix"), "diagonalized": lambda: DMDStandard(diagonalize=True), "pydmd": lambda: PyDMDWrapper("dmd", svd_rank=-1), "gdmd": lambda: gDMDFull(),
            "generator": lambda: DMDStandard(approx_generator=True), "online": lambda: OnlineDMD(), "control": lambda: DMDControl(), "control matrix": lambda: DMDControl(sys_mode="matrix")}
    name = str(rng.choice(list(make)))
    if kind == "datetime" and name in ("gdmd", "generator"):
        raise Skip()
    ctl = name.startswith("control")
    one = name == "pydmd"
    U = {}
    A = lin.rand_system(rng, n); B = rng.normal(size=(n, nu))
    def step(x, i, k):
        u = rng.normal(size=nu); U.setdefault(i, []).append(u)
        return A @ x + (B @ u if ctl else 0) + .3 * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, 4 * (n + nu) + 3, kind, dt, n_series=1 if one else int(rng.integers(1, 5)), min_len=6 if not one else 12, max_len=16)
    Q = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], ["p", "q"][:nu])
    excite(R)
    kw = dict(U=Q.tsc()) if ctl else {}
    m = make[name]()
    X = R.tsc()
    ok, out = rec.attempt(lambda: m.fit_predict(X, **kw), f"{name}: fit and reconstruct")
    if not ok:
        return
    rec.sig(name, n, kind, R.n, len(set(R.lengths))); rec.note(model=name, **R.describe())
    vals = []
    for j, i in enumerate(R.ids):
        a = dict(U=Q.sub([j]).tsc()) if ctl else {}
        vals.append(gen.observe(m.predict(gen.Ref([i], [R.times[j][:1]], [R.vals[j][:1]], R.feats).tsc(), time_values=R.times[j], **a)).vals[0])
    sc = max(1., max(np.abs(v).max() for v in vals))
    if sc > 1e8:
        raise Skip()
    W = gen.Ref(R.ids, R.times, vals, R.feats)
    lin.same_collection(rec, out, W, f"{name}: fit_predict is the reconstruction of the training data", 1e-6, scale=sc)
    lin.same_collection(rec, m.reconstruct(X, **kw), W, f"{name}: reconstruction is the prediction from the initial states", 1e-6, scale=sc)
    # other data with the same model: score
    true, est = np.vstack(R.vals), np.vstack(vals)
    span = np.ptp(true, axis=0)
    err = np.sqrt(((est - true) ** 2).mean(0)) / span
    rec.close(float(m.score(X, **kw)), -float(err.mean()), f"{name}: score", rtol=1e-5, atol=1e-7 * sc / span.min())
    w = rng.uniform(.1, 2, size=n)
    rec.close(float(m.score(X, sample_weight=w, **kw)), -float(np.average(err, weights=w)), f"{name}: weighted score", rtol=1e-5, atol=1e-7 * sc / span.min())
