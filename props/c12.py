"""C12: linear system evolution solves the stated recurrence or ODE."""
import numpy as np
import scipy.linalg as sl
from scipy.interpolate import interp1d
from scipy.integrate import solve_ivp
from vlib.core import family, Skip
from vlib import gen
from datafold.dynfold.dynsystem import LinearDynamicalSystem as LDS
from datafold.dynfold.dmd import PretrainedDMD
from datafold.pcfold import TSCDataFrame

RULE = "random system matrices (stable/unstable/rotating/singular), modes, initial states, control sequences, time grids; distinct by (type, mode, sizes, time kind, structure)"


def rand_matrix(rng, n, kind):
    return rand_matrix_(rng, n, kind) * float(rng.choice([1., 1., 1., .3, 1.8]))


def rand_matrix_(rng, n, kind):
    if kind == "rotation":
        B = rng.normal(size=(n, n)); Q, _ = np.linalg.qr(B)
        return Q * rng.uniform(.7, 1.05)
    if kind == "diag":
        V = np.linalg.qr(rng.normal(size=(n, n)))[0] + .2 * rng.normal(size=(n, n))
        return V @ np.diag(rng.uniform(.2, 1.1, n)) @ np.linalg.inv(V)
    if kind == "negative":
        V = np.linalg.qr(rng.normal(size=(n, n)))[0] + .2 * rng.normal(size=(n, n))
        return V @ np.diag(rng.uniform(-1.1, 1.1, n)) @ np.linalg.inv(V)
    if kind == "singular":   # exact zero eigenvalues: states that vanish after a step
        w = rng.uniform(-1.1, 1.1, n); w[rng.permutation(n)[:int(rng.integers(1, n + 1))]] = 0.
        return np.diag(w)
    if kind == "jordan":
        A = np.diag(rng.uniform(.5, 1, n)); A[0, 0] = A[-1, -1]
        A[0, -1] += 1.0 if n > 1 else 0
        return A
    if kind == "close" and n > 1:
        from vlib import lin
        return lin.rand_close(rng, n)
    if kind == "symmetric":
        B = rng.normal(size=(n, n)); return (B + B.T) / (2 * n)
    return rng.normal(size=(n, n)) / np.sqrt(n)


def time_grid(rng, dt, kind, integer):
    if kind == "regular":
        k = np.arange(int(rng.integers(1, 9)))
    elif kind == "sub":
        k = np.sort(rng.choice(20, size=int(rng.integers(1, 6)), replace=False))
    elif kind == "late":
        k = int(rng.integers(1, 15)) + np.arange(int(rng.integers(1, 5)))
    elif kind in ("near", "far"):   # slightly off the steps of the system, in "far" with many steps in between
        k = np.sort(rng.choice(20 if kind == "near" else 600, size=int(rng.integers(1, 6)), replace=False))
        d = 10. ** rng.uniform(-4 if kind == "near" else -1.5, -.31, size=len(k)) * rng.choice([-1, 1], size=len(k))
        return np.abs(k + d) * float(dt), None
    else:
        return np.sort(rng.uniform(0, 6 * dt, size=int(rng.integers(1, 6)))), None
    return (k * dt if integer else k * float(dt)), k


def fractional(A, p):
    w, V = np.linalg.eig(A)
    return (V * np.power(w.astype(complex), p)) @ np.linalg.inv(V)


def case(rng):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    kind = str(rng.choice(["rotation", "diag", "negative", "symmetric", "plain", "close"]))
    return n, m, kind


def labels(rec, out, ids, times, feats, mech):
    rec.check(isinstance(out, TSCDataFrame), mech + ": collection")
    o = gen.observe(out)
    got = o.by_id()
    rec.must(sorted(o.ids) == sorted(int(i) for i in ids), mech + ": IDs are unique and complete", lambda: f"{o.ids} {ids}")
    o = gen.Ref(ids, [got[int(i)][0] for i in ids], [got[int(i)][1] for i in ids], o.feats)   # rows may be sorted by ID
    rec.equal(o.ids, [int(i) for i in ids], mech + ": IDs of the initial conditions")
    rec.equal([str(f) for f in o.feats], [str(f) for f in feats], mech + ": feature names")
    for t in o.times:
        gen.same_times(rec, t, times, mech + ": time values")
    return o


def states(rec, o, want, mech, tol=1e-8):
    """want: (n_ic, n_time, n_feature)"""
    got = np.stack(o.vals) if len(set(o.lengths)) == 1 else np.zeros(0)
    s = max(1.0, np.abs(want).max() if want.size else 1)
    rec.close(got, np.real(want), mech + ": states", rtol=tol, atol=tol * s)


def draw_ids(rng, m):
    return rng.choice(40, size=m, replace=False)


@family(quick=300, thorough=5000)
def flowmap(rec, rng):
    n, m, kind = case(rng)
    u = rng.random()
    if u < .22:
        kind = "jordan" if u < .15 else "singular"
    A = rand_matrix(rng, n, kind)
    mode = "matrix" if kind == "jordan" else str(rng.choice(["matrix", "spectral"]))
    integer = bool(rng.integers(2)); dt = int(rng.integers(1, 4)) if integer else float(rng.choice([.1, .25, .5, 1., .01]))
    tk = str(rng.choice(["regular", "sub", "late", "free", "near", "far"]))
    times, k = time_grid(rng, dt, tk, integer)
    if tk == "far" and np.abs(np.linalg.eigvals(A)).max() > 1e-3:
        A = A / np.abs(np.linalg.eigvals(A)).max() * rng.uniform(.99, 1.003)
    w, V = np.linalg.eig(A)
    if mode == "spectral" and np.linalg.cond(V) > 1e4:
        raise Skip()
    if k is None:
        ang = np.abs(np.angle(w))
        if np.linalg.cond(V) > 1e4 or (ang > 3.0).any() or np.abs(w).min() < 1e-2:
            raise Skip()   # fractional powers need a principal logarithm
    ids = draw_ids(rng, m); feats = gen.FEATS[:n]
    x0 = rng.normal(size=(n, m))
    rec.sig(kind, mode, n, m, integer, tk); rec.note(A=A.tolist(), times=times, dt=dt, ids=ids)
    P = [np.linalg.matrix_power(A, int(j)) for j in k] if k is not None else [fractional(A, t / dt) for t in times]
    want = np.stack([(p @ x0).T for p in P], axis=1)
    s = LDS("flowmap", mode)
    left = None
    if mode == "matrix":
        s.setup_matrix_system(A.copy())
        b = x0
    else:
        left = np.linalg.inv(V) if rng.random() < .5 else None
        s.setup_spectral_system(eigenvectors_right=V, eigenvalues=w, eigenvectors_left=left)
        b = s.compute_spectral_system_states(x0)
        rec.close(V @ b, x0, "spectral states reproduce the state", rtol=1e-8, atol=1e-9)
        rec.close(b, np.linalg.solve(V, x0.astype(complex)), "spectral states", rtol=1e-6, atol=1e-7)
    tol = 1e-7 if k is None or kind == "jordan" else 1e-8
    out = s.evolve_system(b, time_values=times, time_delta=dt, time_series_ids=ids, feature_names_out=feats)
    o = labels(rec, out, ids, times, feats, "flowmap")
    states(rec, o, want, f"flowmap {mode} ({'steps' if k is not None else 'fractional'})", tol)
    # every initial condition by itself
    j = int(rng.integers(m))
    one = s.evolve_system(b[:, j], time_values=times, time_delta=dt, feature_names_out=feats)
    states(rec, labels(rec, one, [0], times, feats, "flowmap single"), want[[j]], f"flowmap {mode}: single initial condition", tol)
    # a single time value
    q = int(rng.integers(len(times)))
    sc = s.evolve_system(b, time_values=times[q], time_delta=dt, time_series_ids=ids, feature_names_out=feats)
    states(rec, labels(rec, sc, ids, times[[q]], feats, "flowmap scalar time"), want[:, [q]], f"flowmap {mode}: single time value", tol)
    if mode == "spectral":
        C = rng.normal(size=(int(rng.integers(1, 4)), n))
        pf = [f"c{i}" for i in range(len(C))]
        out = s.evolve_system(b, time_values=times, time_delta=dt, overwrite_sys_matrix=C @ V, time_series_ids=ids, feature_names_out=pf)
        states(rec, labels(rec, out, ids, times, pf, "flowmap projected"), want @ C.T, "flowmap spectral: projected quantities", tol)
    rec.raises(lambda: s.evolve_system(np.vstack([b, b[:1]]), time_values=times, time_delta=dt), "rejects states of other dimension")
    rec.raises(lambda: s.evolve_system(b, time_values=times, time_delta=-1.0), "rejects non-positive time delta")
    rec.raises(lambda: s.evolve_system(b, time_values=times), "rejects missing time delta")


@family(quick=300, thorough=5000)
def differential(rec, rng):
    n, m, kind = case(rng)
    if rng.random() < .15:
        kind = "jordan"
    A = rand_matrix(rng, n, kind) - (.5 * np.eye(n) if rng.random() < .5 else 0)
    mode = "matrix" if kind == "jordan" else str(rng.choice(["matrix", "spectral"]))
    integer = bool(rng.integers(2)); dt = 1 if integer else float(rng.choice([.1, .25, .5, .01]))
    tk = str(rng.choice(["regular", "sub", "late", "free"]))
    times, k = time_grid(rng, dt, tk, integer)
    times = times if integer and k is not None and times.max() < 8 else (times / max(1.0, times.max() / 4))
    w, V = np.linalg.eig(A)
    if mode == "spectral" and np.linalg.cond(V) > 1e4:
        raise Skip()
    ids = draw_ids(rng, m); feats = gen.FEATS[:n]
    x0 = rng.normal(size=(n, m))
    rec.sig(kind, mode, n, m, integer, tk); rec.note(A=A.tolist(), times=times, ids=ids)
    want = np.stack([(sl.expm(A * t) @ x0).T for t in times], axis=1)
    s = LDS("differential", mode)
    if mode == "matrix":
        s.setup_matrix_system(A.copy()); b = x0
    else:
        left = np.linalg.inv(V) if rng.random() < .5 else None
        s.setup_spectral_system(eigenvectors_right=V, eigenvalues=w, eigenvectors_left=left)
        b = s.compute_spectral_system_states(x0)
    out = s.evolve_system(b, time_values=times, time_series_ids=ids, feature_names_out=feats)
    states(rec, labels(rec, out, ids, times, feats, "differential"), want, f"differential {mode}", 1e-8)
    j = int(rng.integers(m))
    one = s.evolve_system(b[:, j], time_values=times, feature_names_out=feats)
    states(rec, labels(rec, one, [0], times, feats, "differential single"), want[[j]], f"differential {mode}: single initial condition")
    if mode == "spectral":
        C = rng.normal(size=(2, n))
        out = s.evolve_system(b, time_values=times, overwrite_sys_matrix=C @ V, time_series_ids=ids, feature_names_out=["a", "b"])
        states(rec, labels(rec, out, ids, times, ["a", "b"], "differential projected"), want @ C.T, "differential spectral: projected quantities")


def recursion(A, B, x0, U, steps):
    """x0 (n, m), U (m, steps, nu)"""
    X = [x0]
    for k in range(steps):
        X.append(A @ X[-1] + B @ U[:, k, :].T)
    return np.stack([x.T for x in X], axis=1)


@family(quick=300, thorough=4000)
def controlled(rec, rng):
    n, m, kind = case(rng)
    nu = int(rng.integers(1, 4)); T = int(rng.integers(2, 8))
    A = rand_matrix(rng, n, kind)
    typ = str(rng.choice(["flowmap matrix", "flowmap spectral", "differential matrix"]))
    w, V = np.linalg.eig(A)
    if "spectral" in typ and np.linalg.cond(V) > 1e4:
        raise Skip()
    B = rng.normal(size=(n, nu)); U = rng.normal(size=(m, T - 1, nu)); x0 = rng.normal(size=(n, m))
    dt = float(rng.choice([.1, .5, 1.]))
    times = dt * np.arange(T)
    ids = draw_ids(rng, m); feats = gen.FEATS[:n]
    rec.sig(typ, kind, n, m, nu, T); rec.note(A=A.tolist(), B=B.tolist(), dt=dt, T=T, ids=ids)
    ty, mo = typ.split()
    s = LDS(ty, mo, is_controlled=True)
    if mo == "matrix":
        s.setup_matrix_system(A, control_matrix=B); b = x0
    else:
        s.setup_spectral_system(eigenvectors_right=V, eigenvalues=w, eigenvectors_left=np.linalg.inv(V), control_matrix=B)
        b = s.compute_spectral_system_states(x0)
    if ty == "differential":
        if rng.random() < .5:
            times = np.append(0, np.cumsum(rng.uniform(.05, 1, T - 1)))
        X = [x0]
        for k in range(T - 1):
            h = times[k + 1] - times[k]
            M = sl.expm(np.block([[A * h, B * h], [np.zeros((nu, n + nu))]]))
            X.append(M[:n, :n] @ X[-1] + M[:n, n:] @ U[:, k].T)
        want = np.stack([x.T for x in X], axis=1)
    else:
        want = recursion(A, B, x0, U, T - 1)
    out = s.evolve_system(b, time_values=times, control_input=U, time_delta=dt, time_series_ids=ids, feature_names_out=feats)
    states(rec, labels(rec, out, ids, times, feats, "controlled"), want, f"controlled {typ}")
    if m == 1:
        out = s.evolve_system(b[:, 0], time_values=times, control_input=U[0], time_delta=dt, feature_names_out=feats)
        states(rec, labels(rec, out, [0], times, feats, "controlled"), want, f"controlled {typ}: single initial condition")
    rec.raises(lambda: s.evolve_system(b, time_values=times, control_input=U[:, :-1], time_delta=dt), "rejects control sequences of other length")
    rec.raises(lambda: s.evolve_system(b, time_values=times, control_input=np.concatenate([U, U[:1]]), time_delta=dt), "rejects control of other initial conditions")
    rec.raises(lambda: s.evolve_system(b, time_values=times, control_input=np.concatenate([U, U[:, :, :1]], axis=2), time_delta=dt), "rejects control of other dimension")


@family(quick=20, thorough=250)
def affine(rec, rng):
    """control-affine system xdot = A x + sum_i B_i u_i x with the control interpolated in time"""
    n, nu, m, T = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(12, 25))
    A = rand_matrix(rng, n, "plain") - np.eye(n)
    Bt = .5 * rng.normal(size=(n, n, nu))
    times = np.linspace(0, 2.0, T)
    ph = rng.uniform(0, 6, size=(m, 1, nu)); fr = rng.uniform(.5, 2, size=(m, 1, nu))
    U = np.sin(fr * times[None, :, None] + ph)
    x0 = rng.normal(size=(n, m))
    rec.sig(n, nu, m, T); rec.note(A=A.tolist(), B=Bt.tolist())
    s = LDS("differential", "matrix", is_controlled=True, is_control_affine=True)
    s._requires_last_control_state = True
    s.setup_matrix_system(A, control_matrix=Bt)
    ids = draw_ids(rng, m)
    out = s.evolve_system(x0, time_values=times, control_input=U, time_series_ids=ids, feature_names_out=gen.FEATS[:n])
    want = []
    for j in range(m):
        f = lambda t, x: A @ x + (Bt @ np.sin(fr[j, 0] * t + ph[j, 0])) @ x
        want.append(solve_ivp(f, (0, 2.0), x0[:, j], t_eval=times, rtol=1e-9, atol=1e-11).y.T)
    o = labels(rec, out, ids, times, gen.FEATS[:n], "control-affine")
    rec.close(np.stack(o.vals), np.stack(want), "control-affine: states", rtol=6e-2, atol=6e-2 * max(1, np.abs(want).max()))


@family(quick=150, thorough=2000)
def pretrained(rec, rng):
    """system matrix given by the user: the same states at every requested (not necessarily equidistant) time value"""
    n, m, kind = case(rng)
    A = rand_matrix(rng, n, "diag" if kind in ("plain",) else kind)
    typ, mode = str(rng.choice(["flowmap", "differential"])), str(rng.choice(["matrix", "spectral"]))
    w, V = np.linalg.eig(A)
    if mode == "spectral" and (np.linalg.cond(V) > 1e4 or np.abs(w).min() < 1e-2):
        raise Skip()
    diag = bool(rng.integers(2))
    d = PretrainedDMD.from_available_system_matrix(typ, mode, A, is_diagonalize=diag)
    dt = float(rng.choice([.1, .5, 1.])); start = float(rng.choice([0., .5, 3.])) 
    feats = gen.FEATS[:n]
    grid = TSCDataFrame(gen.Ref([0], [start + dt * np.arange(4)], [np.arange(4.0)[:, None] + np.zeros(n)], feats).frame())
    d.fit(grid)
    ids = draw_ids(rng, m)
    x0 = rng.normal(size=(m, n))
    import pandas as pd
    ic = TSCDataFrame(gen.Ref(ids, [np.array([start])] * m, [x[None] for x in x0], feats).frame())
    k = np.append(0, np.sort(rng.choice(np.arange(1, 15), size=int(rng.integers(1, 6)), replace=False)))
    times = start + dt * k
    rec.sig(typ, mode, kind, n, m, diag); rec.note(A=A.tolist(), times=times, ids=ids)
    out = d.predict(ic, time_values=times)
    E = [np.linalg.matrix_power(A, int(j)) if typ == "flowmap" else sl.expm(A * dt * j) for j in k]
    want = np.stack([(e @ x0.T).T for e in E], axis=1)
    states(rec, labels(rec, out, ids, times, feats, "pretrained"), want, f"pretrained {typ} {mode}", 1e-7)
