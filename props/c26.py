"""C26: model predictive control returns the optimal admissible control."""
import numpy as np
import pandas as pd
import scipy.linalg as sl
from scipy.optimize import linprog, nnls
from vlib.core import family, Skip
from vlib import gen, lin
from datafold.appfold import EDMD
from datafold.appfold.mpc import KMPC, LQR
from datafold.dynfold import TSCIdentity, TSCTakensEmbedding, TSCPolynomialFeatures
from datafold.dynfold.dmd import DMDControl
from datafold.pcfold import TSCDataFrame

RULE = ("random controlled systems, dictionaries, horizons, bounds, weights, selections and orders of the quantities of interest, references; "
        "distinct by (dictionary, sizes, bounds, weights, outcome)")
CN = ["p", "q", "r"]


def fitted(rng, dic=None, noise=.05):
    n, nu = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kind = str(rng.choice(["int", "float"])); dt = lin.draw_dt(rng, kind)
    A = lin.rand_system(rng, n); B = rng.normal(size=(n, nu))
    U = {}

    def step(x, i, k):
        u = rng.normal(size=nu)
        U.setdefault(i, []).append(u)
        return A @ x + B @ u + noise * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, 4 * (n + nu) + 30, kind, dt, min_len=8, max_len=20)
    Q = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], CN[:nu])
    dic = dic or str(rng.choice(["id", "const", "takens", "poly"]))
    steps = {"id": [("id", TSCIdentity())], "const": [("id", TSCIdentity(include_const=True))], "takens": [("delay", TSCTakensEmbedding(delays=1))],
             "poly": [("poly", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=True))]}[dic]
    need = 2 if dic == "takens" else 1
    X, C = R.tsc(), Q.tsc()
    if dic == "takens":
        C = Q.tsc()
    m = EDMD(steps, dmd_model=DMDControl(), include_id_state=False)
    m.fit(X, U=C)
    return m, R, Q, n, nu, kind, dt, dic, need, A, B


def initial(rng, m, R, n, kind, dt, need, k0=None, sid=None):
    k0 = int(rng.integers(2, 8)) if k0 is None else k0
    t = lin.grid(kind, dt, k0 + np.arange(need))
    ic = gen.Ref([int(rng.integers(0, 30)) if sid is None else sid], [t], [rng.normal(size=(need, n))], R.feats).tsc()
    return ic, k0 + need - 1


def costs(rng, k, allow_zero=False):
    if rng.random() < .4:
        v = float(rng.uniform(.1, 10)) if rng.random() < .7 else int(rng.integers(1, 5))
        return v, np.full(k, float(v))
    v = rng.uniform(.1, 10, size=k)
    if allow_zero and k > 1 and rng.random() < .4:
        v[int(rng.integers(k))] = 0.
    return v, v


def simulate(A, B, C, x0, H):
    """states over the horizon as affine function of the stacked controls, step by step: Z = z0 + S @ u"""
    nu = B.shape[1]
    x, S = x0.copy(), np.zeros((A.shape[0], H * nu))
    z, G = [], []
    for k in range(H):
        x = A @ x; S = A @ S
        S[:, k * nu:(k + 1) * nu] += B
        z.append(C @ x); G.append(C @ S)
    return np.concatenate(z), np.vstack(G)


def problem(rng):
    m, R, Q, n, nu, kind, dt, dic, need, _, _ = fitted(rng)
    A, B = np.asarray(m.dmd_model.sys_matrix_), np.asarray(m.dmd_model.control_matrix_)
    if np.abs(np.linalg.eigvals(A)).max() > 1.4:
        raise Skip()
    H = int(rng.integers(2, 9))
    names = list(m.feature_names_out_)
    if rng.random() < .3:
        qois, ask = names, None
    else:
        qois = ask = [str(q) for q in rng.choice(names, size=int(rng.integers(1, len(names) + 1)), replace=False)]
    C = np.zeros((len(qois), len(names)))
    for i, q in enumerate(qois):
        C[i, names.index(q)] = 1
    nq = len(qois)
    cr, vr = costs(rng, nq, True); ci, vi = costs(rng, nu)
    if rng.random() < .25:
        ct, vt = [(None, vr), (0, vr), (0., vr)][int(rng.integers(3))]
    else:
        ct, vt = costs(rng, nq, True)
    ic, k0 = initial(rng, m, R, n, kind, dt, need)
    ref = gen.Ref([int(rng.integers(0, 30))], [lin.grid(kind, dt, k0 + 1 + np.arange(H))], [rng.normal(size=(H, nq)) * rng.choice([.3, 1., 3.])], qois)
    d = pd.DataFrame(m.transform(ic)).ravel() if False else np.asarray(m.transform(ic)).ravel()
    z0, S = simulate(A, B, C, d, H)
    w = np.concatenate([vr] * (H - 1) + [vt]); wu = np.tile(vi, H)
    r = ref.vals[0].ravel()
    P = 2 * (S.T * w) @ S + 2 * np.diag(wu); q = 2 * (S.T * w) @ (z0 - r)
    if np.linalg.cond(P) > 1e8:
        raise Skip()
    return dict(m=m, R=R, n=n, nu=nu, kind=kind, dt=dt, dic=dic, need=need, H=H, qois=qois, ask=ask, nq=nq, cr=cr, ct=ct, ci=ci, ic=ic, k0=k0,
                ref=ref, z0=z0, S=S, w=w, wu=wu, r=r, P=P, q=q, A=A, B=B, C=C, d=d)


def cost(p, u):
    e = p["z0"] + p["S"] @ u - p["r"]
    return float(e @ (p["w"] * e) + u @ (p["wu"] * u))


def build(p, sb, ib, **kw):
    return KMPC(edmd=p["m"], horizon=p["H"], state_bounds=sb, input_bounds=ib, qois=p["ask"], cost_running=p["cr"], cost_terminal=p["ct"], cost_input=p["ci"], **kw)


def labels(rec, p, U, mech):
    df = pd.DataFrame(U)
    t = lin.grid(p["kind"], p["dt"], p["k0"] + np.arange(p["H"]))
    rec.must(isinstance(U, TSCDataFrame) and df.shape == (p["H"], p["nu"]), mech + ": shape of the sequence", f"{type(U)} {df.shape}")
    rec.check(list(df.columns) == CN[:p["nu"]], mech + ": control names", f"{list(df.columns)}")
    rec.close(np.asarray(df.index.get_level_values(-1), dtype=float), np.asarray(t, dtype=float), mech + ": time values at which the control is applied")
    return df.to_numpy().ravel()


def reference(rng, p):
    df = p["ref"].tsc()
    if rng.random() < .5 and p["nq"] > 1:
        df = df.loc[:, [str(c) for c in rng.permutation(df.columns.to_numpy())]]
    return df


@family(quick=70, thorough=900)
def unconstrained(rec, rng):
    """closed-form minimizer, agreement of the internal prediction with EDMD.predict"""
    p = problem(rng)
    ref = reference(rng, p)
    rec.sig(p["dic"], p["nu"], p["nq"] if p["nq"] < 4 else "4+", p["H"], type(p["cr"]).__name__, type(p["ct"]).__name__, list(ref.columns) == p["qois"])
    k = build(p, None, None)
    before = gen.snapshot(p["ic"]), gen.snapshot(ref)
    ok, U = rec.attempt(lambda: k.control_sequence_horizon(p["ic"], reference=ref), "unconstrained: sequence computed")
    if not ok:
        return
    u = labels(rec, p, U, "unconstrained")
    want = -np.linalg.solve(p["P"], p["q"])
    rec.close(u, want, "unconstrained: closed-form minimizer", rtol=1e-6, atol=1e-7 * (1 + np.abs(want).max()), msg=f"{p['dic']} qois {p['qois']}")
    rec.check((gen.snapshot(p["ic"]), gen.snapshot(ref)) == before, "unconstrained: arguments are not modified")
    # second call of the same controller from another state
    ic2, k2 = initial(rng, p["m"], p["R"], p["n"], p["kind"], p["dt"], p["need"])
    ref2 = gen.Ref([0], [lin.grid(p["kind"], p["dt"], k2 + 1 + np.arange(p["H"]))], [rng.normal(size=(p["H"], p["nq"]))], p["qois"])
    z2, S2 = simulate(p["A"], p["B"], p["C"], np.asarray(p["m"].transform(ic2)).ravel(), p["H"])
    u2 = pd.DataFrame(k.control_sequence_horizon(ic2, reference=ref2.tsc())).to_numpy().ravel()
    w2 = -np.linalg.solve(p["P"], 2 * (S2.T * p["w"]) @ (z2 - ref2.vals[0].ravel()))
    rec.close(u2, w2, "unconstrained: next call of the same controller", rtol=1e-6, atol=1e-7 * (1 + np.abs(w2).max()))
    rec.close(pd.DataFrame(k.control_sequence_horizon(p["ic"], reference=ref)).to_numpy().ravel(), u, "unconstrained: repeated call", rtol=1e-12)
    rec.check(list(U.index.get_level_values(0)) == list(p["ic"].ids) * p["H"], "unconstrained: ID of the sequence", f"{U.index}")
    # the model itself predicts the states that the controller optimizes
    cols = [c for c in p["qois"] if c in p["R"].feats]
    if cols:
        T = pd.DataFrame(p["m"].predict(p["ic"], U=U, time_values=lin.grid(p["kind"], p["dt"], p["k0"] + np.arange(p["H"] + 1))))
        got = T[cols].to_numpy()[1:]
        Z = (p["z0"] + p["S"] @ u).reshape(p["H"], p["nq"])[:, [p["qois"].index(c) for c in cols]]
        rec.close(got, Z, "unconstrained: states predicted by the model", rtol=1e-6, atol=1e-6 * (1 + np.abs(Z).max()))


def bounds(rng, p, tight):
    """input bounds, state bounds (None or (k, 2))"""
    free = -np.linalg.solve(p["P"], p["q"]); Z = (p["z0"] + p["S"] @ free).reshape(p["H"], p["nq"])
    F = free.reshape(p["H"], p["nu"])
    which = str(rng.choice(["input", "state", "both"]))
    ib = sb = None
    if which in ("input", "both"):
        s = np.abs(F).max(axis=0) + 1e-3
        lo = -s * rng.uniform(.05, 1.3, size=p["nu"]); hi = s * rng.uniform(.05, 1.3, size=p["nu"])
        if rng.random() < .25:                                                  # bounds that do not contain zero
            hi = lo + s * rng.uniform(.02, .5, size=p["nu"])
        ib = np.column_stack([lo, hi])
    if which in ("state", "both"):
        c, s = Z.mean(axis=0), np.abs(Z - Z.mean(axis=0)).max(axis=0) + .05
        if tight:
            lo, hi = c - s * rng.uniform(.05, 1.3, size=p["nq"]), c + s * rng.uniform(.05, 1.3, size=p["nq"])
        else:
            lo, hi = c - s * rng.uniform(.6, 3., size=p["nq"]), c + s * rng.uniform(.6, 3., size=p["nq"])
        sb = np.column_stack([lo, hi])
    return which, ib, sb


def constraints(p, ib, sb):
    G, h = [], []
    if ib is not None:
        I = np.eye(p["H"] * p["nu"])
        G += [I, -I]; h += [np.tile(ib[:, 1], p["H"]), -np.tile(ib[:, 0], p["H"])]
    if sb is not None:
        G += [p["S"], -p["S"]]; h += [np.tile(sb[:, 1], p["H"]) - p["z0"], p["z0"] - np.tile(sb[:, 0], p["H"])]
    return np.vstack(G), np.concatenate(h)


def margin(G, h):
    """largest t with G u + t <= h (bounded)"""
    n = G.shape[1]
    r = linprog(np.append(np.zeros(n), -1), A_ub=np.column_stack([G, np.ones(len(G))]), b_ub=h, bounds=[(None, None)] * n + [(-1e3, 1.)], method="highs")
    if r.status != 0:
        raise Skip()
    return r.x[-1]


@family(quick=110, thorough=1500)
def bounded(rec, rng):
    """bounds are satisfied and the optimality (KKT) conditions hold; infeasible bounds are reported"""
    p = problem(rng)
    which, ib, sb = bounds(rng, p, rng.random() < .5)
    G, h = constraints(p, ib, sb)
    t = margin(G, h)
    if abs(t) < 1e-4:
        raise Skip()
    ref = reference(rng, p)
    k = build(p, sb, ib)
    rec.sig(p["dic"], which, p["nu"], min(p["nq"], 4), p["H"], t > 0)
    if t < 0:
        rec.raises(lambda: k.control_sequence_horizon(p["ic"], reference=ref), "bounded: no admissible control exists", ValueError)
        rec.note(infeasible=1)
        return
    ok, U = rec.attempt(lambda: k.control_sequence_horizon(p["ic"], reference=ref), "bounded: sequence computed")
    if not ok:
        return
    u = labels(rec, p, U, "bounded")
    scale = 1 + np.abs(h).max() + np.abs(p["z0"]).max()
    slack = h - G @ u
    nin = 2 * p["H"] * p["nu"] if ib is not None else 0
    rec.check((slack[:nin] > -1e-8 * scale).all(), "bounded: input bounds", f"{slack[:nin].min() if nin else 0}")
    rec.check((slack[nin:] > -1e-6 * scale).all(), "bounded: state bounds", f"{slack[nin:].min() if len(slack) > nin else 0}")
    act = slack < 1e-6 * scale
    g = p["P"] @ u + p["q"]
    gs = np.abs(p["P"]) @ np.abs(u) + np.abs(p["q"])
    res = nnls(G[act].T, -g)[1] if act.any() else np.linalg.norm(g)
    rec.note(active=int(act.sum()), bounded=1)
    rec.check(res <= 1e-5 * (1e-6 + np.linalg.norm(gs)), "bounded: optimality conditions", f"{which} residual {res} of {np.linalg.norm(gs)}, active {act.sum()}, cost {cost(p, u)}")
    # no admissible random perturbation has lower cost
    J = cost(p, u)
    for _ in range(20):
        v = u + rng.normal(size=u.size) * rng.choice([1e-3, 1e-2, .1, 1.])
        if ib is not None:
            v = np.clip(v, np.tile(ib[:, 0], p["H"]), np.tile(ib[:, 1], p["H"]))
        if (h - G @ v > 0).all() and cost(p, v) < J - 1e-7 * (1 + abs(J)):
            rec.fail("bounded: admissible control with lower cost", f"{J} {cost(p, v)}")


@family(quick=40, thorough=300)
def rejected(rec, rng):
    """arguments that do not fit the model, the horizon or the sampling"""
    p = problem(rng)
    k = build(p, None, None)
    H, nq, nu = p["H"], p["nq"], p["nu"]
    call = lambda ic, ref: (lambda: k.control_sequence_horizon(ic, reference=ref))
    mk = lambda steps, vals, cols: gen.Ref([0], [lin.grid(p["kind"], p["dt"], steps)], [vals], cols).tsc()
    k1 = p["k0"] + 1 + np.arange(H)
    v = rng.normal(size=(H + 1, nq))
    rec.sig(p["dic"], nu, min(nq, 4), H)
    rec.raises(call(p["ic"], mk(k1 - 1, v[:H], p["qois"])), "rejected: reference starts at the initial time", ValueError)
    rec.raises(call(p["ic"], mk(k1 + 1, v[:H], p["qois"])), "rejected: reference starts two steps in the future", ValueError)
    rec.raises(call(p["ic"], mk(np.append(k1, k1[-1] + 1), v, p["qois"])), "rejected: reference longer than the horizon", ValueError)
    rec.raises(call(p["ic"], mk(k1[:-1], v[:H - 1], p["qois"])), "rejected: reference shorter than the horizon", ValueError)
    rec.raises(call(p["ic"], mk(k1, np.column_stack([v[:H], v[:H, :1]]), p["qois"] + ["zz"])), "rejected: reference with an additional feature", ValueError)
    rec.raises(call(p["ic"], mk(p["k0"] + 1 + 2 * np.arange(H), v[:H], p["qois"])), "rejected: reference with another sampling", ValueError)
    long = gen.Ref([0], [lin.grid(p["kind"], p["dt"], p["k0"] - p["need"] + np.arange(p["need"] + 1))], [rng.normal(size=(p["need"] + 1, p["n"]))], p["R"].feats).tsc()
    rec.raises(call(long, mk(k1, v[:H], p["qois"])), "rejected: more than one dictionary state", ValueError)
    kw = dict(edmd=p["m"], horizon=H, state_bounds=None, input_bounds=None, qois=p["ask"])
    mkc = lambda **a: (lambda: KMPC(**{**kw, **a}))
    rec.raises(mkc(input_bounds=np.tile([-1., 1.], (nu + 1, 1))), "rejected: shape of the input bounds", ValueError)
    rec.raises(mkc(state_bounds=np.tile([-1., 1.], (nq + 1, 1))), "rejected: shape of the state bounds", ValueError)
    rec.raises(mkc(cost_running=np.ones(nq + 1)), "rejected: number of running costs", ValueError)
    rec.raises(mkc(cost_terminal=np.ones(nq + 1)), "rejected: number of terminal costs", ValueError)
    rec.raises(mkc(cost_input=np.ones(nu + 1)), "rejected: number of input costs", ValueError)
    neg = np.ones(nq); neg[int(rng.integers(nq))] = -.5
    rec.raises(mkc(cost_running=neg), "rejected: negative running cost", ValueError)
    rec.raises(mkc(cost_terminal=neg), "rejected: negative terminal cost", ValueError)
    rec.raises(mkc(cost_input=-1.), "rejected: negative input cost", ValueError)
    rec.raises(mkc(qois=["not-a-feature"]), "rejected: unknown quantity of interest", ValueError)
    rec.raises(mkc(horizon=1), "rejected: horizon of one step", ValueError)


class Plant:
    """true system that records how it is called"""

    def __init__(self, A, B, feats):
        self.A, self.B, self.feats, self.calls = A, B, feats, []

    def predict(self, X, U, time_values):
        x, u = np.asarray(X), np.asarray(U)
        self.calls.append((x.copy(), u.copy(), list(time_values), list(U.index.get_level_values(-1)), list(X.index.get_level_values(-1))))
        y = self.A @ x[0] + self.B @ u[0]
        return TSCDataFrame.from_array(np.vstack([x[0], y]), time_values=np.asarray(time_values), feature_names=self.feats, ts_id=X.ids[0]), U


@family(quick=25, thorough=250)
def closed_loop(rec, rng):
    """receding horizon: each applied control is the first one of the sequence for the current state and the current part of the reference"""
    m, R, Q, n, nu, kind, dt, dic, need, A, B = fitted(rng)
    if np.abs(np.linalg.eigvals(np.asarray(m.dmd_model.sys_matrix_))).max() > 1.3:
        raise Skip()
    H, L = int(rng.integers(2, 6)), int(rng.integers(3, 9))
    qois = [str(q) for q in rng.choice(R.feats, size=int(rng.integers(1, n + 1)), replace=False)]
    k = KMPC(m, H, None, np.tile([-2., 2.], (nu, 1)), qois=qois, cost_running=2., cost_terminal=1., cost_input=.5)
    ic, k0 = initial(rng, m, R, n, kind, dt, need, sid=0)
    vals = rng.normal(size=(L, len(qois)))
    ref = gen.Ref([0], [lin.grid(kind, dt, k0 + 1 + np.arange(L))], [vals], qois).tsc()
    P = Plant(A, B, R.feats)
    rec.sig(dic, n, nu, H, L, len(qois))
    arg = P if rng.random() < .5 else P.predict
    ok, out = rec.attempt(lambda: k.control_system_reference(sys=arg, sys_ic=ic.copy(), X_ref=ref, X_ic=ic), "closed loop: computed")
    if not ok:
        return
    Xs, Us = (pd.DataFrame(o) for o in out)
    rec.must(len(Us) == L - 1 and len(Xs) == need + L - 1 and len(P.calls) == L - 1, "closed loop: number of steps", f"{len(Us)} {len(Xs)} {len(P.calls)}")
    S = np.asarray(ic); steps = k0 - need + 1 + np.arange(need)
    for i in range(L - 1):
        st = gen.Ref([0], [lin.grid(kind, dt, steps[-need:])], [S[-need:]], R.feats).tsc()
        part = np.vstack([vals[i:i + H]] + [vals[-1:]] * max(0, H - (L - i)))
        rf = gen.Ref([0], [lin.grid(kind, dt, steps[-1] + 1 + np.arange(H))], [part], qois).tsc()
        u = np.asarray(k.control_sequence_horizon(st, rf))[0]
        rec.close(Us.to_numpy()[i], u, "closed loop: control of the step", rtol=1e-6, atol=1e-6, msg=f"step {i}")
        y = A @ S[-1] + B @ Us.to_numpy()[i]
        t = lin.grid(kind, dt, steps[-1] + np.arange(2))
        rec.close(np.asarray(P.calls[i][2], dtype=float), t.astype(float), "closed loop: time values given to the system")
        rec.close(np.asarray(P.calls[i][3] + P.calls[i][4], dtype=float), np.tile(t[:1], 2).astype(float), "closed loop: time of the control and the state")
        S, steps = np.vstack([S, y]), np.append(steps, steps[-1] + 1)
    rec.close(Xs.to_numpy(), S, "closed loop: states", rtol=1e-6, atol=1e-6)
    rec.close(np.asarray(Xs.index.get_level_values(-1), dtype=float), lin.grid(kind, dt, steps).astype(float), "closed loop: time values of the states")
    rec.close(np.asarray(Us.index.get_level_values(-1), dtype=float), lin.grid(kind, dt, k0 + np.arange(L - 1)).astype(float), "closed loop: time values of the controls")


def riccati(A, B, Q, R):
    P = Q.copy()
    for _ in range(5000):
        K = np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
        N = Q + A.T @ P @ A - A.T @ P @ B @ K
        if np.abs(N - P).max() <= 1e-13 * (1 + np.abs(N).max()):
            return K
        P = (N + N.T) / 2
    raise Skip()


@family(quick=60, thorough=600)
def lqr(rec, rng):
    """state feedback with the gain of the infinite horizon problem"""
    m, R, Q, n, nu, kind, dt, dic, need, _, _ = fitted(rng, dic=str(rng.choice(["id", "id", "takens"])))
    A, B = np.asarray(m.dmd_model.sys_matrix_), np.asarray(m.dmd_model.control_matrix_)
    N = A.shape[0]
    cs, vs = costs(rng, N); ci, vi = costs(rng, nu)
    K = riccati(A, B, np.diag(vs), np.diag(vi))
    ok, c = rec.attempt(lambda: LQR(edmd=m, cost_running=cs, cost_input=ci), "lqr: constructed")
    if not ok:
        return
    rec.sig(dic, n, nu, type(cs).__name__, type(ci).__name__)
    ic, k0 = initial(rng, m, R, n, kind, dt, need)
    tg, kt = initial(rng, m, R, n, kind, dt, need)
    d = lambda X: np.asarray(m.transform(X)).ravel()
    want = -K @ (d(ic) - d(tg))
    tol = dict(rtol=1e-6, atol=1e-7 * (1 + np.abs(K).max() * (np.abs(d(ic)).max() + np.abs(d(tg)).max())))
    rec.raises(lambda: c.control_sequence(ic), "lqr: no target", ValueError)
    for mech, fn in (("given target", lambda: c.control_sequence(ic, target_state=tg)), ("preset target", lambda: c.preset_target_state(tg).control_sequence(X=ic))):
        ok, U = rec.attempt(fn, "lqr: " + mech)
        if not ok:
            continue
        df = pd.DataFrame(U)
        rec.must(df.shape == (1, nu), f"lqr: shape of the control", f"{mech} {df.shape}")
        rec.check(list(df.columns) == CN[:nu] and list(df.index.get_level_values(0)) == list(ic.ids), "lqr: names and ID", f"{df}")
        rec.close(np.asarray(df.index.get_level_values(-1), dtype=float), lin.grid(kind, dt, [k0]).astype(float), "lqr: time of the control")
        rec.close(df.to_numpy().ravel(), want, "lqr: control", msg=mech, **tol)
    # a target given with the call has priority over the preset one
    other, _ = initial(rng, m, R, n, kind, dt, need)
    ok, U = rec.attempt(lambda: c.control_sequence(ic, target_state=other), "lqr: other target")
    if ok:
        rec.close(np.asarray(U).ravel(), -K @ (d(ic) - d(other)), "lqr: control for the given target instead of the preset one", rtol=1e-6,
                  atol=1e-7 * (1 + np.abs(K).max() * (np.abs(d(ic)).max() + np.abs(d(other)).max())))
    rec.close(np.asarray(c.control_sequence(tg)).ravel(), np.zeros(nu), "lqr: no control at the target", rtol=0, atol=tol["atol"])
    rec.raises(lambda: LQR(edmd=m, cost_running=np.ones(N + 1), cost_input=1.), "lqr: number of costs", ValueError)
    rec.raises(lambda: LQR(edmd=m, cost_running=1., cost_input=-1.), "lqr: negative cost", ValueError)
