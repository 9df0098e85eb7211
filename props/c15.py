"""C15: incremental model updates equal the batch fit on the same data."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen, lin
from datafold.dynfold.dmd import OnlineDMD, StreamingDMD
from datafold.appfold import EDMD
from datafold.dynfold import TSCIdentity, TSCTakensEmbedding, TSCPolynomialFeatures, TSCFiniteDifference
from datafold.pcfold import TSCDataFrame

RULE = ("random data sets (exact and noisy), partitions of the snapshot pairs into chunks (whole series, overlapping pieces), weightings, "
        "dictionaries; distinct by (model, weighting, chunk sizes, dimension, time kind)")


def data(rng, n, need, kind, dt, noise=None, n_series=None, min_len=2):
    A = lin.rand_system(rng, n)
    noise = rng.choice([0., .05, 1.]) if noise is None else noise
    step = lambda x, i, k: A @ x + noise * rng.normal(size=n)
    return A, lin.trajectories(rng, step, n, need, kind, dt, n_series=n_series, min_len=min_len)


def cut(rng, R, first, last_id=[0]):
    """partition of all snapshot pairs into consecutive chunks (collections); the first one holds at least `first` pairs"""
    pieces = []
    for i in range(R.n):
        L = len(R.times[i]); a = 0
        while a < L - 1:
            b = int(rng.integers(a + 1, L)) if rng.random() < .6 else L - 1
            pieces.append((i, a, b + 1)); a = b
    chunks, cur, size = [], [], 0
    goal = first
    for p in pieces:
        if cur and any(c[0] == p[0] for c in cur):  # one piece per series in one collection
            if size >= goal:
                chunks.append(cur); cur, size = [], 0; goal = 1
            else:                                   # extend the piece of the same series
                q = cur[-1]; cur[-1] = (q[0], q[1], p[2]); size += p[2] - p[1] - 1
                continue
        cur.append(p); size += p[2] - p[1] - 1
        if size >= goal and rng.random() < .5:
            chunks.append(cur); cur, size = [], 0; goal = 1
    if cur:
        if chunks and size < goal:
            raise Skip()
        chunks.append(cur)
    return [gen.Ref([R.ids[i] for i, _, _ in c], [R.times[i][a:b] for i, a, b in c],
                    [R.vals[i][a:b] for i, a, b in c], R.feats) for c in chunks]


def wls(Z, Y, lam):
    w = np.sqrt(lam) ** np.arange(len(Z))[::-1]
    M = w[:, None] * Z
    if len(Z) < Z.shape[1] or np.linalg.cond(M) > 60:
        raise Skip()
    return np.linalg.lstsq(M, w[:, None] * Y, rcond=None)[0].T


def ask(rng, n, kind, dt, feats):
    """initial conditions and times"""
    q, T = int(rng.integers(1, 4)), int(rng.integers(1, 6)); k0 = int(rng.integers(0, 5))
    ids = [int(i) for i in rng.choice(50, size=q, replace=False)]
    t = lin.grid(kind, dt, k0 + np.arange(T + 1)); x0 = rng.normal(size=(q, n))
    return ids, t, x0, T


def powers(A, x0, T):
    X = [x0]
    for _ in range(T):
        X.append(A @ X[-1])
    return np.array(X)


def check_predict(rec, rng, m, A, n, kind, dt, feats, mech, tol):
    ids, t, x0, T = ask(rng, n, kind, dt, feats)
    P = gen.Ref(ids, [t] * len(ids), [powers(A, x, T) for x in x0], feats)
    s = max(1., np.linalg.norm(A, 2)) ** T * np.abs(x0).max()
    lin.same_collection(rec, m.predict(lin.initial(P).tsc(), time_values=t), P, mech, tol, scale=s)


def spectral(m):
    V, w = m.eigenvectors_right_, m.eigenvalues_
    return (V * w) @ np.linalg.inv(V)


def good_eig(A):
    w, V = np.linalg.eig(A)
    gap = np.abs(w[:, None] - w) + 9 * np.eye(len(w))
    return np.linalg.cond(V) < 300 and gap.min() > 1e-3


def online_history(rec, rng, batch):
    n = int(rng.integers(1, 5)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    lam = float(rng.choice([1., 1., .99, .9, .7])); diag = bool(rng.random() < .4); warm = bool(rng.random() < .5)
    A0, R = data(rng, n, 3 * n + 6, kind, dt)
    chunks = cut(rng, R, n + 2 if batch else 1)
    rec.sig("online", batch, lam, n, kind, len(chunks), chunks[0].n, diag, warm)
    rec.note(weighting=lam, chunks=[c.describe() for c in chunks])
    m = OnlineDMD(weighting=lam, is_diagonalize=diag, with_warm_up=warm)
    Z, Y = np.zeros((0, n)), np.zeros((0, n)); seen = 0
    tol = 1e-6 if batch else 1e-3
    for j, c in enumerate(chunks):
        X = c.tsc()
        if j == 0 and batch:
            if rng.random() < .5:
                m.fit(X)
            else:
                rec.check(m.partial_fit(X, batch_fit=True) is m, "partial_fit returns the model itself")
        else:
            m.partial_fit(X)
        z, y = lin.pairs(c); Z, Y = np.vstack([Z, z]), np.vstack([Y, y]); seen = len(Z)
        if batch and j == 0 and np.linalg.cond(np.sqrt(lam) ** np.arange(seen)[::-1][:, None] * Z) > 60:
            raise Skip()
        rec.equal(int(m.timestep_), seen, "number of processed snapshot pairs")
        rec.equal(bool(m.ready_), bool((not warm) or seen >= 2 * n), "warm-up condition")
        if warm and seen < 2 * n:
            ids, t, x0, T = ask(rng, n, kind, dt, R.feats)
            P = gen.Ref(ids, [t[:1]] * len(ids), [x[None] for x in x0], R.feats)
            rec.raises(lambda: m.predict(P.tsc(), time_values=t), "prediction during warm-up is rejected", Exception)
            continue
        try:
            A = wls(Z, Y, lam)
        except Skip:
            continue
        s = max(1., np.abs(A).max())
        rec.close(m.A, A, "system matrix equals the weighted least squares solution of all pairs seen", rtol=tol, atol=tol * s, msg=f"after chunk {j}, {seen} pairs")
        if not good_eig(A):
            continue
        lin.match_spectrum(rec, m.eigenvalues_, np.linalg.eigvals(A), "eigenvalues after the update", tol=100 * tol)
        rec.close(spectral(m), A, "spectral components correspond to the updated system", rtol=100 * tol, atol=100 * tol * s)
        if diag:
            rec.close(m.eigenvectors_left_ @ m.eigenvectors_right_, np.eye(n), "left and right eigenvectors are biorthogonal", rtol=0, atol=1e-6)
        check_predict(rec, rng, m, A, n, kind, dt, R.feats, "prediction after the update", 100 * tol)
    return m, R


@family(quick=150, thorough=2500)
def online_batch_start(rec, rng):
    online_history(rec, rng, True)


@family(quick=150, thorough=2500)
def online_ghost_start(rec, rng):
    online_history(rec, rng, False)


@family(quick=80, thorough=1200)
def chunking_is_irrelevant(rec, rng):
    """two different partitions of the same pairs lead to the same model"""
    n = int(rng.integers(1, 5)); kind = "float"; dt = .5
    lam = float(rng.choice([1., .95, .8]))
    A0, R = data(rng, n, 3 * n + 6, kind, dt)
    first = gen.Ref(R.ids[:1], R.times[:1], R.vals[:1], R.feats)
    Z, Y = lin.pairs(R)
    wls(Z, Y, lam)
    rec.sig("chunk", n, lam, R.n); rec.note(**R.describe())
    a, b = OnlineDMD(weighting=lam), OnlineDMD(weighting=lam)
    ca, cb = cut(rng, R, 1), cut(rng, R, 1)
    for c in ca:
        a.partial_fit(c.tsc())
    for c in cb:
        b.partial_fit(c.tsc())
    rec.close(a.A, b.A, "OnlineDMD: two partitions of the same pairs", rtol=1e-6, atol=1e-6)
    rec.equal(int(a.timestep_), int(b.timestep_), "OnlineDMD: number of pairs for two partitions")


@family(quick=80, thorough=1200)
def full_fit_forgets(rec, rng):
    n = int(rng.integers(1, 4)); kind = "float"; dt = .25
    lam = float(rng.choice([1., .9])); diag = bool(rng.random() < .5); warm = bool(rng.random() < .5)
    nb = n if rng.random() < .6 else int(rng.integers(1, 4))
    _, R = data(rng, n, 2 * n + 4, kind, dt); _, S = data(rng, nb, 2 * nb + 4, kind, dt)
    rec.sig("refit", n, nb, lam, diag, warm); rec.note(first=R.describe(), second=S.describe())
    if np.linalg.cond(lin.pairs(S)[0]) > 60 or np.linalg.cond(lin.pairs(R)[0]) > 60:
        raise Skip()
    m, f = [OnlineDMD(weighting=lam, is_diagonalize=diag, with_warm_up=warm) for _ in range(2)]
    for c in cut(rng, R, 1 + n):
        m.partial_fit(c.tsc(), batch_fit=bool(rng.random() < .5))
    m.fit(S.tsc()); f.fit(S.tsc())
    rec.close(m.A, f.A, "OnlineDMD: a full fit forgets earlier data", rtol=1e-12, atol=1e-12)
    rec.equal(list(m.feature_names_in_), list(f.feature_names_in_), "OnlineDMD: feature names after a full fit")
    _, Q = data(rng, nb, 3, kind, dt)
    m.partial_fit(Q.tsc()); f.partial_fit(Q.tsc())
    rec.close(m.A, f.A, "OnlineDMD: updates after a full fit", rtol=1e-12, atol=1e-12)
    rec.equal(int(m.timestep_), int(f.timestep_), "OnlineDMD: number of pairs after a full fit")
    if m.ready_ and good_eig(f.A):
        lin.match_spectrum(rec, m.eigenvalues_, f.eigenvalues_, "OnlineDMD: eigenvalues after a full fit", 1e-9)


def streaming_reference(Z, Y, rtol=1e-7):
    """operator on the span of the snapshots: Q K Q^T with K = Q^T Y Z^+ Q"""
    U, s, Vt = np.linalg.svd(Z.T, full_matrices=False)
    r = int(np.sum(s > rtol * s[0]))
    if s[0] / s[r - 1] > 60:
        raise Skip()
    Q = U[:, :r]
    Als = Y.T @ np.linalg.pinv(Z.T, rcond=rtol)
    return Q, Q.T @ Als @ Q


def check_streaming(rec, rng, m, Z, Y, R, mech="StreamingDMD", tol=1e-5, mech_override=None):
    Q, K = streaming_reference(Z, Y)
    name = (lambda s: mech_override) if mech_override else (lambda s: f"{mech}: {s}")
    if not good_eig(K):
        raise Skip()
    w = np.linalg.eigvals(K)
    if not rec.check(len(m.eigenvalues_) == len(w), name("number of eigenvalues"), f"{len(m.eigenvalues_)} {len(w)}"):
        return
    if not rec.check(max(min(abs(g - v) for g in m.eigenvalues_) for v in w) <= tol * 10, name("eigenvalues"), lambda: f"{m.eigenvalues_} {w}"):
        return
    ids, t, x0, T = ask(rng, Q.shape[0], R.kind, R.dt, R.feats)
    X = []
    for x in x0:
        a = [Q.T @ x]
        for _ in range(T):
            a.append(K @ a[-1])
        X.append(np.array(a) @ Q.T)
    P = gen.Ref(ids, [t] * len(ids), X, R.feats)
    ic = gen.Ref(ids, [t[:1]] * len(ids), [x[None] for x in x0], R.feats)
    s = max(1., np.linalg.norm(K, 2)) ** T * np.abs(x0).max()
    lin.same_collection(rec, m.predict(ic.tsc(), time_values=t), P, name("prediction"), tol * 100, scale=s)


def with_first_pair(rng, n, R, kind, dt):
    """prepend a series of exactly two samples"""
    i = next(i for i in range(1, 99) if i not in R.ids)
    v = rng.normal(size=(2, n))
    S = gen.Ref([i] + R.ids, [lin.grid(kind, dt, np.arange(2))] + list(R.times), [v] + list(R.vals), R.feats)
    S.kind, S.dt = R.kind, R.dt
    return S


@family(quick=200, thorough=3000)
def streaming(rec, rng):
    n = int(rng.integers(1, 7)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    low = rng.random() < .4
    if low:   # data in a subspace: the operator lives on the span of the snapshots
        r = int(rng.integers(1, n + 1)); T = np.linalg.qr(rng.normal(size=(n, r)))[0]
        _, R0 = data(rng, r, 2 * r + 5, kind, dt)
        R = gen.Ref(R0.ids, R0.times, [v @ T.T for v in R0.vals], gen.FEATS[:n])
        R.kind, R.dt = kind, dt
        i = next(i for i in range(1, 99) if i not in R.ids)
        v = rng.normal(size=(2, r)) @ T.T
        R = gen.Ref([i] + R.ids, [lin.grid(kind, dt, np.arange(2))] + list(R.times), [v] + list(R.vals), R.feats)
        R.kind, R.dt = kind, dt
    else:
        _, R = data(rng, n, int(rng.integers(1, 2 * n + 5)), kind, dt)
        R = with_first_pair(rng, n, R, kind, dt); r = n
    mr = None if rng.random() < .5 else int(rng.integers(r, n + 2))
    chunks = cut(rng, R, 1)
    rec.sig("streaming", n, r if low else 0, kind, len(chunks), mr); rec.note(max_rank=mr, chunks=[c.describe() for c in chunks])
    m = StreamingDMD(max_rank=mr)
    Z, Y = np.zeros((0, n)), np.zeros((0, n))
    for j, c in enumerate(chunks):
        rec.check(m.partial_fit(c.tsc()) is m, "partial_fit returns the model itself")
        z, y = lin.pairs(c); Z, Y = np.vstack([Z, z]), np.vstack([Y, y])
        try:
            check_streaming(rec, rng, m, Z, Y, R)
        except Skip:
            pass


@family(quick=40, thorough=600)
def streaming_long_first_series(rec, rng):
    """the first series has more than three samples"""
    n = int(rng.integers(1, 5))
    _, R = data(rng, n, 2 * n + 5, "float", .5, noise=1., n_series=1, min_len=6)
    Z, Y = lin.pairs(R)
    rec.sig("streaming first", n, len(Z)); rec.note(**R.describe())
    m = StreamingDMD().partial_fit(R.tsc())
    W = np.delete(np.arange(len(Z)), 1)
    # everything except the second pair is pinned down as an own mechanism
    check_streaming(rec, rng, m, Z[W], Y[W], R, "StreamingDMD: first series without its second pair")
    check_streaming(rec, rng, m, Z, Y, R, mech_override="StreamingDMD_uses_the_second_snapshot_pair_of_the_first_series")


@family(quick=80, thorough=1200)
def streaming_rank_limit(rec, rng):
    """dominant low-dimensional dynamics plus tiny noise: the limited model keeps the dominant directions"""
    n = int(rng.integers(3, 8)); r = int(rng.integers(1, n))
    T = np.linalg.qr(rng.normal(size=(n, r)))[0]
    A, R0 = data(rng, r, 3 * r + 8, "float", .5, noise=0., min_len=3)
    A = A / max(1., np.abs(np.linalg.eigvals(A)).max())
    R0 = lin.trajectories(rng, lambda x, i, k: A @ x, r, 3 * r + 8, "float", .5, n_series=int(rng.integers(r + 1, r + 4)), min_len=4)
    R = gen.Ref(R0.ids, R0.times, [v @ T.T + 1e-7 * rng.normal(size=(len(v), n)) for v in R0.vals], gen.FEATS[:n])
    R.kind, R.dt = "float", .5
    i = next(i for i in range(1, 99) if i not in R.ids)
    x = rng.normal(size=r)
    R1 = gen.Ref([i] + R.ids, [lin.grid("float", .5, np.arange(2))] + list(R.times), [np.array([x, A @ x]) @ T.T] + list(R.vals), R.feats)
    Z, Y = lin.pairs(R1)
    s = np.linalg.svd(Z @ T, compute_uv=False)
    if s[0] / s[-1] > 20 or not good_eig(A):
        raise Skip()
    rec.sig("rank limit", n, r, R1.n); rec.note(max_rank=r, A=A.tolist(), **R1.describe())
    m = StreamingDMD(max_rank=r)
    for c in cut(rng, R1, 1):
        m.partial_fit(c.tsc())
    rec.equal(len(m.eigenvalues_), r, "StreamingDMD: number of eigenvalues with limited rank")
    if len(m.eigenvalues_) == r:
        lin.match_spectrum(rec, m.eigenvalues_, np.linalg.eigvals(A), "StreamingDMD: dominant eigenvalues with limited rank", tol=1e-3)


def dictionary(rng, n, n_chunk):
    k = int(rng.integers(0, 5))
    if k == 0:
        return "identity", [("id", TSCIdentity())], 1
    if k == 1:
        d = int(rng.integers(1, 3))
        return f"takens{d}", [("delay", TSCTakensEmbedding(delays=d))], d + 1
    if k == 2:
        return "poly", [("poly", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=bool(rng.random() < .5)))], 1
    if k == 3:
        return "constant", [("id", TSCIdentity(include_const=True))], 1
    return "takens+identity", [("delay", TSCTakensEmbedding(delays=1)), ("id", TSCIdentity())], 2


@family(quick=150, thorough=2500)
def edmd_updates(rec, rng):
    """EDMD.partial_fit over chunks equals the least squares model on the dictionary of all chunks"""
    n = int(rng.integers(1, 3)); kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    name, steps, nic = dictionary(rng, n, 1)
    mid = str(rng.choice(["online", "streaming"]))
    include = bool(rng.random() < .6)
    sort = bool(rng.random() < .3)
    m_series = int(rng.integers(4, 9))
    _, R = data(rng, n, 40, kind, dt, noise=1., n_series=m_series, min_len=nic + 2)
    fresh = [(s, type(t)(**t.get_params())) for s, t in steps]
    ids = list(R.ids)
    order = sorted(range(R.n), key=lambda i: ids[i])       # transformers may sort series by ID
    R = R.sub(order); R.kind, R.dt = kind, dt
    if mid == "streaming":
        R = gen.Ref(R.ids, R.times, [v for v in R.vals], R.feats); R.kind, R.dt = kind, dt
        R.times[0] = R.times[0][:nic + 1]; R.vals[0] = R.vals[0][:nic + 1]
    groups, a = [], 0
    while a < R.n:
        b = int(rng.integers(a + 1, R.n + 1))
        if a == 0 and mid == "online":
            b = max(b, 2)
        groups.append(list(range(a, b))); a = b
    rec.sig("edmd", name, mid, include, sort, n, kind, len(groups)); rec.note(dictionary=name, model=mid, include_id_state=include, groups=groups, **R.describe())
    model = OnlineDMD() if mid == "online" else StreamingDMD()
    e = EDMD(steps, dmd_model=model, include_id_state=include, sort_koopman_triplets=sort)
    if not include and name == "poly" and not fresh[0][1].include_first_order:
        with_id = False
        rec.raises(lambda: e.partial_fit(R.tsc()), "dictionary without the states is rejected", NotImplementedError)
        return
    Z, Y = None, None
    for j, g in enumerate(groups):
        c = R.sub(g)
        e.partial_fit(c.tsc(), **({"dmd__batch_fit": True} if mid == "online" else {}))
        D = c.tsc()
        for _, t in fresh:
            D = t.fit_transform(D)
        if not np.isin(R.feats, D.columns).all():
            D = pd.concat([c.tsc().loc[D.index], D], axis=1)
        D = gen.observe(D)
        rec.equal([str(f) for f in e.dmd_model.feature_names_in_], [str(f) for f in D.feats], "dictionary features of the updated model")
        z, y = lin.pairs(D)
        Z, Y = (z, y) if Z is None else (np.vstack([Z, z]), np.vstack([Y, y]))
        rec.equal(int(e.n_samples_ic_), nic, "samples per initial condition")
        N = Z.shape[1]
        if j == 0 and mid == "online" and (len(Z) < N or np.linalg.cond(Z) > 1e3):
            raise Skip()   # the first batch has to determine the system
        s = np.linalg.svd(Z, compute_uv=False)
        if len(Z) < N + 2 or s[0] / s[-1] > 200:
            continue
        if mid == "online" and not e.dmd_model.ready_:
            continue
        A = np.linalg.lstsq(Z, Y, rcond=None)[0].T
        if not good_eig(A):
            continue
        tol = 1e-3 if mid == "online" else 1e-4
        lin.match_spectrum(rec, e.koopman_eigenvalues, np.linalg.eigvals(A), f"EDMD {mid}: eigenvalues after the update", tol=tol * 10)
        # prediction from the last samples of a new series
        L = int(rng.integers(nic, nic + 2)); q = int(rng.integers(1, 3)); T = int(rng.integers(1, 4))
        qids = [int(i) for i in sorted(rng.choice(50, size=q, replace=False))]
        t = lin.grid(kind, dt, np.arange(nic))
        ic = gen.Ref(qids, [t] * q, [rng.normal(size=(nic, n)) for _ in range(q)], R.feats)
        d0 = ic.tsc()
        for _, tr in fresh:
            d0 = tr.transform(d0)
        if not np.isin(R.feats, d0.columns).all():
            d0 = pd.concat([ic.tsc().loc[d0.index], d0], axis=1)
        d0 = d0.loc[:, D.feats].to_numpy()
        pos = [list(map(str, D.feats)).index(str(f)) for f in R.feats]
        tv = lin.grid(kind, dt, nic - 1 + np.arange(T + 1))
        P = gen.Ref(qids, [tv] * q, [powers(A, x, T)[:, pos] for x in d0], R.feats)
        sc = max(1., np.linalg.norm(A, 2)) ** T * max(1., np.abs(d0).max())
        lin.same_collection(rec, e.predict(ic.tsc(), time_values=tv), P, f"EDMD {mid}: prediction after the update", tol * 10, scale=sc)


@family(quick=40, thorough=600)
def fit_modes_do_not_mix(rec, rng):
    """fit and partial_fit of EDMD cannot be mixed; updates with another sampling or other features are rejected and leave the model as is"""
    n = 2
    _, R = data(rng, n, 14, "float", .5, noise=.3); _, S = data(rng, n, 10, "float", .25, noise=.3)
    rec.sig("mix", R.n); rec.note(**R.describe())
    for mk, kw in ((OnlineDMD, {}), (StreamingDMD, {})):
        Q = with_first_pair(rng, n, R, "float", .5)
        m = mk().partial_fit(Q.tsc())
        w = np.array(m.eigenvalues_)
        rec.raises(lambda: m.partial_fit(S.tsc()), f"{mk.__name__}: update with another sampling is rejected", Exception)
        other = gen.Ref(Q.ids, Q.times, Q.vals, ["zz", "yy"])
        rec.raises(lambda: m.partial_fit(other.tsc()), f"{mk.__name__}: update with other features is rejected", Exception)
        rec.close(np.array(m.eigenvalues_), w, f"{mk.__name__}: rejected updates do not change the model", rtol=0, atol=0)
        e = EDMD([("id", TSCIdentity())], dmd_model=mk()).partial_fit(Q.tsc())
        rec.raises(lambda: e.fit(Q.tsc()), f"EDMD {mk.__name__}: fit after partial_fit is rejected", ValueError)


@family(quick=40, thorough=600)
def advancing_time(rec, rng):
    """batches of one long running process: the time axis moves on, the sampling interval stays the same"""
    n = int(rng.integers(1, 3)); dt = float(rng.choice([.1, .2, .3, .7, .01]))
    k0 = int(rng.integers(0, 3000)); mk = OnlineDMD if rng.random() < .5 else StreamingDMD
    L = int(rng.integers(3, 6)); N = 8
    Xs = rng.normal(size=(N * L + 1, n)); t = dt * (k0 + np.arange(N * L + 1))
    rec.sig("advance", mk.__name__, dt, k0 // 1000); rec.note(dt=dt, k0=k0)
    m = mk()
    if mk is StreamingDMD:
        first = Xs[:2]
        m.partial_fit(gen.Ref([3], [t[:2]], [first], gen.FEATS[:n]).tsc())
        Z, Y = [first[0]], [first[1]]
    else:
        Z, Y = [], []
    for j in range(N):
        a = slice(j * L, (j + 1) * L + 1)
        m.partial_fit(gen.Ref([0], [t[a]], [Xs[a]], gen.FEATS[:n]).tsc())
        Z += list(Xs[a][:-1]); Y += list(Xs[a][1:])
    A = np.linalg.lstsq(np.array(Z), np.array(Y), rcond=None)[0].T
    if good_eig(A):
        lin.match_spectrum(rec, m.eigenvalues_, np.linalg.eigvals(A), "eigenvalues after batches of an advancing process", tol=1e-2)
