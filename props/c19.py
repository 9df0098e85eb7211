"""C19: kernel matrices follow the kernel formula in every representation."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib.core import family, Skip
from vlib import gen
from vlib import dist as c20
from datafold.pcfold import distance as D, TSCDataFrame
from datafold.pcfold.kernels import (
    GaussianKernel, MultiquadricKernel, InverseMultiquadricKernel, InverseQuadraticKernel, ThinplateKernel,
    CubicKernel, QuinticKernel, ContinuousNNKernel, ConeKernel, DmapKernelFixed, RoselandKernel)

RULE = "point clouds and time series x kernel x parameters x dense/sparse x pair-wise/query x call or pre-computed distances; distinct by (kernel, sparsity, pair/query, representation, parameter class)"

RADIAL = {  # name: (class, metric, formula of the distance d in that metric)
    "gaussian": (GaussianKernel, "sqeuclidean", lambda d, e: np.exp(-d / (2 * e))),
    "multiquadric": (MultiquadricKernel, "sqeuclidean", lambda d, e: np.sqrt(d / (2 * e) + 1)),
    "inverse multiquadric": (InverseMultiquadricKernel, "sqeuclidean", lambda d, e: 1 / np.sqrt(d / (2 * e) + 1)),
    "inverse quadratic": (InverseQuadraticKernel, "sqeuclidean", lambda d, e: 1 / (d / (2 * e) + 1)),
    "thinplate": (ThinplateKernel, "euclidean", lambda d, e: np.where(d > 0, d ** 2 * np.log(np.where(d > 0, d, 1)), 0)),
    "cubic": (CubicKernel, "euclidean", lambda d, e: d ** 3),
    "quintic": (QuinticKernel, "euclidean", lambda d, e: d ** 5),
}
NO_EPS = ("thinplate", "cubic", "quintic")


def dense(M):
    return M.toarray() if sp.issparse(M) else np.asarray(M)


def pattern(M):
    """boolean matrix of the stored entries"""
    P = np.zeros(M.shape, bool)
    c = M.tocoo()
    P[c.row, c.col] = True
    return P


def same(rec, M, ref, stored, tag, rtol=1e-8):
    """values on the stored pairs (all pairs if dense)"""
    if not rec.check(M.shape == ref.shape, f"{tag}: rows are queries and columns references", f"{M.shape} expected {ref.shape}"):
        return False
    s = max(1e-12, np.nanmax(np.abs(ref)) if ref.size else 1)
    if stored is None:
        if not rec.check(not sp.issparse(M), f"{tag}: dense result", type(M)):
            return False
        return rec.close(np.asarray(M), ref, f"{tag}: values", rtol=rtol, atol=1e-10 * s)
    if not rec.check(sp.issparse(M), f"{tag}: sparse result", type(M)):
        return False
    P = pattern(M)
    nz = stored & (np.abs(ref) > 0)
    ok = rec.check(not (P & ~stored).any() and not (nz & ~P).any(), f"{tag}: stored pairs", lambda: f"extra {np.argwhere(P & ~stored)[:4].tolist()} missing {np.argwhere(nz & ~P)[:4].tolist()}")
    return rec.close(np.where(stored, M.toarray(), 0), np.where(stored, ref, 0), f"{tag}: values", rtol=rtol, atol=1e-10 * s) and ok


def copyM(M):
    return M.copy()


def unchanged(M, M0):
    if sp.issparse(M):
        return M.shape == M0.shape and np.array_equal(M.data, M0.data) and np.array_equal(M.indices, M0.indices) and np.array_equal(M.indptr, M0.indptr)
    return np.array_equal(np.asarray(M), np.asarray(M0))


def setting(rng, metric, clouds, need=0):
    """distance setting as given by a user and the boolean rule for the stored pairs"""
    ds = [c20.direct(X, X if Y is None else Y, metric) for X, Y in clouds]
    mode = str(rng.choice(["none", "dict", "object", "sparse dict", "sparse object", "sparse object", "sparse kmin"]))
    if mode == "none":
        return mode, None, None, ds
    if mode == "dict":
        o = {} if rng.random() < .3 else {"backend": "brute"}
        if rng.random() < .5:
            o["metric"] = metric
        return mode, o, None, ds
    if mode == "object":
        return mode, D.BruteForceDist(metric=metric), None, ds
    cut = c20.pick_cut_off(rng, ds, metric)
    if mode == "sparse kmin":
        return mode, {"cut_off": cut, "k": max(need, int(rng.integers(2, 5)))}, cut, ds
    if mode == "sparse dict":
        o = {"cut_off": cut}
        if rng.random() < .6:
            o["backend"] = str(rng.choice(["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal"]))
        return mode, o, cut, ds
    cls = [D.BruteForceDist, D.ScipyKdTreeDist, D.SklearnBalltreeDist, D.GuessOptimalDist][int(rng.integers(4))]
    return mode, cls(metric=metric, cut_off=cut), cut, ds


def draw_eps(rng, scale):
    v = float(10 ** rng.uniform(-1.2, 1.2) * max(scale, 1e-3))
    r = rng.random()
    if r < .15:
        return np.float64(v)
    if r < .3:
        return max(1, int(v))
    return v


def clouds_for(rng, metric):
    d = int(rng.integers(1, 4))
    kind = str(rng.choice(["normal", "grid", "clusters", "duplicates", "line"]))
    out = []
    for _ in range(int(rng.integers(1, 4))):
        X = c20.cloud(rng, int(rng.integers(5, 15)), d, kind)
        Y = None if rng.random() < .5 else c20.cloud(rng, int(rng.integers(1, 9)), d, "normal") * (X.std() + .1) + X.mean()
        out.append((X, Y))
    return out


@family(quick=1000, thorough=20000)
def radial(rec, rng):
    name = str(rng.choice(list(RADIAL)))
    cls, metric, f = RADIAL[name]
    cl = clouds_for(rng, metric)
    mode, dist, cut, ds = setting(rng, metric, cl)
    if name == "inverse quadratic":
        mode, dist, cut = "none", None, None
    kw = {}
    eps = None
    if name not in NO_EPS:
        eps = draw_eps(rng, np.mean(ds[0]))
        kw["epsilon"] = eps
    d0 = dict(dist) if isinstance(dist, dict) else None
    if dist is not None:
        kw["distance"] = dist
    k = cls(**kw)
    rec.check(d0 is None or dist == d0, "settings of the user unchanged", lambda: f"{d0} -> {dist}")
    if d0 is not None and rng.random() < .5:  # settings shared with a second kernel of the other metric
        other = CubicKernel if metric == "sqeuclidean" else GaussianKernel
        if "metric" not in d0:
            other(distance=dist)
    rec.check(k.metric == metric, "metric of the kernel")
    for step, ((X, Y), dm) in enumerate(zip(cl, ds)):
        tag = f"{name} kernel"
        rec.sig(name, mode, Y is None, step, type(eps).__name__)
        rec.note(X=X.tolist(), Y=None if Y is None else Y.tolist(), eps=eps, distance=str(dist))
        X0, Y0 = X.copy(), None if Y is None else Y.copy()
        Xi, Yi = X, Y
        if rng.random() < .15:
            Xi = pd.DataFrame(X)
        stored = None
        if cut is not None:
            S = k.distance(X, Y)
            stored = pattern(S)
            thr = cut ** 2 if metric == "sqeuclidean" else cut
            if mode != "sparse kmin":
                rec.check(np.array_equal(stored, dm < thr), "pairs within the cut-off")
            else:
                rec.check(not ((dm < thr) & ~stored).any(), "pairs within the cut-off")
        ok, M = rec.attempt(lambda: k(Xi, Yi) if Y is not None or rng.random() < .5 else k(Xi), f"{tag} computed")
        if not ok:
            return
        ref = f(dm, None if eps is None else float(eps))
        good = same(rec, M, ref, stored, tag)
        if Y is None and good:
            rec.check(np.abs(dense(M) - dense(M).T).max() <= 1e-9 * max(1e-12, np.abs(ref).max()) , f"{tag}: symmetric")
            rec.close(dense(M).diagonal(), np.full(len(X), float(f(np.zeros(1), eps or 1.)[0])), f"{tag}: diagonal", rtol=1e-9, atol=1e-12)
        rec.check(np.array_equal(X, X0) and (Y is None or np.array_equal(Y, Y0)), "inputs unchanged")
        # the same pairs from a pre-computed distance matrix
        P = k.distance(X, Y) if rng.random() < .5 else (dm.copy() if cut is None else k.distance(X, Y))
        P0 = copyM(P)
        ok, E = rec.attempt(lambda: k.evaluate(P), f"{tag}: evaluated on distances")
        if ok:
            same(rec, E, ref, stored, f"{tag} on distances")
            rec.check(unchanged(P, P0), "distance matrix unchanged")
        if eps is not None:
            rec.check(k.epsilon == eps, "bandwidth unchanged")


@family(quick=150, thorough=2000)
def bandwidth(rec, rng):
    """bandwidth as function of the distances, and rejected settings"""
    what = str(rng.choice(["callable", "epsilon", "metric", "unknown"]))
    X = c20.cloud(rng, int(rng.integers(4, 12)), int(rng.integers(1, 4)), "normal")
    rec.sig(what)
    if what == "callable":
        fn, nm = [(np.median, "median"), (lambda m: float(np.mean(m)) * 2, "mean"), (lambda m: np.max(m), "max")][int(rng.integers(3))]
        D2 = c20.direct(X, X, "sqeuclidean")
        k = GaussianKernel(epsilon=fn)
        if rng.random() < .5:
            cut = c20.pick_cut_off(rng, [D2], "sqeuclidean")
            if (D2 < cut ** 2).sum() <= len(X) + 2:
                raise Skip()
            k = GaussianKernel(epsilon=fn, distance=dict(cut_off=cut))
            e = fn(D2[D2 < cut ** 2])
            st = D2 < cut ** 2
        else:
            e, st = fn(D2), None
        if not e > 0:
            raise Skip()
        same(rec, k(X), np.exp(-D2 / (2 * e)), st, f"bandwidth from {nm} of the distances")
        Y = X[:2] + .1
        M = k(X, Y)
        ref = np.exp(-c20.direct(X, Y, "sqeuclidean") / (2 * e))
        if st is None:
            same(rec, M, ref, None, "bandwidth of the first evaluation out-of-sample")
    elif what == "epsilon":
        cls = [GaussianKernel, MultiquadricKernel, InverseMultiquadricKernel, InverseQuadraticKernel][int(rng.integers(4))]
        bad = [0, -1., "a", None, np.array([1., 2.])][int(rng.integers(5))]
        rec.raises(lambda: cls(epsilon=bad)(X), "rejected: invalid bandwidth")
    elif what == "metric":
        n = str(rng.choice(list(RADIAL)))
        if n == "inverse quadratic":
            raise Skip()
        cls, metric, _ = RADIAL[n]
        wrong = "euclidean" if metric == "sqeuclidean" else "sqeuclidean"
        rec.raises(lambda: cls(distance={"metric": wrong}), "rejected: other metric")
        rec.raises(lambda: cls(distance=D.BruteForceDist(metric=wrong)), "rejected: other metric")
    else:
        rec.raises(lambda: GaussianKernel()(X, unknown=1), "rejected: unknown keyword")


# ---- continuous nearest neighbours
def cknn_ref(dm, k, delta, kref):
    kq = np.sort(dm, axis=1)[:, k - 1]
    return dm / np.sqrt(np.outer(kq, kq if kref is None else kref)), kq


@family(quick=400, thorough=8000)
def nearest(rec, rng):
    n, d = int(rng.integers(7, 18)), int(rng.integers(1, 4))
    X = rng.normal(size=(n, d)) * 10. ** rng.uniform(-1, 1)
    Y = X[rng.integers(0, n, 5)] + rng.normal(size=(5, d)) * X.std()
    k = int(rng.integers(2, 5))
    mode = str(rng.choice(["none", "dict", "object", "cut dict", "cut object", "neighbours"]))
    dX, dY = c20.direct(X, X, "euclidean"), c20.direct(X, Y, "euclidean")
    cut = None
    if mode == "none":
        dist = None
    elif mode == "dict":
        dist = {"metric": "euclidean"} if rng.random() < .5 else {"backend": "brute"}
    elif mode == "object":
        dist = D.BruteForceDist("euclidean") if rng.random() < .5 else D.init_distance_algorithm(metric="euclidean")
    elif mode == "cut dict":
        cut = c20.pick_cut_off(rng, [dX, dY], "euclidean")
        dist = {"cut_off": cut}
        if rng.random() < .5:
            dist["kmin"] = k + int(rng.integers(0, 2))
    elif mode == "cut object":
        cut = c20.pick_cut_off(rng, [dX, dY], "euclidean")
        dist = [D.ScipyKdTreeDist, D.SklearnBalltreeDist][int(rng.integers(2))](cut_off=cut, kmin=k + int(rng.integers(0, 2)))
    else:
        dist = D.SklearnKNN(metric="euclidean", k=k + int(rng.integers(0, 3)))
    d0 = dict(dist) if isinstance(dist, dict) else None
    q, kX = cknn_ref(dX, k, None, None)
    qY, _ = cknn_ref(dY, k, None, kX)
    v = np.unique(np.concatenate([q.ravel(), qY.ravel()]))
    g = np.flatnonzero(np.diff(v) > 1e-6)
    g = g[v[g] > 0]
    if not len(g):
        raise Skip()
    i = int(rng.choice(g))
    delta = float(.5 * (v[i] + v[i + 1]))
    if rng.random() < .2:
        delta = int(rng.integers(1, 4))
        if np.abs(v - delta).min() < 1e-9:
            raise Skip()
    rec.sig(mode, k, type(delta).__name__, d)
    rec.note(X=X.tolist(), Y=Y.tolist(), k=k, delta=delta, distance=str(dist))
    ok, kern = rec.attempt(lambda: ContinuousNNKernel(k_neighbor=k, delta=delta, distance=dist), "kernel accepted")
    if not ok:
        return
    rec.check(d0 is None or dist == d0, "settings of the user unchanged")
    SX = kern.distance(X)
    ok, M = rec.attempt(lambda: kern(X), "nearest neighbour graph computed")
    if not ok:
        return
    stX = pattern(SX) if sp.issparse(SX) else np.ones((n, n), bool)
    rec.check(sp.issparse(M) and M.dtype == bool, "graph is a boolean sparse matrix", lambda: f"{type(M)} {M.dtype}")
    rec.equal(dense(M).astype(bool), (q < delta) & stX, "nearest neighbour graph")
    rec.close(kern.reference_dist_knn_, kX, "distances of the reference points to their neighbours", rtol=1e-7, atol=1e-9)
    if mode != "neighbours":
        rec.check((dense(M) == dense(M).T).all(), "nearest neighbour graph is symmetric")
    rec.check(dense(M).diagonal().all(), "points are connected with themselves")
    SY = kern.distance(X, Y)
    stY = pattern(SY) if sp.issparse(SY) else np.ones((5, n), bool)
    ok, MY = rec.attempt(lambda: kern(X, Y), "nearest neighbour graph of queries computed")
    if ok:
        rec.equal(dense(MY).astype(bool), (qY < delta) & stY, "nearest neighbour graph of queries")
        P = kern.distance(X, Y)
        P0 = P.copy()
        E = kern.evaluate(P)
        rec.equal(dense(E).astype(bool), dense(MY).astype(bool), "nearest neighbour graph on distances")
        rec.check(unchanged(P, P0), "distance matrix unchanged")
        if len(X) > 7:
            rec.raises(lambda: kern(X[:-1], Y), "rejected: other number of reference points")
    # a new kernel on the pre-computed pair-wise distances
    k2 = ContinuousNNKernel(k_neighbor=k, delta=delta, distance=dist)
    P = kern.distance(X)
    P0 = P.copy()
    E = k2.evaluate(P, is_pdist=True)
    rec.equal(dense(E).astype(bool), dense(M).astype(bool), "nearest neighbour graph on distances")
    rec.check(unchanged(P, P0), "distance matrix unchanged")
    if rng.random() < .3:
        rec.raises(lambda: ContinuousNNKernel(k_neighbor=k, delta=[0, -1., "x"][int(rng.integers(3))]), "rejected: invalid scale")
        rec.raises(lambda: ContinuousNNKernel(k_neighbor=[0, -2, 1.5][int(rng.integers(3))], delta=1.), "rejected: invalid number of neighbours")
        rec.raises(lambda: ContinuousNNKernel(k_neighbor=k, delta=1., distance=D.ScipyKdTreeDist(cut_off=1., kmin=k - 1)), "rejected: distances without enough neighbours", ValueError)
        rec.raises(lambda: ContinuousNNKernel(k_neighbor=k + 1, delta=1., distance=D.SklearnKNN(metric="euclidean", k=k)), "rejected: distances without enough neighbours", ValueError)
        rec.raises(lambda: ContinuousNNKernel(k_neighbor=k, delta=1.).evaluate(dY), "rejected: queries before reference points", AttributeError)


# ---- cone kernel
STENCIL = {2: [-1 / 2, 0, 1 / 2], 4: [1 / 12, -2 / 3, 0, 2 / 3, -1 / 12], 6: [-1 / 60, 3 / 20, -3 / 4, 0, 3 / 4, -3 / 20, 1 / 60]}


def flow(R, acc, dt):
    """{(id, time label): (point, velocity)} of the shifted centred difference scheme"""
    p = acc // 2
    out = {}
    for i in R.ids_order:
        t, V = R.by[i]
        for s in range(p, len(t) - p):
            out[(i, t[s + p])] = (V[s + p], np.tensordot(STENCIL[acc], V[s - p: s + p + 1], axes=1) / dt)
    return out


class Series:
    def __init__(self, rng, n, dt, count, minlen, kind):
        self.feats = [f"f{j}" for j in range(n)]
        ids = rng.permutation(10)[:count].tolist()
        self.ids_order = ids
        self.by = {}
        rows, idx = [], []
        for i in ids:
            L = int(rng.integers(minlen, minlen + 5))
            k0 = int(rng.integers(0, 5))
            t = [(k0 + s) * dt if kind == "int" else round((k0 + s) * dt, 10) for s in range(L)]
            V = np.cumsum(rng.normal(size=(L, n)), axis=0) + rng.normal(size=n) * 2
            self.by[i] = (t, V)
            rows.append(V)
            idx += [(i, x) for x in t]
        self.df = TSCDataFrame(np.vstack(rows), index=pd.MultiIndex.from_tuples(idx, names=["ID", "time"]), columns=self.feats)


def cone_ref(Q, P, dt, zeta, eps):
    """Q, P: lists of (point, velocity); rows queries"""
    K = np.ones((len(Q), len(P)))
    for a, (y, vy) in enumerate(Q):
        for b, (x, vx) in enumerate(P):
            w = x - y
            r = np.linalg.norm(w)
            ny, nx = np.linalg.norm(vy), np.linalg.norm(vx)
            if r == 0:
                continue
            cy, cx = vy @ w / (ny * r), vx @ w / (nx * r)
            K[a, b] = np.exp(-r ** 2 / (eps * dt ** 2 * ny * nx) * np.sqrt((1 - zeta * cy ** 2) * (1 - zeta * cx ** 2)))
    return K


@family(quick=300, thorough=6000)
def cone(rec, rng):
    kind = str(rng.choice(["int", "float"]))
    dt = int(rng.integers(1, 4)) if kind == "int" else float(np.round(10 ** rng.uniform(-1.5, .3), 2))
    n = int(rng.integers(1, 4))
    acc = int(rng.choice([2, 4, 4, 6]))
    zeta = float(rng.choice([0., rng.uniform(.05, .99), rng.uniform(.9, .999)]))
    R = Series(rng, n, dt, int(rng.integers(1, 4)), acc + 2, kind)
    eps = float(10 ** rng.uniform(-1, 2))
    dm = str(rng.choice(["none", "dict", "object"]))
    dist = {"none": None, "dict": {"backend": "brute"}, "object": D.BruteForceDist("sqeuclidean")}[dm]
    d0 = dict(dist) if isinstance(dist, dict) else None
    rec.sig(zeta > 0, acc, len(R.ids_order), kind, n, dm)
    rec.note(dt=dt, acc=acc, zeta=zeta, eps=eps, series={str(i): (t, V.tolist()) for i, (t, V) in R.by.items()})
    ok, k = rec.attempt(lambda: ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc, distance=dist), "cone kernel accepted")
    if not ok:
        return
    rec.check(d0 is None or dist == d0, "settings of the user unchanged")
    snap = gen.snapshot(R.df)

    def compare(M, Q, P, tag):
        """Q, P: {(id, time): (point, velocity)}; columns in order of the reference points of the kernel"""
        if not rec.check(isinstance(M, TSCDataFrame), f"{tag}: time series result", type(M)):
            return
        rows = [(int(i), float(t)) for i, t in M.index]
        q = {(int(i), round(float(t), 8)): v for (i, t), v in Q.items()}
        p = {(int(i), round(float(t), 8)): v for (i, t), v in P.items()}
        cols = [(int(i), round(float(t), 8)) for i, t in k.timederiv_X_.index]
        rows = [(i, round(t, 8)) for i, t in rows]
        if not rec.check(sorted(rows) == sorted(q) and sorted(cols) == sorted(p), f"{tag}: labelled with the times at which all samples are available", lambda: f"{sorted(rows)[:6]} expected {sorted(q)[:6]}"):
            return
        rec.equal(list(M.columns), [f"X{i}" for i in range(len(cols))], f"{tag}: columns")
        ref = cone_ref([q[r] for r in rows], [p[c] for c in cols], dt, zeta, eps)
        rec.close(M.to_numpy(), ref, f"{tag}: values", rtol=1e-7, atol=1e-10)

    ok, M = rec.attempt(lambda: k(R.df), "cone kernel computed")
    if not ok:
        return
    FX = flow(R, acc, dt)
    compare(M, FX, FX, "cone kernel")
    m = M.to_numpy()
    rec.check(np.abs(m - m.T).max() < 1e-12 and np.abs(m.diagonal() - 1).max() < 1e-12, "cone kernel: symmetric with unit diagonal")
    for step in range(int(rng.integers(1, 3))):
        X2 = R if rng.random() < .6 else Series(rng, n, dt, int(rng.integers(1, 3)), acc + 2, kind)
        Y2 = Series(rng, n, dt, int(rng.integers(1, 3)), acc + 2, kind)
        ok, M = rec.attempt(lambda: k(X2.df, Y2.df), "cone kernel of queries computed")
        if ok:
            compare(M, flow(Y2, acc, dt), flow(X2, acc, dt), "cone kernel of queries")
    rec.check(snap == gen.snapshot(R.df), "inputs unchanged")
    if rng.random() < .3:
        rec.raises(lambda: ConeKernel(zeta=[1., -.1, 2.][int(rng.integers(3))])(R.df), "rejected: invalid angular weight")
        rec.raises(lambda: ConeKernel(epsilon=-1.)(R.df), "rejected: invalid bandwidth")
        rec.raises(lambda: ConeKernel()(R.df.to_numpy()), "rejected: no time series", TypeError)
        rec.raises(lambda: ConeKernel(distance={"cut_off": 1.}), "rejected: cut-off", NotImplementedError)
        rec.raises(lambda: k(R.df, Series(rng, n, 2 * dt, 1, acc + 2, kind).df), "rejected: other sampling interval")
        rec.raises(lambda: k(R.df, Series(rng, n, dt, 1, acc + 2, kind).df.add_prefix("z")), "rejected: other features")


# ---- diffusion map kernels
def internal(rng, X, Y):
    """internal kernel, its reference matrices of the reference points and of the queries and stored pairs"""
    kind = str(rng.choice(["gaussian", "gaussian", "inverse multiquadric", "inverse quadratic", "sparse gaussian", "sparse gaussian", "sparse kmin", "nearest"]))
    dX, dY = c20.direct(X, X, "sqeuclidean"), c20.direct(X, Y, "sqeuclidean")
    e = draw_eps(rng, np.mean(dX))
    if kind in RADIAL:
        k = RADIAL[kind][0](epsilon=e)
        return kind, k, RADIAL[kind][2](dX, e), RADIAL[kind][2](dY, e), None, None
    if kind == "nearest":
        kn = int(rng.integers(2, 4))
        q, kX = cknn_ref(np.sqrt(dX), kn, None, None)
        qY, _ = cknn_ref(np.sqrt(dY), kn, None, kX)
        delta = float(rng.uniform(.8, 2.))
        if min(np.abs(q - delta).min(), np.abs(qY - delta).min()) < 1e-6:
            raise Skip()
        KX, KY = (q < delta).astype(float), (qY < delta).astype(float)
        return kind, ContinuousNNKernel(kn, delta), KX, KY, KX > 0, KY > 0
    cut = c20.pick_cut_off(rng, [dX, dY], "sqeuclidean")
    opts = {"cut_off": cut} if kind == "sparse gaussian" else {"cut_off": cut, "k": int(rng.integers(2, 4))}
    k = GaussianKernel(epsilon=e, distance=opts)
    sX, sY = pattern(k.distance(X)), pattern(k.distance(X, Y))
    return kind, k, np.where(sX, np.exp(-dX / (2 * e)), 0), np.where(sY, np.exp(-dY / (2 * e)), 0), sX, sY


@family(quick=700, thorough=15000)
def diffusion(rec, rng):
    n, d = int(rng.integers(5, 16)), int(rng.integers(1, 4))
    X = c20.cloud(rng, n, d, str(rng.choice(["normal", "clusters", "line"])))
    Y = X[rng.integers(0, n, 6)] + .3 * rng.normal(size=(6, d)) * X.std()
    if rng.random() < .3:   # queries far away from the reference points: tiny kernel values
        Y[:3] += rng.normal(size=(3, d)) * X.std() * 10 ** rng.uniform(0, 1)
    kind, ik, KX, KY, sX, sY = internal(rng, X, Y)
    if (KY.sum(1) < 1e-140).any() or (KX.sum(1) < 1e-12).any():
        raise Skip()
    stochastic, sym = bool(rng.random() < .8), bool(rng.random() < .5)
    alpha = [0, 1, .5, float(rng.uniform(0, 1)), 1.][int(rng.integers(5))]
    how = str(rng.choice(["call", "distances"]))
    rec.sig(kind, stochastic, sym, type(alpha).__name__, alpha in (0, 1), how, d)
    rec.note(X=X.tolist(), Y=Y.tolist(), alpha=alpha, kind=kind)
    k = DmapKernelFixed(ik, is_stochastic=stochastic, alpha=alpha, symmetrize_kernel=sym)
    if how == "distances" and kind == "nearest":
        how = "call"
    if rng.random() < .2:
        rec.raises(lambda: DmapKernelFixed(GaussianKernel(), is_stochastic=True, alpha=.5)(X, Y), "rejected: queries before reference points", AttributeError)
    evalX = (lambda: k(X)) if how == "call" else (lambda: k.evaluate(ik.distance(X), is_pdist=True))
    evalY = (lambda: k(X, Y)) if how == "call" else (lambda: k.evaluate(ik.distance(X, Y)))
    ok, M = rec.attempt(evalX, "diffusion kernel computed")
    if not ok:
        return
    conj = stochastic and sym
    rec.check(k.is_conjugate == conj, "conjugate kernel if symmetrized")
    if not stochastic:
        same(rec, M.astype(float), KX, sX, "diffusion kernel without normalization")
        rec.check(k.row_sums_alpha_ is None and k.basis_change_matrix_ is None, "no normalization stored")
    else:
        den = KX.sum(1) ** alpha
        T = KX / np.outer(den, den)
        P = T / T.sum(1)[:, None]
        if alpha > 0:
            rec.close(k.row_sums_alpha_, den, "density of the reference points", rtol=1e-8)
        else:
            rec.check(k.row_sums_alpha_ is None, "no density without normalization")
        if conj:
            m = dense(M)
            B = k.basis_change_matrix_
            if rec.check(B is not None and B.shape == (n, n), "basis change provided"):
                b = np.asarray(B.diagonal())
                rec.check(np.abs(B.toarray() - np.diag(b)).max() == 0, "basis change is diagonal")
                same(rec, M, T / np.sqrt(np.outer(T.sum(1), T.sum(1))), sX, "conjugate kernel")
                rec.close((b[:, None] * m) / b[None, :], P, "conjugate to the stochastic kernel", rtol=1e-7, atol=1e-10)
            rec.check(np.abs(m - m.T).max() <= 1e-14, "conjugate kernel is exactly symmetric", lambda: np.abs(m - m.T).max())
        else:
            same(rec, M, P, sX, "stochastic kernel")
            rec.close(np.asarray(M.sum(1)).ravel(), np.ones(n), "rows sum up to one", rtol=1e-10)
            rec.check(k.basis_change_matrix_ is None, "no basis change of stochastic kernel")
    for _ in range(int(rng.integers(1, 3))):
        ok, MY = rec.attempt(evalY, "diffusion kernel of queries computed")
        if not ok:
            return
        if not stochastic:
            same(rec, MY.astype(float), KY, sY, "diffusion kernel of queries without normalization")
        else:
            T = KY / np.outer(KY.sum(1) ** alpha, KX.sum(1) ** alpha)
            same(rec, MY, T / T.sum(1)[:, None], sY, "stochastic kernel of queries")
            rec.close(np.asarray(MY.sum(1)).ravel(), np.ones(len(Y)), "rows of queries sum up to one", rtol=1e-10)
    if rng.random() < .3:
        rec.raises(lambda: k(X), "rejected: second reference point cloud", AttributeError)
        rec.raises(lambda: DmapKernelFixed(GaussianKernel(), alpha=[-.1, 1.1, "a"][int(rng.integers(3))]), "rejected: invalid density exponent")
        if stochastic and alpha > 0 and kind in RADIAL:
            rec.raises(lambda: k(X[:-1], Y), "rejected: other number of reference points")


@family(quick=120, thorough=2000)
def diffusion_cone(rec, rng):
    dt = float(np.round(10 ** rng.uniform(-1, .3), 2))
    n, acc = int(rng.integers(1, 4)), int(rng.choice([2, 4]))
    R, Q = Series(rng, n, dt, int(rng.integers(1, 3)), acc + 3, "float"), Series(rng, n, dt, int(rng.integers(1, 3)), acc + 2, "float")
    zeta, eps, alpha, sym = float(rng.choice([0., .5, .9])), float(10 ** rng.uniform(0, 2)), float(rng.choice([0., .5, 1.])), bool(rng.random() < .5)
    rec.sig(zeta > 0, alpha, sym, acc)
    k = DmapKernelFixed(ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc), alpha=alpha, symmetrize_kernel=sym)
    K, KY = ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc)(R.df), ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc)(R.df, Q.df)
    a, b = K.to_numpy(), KY.to_numpy()
    if min(a.sum(1).min(), b.sum(1).min()) < 1e-10:
        raise Skip()
    M, MY = k(R.df), k(R.df, Q.df)
    den = a.sum(1) ** alpha
    T = a / np.outer(den, den)
    if sym:
        bc = k.basis_change_matrix_.diagonal()
        rec.close((bc[:, None] * M.to_numpy()) / bc[None, :], T / T.sum(1)[:, None], "conjugate cone kernel", rtol=1e-8)
    else:
        rec.close(M.to_numpy(), T / T.sum(1)[:, None], "stochastic cone kernel", rtol=1e-8)
    T = b / np.outer(b.sum(1) ** alpha, den)
    rec.close(MY.to_numpy(), T / T.sum(1)[:, None], "stochastic cone kernel of queries", rtol=1e-8)
    for o, r in ((M, K), (MY, KY)):
        rec.check(isinstance(o, TSCDataFrame) and o.index.equals(r.index) and o.columns.equals(r.columns), "labels of the cone kernel kept")


@family(quick=300, thorough=6000)
def landmarks(rec, rng):
    d = int(rng.integers(1, 4))
    X = c20.cloud(rng, int(rng.integers(8, 20)), d, str(rng.choice(["normal", "clusters", "line"])))
    L = X[rng.permutation(len(X))[: int(rng.integers(3, 8))]]
    Y = X[rng.integers(0, len(X), 5)] + .2 * rng.normal(size=(5, d)) * X.std()
    alpha = [0, 1, .5, float(rng.uniform(0, 1)), 1.][int(rng.integers(5))]
    e = draw_eps(rng, np.mean(c20.direct(L, X, "sqeuclidean")))
    sparse = bool(rng.random() < .4)
    opts = None
    dX, dY = c20.direct(L, X, "sqeuclidean"), c20.direct(L, Y, "sqeuclidean")
    if sparse:
        opts = {"cut_off": c20.pick_cut_off(rng, [dX, dY], "sqeuclidean"), "k": 2}
    ik = GaussianKernel(epsilon=e, distance=opts)
    sX = pattern(ik.distance(L, X)) if sparse else None
    sY = pattern(ik.distance(L, Y)) if sparse else None
    KX, KY = np.exp(-dX / (2 * e)), np.exp(-dY / (2 * e))
    if sparse:
        KX, KY = KX * sX, KY * sY
    if min(KX.sum(0).min(), KX.sum(1).min(), KY.sum(1).min()) < 1e-10:
        raise Skip()
    rec.sig(alpha in (0, 1), sparse, d)
    rec.note(X=X.tolist(), L=L.tolist(), Y=Y.tolist(), alpha=alpha, eps=e)
    k = RoselandKernel(ik, alpha=alpha)
    ok, M = rec.attempt(lambda: k(L, X) if rng.random() < .7 else k.evaluate(ik.distance(L, X)), "landmark kernel computed")
    if not ok:
        return
    ld = KX.sum(0)
    W = KX / np.outer(KX.sum(1) ** alpha, ld ** alpha)
    s = W.sum(0)
    nd = 1 / np.sqrt((W * s).sum(1))
    same(rec, M, W * nd[:, None], sX, "landmark kernel")
    rec.close(k.stochastic_normalization_, s, "normalization of the landmarks", rtol=1e-8)
    rec.close(k.normalize_diagonal_, nd, "normalization of the points", rtol=1e-8)
    if alpha > 0:
        rec.close(k.landmark_density_, ld, "density of the landmarks", rtol=1e-8)
    # the product with its transpose is conjugate to a stochastic matrix
    R = (nd[:, None] * dense(M) @ dense(M).T) / nd[None, :]
    rec.close(R.sum(1), np.ones(len(X)), "diffusion via the landmarks is stochastic", rtol=1e-8)
    for _ in range(2):
        ok, MY = rec.attempt(lambda: k(L, Y), "landmark kernel of queries computed")
        if not ok:
            return
        W = KY / np.outer(KY.sum(1) ** alpha, ld ** alpha)
        nd = 1 / np.sqrt((W * s).sum(1))
        same(rec, MY, W * nd[:, None], sY, "landmark kernel of queries")
        rec.close(k.normalize_diagonal_, nd, "normalization of the queries", rtol=1e-8)
    rec.raises(lambda: k(L), "rejected: landmark kernel without points", ValueError)
