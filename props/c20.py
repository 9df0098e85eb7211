"""C20: every distance backend computes the same distances, independent of its call history."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib.core import family, Skip
from vlib.dist import FORMULA, TREE, direct, cloud, pick_cut_off, entries, check_range
from datafold.pcfold import distance as D

RULE = "point clouds with duplicates and clusters x backend x metric x cut-off x minimum number of neighbours x sequences of calls; distinct by (backend, metric, sparsity class, kmin, pair/query, sizes)"

BACKENDS = ["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal"]
CLASSES = {"brute": D.BruteForceDist, "scipy.kdtree": D.ScipyKdTreeDist, "sklearn.balltree": D.SklearnBalltreeDist, "guess_optimal": D.GuessOptimalDist}


def draw_backend(rng):
    b = str(rng.choice(BACKENDS))
    if b in ("scipy.kdtree", "sklearn.balltree"):
        return b, str(rng.choice(TREE)), {}
    metric = str(rng.choice(list(FORMULA) if rng.random() < .5 else TREE))
    opts = {}
    if metric == "minkowski":
        if b != "brute":
            return b, "cityblock", {}
        opts["p"] = 3
    if b == "brute" and rng.random() < .4:
        opts["exact_numeric"] = False
    return b, metric, opts


def shape_input(rng, P):
    """the same points as array with another memory layout or type"""
    r = rng.random()
    if r < .1:
        return np.asfortranarray(P)
    if r < .2:
        big = np.full((2 * P.shape[0], P.shape[1]), 9.)
        big[::2] = P
        return big[::2]
    if r < .3:
        return pd.DataFrame(P)
    if r < .4 and (P == P.astype(int)).all():
        return P.astype(int)
    if r < .5:
        return P.tolist()
    return P


def call(rec, fn, X, Y, tag):
    X0, Y0 = np.array(X, copy=True), None if Y is None else np.array(Y, copy=True)
    ok, M = rec.attempt(lambda: fn(X, Y), f"{tag}: computed")
    if not ok:
        return None
    rec.check(np.array_equal(np.asarray(X), X0) and (Y is None or np.array_equal(np.asarray(Y), Y0)), f"{tag}: inputs unchanged")
    return M


def build(rng, b, metric, cut_off, kmin, opts, history=False):
    how = str(rng.choice(["function", "init", "class"] if not history else ["init", "class"]))
    if how == "class":
        kw = dict(metric=metric, cut_off=cut_off, **opts)
        if kmin is not None and b != "brute":
            kw["kmin"] = kmin
        return how, CLASSES[b](**kw)
    key = {"k": kmin} if rng.random() < .7 or kmin is None else {"kmin": kmin}
    backend = b if rng.random() < .8 else CLASSES[b]
    if how == "init":
        return how, D.init_distance_algorithm(backend=backend, metric=metric, cut_off=cut_off, **key, **opts)
    return how, lambda X, Y: D.compute_distance_matrix(X, Y, metric=metric, cut_off=cut_off, backend=backend, **key, **opts)


@family(quick=1200, thorough=30000)
def backends(rec, rng):
    b, metric, opts = draw_backend(rng)
    n, d = int(rng.integers(2, 25)), int(rng.integers(1, 5))
    X = cloud(rng, n, d)
    pair = rng.random() < .5
    Y = None
    if not pair:
        m = int(rng.integers(1, 15))
        Y = cloud(rng, m, d, "normal") * X.std() + X.mean()
        take = rng.random(m) < .4
        Y[take] = X[rng.integers(0, n, take.sum())]  # queries that coincide with references
    if metric == "cosine" and (np.abs(X).sum(1).min() == 0 or (Y is not None and np.abs(Y).sum(1).min() == 0)):
        raise Skip()
    ref = direct(X, X if pair else Y, metric)
    mode = str(rng.choice(["dense", "inf", "sparse", "sparse", "sparse"]))
    if metric in ("cosine", "hamming") and mode == "sparse" and metric == "cosine":
        mode = "dense"  # zero distances are only zero up to round-off
    cut_off = {"dense": None, "inf": np.inf}.get(mode) if mode != "sparse" else pick_cut_off(rng, [ref], metric)
    kmin = None
    if rng.random() < .5 and b != "brute" and metric in TREE:
        kmin = int(rng.integers(1, n + 1))
    if mode == "dense" and b in ("scipy.kdtree", "sklearn.balltree") and rng.random() < .5:
        cut_off = np.inf
    approx = opts.get("exact_numeric", True) is False
    if approx and mode == "sparse" and metric in TREE:
        raise Skip()  # documented as numerically inexact
    how, fn = build(rng, b, metric, cut_off, kmin, opts)
    rec.sig(b, metric, mode, kmin is not None, pair, how, n > 8, d, sorted(opts))
    rec.note(X=X.tolist(), Y=None if Y is None else Y.tolist(), cut_off=cut_off, kmin=kmin, backend=b, metric=metric, how=how)
    Xi, Yi = shape_input(rng, X), None if pair else shape_input(rng, Y)
    if not pair and len(Y) == 1 and rng.random() < .5:
        Yi = Y[0]  # single query as vector
    if not pair and rng.random() < .05:
        Xi, Yi = X, X[:]
        ref = direct(X, X, metric)
        if mode == "sparse":
            cut = cut_off ** 2 if metric == "sqeuclidean" else cut_off
            if np.abs(ref - cut).min() < 1e-9 * max(1, cut):
                raise Skip()
    M = call(rec, fn, Xi, Yi, b)
    if M is not None:
        check_range(rec, M, ref, metric, cut_off, kmin if cut_off not in (None, np.inf) else None, pair, f"{b} {metric}", approx=approx)


@family(quick=300, thorough=8000)
def nearest(rec, rng):
    """k nearest neighbours backend"""
    metric = str(rng.choice(["euclidean", "sqeuclidean", "cityblock", "chebyshev"]))
    n, d = int(rng.integers(3, 25)), int(rng.integers(1, 4))
    obj = None
    k = int(rng.integers(2, n))
    how = str(rng.choice(["class", "init", "function"]))
    for step in range(int(rng.integers(1, 4))):
        X = cloud(rng, n, d)
        pair = rng.random() < .5
        Y = None if pair else cloud(rng, int(rng.integers(1, 10)), d, "normal")
        ref = direct(X, X if pair else Y, metric)
        if how == "function":
            fn = lambda X, Y: D.compute_distance_matrix(X, Y, metric=metric, k=k, backend="sklearn.knn")
        else:
            obj = obj or (D.SklearnKNN(metric=metric, k=k) if how == "class" else D.init_distance_algorithm("sklearn.knn", metric=metric, k=k))
            fn = obj
        rec.sig(metric, pair, how, step, n > 8, d)
        rec.note(X=X.tolist(), Y=None if Y is None else Y.tolist(), k=k)
        M = call(rec, fn, X, Y, "knn")
        if M is None:
            return
        if not rec.check(sp.issparse(M) and M.shape == ref.shape, "knn: sparse matrix", lambda: f"{type(M)} {getattr(M, 'shape', None)}"):
            return
        e = entries(M)
        if not rec.check(e is not None, "knn: every pair stored once"):
            return
        t = 3e-7 * max(1., ref.max())  # the brute force search of scikit-learn is only accurate to the square root of the precision
        worst = max(abs(v - ref[p]) for p, v in e.items())
        rec.check(worst <= t, "knn: stored distances", lambda: f"{worst}")
        for i in range(len(ref)):
            cols = [j for (r, j) in e if r == i]
            rec.check(len(cols) == k, "knn: number of neighbours", lambda: f"row {i}: {len(cols)} expected {k}")
            if pair:
                rec.check(i in cols, "knn: zero distance of the point itself")
            rec.close(np.sort([ref[i, j] for j in cols]), np.sort(ref[i])[:len(cols)], "knn: nearest neighbours", rtol=1e-7, atol=3 * t)


@family(quick=500, thorough=12000)
def history(rec, rng):
    """one object, a sequence of calls with different data: each result depends on its own arguments only"""
    b, metric, opts = draw_backend(rng)
    if metric == "cosine" or opts.get("exact_numeric") is False:
        metric, opts = "euclidean", {}
    d = int(rng.integers(1, 4))
    refs = []
    pool = [cloud(rng, int(rng.integers(6, 16)), d) for _ in range(3)]
    for _ in range(int(rng.integers(2, 6))):
        X = pool[int(rng.integers(3))]
        Y = None if rng.random() < .4 else pool[int(rng.integers(3))][: int(rng.integers(1, 6))]
        refs.append((X.copy(), None if Y is None else Y.copy(), direct(X, X if Y is None else Y, metric)))
    sparse = rng.random() < .8
    cut_off = pick_cut_off(rng, [r[2] for r in refs], metric) if sparse else None
    kmin = int(rng.integers(1, 6)) if rng.random() < .4 and b != "brute" and metric in TREE else None
    if b in ("scipy.kdtree", "sklearn.balltree") and cut_off is None:
        cut_off = np.inf
    how, fn = build(rng, b, metric, cut_off, kmin, opts, history=True)
    rec.sig(b, metric, sparse, kmin is not None, "".join("p" if r[1] is None else "q" for r in refs))
    buf = {}
    out = []
    for s, (X, Y, ref) in enumerate(refs):
        Xi = X
        if rng.random() < .4:  # the same array object is overwritten with new points
            Xi = buf.setdefault(X.shape, np.empty(X.shape))
            Xi[:] = X
        M = call(rec, fn, Xi, Y, b)
        if M is None:
            return
        rec.note(step=s, X=X.tolist(), Y=None if Y is None else Y.tolist(), cut_off=cut_off, kmin=kmin)
        check_range(rec, M, ref, metric, cut_off, kmin if sparse else None, Y is None, f"{b} {metric}, call {s + 1}" if s == 0 else f"{b} {metric}, repeated call")
        out.append((M, M.copy()))
    for M, M0 in out:
        same = np.array_equal(M, M0) if isinstance(M, np.ndarray) else (M.shape == M0.shape and np.array_equal(M.data, M0.data) and np.array_equal(M.indices, M0.indices))
        rec.check(same, "earlier results unchanged by later calls")


@family(quick=200, thorough=3000)
def rejected(rec, rng):
    X = cloud(rng, int(rng.integers(3, 9)), int(rng.integers(1, 4)), "normal")
    b = str(rng.choice(BACKENDS))
    what = str(rng.choice(["features", "single", "backend", "metric", "negative", "knone", "knegative"]))
    rec.sig(b, what)
    co = None if b in ("brute", "guess_optimal") else 1.5
    if what == "features":
        Y = np.ones((3, X.shape[1] + 1))
        rec.raises(lambda: D.compute_distance_matrix(X, Y, backend=b, cut_off=co), "rejected: number of features differs")
    elif what == "single":
        rec.raises(lambda: D.compute_distance_matrix(X[:1], backend=b, cut_off=co), "rejected: single reference point")
    elif what == "backend":
        rec.raises(lambda: D.compute_distance_matrix(X, backend=str(rng.choice(["kdtree", "guess", ""]))), "rejected: unknown backend")
        rec.raises(lambda: D.compute_distance_matrix(X, backend=None), "rejected: unknown backend")
    elif what == "metric":
        rec.raises(lambda: D.compute_distance_matrix(X, backend=str(rng.choice(["scipy.kdtree", "sklearn.balltree"])), metric="cityblock", cut_off=1.), "rejected: metric without support")
        rec.raises(lambda: D.compute_distance_matrix(X, backend="brute", metric="nosuchmetric"), "rejected: metric without support")
    elif what == "negative":
        rec.raises(lambda: D.compute_distance_matrix(X, backend=b, cut_off=-float(rng.uniform(.1, 3))), "rejected: negative cut-off")
    elif what == "knone":
        rec.raises(lambda: D.compute_distance_matrix(X, backend="sklearn.knn"), "rejected: nearest neighbours without number")
    else:
        rec.raises(lambda: D.SklearnKNN(metric="euclidean", k=-int(rng.integers(0, 3))), "rejected: non-positive number of neighbours")
