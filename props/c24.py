"""C24: point clouds keep their settings; sub-sampling, outlier removal and scale estimates satisfy their definition."""
import copy
import pickle
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib.core import family, Skip
from vlib.dist import FORMULA, direct, cloud, pick_cut_off, check_range
from datafold.pcfold import (PCManifold, GaussianKernel, MultiquadricKernel, InverseMultiquadricKernel, QuinticKernel,
                             estimate_cutoff, estimate_scale, pcm_subsample, pcm_remove_outlier)

RULE = "point clouds with duplicates and clusters x distance settings x histories of slices, copies and setting changes x sub-sample block sizes, neighbour counts and tolerances; distinct by (operation, settings, sizes)"

KERNELS = [lambda r: GaussianKernel(epsilon=float(r.uniform(.2, 5))), lambda r: MultiquadricKernel(epsilon=float(r.uniform(.2, 5))),
           lambda r: InverseMultiquadricKernel(epsilon=float(r.uniform(.2, 5))), lambda r: QuinticKernel()]
KFORM = {GaussianKernel: lambda d, k: np.exp(-d ** 2 / (2 * k.epsilon)), MultiquadricKernel: lambda d, k: np.sqrt(d ** 2 / (2 * k.epsilon) + 1),
         InverseMultiquadricKernel: lambda d, k: 1 / np.sqrt(d ** 2 / (2 * k.epsilon) + 1), QuinticKernel: lambda d, k: d ** 5}


def same_kernel(a, b):
    return type(a) is type(b) and getattr(a, "epsilon", None) == getattr(b, "epsilon", None)


def compare_distances(rec, pcm, pts, metric, cut_off, kmin, Y, tag):
    ref = direct(pts, pts if Y is None else Y, metric)
    ok, M = rec.attempt(lambda: pcm.compute_distance_matrix(Y, metric=metric), f"{tag}: distance matrix")
    if ok:
        check_range(rec, M, ref, metric, cut_off, kmin, Y is None, tag)


@family(quick=300, thorough=6000)
def settings(rec, rng):
    """points, kernel and distance settings through a history of slices, copies, pickles and setting changes"""
    n, d = int(rng.integers(4, 25)), int(rng.integers(1, 4))
    P = cloud(rng, n, d)
    metric = str(rng.choice(["euclidean", "sqeuclidean"]))
    D0 = direct(P, P, metric)
    kw, cut_off, kmin = {}, np.inf, 0
    if rng.random() < .7:
        cut_off = pick_cut_off(rng, [D0], metric)
        kw["cut_off"] = cut_off
    if rng.random() < .6:
        kw["backend"] = str(rng.choice(["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal"]))
    if rng.random() < .3 and np.isfinite(cut_off) and kw.get("backend") != "brute":  # brute has no minimum number of neighbours
        kmin = int(rng.integers(0, 3))
        kw["kmin"] = kmin
    kernel = KERNELS[rng.integers(len(KERNELS))](rng) if rng.random() < .7 else None
    kw0 = dict(kw)
    data = P if rng.random() < .7 else pd.DataFrame(P)
    pcm = PCManifold(data, kernel=kernel, dist_kwargs=kw if kw or rng.random() < .5 else None)
    P0 = P.copy()
    rec.check(kw == kw0, "settings given by the user unchanged", f"{kw} {kw0}")
    # every object: (pcm, expected points, kernel, settings)
    objs = [(pcm, P0, kernel, dict(cut_off=cut_off, kmin=kmin, backend=kw.get("backend", "guess_optimal")))]
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        i = int(rng.integers(len(objs)))
        o, pts, k, st = objs[i]
        op = str(rng.choice(["rows", "mask", "fancy", "copy", "deepcopy", "pickle", "view", "astype", "set", "cols"]))
        if op == "set":
            Di = direct(pts, pts, metric)
            c = pick_cut_off(rng, [Di], metric)
            o.cut_off = c
            objs[i] = (o, pts, k, dict(st, cut_off=c))
            ops.append(op)
            continue
        if op == "rows":
            a, b = sorted(rng.choice(len(pts) + 1, 2, replace=False))
            if b - a < 3:
                continue
            new, npts = o[a:b], pts[a:b]
        elif op == "mask":
            m = rng.random(len(pts)) < .7
            if m.sum() < 3:
                continue
            new, npts = o[m, :], pts[m]
        elif op == "fancy":
            idx = rng.integers(0, len(pts), int(rng.integers(3, len(pts) + 3)))
            new, npts = o[idx], pts[idx]
        elif op == "cols":
            c0 = int(rng.integers(pts.shape[1]))
            new, npts = o[:, c0:], pts[:, c0:]
        elif op == "copy":
            new, npts = (o.copy() if rng.random() < .5 else copy.copy(o)), pts
        elif op == "deepcopy":
            new, npts = copy.deepcopy(o), pts
        elif op == "pickle":
            new, npts = pickle.loads(pickle.dumps(o)), pts
        elif op == "view":
            new, npts = o[:, :], pts
        else:
            new, npts = o.astype(np.float64), pts
        if not rec.check(isinstance(new, PCManifold), f"{op}: stays a point cloud", type(new)):
            return
        objs.append((new, npts, k, dict(st)))
        ops.append(op)
    rec.sig(tuple(ops), type(kernel).__name__, metric, kw.get("backend"), np.isfinite(cut_off), kmin)
    for j, (o, pts, k, st) in enumerate(objs):
        tag = "point cloud" if j == 0 else "derived point cloud"
        rec.equal(np.asarray(o), pts, f"{tag}: points")
        if k is not None:
            rec.check(same_kernel(o.kernel, k), f"{tag}: kernel", lambda: repr(o.kernel))
        else:
            rec.check(isinstance(o.kernel, GaussianKernel), f"{tag}: default kernel", lambda: repr(o.kernel))
        rec.check(o.cut_off == st["cut_off"], f"{tag}: cut-off", f"{o.cut_off} expected {st['cut_off']}")
        rec.check({a: o.dist_kwargs.get(a) for a in st} == st, f"{tag}: distance settings", f"{o.dist_kwargs} expected {st}")
        # cut-offs that lie on a distance of this object are undefined
        Do = direct(pts, pts, metric)
        e = np.sqrt(Do) if metric == "sqeuclidean" else Do
        if np.isfinite(st["cut_off"]) and (np.abs(e - st["cut_off"]) < 1e-7 * max(1, e.max())).any():
            continue
        Y = None
        if rng.random() < .5:
            Y = pts[rng.integers(0, len(pts), 3)]
        compare_distances(rec, o, pts, metric, st["cut_off"], st["kmin"], Y, tag)
        kk = o.kernel
        f = KFORM[type(kk)]
        if np.isscalar(getattr(kk, "epsilon", 1.)):
            ref = f(direct(pts, pts if Y is None else Y, "euclidean"), kk)
            ok, K = rec.attempt(lambda: o.compute_kernel_matrix(Y), f"{tag}: kernel matrix")
            if ok:
                rec.close(np.asarray(K), ref, f"{tag}: kernel matrix of its own kernel", rtol=1e-8, atol=1e-9 * max(1, np.abs(ref).max()))


@family(quick=80, thorough=1000)
def invalid(rec, rng):
    n, d = int(rng.integers(2, 8)), int(rng.integers(1, 4))
    P = rng.normal(size=(n, d))
    kind = int(rng.integers(8))
    rec.sig(kind, n, d)
    if kind == 0:
        rec.raises(lambda: PCManifold(P[:, 0]), "one-dimensional data rejected", ValueError)
    elif kind == 1:
        Q = P.copy(); Q[rng.integers(n), rng.integers(d)] = rng.choice([np.nan, np.inf, -np.inf])
        rec.raises(lambda: PCManifold(Q), "points that are not finite rejected", ValueError)
    elif kind == 2:
        rec.raises(lambda: PCManifold(P.astype(str)), "points that are not numeric rejected", ValueError)
    elif kind == 3:
        rec.raises(lambda: PCManifold(P, dist_kwargs=[("cut_off", 1.)]), "distance settings that are no dictionary rejected", TypeError)
    elif kind == 4:
        p = PCManifold(P, dist_kwargs=dict(cut_off=2.))
        def bad():
            p.cut_off = float(rng.choice([0., -1.]))
        rec.raises(bad, "cut-off that is not positive rejected", ValueError)
        rec.check(p.cut_off == 2., "cut-off kept after a rejected value", p.cut_off)
    elif kind == 5:
        rec.raises(lambda: pcm_remove_outlier(PCManifold(P), kmin=[0, -2, 1.5][rng.integers(3)], cut_off=1.), "minimum number of neighbours that is no positive integer rejected", ValueError)
    elif kind == 6:
        rec.raises(lambda: pcm_subsample(PCManifold(P)), "sub-sampling without finite distance rejected", ValueError)
    else:
        Q = rng.normal(size=(15, d))
        rec.raises(lambda: estimate_cutoff(Q, k=[0, 1, 2.5, -3][rng.integers(4)]), "invalid number of neighbours rejected", ValueError)


@family(quick=200, thorough=5000)
def subsample(rec, rng):
    n, d = int(rng.integers(6, 120)), int(rng.integers(1, 4))
    P = cloud(rng, n, d)
    E = direct(P, P, "euclidean")
    md = pick_cut_off(rng, [E[E > 0]] if (E > 0).any() else [E], "euclidean")
    block = int(rng.integers(2, n + 5)) if rng.random() < .5 else int(rng.integers(2, min(n, 8) + 1))
    k = GaussianKernel(epsilon=float(rng.uniform(.1, 4)))
    madd = int(rng.choice([0, 1, 2, 5]))
    via = rng.random() < .4
    pcm = PCManifold(P, kernel=k, dist_kwargs=dict(cut_off=md / 2) if via else {})
    if via and not np.isclose(pcm.cut_off * 2, md, rtol=1e-15):
        raise Skip()
    kw = dict(n_samples=block, min_added_per_iteration=madd)
    if not via:
        kw["min_distance"] = md
    nb = n // block + 1
    if n // nb < 2:
        raise Skip()  # single-point blocks: distances are undefined for one point
    ok, res = rec.attempt(lambda: pcm_subsample(pcm, **kw), "sub-sampling")
    if not ok:
        return
    sub, idx = res
    idx = np.asarray(idx)
    rec.sig(n, d, block, madd, len(idx))
    rec.note(selected=len(idx))
    rec.check(isinstance(sub, PCManifold) and sub.shape == (len(idx), d), "sub-sample is a point cloud with one row per index", type(sub))
    rec.check(len(np.unique(idx)) == len(idx) and (idx >= 0).all() and (idx < n).all() and len(idx) > 0, "indices are distinct rows of the cloud", idx[:10])
    rec.equal(np.asarray(sub), P[idx], "sub-sample equals the indexed rows")
    rec.check(same_kernel(sub.kernel, k) and sub.kernel is not k, "sub-sample has its own copy of the kernel")
    rec.equal(np.asarray(pcm), P, "original cloud unchanged")
    # every block adds at most `block` points, so points that many positions apart are of different blocks
    Es = E[np.ix_(idx, idx)]
    bad = [(p, q) for q in range(block, len(idx)) for p in range(0, q - block + 1) if Es[p, q] < md * (1 - 1e-9)]
    rec.check(not bad, "minimum distance to points of earlier blocks", lambda: f"{[(idx[p], idx[q], Es[p, q]) for p, q in bad[:4]]} minimum {md}")
    if nb == 1:
        rec.check(len(idx) == n, "a single block selects all points", len(idx))
    if madd == 0:
        near = E[:, idx].min(axis=1)
        left = np.setdiff1d(np.arange(n), idx)
        rec.check((near[left] < md * (1 + 1e-9)).all(), "entire cloud covered if no minimum number of added points is set", lambda: f"{left[near[left] >= md][:5]} {near[left].max()} {md}")
    # same call, same result
    again = pcm_subsample(pcm, **kw)[1]
    rec.equal(np.asarray(again), idx, "repeated sub-sampling")
    full = pcm_subsample(pcm, **dict(kw, min_added_per_iteration=0))[1]
    rec.check(len(full) >= len(idx) and np.array_equal(np.asarray(full)[:len(idx)], idx), "early termination returns the first part of the full sub-sample", f"{len(full)} {len(idx)}")


@family(quick=150, thorough=4000)
def outlier(rec, rng):
    n, d = int(rng.integers(3, 40)), int(rng.integers(1, 4))
    P = cloud(rng, n, d)
    E = direct(P, P, "euclidean")
    c = pick_cut_off(rng, [E], "euclidean") if rng.random() < .9 else np.inf
    kmin = int(rng.integers(1, min(n, 8) + 2))
    k = GaussianKernel(epsilon=float(rng.uniform(.1, 4)))
    pcm = PCManifold(P, kernel=k, dist_kwargs=dict(cut_off=3., backend="brute"))
    ok, res = rec.attempt(lambda: pcm_remove_outlier(pcm, kmin, c), "outlier removal")
    if not ok:
        return
    new, removed = res
    cnt = (E < c).sum(axis=1)  # neighbours within the range including the point itself
    keep = cnt >= kmin
    rec.sig(n, d, kmin, np.isfinite(c), int(keep.sum()))
    rec.equal(np.asarray(removed), np.flatnonzero(~keep), "removed points lack neighbours", f"counts {cnt} kmin {kmin}")
    rec.equal(np.asarray(new), P[keep], "remaining points")
    rec.check(same_kernel(new.kernel, k) and new.cut_off == 3. and new.dist_kwargs["backend"] == "brute", "settings kept for the remaining points", new.dist_kwargs)
    rec.equal(np.asarray(pcm), P, "original cloud unchanged")


@family(quick=250, thorough=6000)
def estimate(rec, rng):
    n, d = int(rng.integers(2, 60)), int(rng.integers(1, 4))
    P = cloud(rng, n, d)
    E = direct(P, P, "euclidean")
    if E.max() <= 0:
        raise Skip()
    k = int(rng.integers(2, 30))
    seed = int(rng.integers(100))
    X = PCManifold(P) if rng.random() < .5 else P
    kth = np.sort(E, axis=1)[:, min(k, n) - 1]
    at = 1e-6 * max(1, np.abs(P).max())
    # full sample
    exp = E.max() if n < 10 else kth.max()
    kk = k if rng.random() < .7 else float(k)
    got = estimate_cutoff(X, k=kk, random_state=seed)
    rec.sig(n, d, k, n < 10)
    rec.close(got, exp, "cut-off is the largest distance to the k-th nearest neighbour", rtol=1e-6, atol=at)
    if n >= 10 and k <= n:
        rec.close(estimate_cutoff(X, k=k, distance_matrix=E), kth.max(), "cut-off from a given distance matrix", rtol=1e-9, atol=1e-12)
        ns = int(rng.integers(2, n + 1))
        g1 = estimate_cutoff(X, n_subsample=ns, k=k, random_state=seed)
        g2 = estimate_cutoff(X, n_subsample=ns, k=k, random_state=seed)
        rec.check(g1 == g2, "same random state gives the same cut-off", f"{g1} {g2}")
        rec.check(np.abs(kth - g1).min() <= at and g1 <= kth.max() + at, "sub-sampled cut-off is the distance of a point to its k-th neighbour in the entire cloud", f"{g1} {kth}")
        rank = (kth <= g1 + 2 * at).sum()
        rec.check(rank >= ns, "sub-sampled cut-off is the largest among the sub-sampled points", f"{rank} points have smaller distances, sub-sample {ns}")
    tol = 10. ** float(rng.uniform(-12, -1))
    c = float(rng.uniform(.1, 5))
    e = estimate_scale(X, tol=tol, cut_off=c)
    rec.close(np.exp(-c ** 2 / e), tol, "scale: kernel decays to the tolerance at the cut-off", rtol=1e-8, atol=0)
    e = estimate_scale(X, tol=tol, k=k, random_state=seed)
    rec.close(e, got ** 2 / -np.log(tol), "scale from the estimated cut-off", rtol=1e-12, atol=0)
    # optimized parameters
    if not got > 0:
        return
    kern = GaussianKernel(epsilon=.123)
    pcm = PCManifold(P, kernel=kern, dist_kwargs=dict(backend="brute"))
    scale = float(rng.choice([1., .5, 2.]))
    inplace = bool(rng.random() < .6)
    c1, e1 = pcm.optimize_parameters(k=k, tol=tol, random_state=seed, result_scaling=scale, inplace=inplace)
    rec.close(c1, scale * got, "optimized cut-off", rtol=1e-9, atol=1e-12)
    rec.close(e1, c1 ** 2 / -np.log(tol), "optimized scale belongs to the scaled cut-off", rtol=1e-9, atol=0)
    rec.check((pcm.cut_off, pcm.kernel.epsilon) == ((c1, e1) if inplace else (np.inf, .123)), "parameters set in place exactly if requested", f"{pcm.cut_off} {pcm.kernel.epsilon}")
    rec.check(pcm.dist_kwargs["backend"] == "brute", "other distance settings kept", pcm.dist_kwargs)
    rec.equal(np.asarray(pcm), P, "points unchanged")
