"""Reference distances and range checks shared by the checks of distances, kernels and models on point clouds."""
import numpy as np
import scipy.sparse as sp
from vlib.core import Skip

FORMULA = {
    "euclidean": lambda a, b: np.sqrt(np.sum((a - b) ** 2)),
    "sqeuclidean": lambda a, b: np.sum((a - b) ** 2),
    "cityblock": lambda a, b: np.sum(np.abs(a - b)),
    "chebyshev": lambda a, b: np.max(np.abs(a - b)),
    "minkowski": lambda a, b: np.sum(np.abs(a - b) ** 3) ** (1 / 3),
    "hamming": lambda a, b: np.mean(a != b),
    "canberra": lambda a, b: np.sum([abs(x - y) / (abs(x) + abs(y)) if x or y else 0. for x, y in zip(a, b)]),
    "cosine": lambda a, b: 1 - np.dot(a, b) / np.sqrt(np.dot(a, a) * np.dot(b, b)),
}
TREE = ["euclidean", "sqeuclidean"]


def direct(X, Y, metric):
    """entry (i, j) is the distance of query i and reference j"""
    return np.array([[FORMULA[metric](y, x) for x in X] for y in Y]).reshape(len(Y), len(X))


def cloud(rng, n, d, kind=None):
    kind = kind or str(rng.choice(["normal", "grid", "clusters", "duplicates", "line", "scaled"]))
    if kind == "grid":
        return rng.integers(0, 4, (n, d)).astype(float)
    P = rng.normal(size=(n, d))
    if kind == "clusters":
        P = .1 * P + 5 * rng.integers(0, 3, (n, 1))
    elif kind == "duplicates":
        P = P[rng.integers(0, max(1, n // 2), n)]
    elif kind == "line":
        P = np.outer(rng.normal(size=n), rng.normal(size=d))
    elif kind == "scaled":
        P = P * 10. ** rng.uniform(-3, 3) + 10. ** rng.uniform(-3, 1)
    return P


def pick_cut_off(rng, Ds, metric):
    """a cut-off (Euclidean for the squared metric) that is clearly separated from every distance"""
    v = np.unique(np.concatenate([np.ravel(d) for d in Ds]))
    if metric == "sqeuclidean":
        v = np.sqrt(v)
    v = np.concatenate([[0.], v[v > 0], [2 * max(v.max(), 1e-3) + 1e-3]])
    gaps = np.flatnonzero(np.diff(v) > 1e-6 * v.max())
    if not len(gaps):
        raise Skip()
    g = int(rng.choice(gaps))
    return float(v[g] + rng.uniform(.2, .8) * (v[g + 1] - v[g]))


def entries(M):
    """stored entries of a result: dict (row, column) -> value; every position appears once"""
    c = M.tocoo()
    e = {}
    for i, j, v in zip(c.row, c.col, c.data):
        if (i, j) in e:
            return None
        e[(int(i), int(j))] = float(v)
    return e


def tol(ref, approx):
    return 1e-9 * max(1., np.abs(ref).max()) if not approx else 1e-6 * max(1., np.abs(ref).max())


def check_range(rec, M, ref, metric, cut_off, kmin, pair, tag, approx=False, positions=None):
    n, m = ref.shape
    if cut_off is None or np.isinf(cut_off):
        if not rec.check(isinstance(M, np.ndarray), f"{tag}: dense matrix without cut-off", type(M)):
            return
        rec.close(M, ref, f"{tag}: dense distances", rtol=1e-9, atol=tol(ref, approx))
        return
    if not rec.check(sp.issparse(M), f"{tag}: sparse matrix with cut-off", type(M)):
        return
    if not rec.check(M.shape == ref.shape, f"{tag}: shape", f"{M.shape} expected {ref.shape}"):
        return
    e = entries(M)
    if not rec.check(e is not None, f"{tag}: every pair stored once"):
        return
    thr = cut_off ** 2 if metric == "sqeuclidean" else cut_off
    inside = {(int(i), int(j)) for i, j in zip(*np.nonzero(ref < thr))}
    got = set(e)
    missing = sorted(inside - got)
    rec.check(not missing, f"{tag}: all pairs within the cut-off stored (including true zeros)", lambda: f"missing {missing[:5]} distances {[ref[p] for p in missing[:5]]} cut-off {cut_off}")
    worst = max((abs(v - ref[p]) for p, v in e.items()), default=0.)
    rec.check(worst <= tol(ref, approx), f"{tag}: stored distances", lambda: f"max error {worst}: {[(p, v, ref[p]) for p, v in e.items() if abs(v - ref[p]) > tol(ref, approx)][:4]}")
    extra = got - inside
    need = 0 if kmin is None else kmin
    if need <= (1 if pair else 0):
        rec.check(not extra, f"{tag}: no pair beyond the cut-off stored", lambda: f"{sorted(extra)[:5]} {[ref[p] for p in sorted(extra)[:5]]} cut-off {cut_off}")
        return
    cnt = np.bincount([p[0] for p in got], minlength=n)
    rec.check(cnt.min() >= need, f"{tag}: minimum number of neighbours", lambda: f"{cnt.tolist()} need {need}")
    few = np.array([(ref[i] < thr).sum() < need for i in range(n)])
    kth = np.sort(ref, axis=1)[:, need - 1] * (1 + 1e-9) + 1e-12
    bad = [(i, j) for i, j in extra if not (few[i] and ref[i, j] <= kth[i]) and not (pair and few[j] and ref[j, i] <= kth[j])]
    rec.check(not bad, f"{tag}: only the nearest neighbours are added beyond the cut-off", lambda: f"{bad[:5]}")
    gone = [(i, j) for i in range(n) if few[i] for j in np.flatnonzero(ref[i] < kth[i] * (1 - 1e-6) - 1e-9) if (i, int(j)) not in e]
    rec.check(not gone, f"{tag}: nearest neighbours of sparse rows", lambda: f"missing {gone[:5]}")
