"""C27: numerical helpers equal their dense mathematical definition."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib.core import family, Skip
from datafold.pcfold import TSCDataFrame, eigsolver
from datafold.pcfold.distance import compute_distance_matrix
from datafold.pcfold.eigsolver import compute_kernel_eigenpairs, compute_kernel_svd
from datafold.pcfold.kernels import BaseManifoldKernel, GaussianKernel
from datafold.pcfold import kernels as kmod
from datafold.utils import general as G

RULE = "matrices (dense, sparse with stored zeros, integer, boolean, single precision, complex, rank deficient, repeated eigenvalues) x helper x full or partial spectra; distinct by (helper, representation, sizes, options)"


class Flags(BaseManifoldKernel):
    """a kernel that only carries the properties the solver needs"""

    def __init__(self, symmetric, stochastic, distance=None):
        super().__init__(is_symmetric=symmetric, is_stochastic=stochastic, distance=distance)

    def __call__(self, X, Y=None, **kw):
        raise NotImplementedError

    def diag(self, X):
        raise NotImplementedError

    def is_stationary(self):
        raise NotImplementedError


def draw(rng, m, n, kinds=("normal", "sparse", "int", "rank", "complex")):
    kind = str(rng.choice(kinds))
    A = rng.normal(size=(m, n)) * 10. ** rng.uniform(-2, 2)
    if kind == "sparse":
        A = A * (rng.random((m, n)) < rng.uniform(.1, .7))
    elif kind == "int":
        A = rng.integers(-5, 6, (m, n))
    elif kind == "rank":
        r = max(1, min(m, n) // 2)
        A = rng.normal(size=(m, r)) @ rng.normal(size=(r, n))
    elif kind == "complex":
        A = A + 1j * rng.normal(size=(m, n))
    return kind, A


def represent(rng, A, allow_sparse=True):
    """the same matrix in another representation; sparse ones may store zeros"""
    r = rng.random()
    if allow_sparse and r < .5:
        c = str(rng.choice(["csr", "csc", "coo"]))
        i, j = np.nonzero(np.abs(A) + (rng.random(A.shape) < .2))
        M = sp.coo_matrix((A[i, j], (i, j)), shape=A.shape).asformat(c)
        return c, M
    if r < .6:
        return "F", np.asfortranarray(A)
    if r < .7:
        big = np.zeros((2 * A.shape[0], 2 * A.shape[1]), A.dtype)
        big[::2, ::2] = A
        return "strided", big[::2, ::2]
    return "C", A.copy()


def dense(M):
    return M.toarray() if sp.issparse(M) else np.asarray(M)


def frozen(M):
    if sp.issparse(M):
        c = M.tocoo()
        return sorted(zip(c.row.tolist(), c.col.tolist(), [repr(v) for v in c.data]))
    return np.array(M, copy=True)


def unchanged(M, f):
    g = frozen(M)
    return g == f if isinstance(f, list) else np.array_equal(f, g, equal_nan=True)


@family(quick=300, thorough=8000)
def products(rec, rng):
    m, n = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    kind, A = draw(rng, m, n)
    rep, M = represent(rng, A)
    left = bool(rng.random() < .5)
    d = rng.normal(size=m if left else n)
    if rng.random() < .3:
        d[rng.integers(len(d))] = 0.
    if rng.random() < .2:
        d = rng.integers(-3, 4, len(d))
    if rng.random() < .2:
        d = d + 1j * rng.normal(size=len(d))
    ref = np.diag(d) @ A if left else A @ np.diag(d)
    fM, d0 = frozen(M), d.copy()
    call = (lambda **kw: G.diagmat_dot_mat(d, M, **kw)) if left else (lambda **kw: G.mat_dot_diagmat(M, d, **kw))
    tag = "diagonal times matrix" if left else "matrix times diagonal"
    outkind = "none"
    if not sp.issparse(M) and rng.random() < .5:
        outkind = "new" if rng.random() < .5 or M.dtype != ref.dtype else "self"
    rec.sig(tag, kind, rep, m == n, outkind, d.dtype.kind)
    if outkind == "none":
        R = call()
        rec.check(sp.issparse(R) == sp.issparse(M), f"{tag}: sparse exactly if the matrix is", type(R))
        rec.check(unchanged(M, fM), f"{tag}: matrix unchanged")
    elif outkind == "new":
        out = np.full(ref.shape, 7, dtype=ref.dtype)
        R = call(out=out)
        rec.check(R is out, f"{tag}: designated output returned")
        rec.check(unchanged(M, fM), f"{tag}: matrix unchanged with another output")
    else:
        R = call(out=M)
        rec.check(R is M, f"{tag}: matrix is the designated output")
    rec.close(dense(R), ref, tag, rtol=1e-12, atol=1e-12 * max(1, np.abs(ref).max()))
    rec.equal(d, d0, f"{tag}: diagonal unchanged")


@family(quick=250, thorough=6000)
def sorting(rec, rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    kind = str(rng.choice(["real", "ties", "complex", "conjugate", "int"]))
    ev = rng.normal(size=n)
    if kind == "ties":
        ev = rng.integers(-2, 3, n).astype(float)
    elif kind == "int":
        ev = rng.permutation(n)
    elif kind == "complex":
        ev = ev + 1j * rng.normal(size=n)
    elif kind == "conjugate":
        A = rng.normal(size=(n, n))
        ev = np.linalg.eigvals(A)[rng.permutation(n)]
    R = rng.normal(size=(m, n)) + (1j * rng.normal(size=(m, n)) if rng.random() < .5 else 0)
    L = rng.normal(size=(n, m)) if rng.random() < .6 else None
    asc = bool(rng.random() < .5)
    keep = [ev.copy(), R.copy(), None if L is None else L.copy()]
    res = G.sort_eigenpairs(ev, R, left_eigenvectors=L, ascending=asc)
    rec.sig(kind, n, L is not None, asc)
    if not rec.check(len(res) == (2 if L is None else 3), "sorting returns the given groups", len(res)):
        return
    w = res[0]
    s = np.sort(keep[0])
    rec.equal(w, s if asc else s[::-1], "eigenvalues in the requested order", f"{w}")
    # pairs stay together: match every sorted column with an original column
    used = set()
    ok = True
    for j in range(n):
        c = [i for i in range(n) if i not in used and keep[0][i] == w[j] and np.array_equal(keep[1][:, i], res[1][:, j]) and (L is None or np.array_equal(keep[2][i], res[2][j]))]
        if not c:
            ok = False
            break
        used.add(c[0])
    rec.check(ok, "vectors stay paired with their eigenvalues", f"{w}")
    rec.check(np.array_equal(ev, keep[0]) and np.array_equal(R, keep[1]) and (L is None or np.array_equal(L, keep[2])), "sorting does not change its inputs")
    if rng.random() < .2:
        rec.raises(lambda: G.sort_eigenpairs(ev, np.zeros((m, n + 1))), "mismatching number of vectors rejected", ValueError)
        rec.raises(lambda: G.sort_eigenpairs(ev, R, left_eigenvectors=np.zeros((n + 1, m))), "mismatching number of left vectors rejected", ValueError)
        rec.raises(lambda: G.sort_eigenpairs(np.zeros((n, 1)), R), "eigenvalues that are no vector rejected", ValueError)


def spectrum_matrix(rng, n):
    """(matrix, symmetric, stochastic)"""
    kind = str(rng.choice(["symmetric", "psd", "general", "stochastic", "symstochastic", "bool", "int", "repeated", "sparse", "zero"]))
    A = rng.normal(size=(n, n))
    if kind == "symmetric":
        return kind, A + A.T, True, False
    if kind == "psd":
        return kind, A @ A.T, True, False
    if kind == "general":
        return kind, A, False, False
    if kind == "stochastic":
        P = np.exp(A)
        return kind, P / P.sum(axis=1, keepdims=True), False, True
    if kind == "symstochastic":
        # conjugate of a stochastic matrix: symmetric with leading eigenvalue one
        X = rng.normal(size=(n, 2))
        K = np.exp(-((X[:, None] - X[None]) ** 2).sum(-1))
        q = np.sqrt(K.sum(axis=1))
        K = K / q[:, None] / q[None]
        return kind, (K + K.T) / 2, True, True
    if kind == "bool":
        return kind, (A + A.T) > 0, True, False
    if kind == "int":
        B = rng.integers(-4, 5, (n, n))
        return kind, B + B.T, True, False
    if kind == "repeated":
        Q = np.linalg.qr(A)[0]
        S = Q @ np.diag(rng.integers(1, 4, n).astype(float)) @ Q.T
        return kind, (S + S.T) / 2, True, False
    if kind == "sparse":
        B = (A + A.T) * (np.abs(A + A.T) > 1.)
        return kind, B + np.diag(rng.uniform(1, 2, n)), True, False
    return kind, np.diag(np.r_[0., rng.uniform(1, 2, n - 1)]), True, False


@family(quick=400, thorough=10000)
def eigenpairs(rec, rng):
    n = int(rng.integers(2, 14))
    kind, A, sym, sto = spectrum_matrix(rng, n)
    rep, M = represent(rng, A)
    if rep == "coo":
        M = M.tocsr()
    if sp.issparse(M) and M.nnz == 0:
        raise Skip()
    k = n if rng.random() < .3 else int(rng.integers(1, n + 1))
    norm = bool(rng.random() < .5)
    fM = frozen(M)
    Ad = np.asarray(A, float)
    # what a full dense solver finds
    full = np.linalg.eigvalsh(Ad) if sym else np.linalg.eigvals(Ad)
    order = np.argsort(-full.real) if (sym and sto) else np.argsort(-np.abs(full))
    if k < n:
        mag = full.real if (sym and sto) else np.abs(full)
        if abs(mag[order[k - 1]] - mag[order[k]]) < 1e-3 * max(1e-12, mag[order[0]]):
            raise Skip()  # the selected pairs are not determined
    if k < n and np.linalg.matrix_rank(Ad) < k:
        raise Skip()
    ok, res = rec.attempt(lambda: compute_kernel_eigenpairs(Flags(sym, sto), M, k, normalize_eigenvectors=norm), f"{kind} {'sparse' if sp.issparse(M) else 'dense'} {'full' if k == n else 'partial'}: eigenpairs computed")
    if not ok:
        return
    w, V = res
    rec.sig(kind, rep, k == n, k == n - 1, norm, sym, sto)
    rec.note(matrix=Ad.tolist(), k=k, rep=rep)
    if not rec.check(w.shape == (k,) and V.shape == (n, k), "requested number of eigenpairs", f"{w.shape} {V.shape}"):
        return
    scale = max(1e-12, np.abs(full).max())
    nv = np.linalg.norm(V, axis=0)
    rec.check((nv > 1e-8).all(), "eigenvectors are not zero", nv)
    tolr = 1e-7 if sym else 1e-6 * max(1, np.linalg.cond(np.linalg.eig(Ad)[1]) ** .5 if not sym else 1)
    rec.check(np.abs(Ad @ V - V * w).max() <= tolr * scale * max(1, nv.max()), "eigenpairs satisfy A v = lambda v", lambda: f"residual {np.abs(Ad @ V - V * w).max()} scale {scale}")
    if sym:
        rec.check(not np.iscomplexobj(w) and not np.iscomplexobj(V), "symmetric kernels have real eigenpairs")
        Vn = V / nv
        rec.check(np.abs(Vn.T @ Vn - np.eye(k)).max() < 1e-6, "eigenvectors of symmetric matrices are orthonormal", lambda: np.abs(Vn.T @ Vn - np.eye(k)).max())
    if norm:
        rec.close(nv, np.ones(k), "normalized eigenvectors", rtol=1e-9)
    key = w
    rec.check(all(key[i].real >= key[i + 1].real - 1e-9 * scale for i in range(k - 1)), "eigenvalues sorted in descending order", w)
    exp = full[order[:k]]
    # compare as multisets
    ww, ee = list(w), list(exp)
    worst = 0.
    for v in ee:
        i = int(np.argmin([abs(v - u) for u in ww]))
        worst = max(worst, abs(v - ww.pop(i)))
    lim = 1e-7 if sym else 1e-5
    rec.check(worst <= lim * scale * 10, "eigenvalues are the leading ones", lambda: f"{w} expected {exp}")
    rec.check(unchanged(M, fM), "kernel matrix unchanged")


@family(quick=60, thorough=1500)
def knn_eigenpairs(rec, rng):
    """symmetric kernel, neighbour distances: matrix is not symmetric, also for the full spectrum"""
    n = int(rng.integers(5, 12))
    A = rng.normal(size=(n, n)) * (rng.random((n, n)) < .7) + np.diag(rng.uniform(3, 6, n)) + np.diag(np.arange(n) * .3)
    full = np.linalg.eigvals(A)
    if np.abs(full.imag).max() > 1e-12 or np.linalg.cond(np.linalg.eig(A)[1]) > 1e4:
        # real spectra only: make the matrix triangular (similar by permutation)
        A = np.triu(A)
        p = rng.permutation(n)
        A = A[np.ix_(p, p)]
        full = np.linalg.eigvals(A)
        if np.abs(full.imag).max() > 0 or np.linalg.cond(np.linalg.eig(A)[1]) > 1e4:
            raise Skip()
    dist = dict(backend="sklearn.knn", k=3)
    try:
        kern = Flags(True, False, distance=dist)
    except Exception:
        raise Skip()
    if kern.is_symmetric:
        raise Skip()
    rep, M = represent(rng, A)
    M = M.tocsr() if sp.issparse(M) else M
    k = n if rng.random() < .6 else n - int(rng.integers(1, 3))
    mag = np.sort(np.abs(full))[::-1]
    if k < n and mag[k - 1] - mag[k] < 1e-3 * mag[0]:
        raise Skip()
    ok, res = rec.attempt(lambda: compute_kernel_eigenpairs(kern, M, k), "neighbour matrix: eigenpairs computed")
    if not ok:
        return
    w, V = res
    rec.sig(rep, k - n)
    if rec.check(w.shape == (k,) and V.shape == (n, k), "neighbour matrix: number of eigenpairs", w.shape):
        rec.check(np.abs(A @ V - V * w).max() <= 1e-6 * np.abs(full).max(), "neighbour matrix: eigenpairs satisfy A v = lambda v", lambda: np.abs(A @ V - V * w).max())


@family(quick=60, thorough=800)
def rejected(rec, rng):
    n = int(rng.integers(3, 8))
    A = rng.normal(size=(n, n)); A = A + A.T
    kind = int(rng.integers(7))
    rec.sig(kind, n)
    kern = Flags(True, False)
    if kind == 0:
        B = A.copy(); B[rng.integers(n), rng.integers(n)] = rng.choice([np.nan, np.inf])
        M = B if rng.random() < .5 else sp.csr_matrix(B)
        rec.raises(lambda: compute_kernel_eigenpairs(kern, M, 2), "kernel matrix that is not finite rejected", ValueError)
    elif kind == 1:
        rec.raises(lambda: compute_kernel_eigenpairs(kern, A[:, :-1], 2), "kernel matrix that is not square rejected", ValueError)
    elif kind == 2:
        B = A.copy(); B[0, 1] += 1.
        rec.raises(lambda: compute_kernel_eigenpairs(kern, B, 2, validate_matrix=True), "kernel matrix that is not symmetric rejected on validation", ValueError)
        rec.attempt(lambda: compute_kernel_eigenpairs(kern, A, 2, validate_matrix=True), "symmetric matrix passes the validation")
    elif kind == 3:
        rec.raises(lambda: compute_kernel_eigenpairs(kern, A, 2, backend="other"), "unknown eigensolver rejected", ValueError)
    elif kind == 4:
        rec.raises(lambda: compute_kernel_svd(A[:, :-1], n), "too many singular triplets rejected", ValueError)
    elif kind == 5:
        rec.raises(lambda: compute_kernel_svd(A, 2, backend="other"), "unknown SVD backend rejected", ValueError)
    else:
        rec.raises(lambda: G.random_subsample(A, [0, n, n + 3, -1][rng.integers(4)]), "invalid sub-sample size rejected", ValueError)


@family(quick=250, thorough=6000)
def svd(rec, rng):
    m, n = int(rng.integers(2, 14)), int(rng.integers(2, 10))
    kind, A = draw(rng, m, n, ("normal", "sparse", "int", "rank"))
    rep, M = represent(rng, A)
    if rep == "coo":
        M = M.tocsr()
    p = min(m, n)
    k = p if rng.random() < .4 else int(rng.integers(1, p + 1))
    s = np.linalg.svd(np.asarray(A, float), compute_uv=False)
    if s[0] < 1e-10 or (k < p and (s[k - 1] - s[k] < 1e-3 * s[0] or s[k - 1] < 1e-6 * s[0])):
        raise Skip()
    fM = frozen(M)
    ok, res = rec.attempt(lambda: compute_kernel_svd(M, k), f"{'full' if k == p else 'partial'} SVD computed")
    if not ok:
        return
    U, sv, Vt = res
    rec.sig(kind, rep, m > n, k == p)
    rec.note(matrix=np.asarray(A).tolist(), k=k)
    if not rec.check(U.shape == (m, k) and sv.shape == (k,) and Vt.shape == (k, n), "requested number of singular triplets", f"{U.shape} {sv.shape} {Vt.shape}"):
        return
    rec.close(sv, s[:k], "leading singular values in descending order", rtol=1e-7, atol=1e-7 * s[0])
    rec.check(np.abs(A @ Vt.T - U * sv).max() < 1e-6 * s[0], "A v = sigma u", lambda: np.abs(A @ Vt.T - U * sv).max())
    rec.check(np.abs(A.T @ U - Vt.T * sv).max() < 1e-6 * s[0], "u A = sigma v", lambda: np.abs(A.T @ U - Vt.T * sv).max())
    rec.check(np.abs(U.T @ U - np.eye(k)).max() < 1e-6 and np.abs(Vt @ Vt.T - np.eye(k)).max() < 1e-6, "singular vectors are orthonormal")
    again = compute_kernel_svd(M, k)
    rec.check(all(np.array_equal(a, b) for a, b in zip(res, again)), "repeated SVD is identical")
    rec.check(unchanged(M, fM), "matrix unchanged by SVD")


@family(quick=250, thorough=6000)
def symmetry(rec, rng):
    """symmetric part, symmetry and stochasticity tests, symmetric division, k-th neighbour"""
    n = int(rng.integers(2, 9))
    kind, A = draw(rng, n, n, ("normal", "sparse", "int"))
    if rng.random() < .5:
        A = A + A.T
    rep, M = represent(rng, A)
    M = M.tocsr() if sp.issparse(M) else M
    rec.sig(kind, rep, n)
    mirror = lambda e: e | {(j, i) for i, j in e}
    stored = {(int(i), int(j)) for i, j in zip(*M.tocoo().coords)} if sp.issparse(M) and hasattr(M.tocoo(), "coords") else ({(int(i), int(j)) for i, j in zip(M.tocoo().row, M.tocoo().col)} if sp.issparse(M) else None)
    ref = (A + A.T) / 2
    arg = M.copy()
    farg = frozen(arg)
    S = G.remove_numeric_noise_symmetric_matrix(arg)
    rec.close(dense(S), ref, "symmetric part", rtol=1e-13, atol=1e-13)
    rec.check(np.array_equal(dense(S), dense(S).T), "symmetric part is exactly symmetric")
    if sp.issparse(M):
        rec.check(unchanged(arg, farg), "symmetric part does not change a sparse argument")
        c = S.tocoo()
        rec.check({(int(i), int(j)) for i, j in zip(c.row, c.col)} >= {p for p in mirror(stored)}, "stored zeros are kept in the symmetric part")
    dev = float(np.abs(A - A.T).max())
    for t in (0, dev * .99, dev * 1.01, 1e-8):
        got = G.is_symmetric_matrix(M, tol=t)
        rec.check(bool(got) == (dev <= t), "symmetry test compares with the tolerance", f"deviation {dev} tol {t} got {got}")
    # stochastic
    P = np.abs(np.asarray(A, float)) + .1
    axis = int(rng.integers(2))
    P = P / P.sum(axis=axis, keepdims=True)
    if rng.random() < .5:
        i, j = rng.integers(n, size=2)
        P[i, j] += 10. ** rng.uniform(-6, -1)
    t = 10. ** float(rng.uniform(-8, -1))
    dv = float(np.abs(P.sum(axis=axis) - 1).max())
    if abs(dv - t) > 1e-13:
        got = G.is_stochastic_matrix(sp.csr_matrix(P) if rng.random() < .5 else P, axis=axis, tol=t)
        rec.check(bool(got) == (dv <= t), "stochasticity test compares sums with the tolerance", f"deviation {dv} tol {t} axis {axis} got {got}")
    # symmetric division
    div = getattr(kmod, "_symmetric_matrix_division", None)
    if div is not None:
        Af = np.asarray(A, float)
        rect = bool(rng.random() < .4)
        B = Af[:, : max(1, n - 1)] if rect else (Af + Af.T) / 2
        l = rng.uniform(.3, 3, n) * rng.choice([1, 1, 1, -1], n)
        r = rng.uniform(.3, 3, B.shape[1]) if rect else None
        sc = float(rng.choice([1., 2.5]))
        Bm = sp.csr_matrix(B) if rng.random() < .5 else B.copy()
        l0 = l.copy()
        D = div(Bm, vec=l, is_symmetric=not rect, vec_right=r, scalar=sc)
        rec.close(dense(D), B / np.outer(l, l if r is None else r) / sc, "symmetric division", rtol=1e-12, atol=1e-13)
        rec.equal(l, l0, "symmetric division does not change the vector")
        l[rng.integers(n)] = 0.
        rec.raises(lambda: div(B.copy(), vec=l, is_symmetric=not rect, vec_right=r), "division by zero rejected", ZeroDivisionError)
    kth = getattr(kmod, "_kth_nearest_neighbor_dist", None)
    if kth is not None:
        X = rng.normal(size=(n, 2))
        Q = rng.normal(size=(4, 2))
        Dm = compute_distance_matrix(X, Q)
        k = int(rng.integers(1, n + 1))
        use = sp.csr_matrix(Dm) if rng.random() < .5 else Dm
        rec.close(kth(use, k), np.sort(Dm, axis=1)[:, k - 1], "distance to the k-th neighbour", rtol=1e-13)


@family(quick=200, thorough=4000)
def selection(rec, rng):
    """sub-samples, projections, indices, meshes, scalar tests"""
    n, d = int(rng.integers(2, 20)), int(rng.integers(1, 5))
    X = rng.normal(size=(n, d))
    k, seed = int(rng.integers(1, n)), int(rng.integers(1000))
    S, idx = G.random_subsample(X, k, random_state=seed)
    S2, idx2 = G.random_subsample(X, k, random_state=seed)
    rec.sig(n, d, k)
    idx = np.asarray(idx)
    rec.check(len(idx) == k and len(np.unique(idx)) == k and (idx >= 0).all() and (idx < n).all(), "sub-sample draws distinct rows", idx)
    rec.equal(S, X[idx], "sub-sample equals the indexed rows")
    rec.check(np.array_equal(idx, idx2), "same random state gives the same sub-sample")
    full = [tuple(G.random_subsample(X, k, random_state=s)[1]) for s in range(12)]
    if n >= 8 and 2 <= k:
        rec.check(len(set(full)) > 1, "sub-sample depends on the random state")
        seen = set().union(*[set(f) for f in [tuple(G.random_subsample(X, k, random_state=s)[1]) for s in range(200)]])
        rec.check(seen == set(range(n)), "every row can be sampled", f"{sorted(set(range(n)) - seen)}")
    # projection
    names = pd.Index([f"f{i}" for i in rng.permutation(d + 2)])
    sel = pd.Index(rng.permutation(names)[: int(rng.integers(1, d + 3))])
    P = G.projection_matrix_from_feature_names(names, sel)
    Z = pd.DataFrame(rng.normal(size=(3, d + 2)), columns=names)
    rec.equal(np.asarray(Z.to_numpy() @ P), Z[sel].to_numpy(), "projection selects the features in the requested order")
    rec.raises(lambda: G.projection_matrix_from_feature_names(names, pd.Index(["unknown"])), "projection on unknown features rejected", ValueError)
    # indices from another frame
    tsc = TSCDataFrame.from_single_timeseries(pd.DataFrame(X, columns=[f"x{i}" for i in range(d)]))
    V = rng.normal(size=(n, d))
    r = G.df_type_and_indices_from(tsc, V)
    rec.check(isinstance(r, TSCDataFrame) and r.index.equals(tsc.index) and list(r.columns) == list(tsc.columns) and np.array_equal(r.to_numpy(), V), "values with the indices of a time series collection")
    W = rng.normal(size=(n, d + 1))
    cols = [f"y{i}" for i in range(d + 1)]
    r = G.df_type_and_indices_from(pd.DataFrame(X), W, except_columns=cols)
    rec.check(type(r) is pd.DataFrame and list(r.columns) == cols and np.array_equal(r.to_numpy(), W), "values with other columns")
    # regular mesh
    nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    lo, hi = rng.uniform(-3, 0, 2), rng.uniform(1, 4, 2)
    Mh = G.generate_2d_regular_mesh(tuple(lo), tuple(hi), nx, ny)
    ref = {(a, b) for a in np.linspace(lo[0], hi[0], nx) for b in np.linspace(lo[1], hi[1], ny)}
    rec.check(Mh.shape == (nx * ny, 2) and {tuple(r) for r in Mh} == ref, "regular mesh contains every grid point once", Mh.shape)
    for v, e in ((3, True), (3., True), (np.float64(2.), True), (np.int8(1), True), (2.5, False), ("3", False), (np.nan, False), (np.inf, False), (None, False), (1j, False)):
        rec.check(bool(G.is_integer(v)) is e, "integer test", f"{v!r}")
