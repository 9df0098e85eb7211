"""C25: jointly smooth functions span the leading left singular space of the stacked kernel eigenvectors."""
import copy
import pickle
import numpy as np
import pandas as pd
from scipy.sparse.linalg import ArpackNoConvergence
from sklearn.base import clone
from vlib.core import family, Skip, AbortCase
from vlib.dist import direct, cloud
from vlib.dmapref import dense, setup
from datafold.pcfold import TSCDataFrame, GaussianKernel, MultiquadricKernel
from datafold.dynfold.jsf import JointlySmoothFunctions

RULE = "multimodal data (arrays, frames, time series) x 2 to 4 observations given by slices, indices or masks x kernels (dense, sparse) x eigenvector counts x eigenvalue cut-offs; histories of fits; distinct by (number of observations, data type, index types, settings)"


def give(rng, kind, P):
    cols = [f"x{i}" for i in range(P.shape[1])]
    if kind == "array":
        return P.copy()
    if kind == "frame":
        return pd.DataFrame(P.copy(), index=[f"r{i}" for i in range(len(P))], columns=cols)
    n, a = len(P), len(P) // 2
    if a < 2 or rng.random() < .4:
        return TSCDataFrame.from_single_timeseries(pd.DataFrame(P.copy(), columns=cols, index=.5 * np.arange(n)))
    idx = pd.MultiIndex.from_arrays([[3] * a + [1] * (n - a), list(range(a)) + list(range(n - a))], names=["ID", "time"])
    return TSCDataFrame(P.copy(), index=idx, columns=cols)


def labelled(rec, E, D, k, tag):
    t = TSCDataFrame if isinstance(D, TSCDataFrame) else (pd.DataFrame if isinstance(D, pd.DataFrame) else np.ndarray)
    if rec.check(type(E) is t, f"{tag}: same type as the input", f"{type(E).__name__} for {type(D).__name__}") and t is not np.ndarray:
        rec.check(E.index.equals(D.index), f"{tag}: row labels of the input")
        rec.check(list(E.columns) == [f"jsf{i}" for i in range(k)], f"{tag}: feature names", list(E.columns))


def partition(rng, d, ns):
    """columns of every observation (contiguous, mixed or overlapping)"""
    how = str(rng.choice(["contiguous", "mixed", "overlap"]))
    cuts = np.sort(rng.permutation(np.arange(1, d))[:ns - 1])
    if how == "contiguous":
        parts = np.split(np.arange(d), cuts)
    elif how == "mixed":
        parts = np.split(rng.permutation(d), cuts)
    else:
        parts = [np.sort(rng.permutation(d)[: int(rng.integers(1, d + 1))]) for _ in range(ns)]
    return how, parts


def as_index(rng, cols, d):
    if len(cols) and (np.diff(cols) == 1).all() and rng.random() < .6:
        return slice(int(cols[0]), int(cols[-1]) + 1)
    r = rng.random()
    if r < .35:
        return [int(c) for c in cols]
    if r < .7 or (np.diff(cols) < 0).any():
        return np.array(cols)
    m = np.zeros(d, dtype=bool); m[cols] = True
    return m


def instance(rng):
    n, ns = int(rng.integers(8, 26)), int(rng.choice([2, 2, 3, 4]))
    d = int(rng.integers(ns, ns + 4))
    c = rng.normal(size=(n + 6, 1))  # common variable
    Z = np.hstack([np.sin(rng.uniform(.5, 2) * c + rng.normal()) + rng.uniform(.05, 1) * rng.normal(size=(n + 6, 1)) for _ in range(d)])
    how, parts = partition(rng, d, ns)
    return n, d, ns, Z[:n], Z[n:], how, parts


def leading(s, m):
    """the m eigenvalues of largest magnitude (decreasing by value), if they and their eigenvectors are well defined"""
    o = s[np.argsort(-np.abs(s))]
    a = np.abs(o)
    if a[m - 1] <= 1e-7 * a[0] or a[m - 1] - a[m] <= 1e-5 * a[0] or np.abs(np.diff(np.sort(o[:m]))).min(initial=np.inf) <= 1e-6 * a[0]:
        return None
    return np.sort(o[:m])[::-1]


def call(rec, fn, mech):
    def run():
        try:
            return fn()
        except ArpackNoConvergence:
            raise Skip()  # (almost) repeated singular values: reported by the solver

    ok, r = rec.attempt(run, mech)
    if not ok:
        raise AbortCase(mech)
    return r


@family(quick=350, thorough=8000)
def smooth_functions(rec, rng):
    n, d, ns, X, Y, how, parts = instance(rng)
    splits, KX, KY, modes = [], [], [], []
    names = list(rng.permutation(["b", "a", "obs", "z"]))[:ns]
    for nm, cols in zip(names, parts):
        _, mode, kern, kx, ky = setup(rng, X[:, cols], Y[:, cols])
        if ns > 2 and rng.random() < .12:  # not positive definite: eigenvalues of both signs
            e = float(np.mean(direct(X[:, cols], X[:, cols], "sqeuclidean")))
            kern, mode = MultiquadricKernel(epsilon=e), "dense"
            kx, ky = (np.sqrt(direct(X[:, cols], Z[:, cols], "sqeuclidean") / (2 * e) + 1) for Z in (X, Y))
        splits.append((str(nm), kern, as_index(rng, cols, d)))
        KX.append(kx); KY.append(ky); modes.append(mode)
    spec = [np.linalg.eigvalsh(K) for K in KX]
    ok = [q for q in range(2, min(n - 1, 9) + 1) if all(leading(s, q) is not None for s in spec)]
    if not ok:
        raise Skip()
    m = int(rng.choice(ok))
    k = int(rng.integers(1, m)) if rng.random() < .75 else int(rng.integers(1, ns * m + 3))
    cut = 0
    if rng.random() < .3:
        s = leading(spec[int(rng.integers(ns))], m)
        j = int(rng.integers(len(s) - 1)) + 1
        cut = float(.5 * (s[j - 1] + s[j]))
        if cut <= 0:
            raise Skip()
    kept = []
    for s in spec:
        s = leading(s, m)
        if np.abs(s - cut).min() < 1e-9:
            raise Skip()
        kept.append(s[s > cut])
    if min(map(len, kept)) < (2 if ns == 2 else 1):
        raise Skip()
    kind = str(rng.choice(["array", "frame", "series"]))
    D, DY = give(rng, kind, X), give(rng, kind, Y)
    model = JointlySmoothFunctions(splits, n_kernel_eigenvectors=m, n_jointly_smooth_functions=k, kernel_eigenvalue_cut_off=cut)
    rec.sig(ns, kind, how, tuple(type(s[2]).__name__ for s in splits)[:2], "sparse" in modes, cut > 0, k < m)
    rec.note(X=X.tolist(), Y=Y.tolist(), parts=[p.tolist() for p in parts], m=m, k=k, cut=cut, kernels=[repr(s[1]) for s in splits])
    before = [copy.deepcopy(s[1].__dict__) for s in splits]
    if rng.random() < .25:  # an earlier fit leaves nothing
        try:
            model.fit(rng.normal(size=(n + 3, d)) * X.std())
        except (ValueError, ArpackNoConvergence):
            pass  # too few eigenvalues above the cut-off
    store = bool(rng.random() < .4)
    if rng.random() < .5:
        J = call(rec, lambda: model.fit_transform(D, store_kernel_matrix=store), "fit")
        rec.equal(np.asarray(J), np.asarray(model.jointly_smooth_vectors_), "fit_transform returns the functions on the training data")
    else:
        call(rec, lambda: model.fit(D, store_kernel_matrix=store), "fit")
        J = model.jointly_smooth_vectors_
    W, lam = [], []
    for i, (nm, _, _) in enumerate(splits):
        w, V = np.asarray(model.kernel_eigenvalues_[nm]), np.asarray(model.kernel_eigenvectors_[nm])
        if not rec.check(w.shape == kept[i].shape and V.shape == (n, len(w)), "kernel eigenvectors: number above the cut-off", lambda: f"{w} expected {kept[i]}"):
            return
        rec.close(w, kept[i], "kernel eigenvalues of every observation", rtol=1e-6, atol=1e-9)
        rec.check(np.abs(KX[i] @ V - V * w).max() < 1e-7 * w.max() and np.abs(V.T @ V - np.eye(len(w))).max() < 1e-7, "kernel eigenvectors of every observation")
        rec.check(store == ("kernel_matrix" in model.kernel_content_[nm]), "kernel matrix only stored on request")
        if store:
            rec.close(dense(model.kernel_content_[nm]["kernel_matrix"]), KX[i], "stored kernel matrix", rtol=1e-9, atol=1e-12)
        if kind == "series":
            rec.check(isinstance(model.kernel_eigenvectors_[nm], TSCDataFrame) and model.kernel_eigenvectors_[nm].index.equals(D.index), "kernel eigenvectors carry the labels of the data")
        W.append(V); lam.append(w)
    S = np.column_stack(W)
    U, sv, _ = np.linalg.svd(S)
    kk = J.shape[1]
    avail = min(S.shape) if ns > 2 else min(w.shape[1] for w in W) - 1
    rec.check(kk == min(k, avail), "number of jointly smooth functions", f"{kk}, requested {k}, available {avail}")
    labelled(rec, J, D, kk, "functions on the training data")
    Jn = np.asarray(J)
    if ns > 2 and sv[kk - 1] < 1e-6:
        raise Skip()
    rec.check(np.abs(Jn.T @ Jn - np.eye(kk)).max() < 1e-7, "functions are orthonormal", lambda: np.abs(Jn.T @ Jn - np.eye(kk)).max())
    sig2 = sv[:kk] ** 2
    rec.check(np.abs(S @ (S.T @ Jn) - Jn * sig2).max() < 1e-7 * ns, "functions are the leading left singular vectors of the stacked eigenvectors, ordered by smoothness", lambda: np.abs(S @ (S.T @ Jn) - Jn * sig2).max())
    en = sum(np.linalg.norm(w.T @ Jn, axis=0) ** 2 for w in W)
    rec.check((np.diff(en) <= 1e-9).all(), "functions ordered by joint smoothness", en)
    ev = np.asarray(model.eigenvalues_)
    want = np.linalg.svd(W[0].T @ W[1], compute_uv=False) if ns == 2 else sv[:kk]
    if rec.check(len(ev) >= kk, "eigenvalue for every function", len(ev)):
        rec.close(ev[:kk], want[:kk], "eigenvalues of the functions", rtol=1e-7, atol=1e-9)
    rec.check(list(model.get_feature_names_out()) == [f"jsf{i}" for i in range(kk)] and model.n_features_out_ == kk, "number and names of the functions", model.n_features_out_)
    rec.close(call(rec, lambda: np.asarray(model.score_(D, None), float), "score"), sig2.sum(), "score is the sum of the truncated energies", rtol=1e-7)
    # extension
    cond = max(s[-1] / w.min() for s, w in zip(spec, lam))
    at = 1e-9 + 1e-12 * cond * 100
    E = call(rec, lambda: model.transform(D), "extension to the training data")
    labelled(rec, E, D, kk, "extension to the training data")
    rec.close(np.asarray(E), Jn * sig2 / ns, "extension to the training data is the averaged Nystroem extension", rtol=1e-6, atol=at)
    want = sum(K @ (w / l) @ (w.T @ Jn) for K, w, l in zip(KY, W, lam)) / ns
    E = call(rec, lambda: model.transform(DY), "extension to new data")
    labelled(rec, E, DY, kk, "extension to new data")
    rec.close(np.asarray(E), want, "extension to new data is the averaged Nystroem extension", rtol=1e-6, atol=at)
    if kind == "array":
        i = int(rng.integers(len(Y)))
        rec.close(call(rec, lambda: model.transform(Y[i:i + 1]), "extension to a single sample"), want[i:i + 1], "extension of a sample does not depend on other samples", rtol=1e-6, atol=at)
    # no side effects on the kernels, copies behave alike
    after = [s[1].__dict__ for s in splits]
    rec.check(all(repr(a) == repr(b) for a, b in zip(before, after)), "kernels of the observations are not changed by a fit", lambda: f"{before} {after}")
    full = np.asarray(E)
    for what, r in (("pickled", pickle.loads(pickle.dumps(model))), ("copied", copy.deepcopy(model))):
        rec.equal(np.asarray(r.transform(DY)), full, f"{what} model")
    c = call(rec, lambda: clone(model).fit(D), "cloned model: fit")
    Cn = np.asarray(c.jointly_smooth_vectors_)
    rec.close(sum(np.linalg.norm(w.T @ Cn, axis=0) ** 2 for w in W), sig2, "cloned model: same smoothness", rtol=1e-7)
    ext = np.concatenate([sv[: kk + 1], [0.]])
    if np.abs(np.diff(ext[: kk + 1])).min() > 1e-4:
        rec.close(np.abs(np.sum(Cn * Jn, axis=0)), np.ones(kk), "cloned model: same functions", rtol=1e-7)
    # the joint space does not depend on the order of the observations
    pi = rng.permutation(ns)
    r = call(rec, lambda: JointlySmoothFunctions([splits[i] for i in pi], n_kernel_eigenvectors=m, n_jointly_smooth_functions=k, kernel_eigenvalue_cut_off=cut).fit(D), "order of the observations")
    R = np.asarray(r.jointly_smooth_vectors_)
    rec.check(R.shape == Jn.shape, "order of the observations: number of functions")
    rec.close(sum(np.linalg.norm(w.T @ R, axis=0) ** 2 for w in W), sig2, "order of the observations: same smoothness", rtol=1e-7)
    if kk < len(sv) and sv[kk - 1] - sv[kk] > 1e-4:
        rec.close(R @ R.T, Jn @ Jn.T, "order of the observations: same space", atol=1e-6)


@family(quick=120, thorough=2500)
def common_variable(rec, rng):
    """a variable observed by every sensor is jointly smooth: it is (almost) in the span of the functions"""
    n, ns = int(rng.integers(60, 120)), int(rng.integers(2, 5))
    c = np.sort(rng.uniform(-1, 1, n))
    cols, splits = [], []
    for i in range(ns):
        a, b = rng.uniform(.5, 2, 2) * rng.choice([-1, 1], 2)
        cols.append(np.column_stack([a * c, b * np.sin(c)]))
        e = float(direct(cols[-1][:20], cols[-1][20:40], "sqeuclidean").mean() * rng.uniform(.05, .3))
        splits.append((f"s{i}", GaussianKernel(epsilon=e), slice(2 * i, 2 * i + 2)))
    X = np.hstack(cols)
    m = int(rng.integers(8, 14))
    # eigenvalues of smooth kernels decay quickly: keep a stable part
    model = JointlySmoothFunctions(splits, n_kernel_eigenvectors=m, n_jointly_smooth_functions=4, kernel_eigenvalue_cut_off=1e-4)
    rec.sig(ns, m)
    rec.note(X=X.tolist(), m=m)
    J = np.asarray(call(rec, lambda: model.fit_transform(X), "fit"))
    W = [np.asarray(v) for v in model.kernel_eigenvectors_.values()]
    S = np.column_stack(W)
    sv = np.linalg.svd(S, compute_uv=False)
    rec.check(sv[0] ** 2 > .9 * ns, "common variable: a function smooth for all observations exists", lambda: sv)
    E = np.asarray(call(rec, lambda: model.transform(X), "extension"))
    rec.check(np.abs(E[:, 0] - J[:, 0]).max() <= .2 * np.abs(J[:, 0]).max(), "common variable: extension approximately reproduces the training values", lambda: np.abs(E[:, 0] - J[:, 0]).max())


@family(quick=80, thorough=1500)
def rejected(rec, rng):
    n, d, ns, X, Y, how, parts = instance(rng)
    g = lambda: GaussianKernel(epsilon=float(direct(X, X, "sqeuclidean").mean()))
    good = [("a", g(), slice(0, 1)), ("b", g(), slice(1, d))]
    what = str(rng.choice(["one", "names", "kernel", "index", "short", "tuple", "features", "counts", "nan", "cut", "range"]))
    rec.sig(what)
    J = JointlySmoothFunctions
    kw = dict(n_kernel_eigenvectors=3, n_jointly_smooth_functions=2)
    bad = {
        "one": lambda: J(good[:1], **kw).fit(X),
        "names": lambda: J([good[0], ("a",) + good[1][1:]], **kw).fit(X),
        "kernel": lambda: J([good[0], ("b", "gaussian", slice(1, d))], **kw).fit(X),
        "index": lambda: J([good[0], ("b", g(), 1)], **kw).fit(X),
        "short": lambda: J(good, **kw).fit(X[:3]),
        "tuple": lambda: J([good[0], ["b", g(), slice(1, d)]], **kw).fit(X),
        "features": lambda: J(good, **kw).fit(X).transform(np.hstack([Y, Y[:, :1]])),
        "counts": lambda: J(good, **dict(kw, **{str(rng.choice(list(kw))): 0})).fit(X),
        "nan": lambda: J(good, **kw).fit(np.where(np.arange(n)[:, None] == 2, np.nan, X)),
        "cut": lambda: J(good, kernel_eigenvalue_cut_off=1e6, **kw).fit(X),
        "range": lambda: J([good[0], ("b", g(), [d + 3])], **kw).fit(X),
    }
    rec.raises(bad[what], f"invalid request: {what}", Exception)
