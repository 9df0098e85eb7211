"""C21: embeddings are eigen- or singular vectors of the diffusion operator, in and out of sample."""
import copy
import pickle
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib.core import family, Skip
from vlib.dist import direct, cloud
from vlib.dmapref import dense, operators, setup
from datafold.pcfold import TSCDataFrame, GaussianKernel, MultiquadricKernel, InverseMultiquadricKernel, ConeKernel
from datafold.dynfold.dmap import DiffusionMaps, Roseland, LocalRegressionSelection

RULE = "point clouds and time series x kernel x density exponent x time exponent x coordinates x dense/sparse x symmetrized or not x histories of fits and settings; distinct by (operation, model, data type, settings)"

def give(rng, kind, P, ids=None):
    """points in the requested data type"""
    cols = [f"x{i}" for i in range(P.shape[1])]
    if kind == "array":
        return P.copy()
    if kind == "frame":
        return pd.DataFrame(P.copy(), index=[f"r{i}" for i in range(len(P))], columns=cols)
    n = len(P)
    a = n // 2
    if a < 2 or rng.random() < .4:
        return TSCDataFrame.from_single_timeseries(pd.DataFrame(P.copy(), columns=cols, index=.5 * np.arange(n)))
    idx = pd.MultiIndex.from_arrays([[3] * a + [1] * (n - a), list(range(a)) + list(range(n - a))], names=["ID", "time"])
    return TSCDataFrame(P.copy(), index=idx, columns=cols)


def labelled(rec, E, D, names, tag):
    t = TSCDataFrame if isinstance(D, TSCDataFrame) else (pd.DataFrame if isinstance(D, pd.DataFrame) else np.ndarray)
    if not rec.check(type(E) is t, f"{tag}: same type as the input", f"{type(E).__name__} for {type(D).__name__}"):
        return
    if t is not np.ndarray:
        rec.check(E.index.equals(D.index), f"{tag}: row labels of the input")
        rec.check(list(E.columns) == list(names), f"{tag}: feature names", f"{list(E.columns)} expected {names}")


def vals(rec, E, D):
    """values in the row order of the input"""
    return np.asarray(E)


def gaps(w):
    """separation of every eigenvalue from the others"""
    d = np.abs(w[:, None] - w[None, :]) + np.diag(np.full(len(w), np.inf))
    return d.min(axis=1) if len(w) > 1 else np.array([np.inf])


def check_embedding(rec, w, V, P, k, stochastic, tag):
    """(eigenvalues, eigenvectors) against the dense operator"""
    n = len(P)
    if not rec.check(w.shape == (k,) and V.shape == (n, k), f"{tag}: requested number of eigenpairs", f"{w.shape} {V.shape}"):
        return False
    lam = np.linalg.eigvals(P)
    lam = np.sort(lam.real)[::-1] if stochastic else lam.real[np.argsort(-np.abs(lam))]
    s = np.abs(lam).max()
    rec.check((np.diff(w) <= 1e-10 * s).all(), f"{tag}: eigenvalues in decreasing order", w)
    rec.check(np.abs(P @ V - V * w).max() <= 1e-7 * s, f"{tag}: eigenvectors of the documented operator", lambda: f"residual {np.abs(P @ V - V * w).max()}")
    rec.close(np.linalg.norm(V, axis=0), np.ones(k), f"{tag}: eigenvectors of unit length", rtol=1e-9)
    top = np.sort(lam[:k])[::-1]
    rec.check(np.abs(np.sort(w)[::-1] - top).max() <= 1e-6 * s, f"{tag}: leading eigenvalues", lambda: f"{w} expected {top}")
    if stochastic:
        rec.close(w[0], 1., f"{tag}: leading eigenvalue is one", rtol=1e-9)
        if k > 1 and w[0] - w[1] > 1e-6 or k == 1 and len(lam) > 1 and lam[0] - lam[1] > 1e-6:
            v = V[:, 0]
            rec.check(np.ptp(v) <= 1e-6 * np.abs(v).max(), f"{tag}: constant leading eigenvector", lambda: v)
    rec.check(np.linalg.matrix_rank(V, tol=1e-8) == k, f"{tag}: eigenvectors are independent")
    return True


def skip_undetermined(lamP, k):
    lam = np.sort(lamP)[::-1]
    if k < len(lam) and lam[k - 1] - lam[k] < 1e-5 * abs(lam[0]):
        raise Skip()


def instance(rng):
    n, d = int(rng.integers(6, 22)), int(rng.integers(1, 4))
    X = cloud(rng, n, d, str(rng.choice(["normal", "clusters", "line", "scaled"])))
    Y = X[rng.integers(0, n, 6)] + .3 * rng.normal(size=(6, d)) * X.std()
    return n, d, X, Y


@family(quick=350, thorough=8000)
def diffusion_maps(rec, rng):
    n, d, X, Y = instance(rng)
    name, mode, kern, KX, KY = setup(rng, X, Y)
    if min(KX.sum(1).min(), KY.sum(1).min()) < 1e-9:
        raise Skip()
    stochastic, sym = bool(rng.random() < .85), bool(rng.random() < .6)
    alpha = [0, 1, .5, float(rng.uniform(0, 1)), 1.][int(rng.integers(5))]
    k = n if rng.random() < .1 else int(rng.integers(1, min(n, 8) + 1))
    P, PY = operators(KX, KY, stochastic, alpha)
    lam = np.linalg.eigvals(P).real
    if stochastic:
        skip_undetermined(lam, k)
    else:
        skip_undetermined(np.abs(lam), k)
        if (lam < -1e-9).any() and not (np.sort(-np.abs(lam))[:k] < 0).all():
            raise Skip()
    if stochastic and not sym and (np.abs(np.sort(lam)[::-1][:k]) < np.sort(np.abs(lam))[::-1][:k] - 1e-9).any():
        raise Skip()  # large negative eigenvalues: selection by magnitude and by value differ
    lead = np.sort(lam)[::-1][:k] if stochastic else lam[np.argsort(-np.abs(lam))][:k]
    if np.abs(lead).min() < 1e-6 * np.abs(lam).max():
        raise Skip()  # Nystroem extension is undefined
    if not mode == "dense" and gaps(lead).min() < 1e-6 * np.abs(lam).max():
        raise Skip()
    if not (stochastic and sym) and stochastic and gaps(np.sort(lam)[::-1][: min(k + 1, n)]).min() < 1e-6:
        raise Skip()  # a general solver may return complex pairs for repeated eigenvalues
    kind = str(rng.choice(["array", "frame", "series"]))
    t = [0, 0, 1, 2, .5, float(rng.uniform(0, 3)), -1][int(rng.integers(7))]
    if t not in (0, 1, 2, -1) and (lead <= 0).any():
        t = 1
    model = DiffusionMaps(copy.deepcopy(kern), n_eigenpairs=k, time_exponent=t, is_stochastic=stochastic, alpha=alpha, symmetrize_kernel=sym)
    if stochastic and alpha in (0, .5, 1) and rng.random() < .3:
        ctor = {0: DiffusionMaps.graph_laplacian, .5: DiffusionMaps.fokker_planck, 1: DiffusionMaps.laplace_beltrami}[alpha]
        model = ctor(copy.deepcopy(kern), n_eigenpairs=k, time_exponent=t, symmetrize_kernel=sym)
    D, DY = give(rng, kind, X), give(rng, kind, Y)
    rec.sig(name, mode, stochastic, sym, alpha in (0, 1), k == n, kind, t == 0)
    rec.note(X=X.tolist(), Y=Y.tolist(), alpha=alpha, k=k, t=t, eps=kern.epsilon, dist=str(kern.distance))
    store = bool(rng.random() < .4)
    fresh = rng.random() < .5
    ok, E = rec.attempt(lambda: model.fit(D, store_kernel_matrix=store).transform(D) if fresh else model.fit_transform(D, store_kernel_matrix=store), "embedding of the training data")
    if not ok:
        return
    w, V = np.asarray(model.eigenvalues_), np.asarray(model.eigenvectors_)
    if not check_embedding(rec, w, V, P, k, stochastic, "diffusion maps"):
        return
    names = [f"dmap{i}" for i in range(k)]
    rec.check(model.n_features_out_ == k and list(model.get_feature_names_out()) == names, "number and names of the coordinates", model.n_features_out_)
    labelled(rec, E, D, names, "embedding of the training data")
    full = V * w ** t
    sc = np.abs(full).max()
    # rounding of the Nystroem extension grows with the inverse eigenvalue
    at = 1e-9 * sc + 1e-12 * np.abs(w ** t).max() / np.abs(w).min() * 100
    rec.close(np.asarray(E), full, "embedding of the training data: eigenvectors scaled by the eigenvalues to the time exponent", rtol=1e-6, atol=at)
    rec.close(np.asarray(model.transform(D)), full, "out-of-sample embedding of the training data", rtol=1e-6, atol=at)
    ok, EY = rec.attempt(lambda: model.transform(DY), "out-of-sample embedding")
    if ok:
        labelled(rec, EY, DY, names, "out-of-sample embedding")
        rec.close(np.asarray(EY), PY @ (V / w) * w ** t, "out-of-sample embedding: Nystroem extension", rtol=1e-6, atol=at)
    if store:
        rec.close(dense(model.kernel_matrix_), P, "stored kernel matrix is the documented operator", rtol=1e-8, atol=1e-12)
    else:
        rec.check(not hasattr(model, "kernel_matrix_"), "kernel matrix only stored on request")
    # least-squares inverse
    if np.linalg.cond(full) < 1e6:
        C = np.linalg.lstsq(full, X, rcond=None)[0]
        at2 = 1e-7 * max(1, np.abs(X).max())
        ok, R = rec.attempt(lambda: model.inverse_transform(E), "inverse of the embedding")
        if ok:
            labelled(rec, R, D, [f"x{i}" for i in range(d)], "inverse of the embedding")
            rec.close(np.asarray(R), full @ C, "inverse of the embedding in the least-squares sense", rtol=1e-6, atol=at2)
        if EY is not None:
            ok, R = rec.attempt(lambda: model.inverse_transform(EY), "inverse of the out-of-sample embedding")
            if ok:
                rec.close(np.asarray(R), np.asarray(EY) @ C, "inverse of the out-of-sample embedding in the least-squares sense", rtol=1e-6, atol=at2 + 1e-6 * np.abs(C).max() * at)
    # selected coordinates
    if k > 1 and rng.random() < .6:
        sel = np.sort(rng.permutation(k)[: int(rng.integers(1, k + 1))])
        model.set_target_coords(list(rng.permutation(sel)) if rng.random() < .5 else sel)
        nm = [f"dmap{i}" for i in sel]
        ok, ES = rec.attempt(lambda: model.transform(DY), "embedding with selected coordinates")
        if ok:
            labelled(rec, ES, DY, nm, "embedding with selected coordinates")
            rec.close(np.asarray(ES), np.asarray(EY)[:, sel], "embedding with selected coordinates", rtol=1e-9, atol=1e-9 * sc)
            rec.check(model.n_features_out_ == len(sel), "number of selected coordinates", model.n_features_out_)
            rec.check(len(model.eigenvalues_) == k and np.asarray(model.eigenvectors_).shape == (n, k), "all eigenpairs kept with selected coordinates")
            fs = full[:, sel]
            if np.linalg.cond(fs) < 1e6:
                C = np.linalg.lstsq(fs, X, rcond=None)[0]
                ok, R = rec.attempt(lambda: model.inverse_transform(ES), "inverse with selected coordinates")
                if ok:
                    rec.close(np.asarray(R), np.asarray(ES) @ C, "inverse with selected coordinates in the least-squares sense", rtol=1e-6, atol=1e-6 * max(1, np.abs(X).max()))
        bad = [[0, k], [-1, 0]][int(rng.integers(2))]
        rec.raises(lambda: model.set_target_coords(bad), "coordinates out of range rejected", ValueError)
        rec.raises(lambda: model.set_target_coords([0., .5]), "coordinates that are no integers rejected", TypeError)
    rec.check(np.array_equal(np.asarray(D), X) and np.array_equal(np.asarray(DY), Y), "data unchanged")


@family(quick=100, thorough=2000)
def routes(rec, rng):
    """dense, sparse-without-cut-off, symmetrized and unsymmetrized computations agree"""
    n, d, X, Y = instance(rng)
    dX = direct(X, X, "sqeuclidean")
    e = float(np.mean(dX) * 10. ** rng.uniform(-1.2, .3))
    k = int(rng.integers(2, min(n, 6)))
    alpha = float(rng.choice([0, .5, 1]))
    P, PY = operators(np.exp(-dX / (2 * e)), np.exp(-direct(X, Y, "sqeuclidean") / (2 * e)), True, alpha)
    if not np.isfinite(PY).all():
        raise Skip()
    lam = np.sort(np.linalg.eigvals(P).real)[::-1]
    if gaps(lam[: k + 1]).min() < 1e-4 or lam[k - 1] < 1e-4:
        raise Skip()
    rec.sig(n, d, k, alpha)
    ref = None
    for dist in (None, {"cut_off": float(10 * np.sqrt(max(dX.max(), 1e-9)) + 10)}, {"backend": "brute"}):
        for sym in (True, False):
            m = DiffusionMaps(GaussianKernel(epsilon=e, distance=None if dist is None else dict(dist)), n_eigenpairs=k, alpha=alpha, symmetrize_kernel=sym).fit(X)
            E, T = np.asarray(m.eigenvectors_), m.transform(Y)
            sg = np.sign((E * (ref[1] if ref else E)).sum(0))
            if ref is None:
                ref = (m.eigenvalues_, E, T)
                continue
            tag = f"{'sparse' if dist and 'cut_off' in dist else 'dense'} {'symmetrized' if sym else 'unsymmetrized'} agrees with dense symmetrized"
            rec.close(m.eigenvalues_, ref[0], f"{tag}: eigenvalues", rtol=1e-7, atol=1e-9)
            rec.close(E * sg, ref[1], f"{tag}: eigenvectors", rtol=1e-5, atol=1e-6)
            rec.close(T * sg, ref[2], f"{tag}: out-of-sample embedding", rtol=1e-4, atol=1e-5)


@family(quick=60, thorough=1200)
def series_kernel(rec, rng):
    """a kernel for time series drops samples: labels of the embedding follow the kernel matrix"""
    dt = .1
    d = 2
    lens = [int(rng.integers(9, 14)) for _ in range(int(rng.choice([1, 2, 2, 3])))]
    R = rng.normal(size=(d, d)); A = R - R.T - .1 * np.eye(d)
    ser = []
    for i, l in enumerate(lens):
        x = rng.normal(size=d); rows = []
        for _ in range(l):
            rows.append(x); x = x + dt * A @ x
        ser.append(pd.DataFrame(np.array(rows), index=dt * np.arange(l), columns=["a", "b"]))
    X = TSCDataFrame.from_frame_list(ser)
    k = int(rng.integers(2, 5))
    m = DiffusionMaps(ConeKernel(zeta=float(rng.uniform(0, .9)), epsilon=float(rng.uniform(.5, 3))), n_eigenpairs=k, symmetrize_kernel=bool(rng.random() < .7))
    ok, E = rec.attempt(lambda: m.fit_transform(X, store_kernel_matrix=True), "series kernel: embedding")
    if not ok:
        return
    Pm = np.asarray(m.kernel_matrix_, float)
    w, V = m.eigenvalues_, np.asarray(m.eigenvectors_)
    rec.sig(len(lens), k, m.symmetrize_kernel)
    rec.close(Pm.sum(1), np.ones(len(Pm)), "series kernel: stored operator is stochastic", rtol=1e-9)
    rec.check(np.abs(Pm @ V - V * w).max() < 1e-7, "series kernel: eigenvectors of the stored operator")
    rec.check(isinstance(E, TSCDataFrame) and E.shape == (len(Pm), k) and E.index.isin(X.index).all(), "series kernel: embedding has labels of the data", type(E))
    rec.check(list(E.columns) == [f"dmap{i}" for i in range(k)], "series kernel: feature names")
    if rec.check(isinstance(E, TSCDataFrame), "series kernel: type"):
        rec.check(E.index.equals(m.eigenvectors_.index) and E.index.equals(m.kernel_matrix_.index), "series kernel: labels of the kernel matrix")
    ok, T = rec.attempt(lambda: m.transform(X), "series kernel: out-of-sample")
    if ok and np.abs(w).min() > 1e-5:
        rec.check(isinstance(T, TSCDataFrame) and T.index.equals(E.index), "series kernel: out-of-sample labels")
        rec.close(np.asarray(T), V, "series kernel: out-of-sample embedding of the training data", rtol=1e-4, atol=1e-6)
    ok, B = rec.attempt(lambda: m.inverse_transform(E), "series kernel: inverse")
    if ok:
        S = np.asarray(X.loc[E.index, :], float)
        want = np.asarray(E, float) @ np.linalg.lstsq(V, S, rcond=None)[0]
        rec.check(isinstance(B, TSCDataFrame) and B.index.equals(E.index) and list(B.columns) == list(X.columns), "series kernel: labels of the inverse", type(B))
        rec.close(np.asarray(B), want, "series kernel: the inverse is the least squares map to the samples with the same labels", rtol=1e-5, atol=1e-6)


@family(quick=250, thorough=5000)
def roseland(rec, rng):
    n, d, X, Y = instance(rng)
    alpha = [0, 0, 1, .5, float(rng.uniform(0, 1))][int(rng.integers(5))]
    lm = str(rng.choice(["share", "number", "points", "all"]))
    m_ = int(rng.integers(3, n + 1)) if lm != "all" else n
    seed = int(rng.integers(100))
    L = X[rng.permutation(n)[:m_]] + .01 * X.std() if lm == "points" else None
    share = m_ / n
    landmarks = {"share": share + 1e-9 if share < 1 else 1., "number": m_, "points": L, "all": n}[lm]
    e = float(np.mean(direct(X, X, "sqeuclidean")) * 10. ** rng.uniform(-1, .3))
    dist = None
    name, f = "gaussian", lambda q: np.exp(-q / (2 * e))
    if rng.random() < .3:
        dist = {"cut_off": float(10 * np.sqrt(np.abs(direct(X, X, "sqeuclidean")).max()) + 10)}
    kern = GaussianKernel(epsilon=e, distance=dist)
    k = int(rng.integers(1, min(m_, 6) + 1))
    t = [0, 0, 1, .5, 2][int(rng.integers(5))]
    kind = str(rng.choice(["array", "frame", "series"]))
    D, DY = give(rng, kind, X), give(rng, kind, Y)
    model = Roseland(kern, n_svdtriplet=k, time_exponent=t, landmarks=landmarks, alpha=alpha, random_state=seed)
    store = bool(rng.random() < .4)
    ok, E = rec.attempt(lambda: model.fit_transform(D, store_kernel_matrix=store), "landmarks: embedding of the training data")
    if not ok:
        return
    rec.sig(lm, alpha in (0, 1), dist is not None, k == m_, t, kind, d)
    rec.note(X=X.tolist(), Y=Y.tolist(), alpha=alpha, k=k, t=t, e=e, lm=lm)
    La = np.asarray(model.landmarks_)
    if lm == "points":
        rec.equal(La, L, "given landmarks are used")
    else:
        rec.check(La.shape == (m_, d), "number of landmarks", f"{La.shape} expected {m_}")
        near = direct(X, La, "sqeuclidean")
        hit = near.argmin(1)
        rec.check((near.min(1) == 0).all() and len(np.unique(hit)) == len(hit), "landmarks are distinct rows of the data")
        again = Roseland(copy.deepcopy(kern), n_svdtriplet=k, landmarks=landmarks, alpha=alpha, random_state=seed).fit(D)
        rec.equal(np.asarray(again.landmarks_), La, "same random state selects the same landmarks")
    KX, KY = f(direct(La, X, "sqeuclidean")), f(direct(La, Y, "sqeuclidean"))
    if min(KX.sum(0).min(), KX.sum(1).min(), KY.sum(1).min()) < 1e-9:
        raise Skip()
    ld = KX.sum(0)
    W = KX / np.outer(KX.sum(1) ** alpha, ld ** alpha)
    s = W.sum(0)
    nd = 1 / np.sqrt((W * s).sum(1))
    M = W * nd[:, None]
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[k - 1] < 1e-5 or (k < len(sv) and sv[k - 1] - sv[k] < 1e-5):
        raise Skip()
    sig, U, Vr = np.asarray(model.svdvalues_), np.asarray(model.svdvec_left_), np.asarray(model.svdvec_right_)
    if not rec.check(sig.shape == (k,) and U.shape == (n, k) and Vr.shape == (m_, k), "landmarks: requested number of singular triplets", f"{sig.shape} {U.shape} {Vr.shape}"):
        return
    rec.close(sig, sv[:k], "landmarks: leading singular values in decreasing order", rtol=1e-7)
    rec.close(sig[0], 1., "landmarks: leading singular value is one", rtol=1e-8)
    rec.check(np.abs(M @ Vr - (U / nd[:, None]) * sig).max() < 1e-6, "landmarks: left and right singular vectors belong together", lambda: np.abs(M @ Vr - (U / nd[:, None]) * sig).max())
    Uo = U / nd[:, None]
    rec.check(np.abs(Uo.T @ Uo - np.eye(k)).max() < 1e-6 and np.abs(Vr.T @ Vr - np.eye(k)).max() < 1e-6, "landmarks: singular vectors are orthonormal")
    if len(sv) < 2 or sv[0] - sv[1] > 1e-5:
        rec.check(np.ptp(U[:, 0]) < 1e-5 * np.abs(U[:, 0]).max(), "landmarks: constant leading vector")
    names = [f"rose{i}" for i in range(k)]
    full = U * sig ** (2 * t)
    labelled(rec, E, D, names, "landmarks: embedding of the training data")
    at = 1e-8 * np.abs(full).max() / sig.min()
    rec.close(np.asarray(E), full, "landmarks: embedding of the training data with time exponent", rtol=1e-6, atol=at)
    ok, T = rec.attempt(lambda: model.transform(D), "landmarks: out-of-sample embedding of the training data")
    if ok:
        labelled(rec, T, D, names, "landmarks: out-of-sample embedding of the training data")
        rec.close(np.asarray(T), full, "landmarks: out-of-sample embedding of the training data", rtol=1e-5, atol=at)
    WY = KY / np.outer(KY.sum(1) ** alpha, ld ** alpha)
    ny = 1 / np.sqrt((WY * s).sum(1))
    refY = ny[:, None] * (WY * ny[:, None]) @ (Vr / sig) * sig ** (2 * t)
    ok, EY = rec.attempt(lambda: model.transform(DY), "landmarks: out-of-sample embedding")
    if ok:
        labelled(rec, EY, DY, names, "landmarks: out-of-sample embedding")
        rec.close(np.asarray(EY), refY, "landmarks: out-of-sample embedding is the Nystroem extension", rtol=1e-5, atol=at)
    rec.check(hasattr(model, "kernel_matrix_") == store, "landmarks: kernel matrix only stored on request")
    if store:
        rec.close(dense(model.kernel_matrix_), M, "landmarks: stored kernel matrix", rtol=1e-8, atol=1e-12)
    if k > 1 and rng.random() < .6:
        sel = np.sort(rng.permutation(k)[: int(rng.integers(1, k + 1))])
        model.set_target_coords(rng.permutation(sel))
        ok, ES = rec.attempt(lambda: model.transform(DY), "landmarks: selected coordinates")
        if ok:
            labelled(rec, ES, DY, [f"rose{i}" for i in sel], "landmarks: selected coordinates")
            rec.close(np.asarray(ES), refY[:, sel], "landmarks: selected coordinates", rtol=1e-5, atol=at)
        ok, ES = rec.attempt(lambda: model.fit_transform(D), "landmarks: fit with selected coordinates")
        if ok:
            labelled(rec, ES, D, [f"rose{i}" for i in sel], "landmarks: fit with selected coordinates")
            if lm != "points" or True:
                rec.close(np.abs(np.asarray(ES)), np.abs(full[:, sel]), "landmarks: fit with selected coordinates", rtol=1e-4, atol=1e-5 + at) if gaps(sv[: k + 1]).min() > 1e-4 else None
        rec.raises(lambda: model.set_target_coords([0, k]), "landmarks: coordinates out of range rejected", ValueError)


@family(quick=150, thorough=3000)
def history(rec, rng):
    """a model after any sequence of fits and settings equals a fresh model with these settings"""
    rose = bool(rng.random() < .35)
    n, d = int(rng.integers(8, 16)), int(rng.integers(1, 4))
    k = int(rng.integers(2, 5))
    kern = GaussianKernel(epsilon=float(rng.uniform(.5, 3)))
    make = (lambda t: Roseland(GaussianKernel(epsilon=kern.epsilon), n_svdtriplet=k, time_exponent=t, landmarks=.7, random_state=4)) if rose else (
        lambda t: DiffusionMaps(GaussianKernel(epsilon=kern.epsilon), n_eigenpairs=k, time_exponent=t))
    model, t, coords, data = make(0), 0, None, None
    ops = []
    steps = int(rng.integers(3, 9))
    for s in range(steps):
        op = "fit" if data is None else str(rng.choice(["fit", "fit", "coords", "time", "transform", "inverse", "pickle", "store"]))
        if op == "inverse" and rose:
            op = "transform"
        ops.append(op)
        if op in ("fit", "store"):
            kind = str(rng.choice(["array", "frame", "series"]))
            data = give(rng, kind, rng.normal(size=(int(rng.integers(8, 16)), d)))
            model.fit(data, **({"store_kernel_matrix": True} if op == "store" else {}))
            stored = op == "store"
        elif op == "coords":
            coords = np.sort(rng.permutation(k)[: int(rng.integers(1, k + 1))])
            model.set_target_coords(coords)
        elif op == "time":
            t = float(rng.choice([0, 1, 2]))
            model.time_exponent = t
        elif op == "transform":
            model.transform(data)
        elif op == "inverse":
            try:
                model.inverse_transform(model.transform(data))
            except Exception as e:
                rec.fail("history: inverse raises", f"{ops} {e!r}")
                return
        else:
            model = pickle.loads(pickle.dumps(model))
        if rng.random() < .7:
            ref = make(t)
            if coords is not None:
                ref.set_target_coords(coords)
            ref.fit(data)
            w = np.asarray(ref.svdvalues_ if rose else ref.eigenvalues_)
            if gaps(w).min() < 1e-4 or np.abs(w).min() < 1e-5:
                continue
            lab = f"{'landmarks' if rose else 'diffusion maps'} history"
            rec.sig(tuple(ops[-3:]), rose, t, coords is not None)
            rec.check(hasattr(model, "kernel_matrix_") == stored, f"{lab}: stored kernel matrix belongs to the last fit", ops)
            q = give(rng, kind, rng.normal(size=(5, d)))
            ok, A = rec.attempt(lambda: model.transform(q), f"{lab}: transform")
            if not ok:
                return
            B = ref.transform(q)
            labelled(rec, A, q, ref.get_feature_names_out(), lab)
            # the sign of an eigenvector is arbitrary between two fits
            a, b = np.asarray(A), np.asarray(B)
            va, vb = (np.asarray(m.svdvec_left_ if rose else m.eigenvectors_) for m in (model, ref))
            sg = np.sign((va * vb).sum(0)) if va.shape == vb.shape else np.ones(va.shape[1])
            c = coords if coords is not None else np.arange(k)
            rec.close(a * sg[c], b, f"{lab}: equals a fresh model", rtol=1e-6, atol=1e-8, msg=str(ops))
            if not rose:
                ok, I = rec.attempt(lambda: model.inverse_transform(A), f"{lab}: inverse")
                if ok:
                    rec.close(np.asarray(I), np.asarray(ref.inverse_transform(B)), f"{lab}: inverse equals a fresh model", rtol=1e-5, atol=1e-6, msg=str(ops))


def lrs_residual(dom, target, scale, kind):
    n = len(dom)
    D = np.sqrt(((dom[:, None] - dom[None]) ** 2).sum(-1))
    eps = (np.median if kind == "median" else np.mean)(D ** 2) / scale
    K = np.exp(-D ** 2 / (eps or np.finfo(float).eps))
    est = np.empty(n)
    for i in range(n):
        A = np.column_stack([np.ones(n), dom - dom[i]])
        WA = A.T * K[i]
        sol = np.linalg.lstsq(WA @ A, WA, rcond=1e-6)
        s = sol[3]
        if (np.abs(s / s[0] / 1e-6 - 1) < .2).any():
            raise Skip()
        est[i] = sol[0][0] @ target
    return np.sqrt(((target - est) ** 2).sum() / (target ** 2).sum())


@family(quick=60, thorough=1000)
def regression_selection(rec, rng):
    """independent eigenvectors are those with the largest residual of a local linear regression"""
    n, k = int(rng.integers(12, 40)), int(rng.integers(3, 8))
    x = np.sort(rng.uniform(0, np.pi, n))
    V = np.column_stack([np.ones(n)] + [np.cos(j * x) for j in range(1, k)])
    for j in range(2, k):
        if rng.random() < .4:
            V[:, j] = rng.normal(size=n)
    kind = str(rng.choice(["array", "frame", "series"]))
    D = give(rng, kind, V)
    bw = str(rng.choice(["median", "mean"]))
    scale = float(rng.choice([3, 1, 5]))
    strategy = str(rng.choice(["dim", "threshold"]))
    dim = int(rng.integers(1, k))
    thr = float(rng.uniform(.05, .95))
    m = LocalRegressionSelection(eps_med_scale=scale, strategy=strategy, intrinsic_dim=dim, regress_threshold=thr, bandwidth_type=bw, random_state=1)
    ok, S = rec.attempt(lambda: m.fit(D).transform(D), "selection")
    if not ok:
        return
    rec.sig(strategy, bw, kind, n > 25, k)
    ref = [np.nan, 1.] + [lrs_residual(V[:, 1:j], V[:, j], scale, bw) for j in range(2, k)]
    rec.check(np.isnan(m.residuals_[0]) and m.residuals_[1] == 1, "residuals of the first eigenvectors are fixed", m.residuals_)
    rec.close(m.residuals_[1:], ref[1:], "residuals of the local regressions", rtol=1e-6, atol=1e-9)
    r = np.array(m.residuals_); r[0] = -1
    if strategy == "dim":
        o = np.argsort(-r, kind="stable")
        if dim > 1:
            if dim < k and abs(r[o[dim - 1]] - r[o[dim]]) < 1e-9:
                raise Skip()
            exp = np.sort(o[:dim])
        else:
            exp = np.array([1])
    else:
        exp = np.flatnonzero(r > thr)
    rec.equal(np.asarray(m.evec_indices_), exp, "selected eigenvectors have the largest residuals", f"{r} {strategy} {dim} {thr}")
    labelled(rec, S, D, [f"x{i}" for i in exp], "selection")
    rec.equal(np.asarray(S), V[:, exp], "selected coordinates")
    sub = LocalRegressionSelection(strategy="dim", intrinsic_dim=max(1, dim), n_subsample=n, bandwidth_type=bw, random_state=2, eps_med_scale=scale).fit(D)
    rec.close(sub.residuals_[1:], ref[1:], "residuals do not depend on the order of the samples", rtol=1e-4, atol=1e-6)
