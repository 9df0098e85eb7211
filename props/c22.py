"""C22: out-of-sample interpolators evaluate the documented expansion of the training values."""
import copy
import pickle
import numpy as np
import pandas as pd
from sklearn.base import clone
from vlib.core import family, Skip, AbortCase
from vlib.dist import direct, cloud
from vlib.dmapref import dense, operators, setup
from datafold.pcfold import GaussianKernel
from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator

RULE = "point clouds x target functions (one or many) x kernels (dense, sparse) x normalizations x number of eigenpairs; initial scales x factors x stopping rules; scores x weights; histories of fits; distinct by (model, settings, number of targets)"


def call(rec, fn, mech):
    ok, r = rec.attempt(fn, mech)
    if not ok:
        raise AbortCase(mech)
    return r


def targets(rng, X, q):
    """smooth, rough and constant target functions of different size"""
    cols = []
    for _ in range(q):
        r = rng.random()
        if r < .5:
            f = np.sin(X @ rng.normal(size=X.shape[1]) / (X.std() + 1e-12))
        elif r < .8:
            f = rng.normal(size=len(X))
        else:
            f = np.full(len(X), rng.normal())
        cols.append(f * 10. ** rng.uniform(-2, 2))
    y = np.column_stack(cols)
    return np.rint(3 * y).astype(int) if rng.random() < .1 else y


def instance(rng):
    n, d = int(rng.integers(4, 22)), int(rng.integers(1, 4))
    X = cloud(rng, n, d, str(rng.choice(["normal", "clusters", "line", "scaled"])))
    m = int(rng.integers(1, 7))
    Y = X[rng.integers(0, n, m)] + .3 * rng.normal(size=(m, d)) * X.std()
    return n, d, X, Y


def rmse(y, p, w, mode):
    w = np.ones(len(y)) if w is None else w
    e = (w[:, None] * (y - p) ** 2).sum(0) / w.sum()
    if isinstance(mode, str):
        return -np.sqrt(e if mode == "raw_values" and len(e) > 1 else e.mean())
    return -np.sqrt((e * mode).sum() / mode.sum())


@family(quick=350, thorough=9000)
def geometric_harmonics(rec, rng):
    n, d, X, Y = instance(rng)
    name, mode, kern, KX, KY = setup(rng, X, Y)
    if min(KX.sum(1).min(), KY.sum(1).min()) < 1e-9:
        raise Skip()
    stochastic, sym = bool(rng.random() < .5), bool(rng.random() < .6)
    alpha = [0, 1, .5, float(rng.uniform(0, 1)), 1.][int(rng.integers(5))]
    k = n - 1 if rng.random() < .3 else int(rng.integers(1, min(n - 1, 10) + 1))
    P, PY = operators(KX, KY, stochastic, alpha)
    lam = np.linalg.eigvals(P).real
    lead = np.sort(lam)[::-1] if stochastic else lam[np.argsort(-np.abs(lam))]
    if np.abs(lead[:k]).min() < 1e-7 * np.abs(lam).max() or (not stochastic and (lam < -1e-9).any()):
        raise Skip()  # reciprocal of vanishing eigenvalues
    if stochastic and not sym and (np.abs(np.sort(lam)[::-1][:k]) < np.sort(np.abs(lam))[::-1][:k] - 1e-9).any():
        raise Skip()
    if lead[k - 1] - lead[k] < 1e-5 * lead[0]:
        raise Skip()
    gap = np.abs(np.diff(lead[: k + 1])).min()
    if (not sym and stochastic or mode != "dense") and gap < 1e-6 * lead[0]:
        raise Skip()
    q = int(rng.choice([1, 1, 2, 4]))
    y = targets(rng, X, q)
    flat = q == 1 and rng.random() < .5
    model = GeometricHarmonicsInterpolator(copy.deepcopy(kern), n_eigenpairs=k, is_stochastic=stochastic, alpha=alpha, symmetrize_kernel=sym)
    rec.sig(name, mode, stochastic, sym, alpha in (0, 1), k == n - 1, q, flat, y.dtype.kind)
    rec.note(X=X.tolist(), Y=Y.tolist(), y=y.tolist(), alpha=alpha, k=k, eps=kern.epsilon, dist=str(kern.distance))
    store = bool(rng.random() < .4)
    if rng.random() < .3:  # refit: nothing of an earlier fit remains
        X0 = rng.normal(size=(n + 3, d)) * X.std()
        try:
            model.fit(X0, rng.normal(size=(n + 3, 3)), store_kernel_matrix=False).predict(X0[:2])
        except Exception:
            model = clone(model)
    ok, _ = rec.attempt(lambda: model.fit(X, y[:, 0] if flat else y, store_kernel_matrix=store), "geometric harmonics: fit")
    if not ok:
        return
    w, V = np.asarray(model.eigenvalues_), np.asarray(model.eigenvectors_)
    if not rec.check(w.shape == (k,) and V.shape == (n, k), "geometric harmonics: number of eigenpairs", f"{w.shape} {V.shape}"):
        return
    s = np.abs(lam).max()
    rec.check((np.diff(w) <= 1e-10 * s).all() and np.abs(np.sort(w) - np.sort(lead[:k])).max() < 1e-6 * s, "geometric harmonics: leading eigenvalues in decreasing order", lambda: f"{w} expected {lead[:k]}")
    rec.check(np.abs(P @ V - V * w).max() <= 1e-7 * s, "geometric harmonics: eigenvectors of the kernel matrix", lambda: np.abs(P @ V - V * w).max())
    rec.close(np.linalg.norm(V, axis=0), np.ones(k), "geometric harmonics: eigenvectors of unit length", rtol=1e-9)
    if store:
        rec.close(dense(model.kernel_matrix_), P, "geometric harmonics: stored kernel matrix", rtol=1e-8, atol=1e-12)

    def expected(PP, cols=None):
        yy = y if cols is None else y[:, cols]
        return (PP @ V / w) @ (V.T @ yy)

    at = 1e-9 * (1 + np.abs(y).max()) + 1e-11 * s / np.abs(w).min() * np.abs(y).max() * n
    for Z, PP, tag in ((X, P, "training points"), (Y, PY, "new points")):
        p = call(rec, lambda: model.predict(Z), f"geometric harmonics: evaluation at the {tag}")
        want = expected(PP)
        want = want[:, 0] if q == 1 else want
        rec.close(np.asarray(p), want, f"geometric harmonics: expansion of the targets at the {tag}", rtol=1e-6, atol=at)
    if not stochastic:
        # orthonormal geometric harmonics: training values of spanned targets are reproduced
        z = V @ rng.normal(size=(k, 2))
        p = clone(model).fit(X, z).predict(X)
        rec.close(p, z, "geometric harmonics: functions in the span of the harmonics are reproduced", rtol=1e-5, atol=1e-6 + 1e-10 * s / np.abs(w).min())
    # one point at a time, other orders
    full = np.asarray(model.predict(Y))
    i = int(rng.integers(len(Y)))
    one = call(rec, lambda: model.predict(Y[i:i + 1]), "geometric harmonics: single query point")
    rec.close(np.asarray(one), full[i:i + 1], "geometric harmonics: evaluation of a point does not depend on the other points", rtol=1e-7, atol=at)
    pi = rng.permutation(len(Y))
    rec.close(np.asarray(model.predict(Y[pi])), full[pi], "geometric harmonics: order of the query points", rtol=1e-7, atol=at)
    if q > 1:
        c = int(rng.integers(q))
        ok, m1 = rec.attempt(lambda: clone(model).fit(X, y[:, c]), "geometric harmonics: fit of one target")
        if ok:
            rec.close(np.asarray(m1.predict(Y)), full[:, c], "geometric harmonics: targets are independent", rtol=1e-5, atol=100 * at)
    # scores
    yt = targets(rng, Y, q).astype(float)
    wt = None if rng.random() < .4 else rng.uniform(.1, 3, len(Y))
    av = [("raw_values"), "uniform_average", rng.uniform(.1, 1, q)][int(rng.integers(3))]
    if not isinstance(av, str) and q == 1:
        av = "raw_values"
    pY = np.asarray(model.predict(Y)).reshape(len(Y), q)
    sc = call(rec, lambda: model.score(Y, yt[:, 0] if flat else yt, sample_weight=wt, multioutput=av), "geometric harmonics: score")
    rec.close(np.asarray(sc, float), rmse(yt, pY, wt, av), "geometric harmonics: score is the negative root mean squared error", rtol=1e-8, atol=1e-10)
    for what, r in (("pickled", pickle.loads(pickle.dumps(model))), ("copied", copy.deepcopy(model))):
        rec.equal(np.asarray(r.predict(Y)), full, f"geometric harmonics: {what} model")


def pyramid(DX, DY, f, eps, mu, tol, auto, alpha):
    """levels and predictions of a single target; raises Skip if a stopping decision is within round-off"""
    def P_(D, D0):
        K = np.exp(-D / (2 * eps_))
        K0 = np.exp(-D0 / (2 * eps_))
        if K.sum(1).min() < 1e-140:
            raise Skip()  # a far point: the normalization leaves the range of floating point numbers
        return operators(K0, K, True, alpha)
    s = np.zeros(len(f))
    out, train = np.zeros(len(DY)), np.zeros(len(f))
    r, last, eps_, lev, norms = f.astype(float), np.nan, eps, 0, []
    sc = np.linalg.norm(f) + 1e-300
    while True:
        with np.errstate(all="ignore"):
            P, PY = P_(DY, DX)
        if not np.isfinite(P).all() or not np.isfinite(PY).all():
            raise Skip()
        L = P - np.diag(np.diag(P)) if auto else P
        s = s + L @ r
        res = f - s
        nr = np.linalg.norm(res)
        if auto and not np.isnan(last):
            if abs(nr - last) < 1e-9 * max(nr, last, 1e-6 * sc):
                raise Skip()
            if nr >= last:
                return out, train, lev, norms
        out, train, lev = out + PY @ r, train + P @ r, lev + 1
        norms.append(nr)
        if tol is not None:
            if abs(nr - tol) < 1e-7 * sc:
                raise Skip()
            if nr <= tol:
                return out, train, lev, norms
        if nr < 1e-15:
            return out, train, lev, norms
        if nr < 1e-12 * sc:
            raise Skip()
        last, r, eps_ = nr, res, eps_ / mu
        if lev > 60:
            raise Skip()


@family(quick=400, thorough=9000)
def laplacian_pyramids(rec, rng):
    n, d, X, Y = instance(rng)
    DX, DY = direct(X, X, "sqeuclidean"), direct(X, Y, "sqeuclidean")
    # one target after the other reaches its stopping rule: independent of its neighbours
    q = int(rng.choice([1, 1, 2, 3, 5]))
    y = targets(rng, X, q)
    auto = bool(rng.random() < .5)
    alpha = [0, 0, 1, .5, float(rng.uniform(0, 1))][int(rng.integers(5))]
    mu = [2., 3, 1.5, float(rng.uniform(1.2, 5))][int(rng.integers(4))]
    eps = float(DX.mean() * 10. ** rng.uniform(-.5, 1.5))
    sizes = np.linalg.norm(y, axis=0)
    tol = None if auto and rng.random() < .5 else float(np.median(sizes) * 10. ** rng.uniform(-4, .2))
    if tol is not None and tol <= 0:
        raise Skip()
    flat = q == 1 and rng.random() < .5
    ref = [pyramid(DX, DY, y[:, j], eps, mu, tol, auto, alpha) for j in range(q)]
    rec.sig(auto, tol is not None, alpha in (0, 1), q, flat, y.dtype.kind, tuple(sorted(r[2] for r in ref))[:3])
    rec.note(X=X.tolist(), Y=Y.tolist(), y=y.tolist(), alpha=alpha, mu=mu, eps=eps, tol=tol, auto=auto)
    model = LaplacianPyramidsInterpolator(initial_epsilon=eps, mu=mu, residual_tol=tol, auto_adaptive=auto, alpha=alpha)
    if rng.random() < .3:
        m0 = n + 2
        ok, _ = rec.attempt(lambda: model.fit(rng.normal(size=(m0, d)) * X.std(), rng.normal(size=(m0, 3)) * sizes.max() * .1), "pyramid: earlier fit")
        if not ok:
            model = clone(model)
    ok, _ = rec.attempt(lambda: model.fit(X, y[:, 0] if flat else y), "pyramid: fit")
    if not ok:
        return
    rec.check(model.n_targets_ == q, "pyramid: number of targets", model.n_targets_)
    rec.check(model.level_ == max(r[2] for r in ref) - 1, "pyramid: levels are added until every target reaches its stopping rule", lambda: f"last level {model.level_}, expected levels {[r[2] for r in ref]}")
    for Z, j, tag in ((Y, 0, "new points"), (X, 1, "training points")):
        p = call(rec, lambda: model.predict(Z), f"pyramid: evaluation at the {tag}")
        want = np.column_stack([r[j] for r in ref])
        want = want[:, 0] if q == 1 else want
        if rec.check(np.shape(p) == want.shape, f"pyramid: shape of the evaluation at the {tag}", f"{np.shape(p)} expected {want.shape}"):
            for c in range(q):
                a, b = (p, want) if q == 1 else (p[:, c], want[:, c])
                rec.close(a, b, f"pyramid: sum of smoothed residuals of every target at the {tag}", rtol=1e-7, atol=1e-9 * (1e-6 + sizes[c]))
    pX = np.asarray(model.predict(X)).reshape(n, q)
    if not auto and tol is not None:
        res = np.linalg.norm(y - pX, axis=0)
        rec.check((res <= tol * (1 + 1e-7) + 1e-12).all(), "pyramid: training residual within the tolerance", lambda: f"{res} tolerance {tol}")
    full = np.asarray(model.predict(Y))
    i = int(rng.integers(len(Y)))
    rec.close(np.asarray(model.predict(Y[i:i + 1])), full[i:i + 1], "pyramid: evaluation of a point does not depend on the other points", rtol=1e-9, atol=1e-9 * sizes.max() + 1e-12)
    pi = rng.permutation(len(Y))
    rec.close(np.asarray(model.predict(Y[pi])), full[pi], "pyramid: order of the query points", rtol=1e-9, atol=1e-9 * sizes.max() + 1e-12)
    if q > 1:
        c = int(rng.integers(q))
        m1 = clone(model).fit(X, y[:, c])
        rec.close(np.asarray(m1.predict(Y)), full[:, c], "pyramid: targets are independent", rtol=1e-9, atol=1e-9 * (1e-6 + sizes[c]))
        rec.check(m1.level_ == ref[c][2] - 1, "pyramid: levels of a single target", lambda: f"{m1.level_}, {ref[c][2]}")
        # order of the targets
        po = rng.permutation(q)
        rec.close(np.asarray(clone(model).fit(X, y[:, po]).predict(Y)), full[:, po], "pyramid: order of the targets", rtol=1e-9, atol=1e-9 * sizes.max() + 1e-12)
    # scores: coefficient of determination of the predictions
    if len(Y) > 1:
        yt = targets(rng, Y, q).astype(float)
        if (yt.std(0) > 1e-6 * (1e-12 + np.abs(yt).max(0))).all():
            wt = None if rng.random() < .4 else rng.uniform(.1, 3, len(Y))
            ww = (np.ones(len(Y)) if wt is None else wt)[:, None]
            P = full.reshape(len(Y), q)
            mean = (ww * yt).sum(0) / ww.sum()
            want = np.mean(1 - (ww * (yt - P) ** 2).sum(0) / (ww * (yt - mean) ** 2).sum(0))
            sc = call(rec, lambda: model.score(Y, yt[:, 0] if flat else yt, sample_weight=wt), "pyramid: score")
            rec.close(sc, want, "pyramid: score is the coefficient of determination", rtol=1e-8, atol=1e-9)
    for what, r in (("pickled", pickle.loads(pickle.dumps(model))), ("copied", copy.deepcopy(model))):
        rec.equal(np.asarray(r.predict(Y)), full, f"pyramid: {what} model")


@family(quick=150, thorough=3000)
def rejected(rec, rng):
    n, d, X, Y = instance(rng)
    y = rng.normal(size=n)
    what = str(rng.choice(["mu", "stopping", "eigenpairs", "features", "length", "nan", "small"]))
    gh = rng.random() < .5
    rec.sig(what, gh)
    e = float(direct(X, X, "sqeuclidean").mean())

    def new(**kw):
        if gh:
            return GeometricHarmonicsInterpolator(GaussianKernel(e), n_eigenpairs=kw.pop("k", 1))
        return LaplacianPyramidsInterpolator(initial_epsilon=e, residual_tol=float(np.linalg.norm(y)) * .5)

    if what == "mu":
        v = [1, 1., .5, 0, -2.][int(rng.integers(5))]
        rec.raises(lambda: LaplacianPyramidsInterpolator(initial_epsilon=e, residual_tol=10 * float(np.linalg.norm(y)), mu=v).fit(X, y), "scale factor that does not decrease the kernel scale", Exception)
    elif what == "stopping":
        rec.raises(lambda: LaplacianPyramidsInterpolator(initial_epsilon=e).fit(X, y), "pyramid without stopping rule", ValueError)
    elif what == "eigenpairs":
        v = [0, -1, n, n + 4][int(rng.integers(4))]
        rec.raises(lambda: GeometricHarmonicsInterpolator(GaussianKernel(e), n_eigenpairs=v).fit(X, y), "invalid number of eigenpairs", ValueError)
    elif what == "features":
        m = new().fit(X, y)
        rec.raises(lambda: m.predict(np.hstack([Y, Y[:, :1]])), "query points with other features", Exception)
    elif what == "length":
        rec.raises(lambda: new().fit(X, np.append(y, 1.)), "number of targets differs from the number of points", ValueError)
    elif what == "nan":
        bad = X.copy(); bad[int(rng.integers(n)), int(rng.integers(d))] = rng.choice([np.nan, np.inf])
        yb = y.copy(); yb[int(rng.integers(n))] = np.nan
        rec.raises(lambda: new().fit(bad, y), "points that are not finite", ValueError)
        rec.raises(lambda: new().fit(X, yb), "targets that are not finite", ValueError)
        m = new().fit(X, y)
        rec.raises(lambda: m.predict(bad), "query points that are not finite", ValueError)
    else:
        rec.raises(lambda: new().fit(X[:1], y[:1]), "single training point", ValueError)


@family(quick=120, thorough=2500)
def termination(rec, rng):
    """every fit ends with a finite model, also for targets that are represented exactly or not at all"""
    n, d, X, Y = instance(rng)
    DX = direct(X, X, "sqeuclidean")
    kind = str(rng.choice(["constant", "zero", "smooth", "mixed", "noise", "constant and tolerance"]))
    c = float(10. ** rng.uniform(-2, 2))
    col = {"constant": np.full(n, c), "zero": np.zeros(n), "smooth": c * (X[:, 0] - X[:, 0].mean()) / X.std(), "noise": c * rng.normal(size=n)}
    tol = None
    if kind == "mixed":
        y = np.column_stack(list(col.values()))
    elif kind == "constant and tolerance":
        y, tol = np.full((n, 1), c), 1e-3 * c
    else:
        y = col[kind][:, None]
    auto = tol is None or rng.random() < .5
    eps = float(DX.mean() * 10. ** rng.uniform(-1, 1.5))
    rec.sig(kind, auto, y.shape[1])
    rec.note(X=X.tolist(), y=y.tolist(), eps=eps)
    m = LaplacianPyramidsInterpolator(initial_epsilon=eps, residual_tol=tol, auto_adaptive=auto, alpha=float(rng.choice([0, 0, .5, 1])))
    call(rec, lambda: m.fit(X, y), "pyramid: fit terminates")
    rec.check(m.level_ < 400, "pyramid: bounded number of levels", m.level_)
    p = np.asarray(call(rec, lambda: m.predict(X), "pyramid: evaluation after any target")).reshape(n, -1)
    rec.check(np.isfinite(p).all(), "pyramid: finite evaluation")
    for j in range(y.shape[1]):
        if np.ptp(y[:, j]) == 0 and not auto:
            rec.close(p[:, j], y[:, j], "pyramid: constant target is reproduced", rtol=1e-9, atol=1e-12)
        if not y[:, j].any():
            rec.check(not p[:, j].any(), "pyramid: zero target stays zero")
