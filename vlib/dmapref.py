"""Reference diffusion operators shared by the checks of models on diffusion map kernels."""
import numpy as np
import scipy.sparse as sp
from vlib.dist import direct, pick_cut_off
from datafold.pcfold import GaussianKernel, InverseMultiquadricKernel

RAD = {"gaussian": (GaussianKernel, lambda d, e: np.exp(-d / (2 * e))), "inverse multiquadric": (InverseMultiquadricKernel, lambda d, e: 1 / np.sqrt(d / (2 * e) + 1))}


def dense(M):
    return M.toarray() if sp.issparse(M) else np.asarray(M, dtype=float)


def setup(rng, X, Y):
    """kernel and its matrices (values and stored pairs) on X and from X to Y"""
    name = str(rng.choice(list(RAD)))
    cls, f = RAD[name]
    dX, dY = direct(X, X, "sqeuclidean"), direct(X, Y, "sqeuclidean")
    e = float(np.mean(dX) * 10. ** rng.uniform(-1.2, .3))
    opts, mode = None, "dense"
    r = rng.random()
    KX, KY = f(dX, e), f(dY, e)
    if r < .25:
        c = pick_cut_off(rng, [dX, dY], "sqeuclidean")
        opts, mode = {"cut_off": c}, "sparse"
        KX, KY = KX * (dX < c ** 2), KY * (dY < c ** 2)
    elif r < .4:
        c = 3 * np.sqrt(max(dX.max(), dY.max()))
        opts, mode = {"cut_off": float(c)}, "sparse without cut-off"
    return name, mode, cls(epsilon=e, distance=opts), KX, KY


def operators(KX, KY, stochastic, alpha):
    if not stochastic:
        return KX, KY
    q, p = KX.sum(1) ** alpha, KY.sum(1) ** alpha
    T = KX / np.outer(q, q)
    S = KY / np.outer(p, q)
    return T / T.sum(1)[:, None], S / S.sum(1)[:, None]
