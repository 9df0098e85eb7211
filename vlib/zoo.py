"""Transformers of datafold with independent reference evaluations.

`draw(rng, kinds)` returns an Item: a factory of fresh estimators, constraints on the data and `ref(fit, X)`, a plain numpy
evaluation of the documented definition on reference collections (gen.Ref). Nothing of the code under test is used by `ref`.
"""
import itertools
import math
import numpy as np
import pandas as pd
from vlib import gen


class Item:
    def __init__(self, kind, tag, make, ref=None, names=None, min_len=1, const_dt=False, arrays=True, frames=True, fit_kwargs=None,
                 inverse=None, tol=1e-9, drops=False, strict_features=True, fit_ref_numeric=False):
        self.kind, self.tag, self.make, self.ref, self.names = kind, tag, make, ref, names
        self.min_len, self.const_dt, self.arrays, self.frames = min_len, const_dt, arrays, frames
        self.fit_kwargs = fit_kwargs or (lambda r: {})
        self.inverse, self.tol, self.drops, self.strict_features = inverse, tol, drops, strict_features


def data(rng, item=None, n_series=None, feats=None, kind=None, values=None, nf=None, min_len=None, **kw):
    """collection suitable for the item; several series, unsorted IDs, unequal length"""
    min_len = (item.min_len if item else 1) if min_len is None else min_len
    const = item.const_dt if item else False
    kind = kind or str(rng.choice(["int", "float", "datetime"], p=[.35, .45, .2]))
    lo = 2 if item is not None and getattr(item, "center_type", "") == "initial_condition" else 1   # distances need two reference points
    r = gen.rand_ref(rng, plain=True, n_series=n_series or int(rng.integers(lo, 5)), nf=nf, feats=feats, kind=kind,
                     regular=True if const else None, same_dt=True if const else None,
                     min_len=max(min_len, 2 if const else 1), max_len=max(min_len, 2) + int(rng.integers(2, 8)), values=values or "smooth", **kw)
    if values is None:
        r.vals = [v + .1 * rng.normal(size=v.shape) for v in r.vals]
    return r


def _apply(R, fn):
    return gen.Ref(R.ids, R.times, [fn(v) for v in R.vals], R.feats)


# ---------------------------------------------------------------- definitions
def ref_scale(kind, kw):
    def f(F, R):
        V = F.values()
        if kind == "standard":
            mu = V.mean(0) if kw["with_mean"] else 0 * V[0]
            sd = np.sqrt(((V - V.mean(0)) ** 2).mean(0)) if kw["with_std"] else 1 + 0 * V[0]
            sd = np.where(sd == 0, 1, sd)
            return _apply(R, lambda v: (v - mu) / sd)
        if kind == "minmax":
            a, b = kw["feature_range"]
            lo, hi = V.min(0), V.max(0)
            d = np.where(hi - lo == 0, 1, hi - lo)
            return _apply(R, lambda v: (v - lo) / d * (b - a) + a)
        if kind == "maxabs":
            s = np.abs(V).max(0)
            s = np.where(s == 0, 1, s)
            return _apply(R, lambda v: v / s)
        med = np.median(V, 0)
        iq = np.percentile(V, 75, axis=0) - np.percentile(V, 25, axis=0)
        iq = np.where(iq == 0, 1, iq)
        return _apply(R, lambda v: (v - med) / iq)
    return f


def fd_weights(offsets, order):
    """weights of the finite difference of the given order on unit spacing, from the moment conditions"""
    o = np.asarray(offsets, float)
    A = np.vander(o, increasing=True).T
    b = np.zeros(len(o)); b[order] = math.factorial(order)
    return np.linalg.solve(A, b)


def fd_offsets(scheme, order, acc):
    if scheme == "center":
        n = 2 * ((order + 1) // 2) - 1 + acc
        h = n // 2
        return np.arange(-h, h + 1)
    n = order + acc
    return np.arange(n) if scheme == "forward" else -np.arange(n)[::-1]


def fd_len(scheme, order, acc):
    return len(fd_offsets(scheme, order, acc))


def ref_fd(scheme, order, acc):
    def f(F, R):
        off = fd_offsets(scheme, order, acc)
        w = fd_weights(off, order)
        T, V = [], []
        for t, v in zip(R.times, R.vals):
            dt = float(t[1] - t[0])
            m = len(t) - len(off) + 1
            T.append(t[len(off) - 1:])        # label of the latest sample used
            V.append(np.stack([w @ v[k:k + len(off)] for k in range(m)]) / dt ** order)
        return gen.Ref(R.ids, T, V, R.feats)
    return f


def ref_takens(delays, lag, freq, kappa):
    idx = [lag + 1 + k * freq for k in range(delays)]

    def f(F, R):
        T, V = [], []
        for t, v in zip(R.times, R.vals):
            m = max(idx)
            rows = [np.concatenate([v[k]] + [v[k - d] * math.exp(-kappa * (j + 1)) for j, d in enumerate(idx)]) for k in range(m, len(t))]
            T.append(t[m:]); V.append(np.array(rows))
        return gen.Ref(R.ids, T, V, R.feats)
    return f, idx


def ref_ma(w):
    def f(F, R):
        T, V, I = [], [], []
        for i, t, v in zip(R.ids, R.times, R.vals):
            if len(t) < w:
                continue
            T.append(t[w - 1:]); V.append(np.array([v[k - w + 1:k + 1].mean(0) for k in range(w - 1, len(t))])); I.append(i)
        return gen.Ref(I, T, V, R.feats)
    return f


def poly_exponents(nf, degree, interaction, bias, first):
    ex = []
    for d in range(0, degree + 1):
        comb = itertools.combinations(range(nf), d) if interaction else itertools.combinations_with_replacement(range(nf), d)
        for c in comb:
            e = [0] * nf
            for k in c:
                e[k] += 1
            ex.append(tuple(e))
    ex = [e for e in ex if (sum(e) > 0 or bias) and (sum(e) != 1 or first)]
    return ex


def poly_names(ex, feats):
    out = []
    for e in ex:
        s = " ".join(f if k == 1 else f"{f}^{k}" for f, k in zip(feats, e) if k)
        out.append(s or "1")
    return out


def gauss(eps):
    return lambda d2: np.exp(-d2 / (2 * eps))


KERN = {
    "gauss": lambda e: (lambda K: K.GaussianKernel(epsilon=e), lambda d2: np.exp(-d2 / (2 * e))),
    "multiquadric": lambda e: (lambda K: K.MultiquadricKernel(epsilon=e), lambda d2: np.sqrt(d2 / (2 * e) + 1)),
    "invmultiquadric": lambda e: (lambda K: K.InverseMultiquadricKernel(epsilon=e), lambda d2: 1 / np.sqrt(d2 / (2 * e) + 1)),
    "invquadratic": lambda e: (lambda K: K.InverseQuadraticKernel(epsilon=e), lambda d2: 1 / (d2 / (2 * e) + 1)),
    "quintic": lambda e: (lambda K: K.QuinticKernel(), lambda d2: np.sqrt(d2) ** 5),
}


def sqd(A, B):
    return ((A[:, None, :] - B[None, :, :]) ** 2).sum(-1)



def f_square(x):
    return x ** 2


def f_exp(x):
    return np.exp(-x)


def f_affine(x):
    return 3 * x + 1


LAMBDAS = [("sin", np.sin, np.sin), ("square", f_square, np.square), ("exp", f_exp, f_exp), ("abs", np.abs, np.abs), ("affine", f_affine, f_affine)]

KINDS = ["scale", "select", "identity", "pca", "takens", "ma", "rbf", "poly", "lambda", "fd"]


def draw(rng, feats, kind=None):
    """feats: feature names of the data the transformer is going to see"""
    import datafold.dynfold as dy
    from datafold.dynfold.transform import TSCFeatureSelect, TSCMovingAverage
    nf = len(feats)
    kind = kind or str(rng.choice(KINDS))
    if kind == "scale":
        sub = str(rng.choice(["center", "min-max", "standard", "standard*", "minmax*", "maxabs", "robust"]))
        from sklearn import preprocessing as pp
        if sub == "center":
            mk, ref = (lambda: dy.TSCFeaturePreprocess.from_name("center")), ref_scale("standard", dict(with_mean=True, with_std=False))
        elif sub == "standard":
            mk, ref = (lambda: dy.TSCFeaturePreprocess.from_name("standard")), ref_scale("standard", dict(with_mean=True, with_std=True))
        elif sub == "min-max":
            mk, ref = (lambda: dy.TSCFeaturePreprocess.from_name("min-max")), ref_scale("minmax", dict(feature_range=(0, 1)))
        elif sub == "standard*":
            kw = dict(with_mean=bool(rng.integers(2)), with_std=bool(rng.integers(2)))
            mk, ref = (lambda: dy.TSCFeaturePreprocess(pp.StandardScaler(**kw))), ref_scale("standard", kw)
        elif sub == "minmax*":
            kw = dict(feature_range=(-2.0, 3.0))
            mk, ref = (lambda: dy.TSCFeaturePreprocess(pp.MinMaxScaler(**kw))), ref_scale("minmax", kw)
        elif sub == "maxabs":
            mk, ref = (lambda: dy.TSCFeaturePreprocess(pp.MaxAbsScaler())), ref_scale("maxabs", {})
        else:
            mk, ref = (lambda: dy.TSCFeaturePreprocess(pp.RobustScaler())), ref_scale("robust", {})
        return Item(kind, sub, mk, ref, list(feats), inverse="exact")
    if kind == "select":
        m = int(rng.integers(1, nf + 1))
        pick = rng.permutation(nf)[:m]
        by = str(rng.choice(["name", "index"]))
        f = np.array([feats[k] for k in pick], dtype=object if rng.random() < .5 else None) if by == "name" else np.array(pick)
        return Item(kind, (by, m), lambda: TSCFeatureSelect(f), lambda F, R: gen.Ref(R.ids, R.times, [v[:, pick] for v in R.vals], [feats[k] for k in pick]),
                    [feats[k] for k in pick], arrays=False, frames=False)
    if kind == "identity":
        c, n = bool(rng.integers(2)), bool(rng.integers(2))
        names = [f + "_id" if n else f for f in feats] + (["const"] if c else [])
        return Item(kind, (c, n), lambda: dy.TSCIdentity(include_const=c, rename_features=n),
                    lambda F, R: _apply(R, lambda v: np.column_stack([v, np.ones(len(v))]) if c else v), names, inverse="exact")
    if kind == "pca":
        k = int(rng.integers(1, nf + 1)); wh = bool(rng.random() < .3)

        def ref(F, R):
            V = F.values(); mu = V.mean(0)
            _, s, vt = np.linalg.svd(V - mu, full_matrices=False)
            def g(v):
                z = (v - mu) @ vt[:k].T
                return z / s[:k] * np.sqrt(len(V) - 1) if wh else z
            return _apply(R, g)
        it = Item(kind, (k, nf, wh), lambda: dy.TSCPrincipalComponent(n_components=k, whiten=wh), ref, [f"pca{i}" for i in range(k)],
                  inverse="exact" if k == nf else "projection", tol=1e-7)
        it.sign = True
        return it
    if kind == "takens":
        d, lag, fr = int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(1, 4))
        if d == 1:
            fr = 1
        kap = float(rng.choice([0, 0, .5, 1.5])) if rng.random() < .9 else int(rng.integers(0, 3))
        ref, idx = ref_takens(d, lag, fr, kap)
        names = list(feats) + [f"{f}:d{i}" for i in idx for f in feats]
        return Item(kind, (d, lag, fr, kap), lambda: dy.TSCTakensEmbedding(delays=d, lag=lag, frequency=fr, kappa=kap), ref, names, min_len=max(idx) + 1,
                    const_dt=True, arrays=False, frames=False, inverse="truncated", drops=True)
    if kind == "ma":
        w = int(rng.integers(1, 5))
        return Item(kind, w, lambda: TSCMovingAverage(window=w), ref_ma(w), [f"{f}_ma{w}" for f in feats], min_len=w, const_dt=True, arrays=False, frames=False, drops=True, tol=1e-8)
    if kind == "rbf":
        from datafold.pcfold import kernels as K
        kn = str(rng.choice(list(KERN))); e = float(rng.choice([.5, 1., 3.]))
        mkk, phi = KERN[kn](e)
        ct = str(rng.choice(["all_data", "random", "fit_params", "initial_condition"]))
        nsamp = 3
        cen = rng.normal(size=(int(rng.integers(2, 6)), nf))

        def centers(F):
            V = F.values()
            if ct == "all_data":
                return V
            if ct == "fit_params":
                return cen
            if ct == "initial_condition":
                return np.stack([v[0] for v in F.vals])
            return None
        def ref(F, R):
            C = centers(F)
            return None if C is None else _apply(R, lambda v: phi(sqd(v, C)))
        it = Item(kind, (kn, ct), lambda: dy.TSCRadialBasis(kernel=mkk(K), center_type=ct, n_samples=nsamp), ref, None,
                  fit_kwargs=(lambda r: dict(centers=cen)) if ct == "fit_params" else None, arrays=ct != "initial_condition", frames=ct != "initial_condition",
                  min_len=3 if ct == "random" else 2, inverse="rbf", tol=1e-7)
        it.phi, it.centers, it.center_type, it.kern = phi, centers, ct, kn
        return it
    if kind == "poly":
        deg, io_, b, fo = int(rng.integers(1, 4)), bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
        if deg == 1:
            fo = True
        if io_ and nf == 1 and not b:
            fo = True
        ex = poly_exponents(nf, deg, io_, b, fo)
        if not ex:
            fo = True; ex = poly_exponents(nf, deg, io_, b, fo)
        E = np.array(ex)
        return Item(kind, (deg, io_, b, fo), lambda: dy.TSCPolynomialFeatures(degree=deg, interaction_only=io_, include_bias=b, include_first_order=fo),
                    lambda F, R: _apply(R, lambda v: np.prod(v[:, None, :] ** E[None], axis=2)), poly_names(ex, feats))
    if kind == "lambda":
        m = int(rng.integers(1, 4)); pick = [LAMBDAS[k] for k in rng.permutation(len(LAMBDAS))[:m]]
        return Item(kind, m, lambda: dy.TSCApplyLambdas([p[1] for p in pick]), lambda F, R: _apply(R, lambda v: np.hstack([p[2](v) for p in pick])),
                    [f"{f}_lambda{i}" for i in range(m) for f in feats], arrays=False, frames=False)
    if kind == "fd":
        s, o, a = str(rng.choice(["backward", "center", "forward"])), int(rng.integers(1, 3)), int(rng.choice([2, 4]))
        it = Item(kind, (s, o, a), lambda: dy.TSCFiniteDifference(scheme=s, diff_order=o, accuracy=a), ref_fd(s, o, a),
                  [f"{f}_dot{o}" for f in feats], min_len=fd_len(s, o, a), const_dt=True, arrays=False, frames=False, drops=True, tol=1e-6)
        it.numeric_time = True
        return it
    raise ValueError(kind)


def time_kind(rng, item):
    if getattr(item, "numeric_time", False):
        return str(rng.choice(["int", "float"]))
    return None


def align_sign(got, want):
    """flip the columns of `got` which point to the opposite direction of `want` (principal components)"""
    G, W = got.values(), want.values()
    s = np.sign((G * W).sum(0)); s[s == 0] = 1
    return gen.Ref(got.ids, got.times, [v * s for v in got.vals], got.feats)
