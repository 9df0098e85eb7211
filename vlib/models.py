"""Registry of all models of datafold with data and calls, for the monitors that hold for every model (C11, C18, C23).

`draw(rng, kind)` returns a Model: a factory of fresh estimators (equal parameters, own parameter objects), two data sets to fit and concrete
calls for each of them. Nothing in here is an oracle.
"""
import copy
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib import gen, lin, zoo

CN = ["p", "q", "r"]


class Lazy:
    """argument which is computed with the fitted model right before the call"""

    def __init__(self, fn):
        self.fn = fn


class Call:
    def __init__(self, label, method, *args, **kwargs):
        self.label, self.method, self.args, self.kwargs = label, method, args, kwargs

    def resolve(self, m):
        return [a.fn(m) if isinstance(a, Lazy) else copy.deepcopy(a) for a in self.args], {k: (a.fn(m) if isinstance(a, Lazy) else copy.deepcopy(a)) for k, a in self.kwargs.items()}

    def run(self, m, args=None, kwargs=None):
        if args is None:
            args, kwargs = self.resolve(m)
        f = self.method
        return f(m, *args, **kwargs) if callable(f) else getattr(m, f)(*args, **kwargs)


class Model:
    def __init__(self, kind, tag, make, data, tol=1e-8, shared=None, **extra):
        self.kind, self.tag, self.make, self.data, self.tol, self.shared = kind, tag, make, data, tol, shared
        self.__dict__.update(extra)

    def fit(self, m, k):
        return self.data[k][0].run(m)

    def calls(self, k):
        return self.data[k][1]


def outcome(fn):
    """comparable result of a call: values and labels, or the kind of exception"""
    try:
        return norm(fn())
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        if type(e).__name__ in ("CaseTimeout", "AbortCase", "Skip", "Inconclusive"):
            raise
        return ("raises", type(e).__name__, str(e)[:200])


def norm(r):
    if isinstance(r, pd.DataFrame):
        return ("frame", type(r).__name__, tuple(r.index.to_list()), tuple(map(str, r.columns)), np.asarray(pd.DataFrame(r)))
    if isinstance(r, pd.Series):
        return ("series", tuple(r.index.to_list()), np.asarray(r))
    if isinstance(r, pd.Index):
        return ("index", tuple(map(str, r)))
    if isinstance(r, np.ndarray):
        return ("array", np.asarray(r))
    if sp.issparse(r):
        return ("array", r.toarray())
    if isinstance(r, (tuple, list)):
        return ("tuple",) + tuple(norm(x) for x in r)
    if isinstance(r, (int, float, complex, np.number)):
        return ("array", np.asarray(r))
    if r is None or isinstance(r, (str, bool)):
        return ("val", repr(r))
    return ("object", type(r).__name__)


def same(a, b, tol=1e-8):
    """'' if two outcomes agree, otherwise a description"""
    if len(a) != len(b) or a[0] != b[0]:
        return f"{_s(a)} instead of {_s(b)}"
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape:
                return f"shape {x.shape} instead of {y.shape}"
            if x.dtype == object or y.dtype == object or x.dtype.kind in "SUMm":
                if not np.array_equal(x, y):
                    return f"values {_s(x)} instead of {_s(y)}"
                continue
            s = np.nanmax(np.abs(y[np.isfinite(y)])) if np.isfinite(y).any() else 1.
            if not np.allclose(x, y, rtol=tol, atol=tol * (s + 1e-300), equal_nan=True):
                return f"values differ by {np.nanmax(np.abs(x - y))} (size {s})"
        elif isinstance(x, tuple) and x and isinstance(x[0], str) and a[0] == "tuple":
            d = same(x, y, tol)
            if d:
                return d
        elif a[0] == "raises":
            if a[1] != b[1]:
                return f"{_s(a)} instead of {_s(b)}"
            break
        elif x != y:
            return f"labels {_s(x)} instead of {_s(y)}"
    return ""


def _s(x):
    return repr(x)[:250]


def call_vars(m):
    return m


# ------------------------------------------------------------------------------------------------ data
def clouds(rng, n=None, d=None, k=2, container=None):
    """k point clouds of the same dimension (different number of points)"""
    d = d or int(rng.integers(1, 4))
    out = []
    for _ in range(k):
        m = n or int(rng.integers(9, 26))
        out.append(rng.normal(size=(m, d)) * rng.uniform(.5, 2) + rng.normal(size=d))
    return out


def wrap(rng, P, kind):
    cols = [f"x{i}" for i in range(P.shape[1])]
    if kind == "array":
        return P
    if kind == "frame":
        return pd.DataFrame(P, index=[f"r{i}" for i in range(len(P))], columns=cols)
    n, a = len(P), len(P) // 2
    return gen.Ref([7, 2], [.5 * np.arange(a), .5 * np.arange(n - a)], [P[:a], P[a:]], cols).tsc()


def linear(rng, n, nu=0, kind=None, series=None, dt=None, A=None, B=None, min_len=7, max_len=14, noise=.02, need=None):
    kind = kind or str(rng.choice(["int", "float"])); dt = dt or lin.draw_dt(rng, kind)
    A = lin.rand_system(rng, n) if A is None else A
    B = rng.normal(size=(n, nu)) if B is None else B
    U = {}

    def step(x, i, k):
        u = rng.normal(size=nu); U.setdefault(i, []).append(u)
        return A @ x + B @ u + noise * rng.normal(size=n)
    R = lin.trajectories(rng, step, n, need or 3 * (n + nu) + 4, kind, dt, n_series=series or int(rng.integers(1, 4)), min_len=min_len, max_len=max_len)
    Q = gen.Ref(R.ids, [t[:-1] for t in R.times], [np.array(U[i]) for i in range(R.n)], CN[:nu]) if nu else None
    return R, Q, kind, dt, A, B


def request(rng, R, n, nu, kind, dt, samples=1, q=None, T=None):
    """initial conditions with `samples` rows, time values and controls"""
    q = q or int(rng.integers(1, 4)); T = T or int(rng.integers(2, 7)); k0 = int(rng.integers(0, 5)) + samples - 1
    ids = [int(i) for i in rng.choice(40, size=q, replace=False)]
    ic = gen.Ref(ids, [lin.grid(kind, dt, k0 - samples + 1 + np.arange(samples))] * q, [rng.normal(size=(samples, n)) for _ in ids], R.feats)
    t = lin.grid(kind, dt, k0 + np.arange(T + 1))
    U = gen.Ref(ids, [t[:-1]] * q, [rng.normal(size=(T, nu)) for _ in ids], CN[:nu]) if nu else None
    return ic, t, U


# ------------------------------------------------------------------------------------------------ kinds
def k_transform(rng):
    nf = int(rng.integers(1, 4)); feats = gen.FEATS[:nf]
    item = zoo.draw(rng, feats)
    tk = zoo.time_kind(rng, item) or str(rng.choice(["int", "float"]))
    cont = "array" if item.arrays and rng.random() < .35 else ("frame" if item.frames and rng.random() < .2 else "tsc")
    item.data_kind = tk
    raw = []
    for _ in range(4):
        R = zoo.data(rng, item, feats=feats, nf=nf, kind=tk, n_series=int(rng.integers(2, 5)), min_len=item.min_len + 3)
        raw.append(R.values() if cont == "array" else (pd.DataFrame(R.values(), columns=feats) if cont == "frame" else R.tsc()))
    fk = item.fit_kwargs(None)
    data = []
    for k in range(2):
        X, Y = raw[k], raw[2 + k]
        cs = [Call("transform", "transform", X), Call("transform new", "transform", Y), Call("names", "get_feature_names_out")]
        if item.inverse:
            cs.append(Call("inverse_transform", "inverse_transform", Lazy(lambda m, X=X: m.transform(X))))
        cs.append(Call("fit_transform of a copy", lambda m, Z, **kw: copy.deepcopy(m).fit_transform(Z, **kw), X, **fk))
        data.append((Call("fit", "fit", X, **fk), cs))
    sub = item.kind
    return Model("transform:" + sub, (sub, item.tag, cont), item.make, data, random=sub == "rbf" and "random" in str(item.tag))


def k_column(rng):
    from datafold.dynfold import TSCColumnTransformer, TSCPolynomialFeatures, TSCFeaturePreprocess, TSCIdentity
    from sklearn.preprocessing import StandardScaler
    feats = gen.FEATS[:3]

    def make():
        return TSCColumnTransformer([("s", TSCFeaturePreprocess(StandardScaler()), feats[:2]), ("p", TSCPolynomialFeatures(degree=2, include_first_order=False), [feats[2]]), ("i", TSCIdentity(include_const=True), [feats[0], feats[2]])])
    data = []
    for k in range(2):
        X, Y = (gen.rand_ref(rng, n_series=3, nf=3, kind="float", values="smooth", min_len=3, max_len=7, feats=feats).tsc() for _ in range(2))
        data.append((Call("fit", "fit", X), [Call("transform", "transform", X), Call("transform new", "transform", Y),
                                             Call("fit_transform of a copy", lambda m, Z: copy.deepcopy(m).fit_transform(Z), X)]))
    return Model("column transformer", (), make, data)


def kernel(rng, which=None):
    from datafold.pcfold import GaussianKernel, ContinuousNNKernel, InverseMultiquadricKernel
    k = which or str(rng.choice(["gauss", "gauss", "gauss-fn", "gauss-cut", "cknn", "imq"]))
    e = float(rng.uniform(.8, 3))
    mk = {"gauss": lambda: GaussianKernel(epsilon=e), "gauss-fn": lambda: GaussianKernel(epsilon=np.median), "gauss-cut": lambda: GaussianKernel(epsilon=e, distance=dict(cut_off=9.)),
          "cknn": lambda: ContinuousNNKernel(k_neighbor=4, delta=1.7), "imq": lambda: InverseMultiquadricKernel(epsilon=e)}[k]
    return k, mk


def k_dmap(rng):
    from datafold.dynfold import DiffusionMaps
    kn, mk = kernel(rng)
    sto, alpha, sym, ne = bool(rng.random() < .7), float(rng.choice([0, .5, 1.])), bool(rng.random() < .5), int(rng.integers(2, 5))
    if kn == "cknn":
        sto, sym = True, False
    te = float(rng.choice([0, 0, 1, .5]))
    cont = str(rng.choice(["array", "frame", "tsc"]))
    P = clouds(rng, k=4)
    data = []
    for k in range(2):
        X, Y = wrap(rng, P[k], cont), wrap(rng, P[2 + k], cont)
        cs = [Call("transform", "transform", X), Call("transform new", "transform", Y), Call("kernel matrix", lambda m, Z: copy.deepcopy(m).fit(Z, store_kernel_matrix=True).kernel_matrix_, X),
              Call("inverse_transform", "inverse_transform", Lazy(lambda m, X=X: m.transform(X))),
              Call("target coordinates of a copy", lambda m, Z: copy.deepcopy(m).set_target_coords([0, 1]).transform(Z), Y),
              Call("eigenvalues", lambda m: np.asarray(m.eigenvalues_)), Call("names", "get_feature_names_out"),
              Call("fit_transform of a copy", lambda m, Z: copy.deepcopy(m).fit_transform(Z), X)]
        data.append((Call("fit", "fit", X), cs))
    return Model("diffusion maps", (kn, sto, alpha, sym, te, cont), lambda kern=None: DiffusionMaps(kernel=kern or mk(), n_eigenpairs=ne, time_exponent=te, is_stochastic=sto, alpha=alpha, symmetrize_kernel=sym), data, tol=1e-6, shared=mk)


def k_roseland(rng):
    from datafold.dynfold import Roseland
    kn, mk = kernel(rng, str(rng.choice(["gauss", "imq", "gauss-cut"])))
    cont = str(rng.choice(["array", "frame", "tsc"]))
    P = clouds(rng, k=4)
    lm = [.5, 7, None][int(rng.integers(3))]
    L = rng.normal(size=(6, P[0].shape[1])) if lm is None else lm
    alpha, te = float(rng.choice([0, .5, 1])), float(rng.choice([0, 1]))
    data = []
    for k in range(2):
        X, Y = wrap(rng, P[k], cont), wrap(rng, P[2 + k], cont)
        data.append((Call("fit", "fit", X), [Call("transform", "transform", X), Call("transform new", "transform", Y), Call("singular values", lambda m: np.asarray(m.svdvalues_)),
                                             Call("target coordinates of a copy", lambda m, Z: copy.deepcopy(m).set_target_coords([0, 1]).transform(Z), Y),
                                             Call("fit_transform of a copy", lambda m, Z: copy.deepcopy(m).fit_transform(Z), X)]))
    return Model("roseland", (kn, str(lm), alpha, te, cont), lambda kern=None: Roseland(kernel=kern or mk(), n_svdtriplet=3, landmarks=copy.deepcopy(L), alpha=alpha, time_exponent=te, random_state=3), data, tol=1e-6, shared=mk)


def k_lrs(rng):
    from datafold.dynfold import LocalRegressionSelection
    st = str(rng.choice(["dim", "threshold"])); cont = str(rng.choice(["array", "frame", "tsc"]))
    ns = [np.inf, 15][int(rng.integers(2))]
    data = []
    for k in range(2):
        t = np.sort(rng.random(30)) * 3
        P = np.column_stack([np.ones(30), np.cos(t), np.cos(2 * t), np.sin(t) + .3 * rng.normal(size=30), rng.normal(size=30)])
        X = wrap(rng, P, cont)
        data.append((Call("fit", "fit", X), [Call("transform", "transform", X), Call("selected", lambda m: np.asarray(m.evec_indices_)), Call("residuals", lambda m: np.asarray(m.residuals_)),
                                             Call("inverse_transform", "inverse_transform", Lazy(lambda m, X=X: m.transform(X)))]))
    return Model("local regression selection", (st, cont, ns), lambda: LocalRegressionSelection(strategy=st, intrinsic_dim=2, regress_threshold=.6, n_subsample=ns, random_state=5), data)


def k_gh(rng):
    from datafold.dynfold import GeometricHarmonicsInterpolator
    kn, mk = kernel(rng, str(rng.choice(["gauss", "gauss-fn", "imq", "gauss-cut"])))
    sto, sym = bool(rng.integers(2)), bool(rng.integers(2)); q = int(rng.integers(1, 4)); one = q == 1 and rng.random() < .6
    P = clouds(rng, k=4); data = []
    tg = lambda Z: (lambda f: f[:, 0] if one else f)(np.column_stack([np.sin(Z.sum(1) + j) for j in range(q)]))
    for k in range(2):
        X, Y = P[k], P[2 + k]
        w = rng.random(len(Y))
        data.append((Call("fit", "fit", X, tg(X)), [Call("predict", "predict", X), Call("predict new", "predict", Y), Call("score", "score", Y, tg(Y)),
                                                    Call("weighted score", "score", Y, tg(Y), sample_weight=w)]))
    return Model("geometric harmonics", (kn, sto, sym, q, one), lambda kern=None: GeometricHarmonicsInterpolator(kernel=kern or mk(), n_eigenpairs=4, is_stochastic=sto, symmetrize_kernel=sym), data, tol=1e-6, shared=mk)


def k_lp(rng):
    from datafold.dynfold import LaplacianPyramidsInterpolator
    auto = bool(rng.integers(2)); q = int(rng.integers(1, 4)); one = q == 1 and rng.random() < .6; al = float(rng.choice([0, 1]))
    P = clouds(rng, k=4); data = []
    tg = lambda Z: (lambda f: f[:, 0] if one else f)(np.column_stack([np.sin(Z.sum(1) + j) for j in range(q)]))
    for k in range(2):
        X, Y = P[k], P[2 + k]
        w = rng.random(len(Y))
        data.append((Call("fit", "fit", X, tg(X)), [Call("predict", "predict", X), Call("predict new", "predict", Y), Call("score", "score", Y, tg(Y)), Call("weighted score", "score", Y, tg(Y), sample_weight=w)]))
    return Model("laplacian pyramids", (auto, q, one, al), lambda: LaplacianPyramidsInterpolator(initial_epsilon=10., residual_tol=None if auto else .3, auto_adaptive=auto, alpha=al), data)


def k_jsf(rng):
    from datafold.dynfold.jsf import JointlySmoothFunctions
    kn, mk = kernel(rng, str(rng.choice(["gauss", "gauss-fn", "imq"])))
    cont = str(rng.choice(["array", "frame", "tsc"])); data = []
    P = [rng.normal(size=(int(rng.integers(18, 30)), 4)) for _ in range(4)]
    for p in P:
        p[:, 2] = p[:, 0] + .1 * p[:, 2]
    for k in range(2):
        X, Y = wrap(rng, P[k], cont), wrap(rng, P[2 + k], cont)
        data.append((Call("fit", "fit", X), [Call("transform", "transform", X), Call("transform new", "transform", Y), Call("E0", "compute_E0"), Call("eigenvalues", lambda m: np.asarray(m.eigenvalues_)),
                                             Call("fit_transform of a copy", lambda m, Z: copy.deepcopy(m).fit_transform(Z), X)]))

    def make(kern=None):
        a, b = (kern, kern) if kern is not None else (mk(), mk())
        return JointlySmoothFunctions([("a", a, slice(0, 2)), ("b", b, slice(2, 4))], n_kernel_eigenvectors=5, n_jointly_smooth_functions=3)
    return Model("jointly smooth functions", (kn, cont), make, data, tol=1e-5, shared=mk)


def k_dmd(rng, which=None):
    from datafold.dynfold import dmd
    n = int(rng.integers(1, 4)); nu = 0
    w = which or str(rng.choice(["standard", "standard", "rank", "project", "gdmd", "control", "affine", "online", "streaming", "pydmd"]))
    mode = str(rng.choice(["spectral", "matrix"]))
    if w in ("control", "affine"):
        nu = int(rng.integers(1, 3))
    if w in ("rank", "project"):
        n = max(n, 2)
    mk = {"standard": lambda: dmd.DMDStandard(sys_mode=mode, approx_generator=gen_, residual_filter=rf), "rank": lambda: dmd.DMDStandard(rank=n - 1),
          "project": lambda: dmd.DMDStandard(rank=n - 1, reconstruct_mode="project"), "gdmd": lambda: dmd.gDMDFull(sys_mode=mode), "control": lambda: dmd.DMDControl(sys_mode=mode),
          "affine": lambda: dmd.gDMDAffine(), "online": lambda: dmd.OnlineDMD(weighting=wg), "streaming": lambda: dmd.StreamingDMD(), "pydmd": lambda: dmd.PyDMDWrapper("dmd", svd_rank=-1)}[w]
    gen_, rf, wg = bool(rng.random() < .3), (1e10 if mode == "spectral" and rng.random() < .3 else None), float(rng.choice([1., .95]))
    kind = str(rng.choice(["int", "float"] if w in ("gdmd", "affine") or gen_ and w == "standard" else ["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    if w in ("gdmd", "affine"):
        dt = {"int": 1, "float": .1}[kind]
    series = 1 if w == "pydmd" else None
    A = lin.rand_system(rng, n)
    if w in ("gdmd", "affine"):
        A = np.eye(n) + .1 * rng.normal(size=(n, n))
    data = []
    for k in range(2):
        R, Q, *_ = linear(rng, n, nu, kind, series, dt, A=A if k == 0 else None if w not in ("gdmd", "affine") else A.T, min_len=8, max_len=14)
        if w == "affine":                                                 # control for every state
            Q = gen.Ref(R.ids, R.times, [rng.normal(size=(len(t), nu)) for t in R.times], CN[:nu])
        X = R.tsc(); U = Q.tsc() if nu else None
        ic, t, V = request(rng, R, n, nu, kind, dt)
        if w == "affine":
            V = gen.Ref(V.ids, [t] * V.n, [rng.normal(size=(len(t), nu)) for _ in V.ids], CN[:nu])
        kw = dict(U=U) if nu else {}
        pk = dict(U=V.tsc()) if nu else {}
        cs = []
        if nu:
            cs += [Call("predict", "predict", ic.tsc(), time_values=t, **pk)]
            if w == "control" and ic.n == 1:
                cs += [Call("predict with array control", "predict", ic.vals[0][0], U=V.vals[0], time_values=t)]
        else:
            cs += [Call("predict", "predict", ic.tsc(), time_values=t), Call("predict at fitted times", "predict", ic.tsc()), Call("predict array", "predict", ic.vals[0][0], time_values=t)]
        if w not in ("affine",) and not (w in ("rank",) and False):
            cs += [Call("reconstruct", "reconstruct", X, **kw), Call("score", "score", X, **kw)]
            if w != "streaming":
                cs.append(Call("fit_predict of a copy", lambda m, Z, **k2: copy.deepcopy(m).fit_predict(Z, **k2), X, **kw))
        cs.append(Call("operator", lambda m: [np.sort_complex(np.asarray(m.eigenvalues_)) if hasattr(m, "eigenvalues_") else 0, np.asarray(getattr(m, "sys_matrix_", 0)), np.asarray(getattr(m, "control_matrix_", 0))]))
        fit = Call("fit", "fit", X, **kw)
        if w == "streaming":
            t0, v = R.times[0], R.vals[0]
            two = gen.Ref([R.ids[0]], [t0[:2]], [v[:2]], R.feats).tsc()
            rest = [gen.Ref([R.ids[0]], [t0[j:j + 2]], [v[j:j + 2]], R.feats).tsc() for j in range(1, len(t0) - 1)]

            def fit_all(m, a, b):
                m.fit(a)
                for z in b:
                    m.partial_fit(z)
                return m
            fit = Call("fit and partial fits", fit_all, two, rest)
            R2 = gen.Ref([R.ids[0]], [t0[-2:]], [rng.normal(size=(2, n))], R.feats)
            cs.append(Call("partial_fit of a copy", lambda m, Z, c, tt: copy.deepcopy(m).partial_fit(Z).predict(c, time_values=tt), R2.tsc(), ic.tsc(), t))
        data.append((fit, cs))
        if w == "online":
            R2, *_ = linear(rng, n, 0, kind, None, dt, A=A)
            cs.append(Call("partial_fit of a copy", lambda m, Z, c, tt: (lambda mm: mm.predict(c, time_values=tt))(copy.deepcopy(m).partial_fit(Z)), R2.tsc(), ic.tsc(), t))
    return Model("dmd:" + w, (w, mode if w in ("standard", "gdmd", "control") else "", n, nu, kind, gen_ if w == "standard" else ""), mk, data, tol=1e-6, n=n, nu=nu, feats=R.feats, time=kind, dt=dt, which=w, samples=1, predict=True)


def k_edmd(rng, which=None):
    from datafold.appfold import EDMD
    from datafold.dynfold import (TSCIdentity, TSCTakensEmbedding, TSCPolynomialFeatures, TSCFeaturePreprocess, TSCPrincipalComponent, TSCRadialBasis, DiffusionMaps, TSCColumnTransformer, OnlineDMD)
    from datafold.dynfold.dmd import DMDStandard, DMDControl, gDMDFull
    from datafold.pcfold import GaussianKernel
    from sklearn.preprocessing import StandardScaler
    n = int(rng.integers(1, 4)); ctrl = rng.random() < .35; nu = int(rng.integers(1, 3)) if ctrl else 0
    d = which or str(rng.choice(["id", "takens", "poly", "scale+takens", "pca", "rbf", "dmap", "column"]))
    feats = gen.FEATS[:n]
    inc, inv, sort, step = bool(rng.integers(2)), False, bool(rng.random() < .25), bool(rng.random() < .25)
    if d in ("rbf", "dmap"):
        inc, step = True, False
    if d == "pca":
        inv, inc = True, bool(rng.integers(2))
    if d == "scale+takens" and rng.random() < .5:
        inv = True
    if d == "poly" or d == "column":
        step = False

    def steps():
        return {"id": lambda: [("id", TSCIdentity(include_const=False))], "takens": lambda: [("delay", TSCTakensEmbedding(delays=1))],
                "poly": lambda: [("poly", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=True))],
                "scale+takens": lambda: [("scale", TSCFeaturePreprocess(StandardScaler())), ("delay", TSCTakensEmbedding(delays=2))],
                "pca": lambda: [("pca", TSCPrincipalComponent(n_components=n))], "rbf": lambda: [("rbf", TSCRadialBasis(kernel=GaussianKernel(epsilon=2.), center_type="random", n_samples=5))],
                "dmap": lambda: [("dmap", DiffusionMaps(GaussianKernel(epsilon=4.), n_eigenpairs=3))],
                "column": lambda: [("col", TSCColumnTransformer([("i", TSCIdentity(), feats), ("p", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=False), [feats[0]])]))]}[d]()
    samples = {"takens": 2, "scale+takens": 3}.get(d, 1)
    if samples == 1:
        step = False
    model = "control" if ctrl else str(rng.choice(["standard", "standard", "matrix", "default", "online"]))
    if model in ("default", "matrix", "online", "control"):
        sort = False
    dm = {"control": lambda: DMDControl(), "standard": lambda: DMDStandard(sys_mode="spectral"), "matrix": lambda: DMDStandard(sys_mode="matrix"), "default": lambda: None, "online": lambda: OnlineDMD()}[model]
    mk = lambda: EDMD(steps(), dmd_model=dm(), include_id_state=inc, use_transform_inverse=inv, sort_koopman_triplets=sort, stepwise_transform=step)
    kind = str(rng.choice(["int", "float", "datetime"])); dt = lin.draw_dt(rng, kind)
    stream = model == "online" and d in ("id", "poly", "takens") and rng.random() < .6
    if stream:
        inc = True
    data = []
    for k in range(2):
        R, Q, *_ = linear(rng, n, nu, kind, None, dt, min_len=12, max_len=18, need=40)
        X, U = R.tsc(), (Q.tsc() if nu else None)
        ic, t, V = request(rng, R, n, nu, kind, dt, samples=samples)
        kw = dict(U=U) if nu else {}
        pk = dict(U=V.tsc()) if nu else {}
        cs = [Call("transform", "transform", X), Call("predict", "predict", ic.tsc(), time_values=t, **pk), Call("reconstruct", "reconstruct", X, **kw), Call("score", "score", X, **kw),
              Call("predict qois", "predict", ic.tsc(), time_values=t, qois=[feats[-1]], **pk), Call("fit_predict of a copy", lambda m, Z, **k2: copy.deepcopy(m).fit_predict(Z, **k2), X, **kw),
              Call("fit_transform of a copy", lambda m, Z, **k2: copy.deepcopy(m).fit_transform(Z, **k2), X, **kw),
              Call("inverse_transform", "inverse_transform", Lazy(lambda m, X=X: m.transform(X)))]
        if not nu:
            cs += [Call("predict at fitted times", "predict", ic.tsc())]
            if model == "standard":
                cs += [Call("eigenfunctions", "koopman_eigenfunction", X)]
        fit = Call("fit", "fit", X, **kw)
        if stream:
            cs = [c for c in cs if not c.label.startswith("fit_")]
            fit = Call("partial_fit", "partial_fit", X)
            R2, *_ = linear(rng, n, 0, kind, None, dt, min_len=12, max_len=16)
            cs.append(Call("partial_fit of a copy", lambda m, Z, c, tt: copy.deepcopy(m).partial_fit(Z).predict(c, time_values=tt), R2.tsc(), ic.tsc(), t))
        data.append((fit, cs))
    return Model("edmd", (d, model, inc, inv, sort, step, n, kind), mk, data, tol=1e-5, n=n, nu=nu, feats=feats, time=kind, dt=dt, which=d, samples=samples, predict=True, random=d == "rbf", model=model)


KINDS = {"transform": (k_transform, 4), "column": (k_column, .5), "dmap": (k_dmap, 2), "roseland": (k_roseland, 1), "lrs": (k_lrs, .7), "gh": (k_gh, 1), "lp": (k_lp, 1), "jsf": (k_jsf, 1), "dmd": (k_dmd, 4), "edmd": (k_edmd, 4)}


def draw(rng, kinds=None):
    kinds = kinds or list(KINDS)
    p = np.array([KINDS[k][1] for k in kinds], float)
    return KINDS[str(rng.choice(kinds, p=p / p.sum()))][0](rng)
