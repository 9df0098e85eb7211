"""C11: models never modify the data passed to them."""
import copy
import numpy as np
import pandas as pd
import scipy.sparse as sp
from vlib.core import family, Skip
from vlib import fault, gen, lin, models
from vlib.fault import corrupt
from datafold.pcfold import TSCDataFrame

RULE = "all models and data functions x containers x valid calls, calls with unusable arguments and calls interrupted at a random line; distinct by (model, settings, call)"


class Watch:
    """all data handed to the code under test and their fingerprints"""

    def __init__(self, rec):
        self.rec, self.objs = rec, []

    def add(self, label, args, kwargs):
        for name, a in list(enumerate(args)) + sorted(kwargs.items()):
            if isinstance(a, (np.ndarray, pd.DataFrame, pd.Series, pd.Index, list, tuple, dict)) or sp.issparse(a):
                self.objs.append((f"{label}({name})", a, gen.snapshot(a, names=False)))

    def verify(self, mech, where):
        for name, a, s in self.objs:
            t = gen.snapshot(a, names=False)
            if not self.rec.check(t == s, mech, lambda: f"{where}: argument {name} was {str(s)[:500]} and is {str(t)[:500]}"):
                self.objs = []
                return


def label(M, c):
    return f"{M.kind}.{c.label}"


@family(quick=200, thorough=3000)
def calls(rec, rng):
    """sequences of valid calls; every argument ever passed is unchanged after every call"""
    _calls(rec, rng, models.draw(rng))


@family(quick=320, thorough=4000)
def transformers(rec, rng):
    """the same for the (cheap) transformers, all of whose settings must be reached"""
    _calls(rec, rng, models.draw(rng, ["transform", "transform", "column"]))


def _calls(rec, rng, M):
    m = M.make(); w = Watch(rec)
    rec.note(model=M.kind, tag=M.tag)
    for k in (0, 1):
        if k == 1 and M.data[1][0].method != "fit":
            m = M.make()
        f = M.data[k][0]
        a, kw = f.resolve(m); w.add(label(M, f), a, kw)
        o = models.outcome(lambda: f.run(m, a, kw))
        w.verify("argument modified by fit", f"{M.kind} {M.tag} {f.label}")
        rec.sig(M.kind, M.tag, f.label)
        if o[0] == "raises":
            rec.note(failed=str(o)); continue
        cs = M.calls(k)
        for j in rng.permutation(len(cs)):
            c = cs[j]
            try:
                a, kw = c.resolve(m)
            except Exception:
                continue
            w.add(label(M, c), a, kw)
            o = models.outcome(lambda: c.run(m, a, kw))
            rec.sig(M.kind, M.tag, c.label, o[0])
            w.verify("argument modified by a call", f"{M.kind} {M.tag} {c.label}")


@family(quick=200, thorough=3000)
def unusable(rec, rng):
    """calls with arguments that do not fit"""
    M = models.draw(rng); w = Watch(rec)
    rec.note(model=M.kind, tag=M.tag)
    todo = []
    for _ in range(8):
        m = M.make()
        infit = rng.random() < .4
        if not infit:
            if models.outcome(lambda: M.fit(m, 0))[0] == "raises":
                raise Skip()
        c = M.data[0][0] if infit else M.calls(0)[int(rng.integers(len(M.calls(0))))]
        try:
            a, kw = c.resolve(m)
        except Exception:
            continue
        spots = [i for i, x in enumerate(a) if isinstance(x, (np.ndarray, pd.DataFrame))] + [k for k, x in kw.items() if isinstance(x, (np.ndarray, pd.DataFrame))]
        if not spots:
            continue
        s = spots[int(rng.integers(len(spots)))]
        op, b = corrupt(rng, a[s] if isinstance(s, int) else kw[s])
        if isinstance(s, int):
            a[s] = b
        else:
            kw[s] = b
        w.add(label(M, c), a, kw)
        o = models.outcome(lambda: c.run(m, a, kw))
        rec.sig(M.kind, M.tag, c.label, op, o[0]); todo.append(o[0])
        w.verify("argument modified by a call with unusable data", f"{M.kind} {M.tag} {c.label} with {op} in {s}: {o[:3] if o[0] == 'raises' else 'returns'}")
    rec.note(raised=todo.count("raises"), returned=len(todo) - todo.count("raises"))


@family(quick=160, thorough=2500)
def interrupted(rec, rng):
    """an exception at a random line of the code under test"""
    M = models.draw(rng); w = Watch(rec)
    rec.note(model=M.kind, tag=M.tag)
    for _ in range(3):
        m = M.make()
        if rng.random() < .5:
            c = M.data[0][0]
        else:
            if models.outcome(lambda: M.fit(m, 0))[0] == "raises":
                raise Skip()
            c = M.calls(0)[int(rng.integers(len(M.calls(0))))]
        try:
            a, kw = c.resolve(m)
        except Exception:
            continue
        n, _, e = fault.run(lambda: c.run(copy.deepcopy(m), copy.deepcopy(a), copy.deepcopy(kw)))
        if n == 0:
            continue
        for at in sorted(set(int(x) for x in rng.integers(1, n + 1, size=6))):
            mm = copy.deepcopy(m)
            w.add(label(M, c), a, kw)
            _, _, e = fault.run(lambda: c.run(mm, a, kw), at)
            rec.sig(M.kind, c.label, str(e)[:60])
            w.verify("argument modified by an interrupted call", f"{M.kind} {M.tag} {c.label} interrupted at {e}")
            w.objs = []


def tsc(rng, **kw):
    return gen.rand_ref(rng, **{**dict(n_series=int(rng.integers(2, 5)), nf=int(rng.integers(1, 4)), kind=str(rng.choice(["int", "float"])), regular=True, same_dt=True, min_len=6, max_len=10, values="smooth"), **kw})


def functions_table(rng):
    """name -> (function, args, kwargs)"""
    from datafold.appfold import EDMD, EDMDCV
    from datafold.appfold.mpc import KMPC, LQR
    from datafold.dynfold import TSCIdentity, TSCPolynomialFeatures
    from datafold.dynfold.dmd import DMDControl, DMDStandard
    from datafold.dynfold.dynsystem import LinearDynamicalSystem
    from datafold.pcfold import (ConeKernel, ContinuousNNKernel, CubicKernel, GaussianKernel, InitialCondition, InverseMultiquadricKernel, InverseQuadraticKernel, MultiquadricKernel,
                                 PCManifold, QuinticKernel, distance, eigsolver, estimators)
    from datafold.pcfold.kernels import DmapKernelFixed, RoselandKernel
    from datafold.pcfold.pointcloud import pcm_remove_outlier, pcm_subsample
    from datafold.pcfold.timeseries import metric as mt
    eq = rng.random() < .6
    R = tsc(rng, equal_len=True if eq else None, same_start=True if eq else None); A = R.tsc(); f = R.feats
    B = gen.Ref(R.ids, R.times, [v + .1 * rng.normal(size=v.shape) for v in R.vals], f).tsc()
    T = {}
    mode = str(rng.choice(["timeseries", "timestep", "feature"])); metric = str(rng.choice(["rmse", "rrmse", "mse", "mae", "max", "l2", "linf", "medae"])); scal = str(rng.choice(["id", "min-max", "standard", "l2_normalize"]))
    w = rng.random({"timeseries": len(f), "timestep": len(f), "feature": len(A)}[mode]) + .1
    T["metric"] = (mt.TSCMetric(metric=metric, mode=mode, scaling=scal), [A, B], {})
    T["metric with weights"] = (mt.TSCMetric(metric="mse", mode="feature", scaling=scal), [A, B], dict(sample_weight=rng.random(len(A)) + .1))
    T["scoring"] = (mt.TSCScoring(mt.TSCMetric(metric=metric, mode=mode, scaling=scal)), [A, B], {})
    for n, spl in (("k-fold series", mt.TSCKfoldSeries(2)), ("k-fold time", mt.TSCKFoldTime(2)), ("window fold", mt.TSCWindowFoldTime(test_window_length=3))):
        T["split: " + n] = (lambda X, s=spl: list(s.split(X)), [A], {})
    T["split: window fold of one series"] = (lambda X: list(mt.TSCWindowFoldTime(test_window_length=3).split(X)), [A.iloc[:R.lengths[0]]], {})
    n0 = len(f)
    T["InitialCondition.from_array"] = (InitialCondition.from_array, [rng.normal(size=(2, n0))], dict(time_value=0, feature_names=pd.Index(f), ts_ids=np.array([4, 9])))
    T["InitialCondition.from_tsc"] = (InitialCondition.from_tsc, [A], dict(n_samples_ic=2))
    T["InitialCondition.from_array_control"] = (InitialCondition.from_array_control, [rng.normal(size=(4, 2))], dict(control_names=["a", "b"], time_values=np.arange(4)))
    T["InitialCondition.iter"] = (lambda X: [a for a in InitialCondition.iter_reconstruct_ic(X, n_samples_ic=2)], [A], {})
    T["InitialCondition.validate"] = (InitialCondition.validate, [A], {})
    X, Y = models.clouds(rng)
    D2, D2Y = distance.compute_distance_matrix(X, metric="sqeuclidean"), distance.compute_distance_matrix(X, Y, metric="sqeuclidean")
    D, cut = distance.compute_distance_matrix(X), float(np.median(distance.compute_distance_matrix(X)) + 1)
    for back in ("brute", "scipy.kdtree", "sklearn.balltree", "sklearn.knn"):
        opt = dict(k=4) if back == "sklearn.knn" else dict(cut_off=cut)
        T["distance " + back] = (distance.compute_distance_matrix, [X], dict(Y=Y if rng.random() < .5 else None, backend=back, **opt))
    e = float(rng.uniform(.5, 3))
    for K in (GaussianKernel, MultiquadricKernel, InverseMultiquadricKernel, InverseQuadraticKernel):
        T["kernel " + K.__name__] = (K(epsilon=e), [X] + ([Y] if rng.random() < .5 else []), {})
        T["evaluate " + K.__name__] = (K(epsilon=e).evaluate, [D2 if rng.random() < .5 else sp.csr_matrix(D2)], {})
        if K is not InverseQuadraticKernel:
            T["sparse kernel " + K.__name__] = (K(epsilon=e, distance=dict(cut_off=cut)), [X] + ([Y] if rng.random() < .5 else []), {})
    for K in (CubicKernel, QuinticKernel):
        T["evaluate " + K.__name__] = (K().evaluate, [D], {})
        T["kernel " + K.__name__] = (K(), [X, Y], {})
    ck = ContinuousNNKernel(k_neighbor=3, delta=1.5)
    T["kernel cknn"] = (ck, [X], {})
    T["kernel cknn out-of-sample"] = (lambda a, b, c=copy.deepcopy(ck): (c(a), c(a, b)), [X, Y], {})
    T["evaluate cknn"] = (copy.deepcopy(ck).evaluate, [D], dict(is_pdist=True))
    fx = DmapKernelFixed(GaussianKernel(epsilon=e, distance=dict(cut_off=cut) if rng.random() < .4 else None), is_stochastic=bool(rng.integers(2)), alpha=float(rng.choice([0, 1, .5])), symmetrize_kernel=bool(rng.integers(2)))
    T["kernel diffusion maps"] = (lambda a, b, c=fx: (c(a), c(a, b)), [X, Y], {})
    T["evaluate diffusion maps"] = (copy.deepcopy(fx).evaluate, [D2], dict(is_pdist=True))
    T["kernel roseland"] = (lambda a, b, c=RoselandKernel(GaussianKernel(epsilon=e), alpha=1.): c(a, b), [X, Y], {})
    T["kernel cone"] = (lambda a, b: (lambda k: (k(a), k(a, b)))(ConeKernel(zeta=float(rng.choice([0, .4])), epsilon=2.)), [A, B], {})
    G = GaussianKernel(epsilon=e)
    KM = np.asarray(G(X)); nn = KM / KM.sum(1)[:, None]
    from datafold.pcfold.kernels import DmapKernelFixed as DF
    T["eigenpairs"] = (lambda M, k=G: eigsolver.compute_kernel_eigenpairs(k, M, 3), [KM.copy() if rng.random() < .6 else sp.csr_matrix(KM)], {})
    T["all eigenpairs"] = (lambda M, k=G: eigsolver.compute_kernel_eigenpairs(k, M, len(KM), normalize_eigenvectors=True), [KM.copy()], {})
    T["eigenpairs of a non-symmetric kernel"] = (lambda M, k=DF(G, symmetrize_kernel=False): eigsolver.compute_kernel_eigenpairs(k, M, 3, validate_matrix=True), [nn.copy()], {})
    T["singular values"] = (eigsolver.compute_kernel_svd, [np.asarray(G(X, Y))], dict(n_svdtriplet=3))
    T["estimate cut-off"] = (estimators.estimate_cutoff, [X], dict(k=3, n_subsample=int(rng.choice([8, 1000])), random_state=1))
    T["estimate scale"] = (lambda Z: estimators.estimate_scale(PCManifold(Z)), [X], {})
    T["point cloud"] = (lambda Z, V: (lambda p: (p.compute_distance_matrix(V), p.compute_kernel_matrix(), p.compute_kernel_matrix(V), p.optimize_parameters(k=3)))(PCManifold(Z)), [X, Y], {})
    P = PCManifold(X.copy())
    T["subsample"] = (pcm_subsample, [P], dict(n_samples=5, min_distance=cut))
    T["remove outlier"] = (lambda Z: pcm_remove_outlier(PCManifold(Z), kmin=2, cut_off=cut), [X], {})
    n = int(rng.integers(1, 4)); M = lin.rand_system(rng, n); t = np.arange(5.)
    S = LinearDynamicalSystem(sys_type=str(rng.choice(["flowmap", "differential"])), sys_mode="matrix")
    ic = rng.normal(size=(n, 2))
    T["linear system"] = (lambda a, b, c: S.setup_matrix_system(a).evolve_system(b, time_values=c, time_delta=1.), [M, ic, t], {})
    wv, V = np.linalg.eig(M)
    S2 = LinearDynamicalSystem(sys_type=str(rng.choice(["flowmap", "differential"])), sys_mode="spectral")
    T["linear spectral system"] = (lambda a, b, c, d: S2.setup_spectral_system(eigenvectors_right=a, eigenvalues=b).evolve_system(c, time_values=d, time_delta=1.), [V, wv, ic, t], {})
    BB = rng.normal(size=(n, 2)); U = rng.normal(size=(4, 2))
    S3 = LinearDynamicalSystem(sys_type="flowmap", sys_mode="matrix", is_controlled=True)
    T["controlled system"] = (lambda a, b, c, u, d: S3.setup_matrix_system(a, control_matrix=b).evolve_system(c, control_input=u, time_values=d, time_delta=1.), [M, BB, ic[:, 0], U, t], {})
    L, *_ = models.linear(rng, 2, 0, need=40, series=4, min_len=12, max_len=12)
    T["grid search"] = (lambda Z: EDMDCV(EDMD([("p", TSCPolynomialFeatures(degree=1))], dmd_model=DMDStandard()), param_grid={"p__degree": [1, 2]}, cv=mt.TSCKfoldSeries(2), verbose=0).fit(Z), [L.tsc()], {})
    LC, Q, kind, dt, *_ = models.linear(rng, 2, 2, need=40, series=2, min_len=12)
    m = EDMD([("id", TSCIdentity())], dmd_model=DMDControl(), include_id_state=False).fit(LC.tsc(), U=Q.tsc())
    i0 = gen.Ref([0], [lin.grid(kind, dt, [3])], [rng.normal(size=(1, 2))], LC.feats).tsc()
    rf = gen.Ref([0], [lin.grid(kind, dt, 4 + np.arange(3))], [rng.normal(size=(3, 2))], LC.feats).tsc()
    T["model predictive control"] = (lambda a, b, c, d: KMPC(m, 3, c, d, qois=list(LC.feats)).control_sequence_horizon(a, b), [i0, rf, np.array([[-9., 9.]] * 2), np.array([[-3., 3.]] * 2)], {})
    T["linear quadratic regulator"] = (lambda a, b, c: (lambda q: (q.preset_target_state(b), q.control_sequence(a)))(LQR(m, c, 1.)), [i0, i0 * 2, np.array([1., 2.])], {})
    T["augment control"] = (lambda a, b: a.tsc.augment_control_input(b), [LC.tsc(), Q.tsc()], {})
    T["insert series"] = (lambda a, b: a.insert_ts(b, ts_id=99), [A, pd.DataFrame(A.iloc[: R.lengths[0]].to_numpy(), index=R.times[0], columns=f)], {})
    return T


@family(quick=60, thorough=600)
def functions(rec, rng):
    """functions and classes which are not estimators: complete and interrupted calls"""
    T = functions_table(rng)
    raised = []
    for name, (fn, a, kw) in T.items():
        w = Watch(rec)
        w.add(name, a, kw)
        with np.errstate(all="ignore"):
            o = models.outcome(lambda: fn(*a, **kw))
        rec.sig(name, o[0])
        w.verify("argument modified by a function", f"{name} {o[:3] if o[0] == 'raises' else ''}")
        if o[0] == "raises":
            raised.append((name, o[1], o[2][:80]))
    rec.note(functions=len(T), raised=raised)
    for name in rng.permutation(list(T))[:10]:
        fn, a, kw = T[name]
        n, _, e = fault.run(lambda: fn(*copy.deepcopy(a), **copy.deepcopy(kw)))
        for at in sorted(set(int(x) for x in rng.integers(1, max(n, 1) + 1, size=3))):
            w = Watch(rec); w.add(name, a, kw)
            _, _, e = fault.run(lambda: fn(*a, **kw), at)
            rec.sig(name, str(e)[:60])
            w.verify("argument modified by an interrupted function", f"{name} interrupted at {e}")
