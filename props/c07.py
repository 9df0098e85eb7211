"""C07: error metrics equal their definition for every series, feature and weight."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.metric import TSCMetric, TSCScoring

RULE = "random pairs of collections x metric x mode x scaling x weights; distinct by (family, metric, mode, scaling, weighting, structural tag)"
METRICS = ["rmse", "rrmse", "mse", "mape", "mae", "medae", "max", "l2", "linf"]


def per_feature(metric, a, b, w):
    """textbook error of every column of a (truth) and b (prediction)"""
    d = a - b
    n = len(a)
    ww = np.ones(n) if w is None else np.asarray(w, float)
    if metric == "mse": return (ww[:, None] * d ** 2).sum(0) / ww.sum()
    if metric == "rmse": return np.sqrt((ww[:, None] * d ** 2).sum(0) / ww.sum())
    if metric == "rrmse": return np.sqrt((ww[:, None] * d ** 2).sum(0) / ww.sum() / (a ** 2).sum(0))
    if metric == "mae": return (ww[:, None] * np.abs(d)).sum(0) / ww.sum()
    if metric == "mape": return (ww[:, None] * np.abs(d) / np.maximum(np.abs(a), np.finfo(float).eps)).sum(0) / ww.sum()
    if metric == "medae": return np.median(np.abs(d), axis=0)
    if metric == "max": return np.abs(d).max(0)
    if metric == "l2": return np.sqrt(((ww[:, None] * d) ** 2).sum(0))
    if metric == "linf": return np.abs(ww[:, None] * d).max(0)
    raise ValueError(metric)


def reduce_(metric, a, b, w, mo):
    pf = per_feature(metric, a, b, w)
    if isinstance(mo, str) and mo == "raw_values": return pf
    if isinstance(mo, str):
        if metric == "rrmse":
            ww = np.ones(len(a)) if w is None else w
            return np.sqrt(((ww[:, None] * (a - b) ** 2).sum(0) / ww.sum()).mean() / (a ** 2).sum())
        return pf.mean()
    return np.average(pf, weights=mo)


def scale(kind, a, b):
    if kind == "id": return a, b
    if kind == "min-max":
        lo, hi = a.min(0), a.max(0); s = np.where(hi - lo == 0, 1, hi - lo)
        return (a - lo) / s, (b - lo) / s
    if kind == "standard":
        m, s = a.mean(0), a.std(0); s = np.where(s == 0, 1, s)
        return (a - m) / s, (b - m) / s
    n = np.linalg.norm(a, axis=0); n = np.where(n == 0, 1, n)
    return a / n, b / n


@family(quick=700, thorough=12000)
def definition(rec, rng):
    metric = METRICS[rec.index % len(METRICS)]
    mode = ["timeseries", "timestep", "feature"][(rec.index // 9) % 3]
    scaling = str(rng.choice(["id", "id", "min-max", "standard", "l2_normalize"]))
    nf = 1 if metric == "max" else int(rng.integers(1, 5))
    same = bool(rng.random() < .5)
    r = gen.rand_ref(rng, nf=nf, equal_len=True if same else None, same_start=same or None, same_dt=same or None, regular=True if same else None, min_len=1 if scaling == "id" else 2)
    if same: r.times = [r.times[0].copy() for _ in r.ids]
    if metric == "mape" and scaling != "id": scaling = "id"
    r.vals = [rng.normal(size=v.shape) * 2 + 5 * rng.normal(size=(1, nf)) for v in r.vals]
    p = gen.Ref(r.ids, r.times, [v + rng.normal(size=v.shape) * 10 ** rng.uniform(-3, 1) for v in r.vals], r.feats)
    Y, P = r.tsc(), p.tsc()
    A, B = scale(scaling, r.values(), p.values())
    ids, times = r.col_ids(), r.col_times()
    mo = rng.choice(["raw_values", "uniform_average", "weights"])
    mo = str(mo)
    if mo == "weights":
        if nf == 1 or metric == "rrmse": mo = "uniform_average"
        else: mo = rng.random(nf) + .05
    w = None
    if rng.random() < .5 and metric not in ("medae", "max"):
        size = {"timeseries": r.lengths[0], "feature": len(A), "timestep": r.n}[mode]
        ok = {"timeseries": len(set(r.lengths)) == 1, "feature": True, "timestep": same}[mode]
        if ok: w = rng.random(size) + .05
        if mode == "timestep" and sorted(r.ids) != r.ids: w = None   # association of weights with series is documented for ordered ids only
    rec.sig(metric, mode, scaling, "raw" if isinstance(mo, str) and mo[0] == "r" else ("avg" if isinstance(mo, str) else "w"), w is not None, *r.tag)
    rec.note(metric=metric, mode=mode, scaling=scaling, mo=mo, w=w, **r.describe())
    M = TSCMetric(metric=metric, mode=mode, scaling=scaling)
    by, bp = gen.snapshot(Y), gen.snapshot(P)
    groups, labels = [], []
    if mode == "timeseries":
        labels = sorted(r.ids); groups = [ids == i for i in labels]
    elif mode == "timestep":
        labels = list(np.unique(times)); groups = [times == t for t in labels]
    else:
        groups = [np.ones(len(A), bool)]
    if metric == "rrmse" and any(((A[g] ** 2).sum(0) <= 1e-10).any() for g in groups):
        return rec.raises(lambda: M(Y, P, sample_weight=w, multioutput=mo if isinstance(mo, str) else "raw_values"), "rrmse rejects a vanishing norm") if any((np.sum(A[g] ** 2, axis=0) <= 1e-16).any() for g in groups) and isinstance(mo, str) and mo == "raw_values" else None
    got = M(Y, P, sample_weight=w, multioutput=mo)
    if mode == "feature":
        want = reduce_(metric, A, B, w, "raw_values")
        rec.check(isinstance(got, pd.Series), "metric: returns a series per feature")
        rec.equal([str(c) for c in got.index], r.feats, "metric: labelled by feature")
        rec.close(got.to_numpy(), want, "metric: definition", rtol=1e-8, atol=1e-12, msg=f"{metric} {mode} {scaling}")
    else:
        want = np.array([reduce_(metric, A[g], B[g], w, mo) for g in groups])
        gi = np.asarray(got.index)
        if mode == "timeseries": rec.equal(gi.tolist(), labels, "metric: labelled by series")
        else: gen.same_times(rec, gi, np.asarray(labels), "metric: labelled by time")
        gv = np.asarray(got, dtype=float)
        if gv.ndim == 1: gv = gv[:, None]
        else: rec.equal([str(c) for c in got.columns], r.feats, "metric: columns labelled by feature")
        want = want.reshape(len(want), -1)
        rec.close(gv, want, "metric: definition", rtol=1e-8, atol=1e-12, msg=f"{metric} {mode} {scaling} mo={mo} w={w}")
    rec.check(gen.snapshot(Y) == by and gen.snapshot(P) == bp, "metric changes its input")
    if rng.random() < .5:   # the metric object has no memory of the data of other evaluations
        r2 = gen.Ref(r.ids, r.times, [v * 10. ** rng.uniform(-1, 1.5) + rng.normal() * 5 for v in r.vals], r.feats)
        p2 = gen.Ref(r.ids, r.times, [v + rng.normal(size=v.shape) for v in r2.vals], r.feats)
        try:
            M(r2.tsc(), p2.tsc())
        except Exception:
            pass
        rec.close(np.asarray(M(Y, P, sample_weight=w, multioutput=mo), float), np.asarray(got, float), "metric: does not depend on earlier evaluations", rtol=1e-9, atol=1e-12, msg=f"{metric} {mode} {scaling}")
    z = M(Y, Y.copy(), sample_weight=w, multioutput=mo)
    rec.check(np.all(np.asarray(z) == 0), "metric: zero for identical collections", lambda: str(z))
    # scores
    if not isinstance(mo, str) or mo != "raw_values":
        kw = {"multioutput": mo}
        if w is not None: kw["sample_weight"] = w
        s = TSCScoring(M, **kw)(Y, P)
        e = np.asarray(got, float).mean()
        rec.close(s, -e, "score: negated average", rtol=1e-9, msg=f"{metric} {mode}")
        rec.close(TSCScoring(M, greater_is_better=True, **kw)(Y, P), e, "score: sign for accuracies", rtol=1e-9)
        ws = rng.random(np.asarray(got).shape[0]) + .1
        rec.close(TSCScoring(M, **kw)(Y, P, sample_weight=ws), -np.average(np.asarray(got, float), weights=ws), "score: weighted average", rtol=1e-9)
        rec.check(s <= 0 or abs(s) < 1e-14, "score: greater is better")
        # default of the scoring averages the features
        rec.close(TSCScoring(TSCMetric(metric, mode, scaling))(Y, P), -np.mean([np.mean(reduce_(metric, A[g], B[g], None, "raw_values" if mode == "feature" else "uniform_average")) for g in groups]), "score: default", rtol=1e-8)


@family(quick=150, thorough=2000)
def rejects(rec, rng):
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 5)), nf=2, min_len=2, plain=True)
    Y = r.tsc()
    metric, mode = str(rng.choice(["rmse", "mse", "mae", "l2", "linf", "mape", "medae"])), str(rng.choice(["timeseries", "timestep", "feature"]))
    M = TSCMetric(metric, mode)
    how = str(rng.choice(["value_nan", "value_inf", "other_id", "other_time", "missing_row", "other_feature", "feature_order", "series_order", "missing_feature"]))
    rec.sig(how, metric, mode, *r.tag)
    q = gen.Ref(list(r.ids), [t.copy() for t in r.times], [v.copy() for v in r.vals], list(r.feats))
    k = int(rng.integers(r.n))
    if how == "value_nan": q.vals[k][0, 0] = np.nan
    elif how == "value_inf": q.vals[k][-1, -1] = np.inf
    elif how == "other_id": q.ids[k] = 777
    elif how == "other_time":
        if r.kind == "datetime": q.times[k][-1] += np.timedelta64(1, "s")
        else: q.times[k][-1] += 1
    elif how == "missing_row": q.times[k], q.vals[k] = q.times[k][:-1], q.vals[k][:-1]
    elif how == "other_feature": q.feats[0] = "other"
    elif how == "feature_order": q.feats = q.feats[::-1]
    elif how == "series_order": q = q.sub(list(range(r.n))[::-1])
    P = q.tsc()
    if how == "missing_feature": P = P[[r.feats[0]]]
    rec.raises(lambda: M(Y, P), f"metric rejects: {how}")
    rec.raises(lambda: M(P, Y), f"metric rejects: {how} (truth)")
    rec.raises(lambda: TSCScoring(M)(Y, P), f"score rejects: {how}")
    # weights of wrong size, invalid parameters
    n = {"timeseries": max(r.lengths) + 1, "feature": len(Y) + 1, "timestep": r.n + 1}[mode]
    if metric != "medae":
        rec.raises(lambda: M(Y, Y, sample_weight=np.ones(n)), "metric rejects weights of wrong size")
    rec.raises(lambda: M(Y, Y, sample_weight=np.ones((2, 2))), "metric rejects 2-dim. weights")
    if mode == "timeseries" and len(set(r.lengths)) > 1 and metric != "medae":
        rec.raises(lambda: M(Y, Y, sample_weight=np.ones(r.lengths[0])), "metric rejects step weights for unequal lengths")
    rec.raises(lambda: TSCMetric("unknown", mode), "metric rejects unknown metric", ValueError); rec.raises(lambda: TSCMetric(metric, "unknown"), "metric rejects unknown mode", ValueError)
    rec.raises(lambda: TSCMetric(metric, mode, scaling="unknown"), "metric rejects unknown scaling", ValueError)
