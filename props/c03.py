"""C03: time metadata of a collection agrees with its samples (independent recomputation from the rows)."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException

RULE = ("random collections; every reported meta quantity is compared with a recomputation from the plain rows; distinct by "
        "(time kind, regular/irregular, equal/unequal length, id order, number of series)")


def ref_delta(times):
    """per-series sampling interval or None when undefined (single sample / uneven)"""
    out = []
    for t in times:
        if len(t) < 2:
            out.append(None); continue
        if t.dtype.kind == "M":
            d = np.diff(t.astype("int64"))
            out.append(int(d[0]) if (d == d[0]).all() else None)
        elif t.dtype.kind in "iu":
            d = np.diff(t.astype("int64"))
            out.append(int(d[0]) if (d == d[0]).all() else None)
        else:
            d = np.diff(t)
            out.append(float(d[0]) if np.allclose(d, d[0], rtol=1e-11, atol=0) else None)
    return out


def _num(x):
    """comparable number of a reported delta (None for nan/NaT)"""
    if pd.isna(x):
        return None
    if isinstance(x, (np.timedelta64, pd.Timedelta)):
        return int(np.timedelta64(x, "ns").astype("int64")) if isinstance(x, np.timedelta64) else int(x.value)
    return float(x)


def _eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= 1e-10 * max(abs(a), abs(b))


def check_meta(rec, X, r, m=""):
    ids = sorted(r.ids)
    d = dict(zip(r.ids, ref_delta(r.times)))
    L = dict(zip(r.ids, r.lengths))
    rec.equal(list(X.ids), ids, m + "ids")
    rec.equal(int(X.n_timeseries), r.n, m + "n_timeseries")
    rec.equal(int(X.n_features), r.nf, m + "n_features")
    nt = X.n_timesteps
    if len(set(r.lengths)) == 1:
        rec.check(not isinstance(nt, pd.Series) and int(nt) == r.lengths[0], m + "n_timesteps:common", lambda: f"{nt} {L}")
    else:
        rec.check(isinstance(nt, pd.Series) and {int(k): int(v) for k, v in nt.items()} == L, m + "n_timesteps:per series", lambda: f"{nt} {L}")
    # sampling interval
    vals = [d[i] for i in ids]
    common = all(_eq(v, vals[0]) for v in vals)
    dt = X.delta_time
    if common:
        if rec.check(not isinstance(dt, (pd.Series, np.ndarray)) or np.ndim(dt) == 0, m + "delta_time: single value if common", lambda: f"{dt} expected {d}"):
            rec.check(_eq(_num(dt), vals[0]), m + "delta_time: common value", lambda: f"{dt} expected {vals[0]}")
    elif isinstance(dt, pd.Series):
        got = {int(k): _num(v) for k, v in dt.items()}
        rec.check(set(got) == set(d), m + "delta_time: ids", lambda: f"{got} {d}")
        rec.check(set(got) == set(d) and all(_eq(got[k], d[k]) for k in d), m + "delta_time: per series value", lambda: f"{got} expected {d}")
    else:
        rec.check(False, m + "delta_time: series if not common", f"{dt} expected {d}")
    const = common and vals[0] is not None
    rec.equal(bool(X.is_const_delta_time()), const, m + "is_const_delta_time", str(d))
    allt = np.unique(r.col_times())
    gen.same_times(rec, X.time_values(), allt, m + "time_values")
    a, b = X.time_interval()
    gen.same_times(rec, [a, b], [allt[0], allt[-1]], m + "time_interval")
    for i, t in zip(r.ids, r.times):
        a, b = X.time_interval(ts_id=i)
        gen.same_times(rec, [a, b], [t[0], t[-1]], m + "time_interval:series")
    rec.equal(bool(X.is_equal_length()), len(set(r.lengths)) == 1, m + "is_equal_length")
    same = all(len(t) == len(r.times[0]) and (t == r.times[0]).all() for t in r.times)
    rec.equal(bool(X.is_same_time_values()), same, m + "is_same_time_values", str([t[:5] for t in r.times]))
    is_dt = r.times[0].dtype.kind == "M"
    rec.equal(bool(X.is_datetime_index()), is_dt, m + "is_datetime_index")
    norm = bool(const and not is_dt and _eq(vals[0], 1.0) and float(allt[0]) == 0.0)
    if not is_dt:
        rec.equal(bool(X.is_normalized_time()), norm, m + "is_normalized_time", str(d))
    rec.equal(bool(X.is_finite()), bool(np.isfinite(r.values()).all()), m + "is_finite")
    deg = [i for i in r.ids if L[i] == 1]
    g = X.degenerate_ids()
    rec.equal(sorted(int(x) for x in g) if g is not None else [], sorted(deg), m + "degenerate_ids")
    rec.equal(bool(X.has_degenerate()), bool(deg), m + "has_degenerate")
    if const:
        tv = X.const_sampled_time_values()
        if is_dt:
            e = np.arange(allt[0].astype("int64"), allt[-1].astype("int64") + 1, vals[0])
            gen.same_times(rec, tv, e.astype("datetime64[ns]"), m + "const_sampled_time_values")
        else:
            # end point of the arange is only defined if the interval is a multiple of dt
            span = (float(allt[-1]) - float(allt[0])) / vals[0]
            if abs(span - round(span)) < 1e-9:
                e = float(allt[0]) + vals[0] * np.arange(int(round(span)) + 1)
                tvf = np.asarray(tv, dtype=float)
                ok = len(tvf) in (len(e), len(e) - 1, len(e) + 1) if r.times[0].dtype.kind == "f" else len(tvf) == len(e)
                k = min(len(tvf), len(e))
                rec.check(ok and np.allclose(tvf[:k], e[:k], rtol=1e-9, atol=1e-9), m + "const_sampled_time_values", lambda: f"{tvf} {e}")
    else:
        rec.raises(lambda: X.const_sampled_time_values(), m + "const_sampled_time_values rejects", TSCException)
    ov = X.tsc.time_values_overview()
    rec.equal(sorted(ov.index.tolist()), ids, m + "overview: ids")
    for i, t in zip(r.ids, r.times):
        gen.same_times(rec, [ov.loc[i, "start"], ov.loc[i, "end"]], [t[0], t[-1]], m + "overview: interval")
        rec.check(_eq(_num(ov.loc[i, "delta_time"]), d[i]), m + "overview: delta_time", lambda: f"{ov} expected {d}")
    return d, L, const, same, norm, allt


def _passes(fn):
    try:
        fn(); return True
    except TSCException:
        return False


def check_checks(rec, X, r, d, L, const, same, norm, allt, rng, m=""):
    """the check_* predicates raise a TSCException exactly if the condition does not hold"""
    t = X.tsc
    is_dt = r.times[0].dtype.kind == "M"
    E = lambda f, want, name, msg="": rec.equal(_passes(f), bool(want), m + "check:" + name, msg)
    E(t.check_finite, np.isfinite(r.values()).all(), "finite")
    n = len(r.values())
    E(lambda: t.check_min_samples(n), True, "min_samples"); E(lambda: t.check_min_samples(n + 1), False, "min_samples")
    E(lambda: t.check_min_features(r.nf), True, "min_features"); E(lambda: t.check_min_features(r.nf + 1), False, "min_features")
    eql = len(set(r.lengths)) == 1
    E(t.check_timeseries_same_length, eql, "same_length")
    E(t.check_const_time_delta, const, "const_time_delta", str(d))
    E(t.check_const_timesteps, eql, "const_timesteps")
    E(t.check_equal_timevalues, same, "equal_timevalues")
    if not is_dt:
        E(t.check_normalized_time, norm, "normalized_time")
    E(lambda: t.check_required_n_timeseries(r.n), True, "n_timeseries"); E(lambda: t.check_required_n_timeseries(r.n + 1), False, "n_timeseries")
    k = r.lengths[0]
    E(lambda: t.check_required_n_timesteps(k), eql, "n_timesteps"); E(lambda: t.check_required_n_timesteps(k + 1), False, "n_timesteps")
    mn = min(r.lengths)
    E(lambda: t.check_required_min_timesteps(mn), True, "min_timesteps"); E(lambda: t.check_required_min_timesteps(mn + 1), False, "min_timesteps")
    E(t.check_no_degenerate_ts, mn > 1, "no_degenerate")
    E(lambda: t.check_contain_required_ids(rng.permutation(r.ids)), True, "required_ids")
    E(lambda: t.check_contain_required_ids(r.ids, check_order=True), True, "required_ids order")
    if r.n > 1:
        E(lambda: t.check_contain_required_ids(r.ids[::-1], check_order=True), False, "required_ids order")
        E(lambda: t.check_contain_required_ids(r.ids[1:]), False, "required_ids")
    E(lambda: t.check_contain_required_ids([x + 100 for x in r.ids]), False, "required_ids")
    flat = np.concatenate(r.times)
    E(t.check_non_overlapping_timeseries, len(np.unique(flat)) == len(flat), "non_overlapping")
    E(lambda: t.check_dtype_time(r.times[0].dtype), True, "dtype_time")
    E(lambda: t.check_dtype_time(np.dtype("float32")), False, "dtype_time")
    if const:
        dt = X.delta_time
        E(lambda: t.check_required_time_delta(dt), True, "required_time_delta")
        E(lambda: t.check_required_time_delta(dt * 2), False, "required_time_delta")
        E(lambda: t.check_tsc(ensure_delta_time=dt, ensure_no_degenerate_ts=False, ensure_all_finite=False), True, "check_tsc delta")
        E(lambda: t.check_tsc(ensure_delta_time=dt * 2, ensure_no_degenerate_ts=False, ensure_all_finite=False), False, "check_tsc delta")
        Y = gen.Ref([77], [r.times[0][:1].repeat(1)], [r.vals[0][:1]], r.feats)
    # the bundle check is the conjunction
    flags = dict(ensure_all_finite=rng.random() < .5, ensure_same_length=rng.random() < .3, ensure_const_delta_time=rng.random() < .3,
                 ensure_same_time_values=rng.random() < .3, ensure_normalized_time=(not is_dt) and rng.random() < .2,
                 ensure_no_degenerate_ts=rng.random() < .3)
    kw = dict(flags)
    want = ((not flags["ensure_all_finite"] or np.isfinite(r.values()).all()) and (not flags["ensure_same_length"] or eql)
            and (not flags["ensure_const_delta_time"] or const) and (not flags["ensure_same_time_values"] or same)
            and (not flags["ensure_normalized_time"] or norm) and (not flags["ensure_no_degenerate_ts"] or mn > 1))
    for key, ok in (("ensure_min_samples", n), ("ensure_min_features", r.nf), ("ensure_n_timeseries", r.n), ("ensure_min_timesteps", mn)):
        if rng.random() < .3:
            bad = rng.random() < .3
            kw[key] = ok + 1 if bad else ok
            want = want and not bad
    if rng.random() < .2:
        kw["ensure_n_timesteps"] = r.lengths[0]; want = want and eql
    E(lambda: t.check_tsc(**kw), want, "check_tsc", str(kw))
    try:
        out = t.check_tsc(**kw)
        gen.same_rows(rec, out, r, m + "check_tsc returns the collection")
    except TSCException:
        pass


@family(quick=500, thorough=8000)
def meta(rec, rng):
    r = gen.rand_ref(rng, max_len=int(rng.choice([3, 6, 12])))
    if rng.random() < .2:
        v = [x.astype(float) for x in r.vals]
        v[-1][-1, -1] = rng.choice([np.nan, np.inf, -np.inf]); r.vals = v
    if rng.random() < .15 and r.kind != "datetime":
        r.times = [np.arange(n).astype(int if r.kind == "int" else float) + (int(rng.integers(2)) if j else 0) for j, n in enumerate(r.lengths)]
    X = r.tsc()
    before = gen.snapshot(X)
    rec.sig(*r.tag, max(r.lengths) == 1); rec.note(**r.describe())
    res = check_meta(rec, X, r)
    check_checks(rec, X, r, *res, rng)
    rec.check(gen.snapshot(X) == before, "metadata queries change the collection")


@family(quick=120, thorough=2000)
def meta_after_operations(rec, rng):
    """metadata of derived objects describes the derived rows, not the rows of the parent (stale levels)"""
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 6)), min_len=2)
    X = r.tsc()
    X.ids, X.delta_time, X.time_values(), X.n_timesteps
    steps = []
    for _ in range(int(rng.integers(1, 4))):
        op = str(rng.choice(["ids", "mask", "head", "drop_last", "initial", "final", "times"]))
        steps.append(op)
        S = X
        if op == "ids":
            o = gen.observe(X); pick = sorted(rng.choice(o.n, int(rng.integers(1, o.n + 1)), replace=False).tolist())
            X = X.loc[[o.ids[k] for k in pick], :]; o2 = o.sub(pick)
        elif op == "mask":
            mask = rng.random(len(X)) < .7; mask[0] = True
            df = pd.DataFrame(X)[mask]; X = X.loc[mask, :]; o2 = gen.observe(df)
        elif op == "head":
            k = int(rng.integers(1, len(X) + 1)); o2 = gen.observe(pd.DataFrame(X).head(k)); X = X.head(k)
        elif op == "drop_last":
            o = gen.observe(X)
            if min(o.lengths) < 2: continue
            X = X.tsc.drop_last_n_samples(1); o2 = gen.Ref(o.ids, [t[:-1] for t in o.times], [v[:-1] for v in o.vals], o.feats)
        elif op in ("initial", "final"):
            o = gen.observe(X); k = int(rng.integers(1, min(o.lengths) + 1))
            X = X.initial_states(k) if op == "initial" else X.final_states(k)
            s = slice(0, k) if op == "initial" else slice(-k, None)
            o2 = gen.Ref(o.ids, [t[s] for t in o.times], [v[s] for v in o.vals], o.feats)
        else:
            o = gen.observe(X); allt = np.unique(o.col_times())
            sel = np.sort(rng.choice(allt, int(rng.integers(1, len(allt) + 1)), replace=False))
            X = X.select_time_values(sel)
            e = [(i, t[np.isin(t, sel)], v[np.isin(t, sel)]) for i, t, v in zip(o.ids, o.times, o.vals) if np.isin(t, sel).any()]
            o2 = gen.Ref(*zip(*e), o.feats)
        if not isinstance(X, TSCDataFrame):
            raise Skip()
        check_meta(rec, X, o2, m="derived:")
    rec.sig(*r.tag, *steps); rec.note(history=steps, **r.describe())


@family(quick=80, thorough=800)
def fixed_delta(rec, rng):
    """integer steps with a fixed sampling interval: real times are step * fixed_delta"""
    r = gen.rand_ref(rng, kind="int")
    fd = float(rng.choice([0.1, 0.25, 2.0, 0.01]))
    X = TSCDataFrame(r.values(), index=r.index(), columns=r.feats, fixed_delta=fd)
    rec.sig(*r.tag, fd)
    allt = np.unique(r.col_times())
    rec.close(X.time_values(), allt * fd, "fixed_delta: time values")
    rec.equal(np.asarray(X.time_values(with_fixed_delta=False)), allt, "fixed_delta: steps")
    d = dict(zip(r.ids, ref_delta(r.times)))
    vals = [d[i] for i in sorted(r.ids)]
    dt = X.delta_time
    if all(_eq(v, vals[0]) for v in vals):
        rec.check(_eq(_num(dt), None if vals[0] is None else vals[0] * fd), "fixed_delta: delta_time", f"{dt} {d}")
    else:
        rec.check(isinstance(dt, pd.Series) and all(_eq(_num(dt[i]), None if d[i] is None else d[i] * fd) for i in d), "fixed_delta: delta_time per series", lambda: f"{dt} {d}")
    rec.raises(lambda: TSCDataFrame(r.values(), index=gen.rand_ref(rng, kind="float", n_series=1, equal_len=True, min_len=len(r.values()), max_len=len(r.values())).index(),
                                    columns=r.feats, fixed_delta=fd), "fixed_delta rejects float time")


@family(quick=60, thorough=600)
def linspace_grids(rec, rng):
    """sampling intervals of equally spaced floating point grids (linspace / arange / cumulative multiples) are recognised"""
    n = int(rng.integers(2, 200)); a = float(rng.choice([0, 1, 10, 100])); span = float(rng.choice([1, 2 * np.pi, 10, 0.3]))
    k = int(rng.integers(1, 4))
    if (a + span) * 2.3e-16 * 8 > 1e-12 * span / (n - 1):
        raise Skip()  # documented limit: floating point noise of the grid exceeds the tolerance
    t = np.linspace(a, a + span, n)
    ids, _ = gen.rand_ids(rng, k)
    times = [t, t + 0.0, t[: max(2, n // 2)]][:k]
    r = gen.Ref(ids, times, [gen.unique_values(rng, i, len(x), 2) for i, x in zip(ids, times)], ["x", "y"])
    X = r.tsc()
    rec.sig(n, a, span, k)
    rec.check(X.is_const_delta_time(), "linspace grid has constant sampling", lambda: f"{X.delta_time}")
    rec.check(abs(float(np.max(X.delta_time)) - span / (n - 1)) < 1e-9, "linspace grid sampling interval")
