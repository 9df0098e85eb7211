"""C05: time-axis manipulations act exactly as documented and per series."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException

RULE = "random collections (int/float/datetime time values, sorted and unsorted IDs); distinct by (family, parameters, structural tag)"


def shifted(r, fn, which=None):
    return gen.Ref(r.ids, [fn(i, t) for i, t in zip(r.ids, r.times)], r.vals, r.feats)


@family(quick=200, thorough=3000)
def shift_delta(rec, rng):
    r = gen.rand_ref(rng)
    X = r.tsc()
    if r.kind == "datetime":
        d = np.timedelta64(int(rng.choice([0, 1, 3600, 86400, -1800])), "s"); dd = pd.Timedelta(d)
    elif r.kind == "int":
        d = dd = (int(rng.integers(0, 9)) if rng.random() < .7 else float(rng.choice([.5, 1.25])))
    else:
        d = dd = float(rng.choice([0.0, .5, 3.25, 100.0]))
    if r.kind != "datetime" and rng.random() < .3:
        d = dd = -r.col_times().min() if rng.random() < .5 else -r.col_times().min() / 2
    rec.sig(str(d)[:6], *r.tag); rec.note(shift=str(d), **r.describe())
    want = gen.Ref(r.ids, [(t + d).astype("datetime64[ns]") if r.kind == "datetime" else t + d for t in r.times], r.vals, r.feats)
    Y = X.copy().tsc.shift_time_by_delta(dd)
    gen.same_rows(rec, Y, want, "shift_time_by_delta", msg=str(d))
    rec.check(isinstance(Y, TSCDataFrame) and not gen.tsc_problems(Y), "shift_time_by_delta: valid")
    if r.kind != "datetime":
        neg = -float(r.col_times().min()) - 1.0
        rec.raises(lambda: X.copy().tsc.shift_time_by_delta(neg), "shift_time_by_delta rejects negative time values")


@family(quick=250, thorough=4000)
def shift_per_series(rec, rng):
    r = gen.rand_ref(rng, kind=str(rng.choice(["int", "float"])))
    X = r.tsc()
    rec.note(**r.describe())
    if rng.random() < .5:
        rec.sig("auto", *r.tag)
        want = gen.Ref(r.ids, [t - t[0] for t in r.times], r.vals, r.feats)
        Y, s = X.copy().tsc.shift_time_per_time_series(return_shift_values=True)
        gen.same_rows(rec, Y, want, "shift_time_per_time_series: every series starts at zero")
        rec.equal({int(k): float(v) for k, v in s.items()}, {i: -float(t[0]) for i, t in zip(r.ids, r.times)}, "shift_time_per_time_series: returned shift values")
        # shifting back restores the collection
        Z = Y.copy().tsc.shift_time_per_time_series(shift_values=-1 * s.loc[sorted(r.ids)])
        gen.same_rows(rec, Z, r, "shift_time_per_time_series: shifting back")
    else:
        rec.sig("given", *r.tag)
        sh = {i: (float(rng.choice([0., .5, 2., 7.])) if r.kind == "float" else int(rng.integers(0, 6))) for i in r.ids}
        s = pd.Series(sh).sort_index()
        want = gen.Ref(r.ids, [t + sh[i] for i, t in zip(r.ids, r.times)], r.vals, r.feats)
        Y = X.copy().tsc.shift_time_per_time_series(shift_values=s)
        gen.same_rows(rec, Y, want, "shift_time_per_time_series: given values", msg=str(sh))
        rec.raises(lambda: X.copy().tsc.shift_time_per_time_series(shift_values=s.rename(index={s.index[0]: 999})), "shift_time_per_time_series rejects other ids")
        rec.raises(lambda: X.copy().tsc.shift_time_per_time_series(shift_values=[1.0] * r.n), "shift_time_per_time_series rejects other types", TypeError)


@family(quick=150, thorough=2000)
def shift_identical(rec, rng):
    """ensure_identical_values: common grid for series with a common sampling interval"""
    r = gen.rand_ref(rng, kind="float", regular=True, same_dt=True, same_start=False, min_len=2)
    X = r.tsc()
    dts = np.concatenate([np.diff(t) for t in r.times])
    dt = float(np.median(dts))
    rec.sig(dt, *r.tag); rec.note(**r.describe())
    Y = X.copy().tsc.shift_time_per_time_series(ensure_identical_values=True)
    want = gen.Ref(r.ids, [dt * np.arange(len(t)) for t in r.times], r.vals, r.feats)
    gen.same_rows(rec, Y, want, "shift_time_per_time_series: identical values")
    t = np.asarray(Y.index.get_level_values(1))
    rec.equal(len(np.unique(t)), max(r.lengths), "shift_time_per_time_series: bitwise identical time values")


@family(quick=200, thorough=3000)
def normalize(rec, rng):
    r = gen.rand_ref(rng, regular=True, same_dt=True, min_len=2)
    # starts on a common grid
    if r.kind == "datetime":
        dt = r.times[0][1] - r.times[0][0]; base = gen.EPOCH
    else:
        dt = r.times[0][1] - r.times[0][0]
        base = r.times[0][0]
    starts = rng.integers(0, 9, size=r.n)
    if rng.random() < .3: starts[:] = starts[0]
    r.times = [base + dt * (s + np.arange(n)) for s, n in zip(starts, r.lengths)]
    if r.kind == "datetime":
        r.times = [np.asarray(t).astype("datetime64[ns]") for t in r.times]
    X = r.tsc()
    rec.sig(*r.tag, str(dt)); rec.note(**r.describe())
    Y = X.copy().tsc.normalize_time()
    s0 = starts.min()
    want = gen.Ref(r.ids, [s - s0 + np.arange(n) for s, n in zip(starts, r.lengths)], r.vals, r.feats)
    gen.same_rows(rec, Y, want, "normalize_time", msg=str(r.describe()))
    rec.check(Y.is_normalized_time(), "normalize_time: result is normalized")
    Z = Y.copy().tsc.normalize_time()
    gen.same_rows(rec, Z, want, "normalize_time: idempotent")
    # no constant sampling -> rejected
    if r.kind != "datetime" and max(r.lengths) > 3:
        k = int(np.argmax(r.lengths))
        r.times[k] = np.append(r.times[k][:-1], r.times[k][-1] + dt)
        rec.raises(lambda: r.tsc().tsc.normalize_time(), "normalize_time rejects irregular sampling", TSCException)


@family(quick=250, thorough=4000)
def drop_keep(rec, rng):
    r = gen.rand_ref(rng, min_len=2)
    X = r.tsc()
    m = min(r.lengths)
    n = int(rng.integers(1, m + 1))
    before = gen.snapshot(X)
    rec.sig(n, m, *r.tag); rec.note(n=n, **r.describe())
    gen.same_rows(rec, X.initial_states(n), gen.Ref(r.ids, [t[:n] for t in r.times], [v[:n] for v in r.vals], r.feats), "initial_states", msg=str(n))
    gen.same_rows(rec, X.final_states(n), gen.Ref(r.ids, [t[-n:] for t in r.times], [v[-n:] for v in r.vals], r.feats), "final_states", msg=str(n))
    left = [k for k in range(r.n) if r.lengths[k] > n]
    if left:
        w = gen.Ref([r.ids[k] for k in left], [r.times[k][:-n] for k in left], [r.vals[k][:-n] for k in left], r.feats)
        gen.same_rows(rec, X.tsc.drop_last_n_samples(n), w, "drop_last_n_samples", msg=str(n))
    rec.raises(lambda: X.initial_states(m + 1), "initial_states rejects too many samples"); rec.raises(lambda: X.final_states(m + 1), "final_states rejects too many samples")
    rec.raises(lambda: X.tsc.drop_last_n_samples(m + 1), "drop_last_n_samples rejects too many samples")
    for bad in (0, -1, 1.5):
        rec.raises(lambda: X.initial_states(bad), "initial_states rejects invalid number"); rec.raises(lambda: X.final_states(bad), "final_states rejects invalid number")
    rec.check(gen.snapshot(X) == before, "dropping or keeping samples changes the collection")


@family(quick=150, thorough=2000)
def fill(rec, rng):
    r = gen.rand_ref(rng, n_series=1, regular=True, min_len=2, ids=str(rng.choice(["range", "gap"])))
    X = r.tsc()
    n = r.lengths[0]
    N = n + int(rng.integers(1, 12))
    before = gen.snapshot(X)
    t = r.times[0]; dt = t[1] - t[0]
    rec.sig(N - n, *r.tag); rec.note(N=N, **r.describe())
    Y = X.tsc.fill_timeseries_with_last_state(N)
    want = gen.Ref(r.ids, [np.append(t, t[-1] + dt * np.arange(1, N - n + 1))], [np.concatenate([r.vals[0], np.tile(r.vals[0][-1], (N - n, 1))])], r.feats)
    gen.same_rows(rec, Y, want, "fill_timeseries_with_last_state", msg=str(r.describe()))
    rec.check(gen.snapshot(X) == before, "fill_timeseries_with_last_state changes the collection")
    rec.raises(lambda: X.tsc.fill_timeseries_with_last_state(n), "fill_timeseries_with_last_state rejects long enough series", TSCException)
    rec.raises(lambda: X.tsc.fill_timeseries_with_last_state(n - 1), "fill_timeseries_with_last_state rejects longer series", TSCException)


@family(quick=100, thorough=1500)
def expand(rec, rng):
    r = gen.rand_ref(rng, kind=str(rng.choice(["int", "float"])), equal_len=True, same_start=True, regular=True, same_dt=True, min_len=2)
    X = r.tsc()
    before = gen.snapshot(X)
    k = int(rng.integers(1, 5)); dt = r.times[0][1] - r.times[0][0]
    last = r.times[0][-1]
    new = last + dt * np.arange(1, k + 1)
    f = float(rng.choice([0.0, 1.5, -2.0]))
    rec.sig(k, f, *r.tag)
    Y = X.tsc.expand_time_values(new, fill_value=f)
    want = gen.Ref(r.ids, [np.append(t, new) for t in r.times], [np.concatenate([v, np.full((k, r.nf), f)]) for v in r.vals], r.feats)
    gen.same_rows(rec, Y, want, "expand_time_values", order=False, msg=str(r.describe()))
    rec.check(gen.snapshot(X) == before, "expand_time_values changes the collection")


@family(quick=200, thorough=3000)
def augment_control(rec, rng):
    r = gen.rand_ref(rng, regular=True, same_dt=True, min_len=2, feats=["x", "y"])
    if rng.random() < .3:
        r.ids[0] = 1 if 1 not in r.ids else r.ids[0]
    X = r.tsc()
    nu = int(rng.integers(1, 3))
    uv = [rng.normal(size=(n - 1, nu)) for n in r.lengths]
    u = gen.Ref(r.ids, [t[:-1] for t in r.times], uv, ["u1", "u2"][:nu])
    U = u.tsc()
    bx, bu = gen.snapshot(X), gen.snapshot(U)
    rec.sig(nu, r.ids[0], *r.tag); rec.note(**r.describe())
    Y = X.tsc.augment_control_input(U)
    want = gen.Ref(r.ids, r.times, [np.concatenate([v, np.concatenate([np.full((1, nu), np.nan), w])], axis=1) for v, w in zip(r.vals, uv)], r.feats + u.feats)
    gen.same_rows(rec, Y, want, "augment_control_input", msg=str(r.describe()))
    rec.check(gen.snapshot(X) == bx and gen.snapshot(U) == bu, "augment_control_input changes its input")
    # control with other time values / series
    bad = gen.Ref(r.ids, [t[1:] for t in r.times], uv, u.feats)
    rec.raises(lambda: X.tsc.augment_control_input(bad.tsc()), "augment_control_input rejects other time values")
    bad = gen.Ref([i + 100 for i in r.ids], u.times, uv, u.feats)
    rec.raises(lambda: X.tsc.augment_control_input(bad.tsc()), "augment_control_input rejects other ids")
    bad = gen.Ref(r.ids, r.times, [rng.normal(size=(n, nu)) for n in r.lengths], u.feats)
    rec.raises(lambda: X.tsc.augment_control_input(bad.tsc()), "augment_control_input rejects other lengths")


@family(quick=250, thorough=4000)
def derivative(rec, rng):
    scheme = str(rng.choice(["center", "forward", "backward"])); order = int(rng.integers(1, 4)); acc = int(rng.choice([2, 4]))
    shift = bool(rng.random() < .4)
    need = {"center": 2 * ((order + 1) // 2) - 1 + acc, "forward": order + acc, "backward": order + acc}[scheme] + 2
    kind = str(rng.choice(["int", "float"]))
    r = gen.rand_ref(rng, kind=kind, regular=True, same_dt=True, min_len=need, max_len=need + 6)
    dt = float(r.times[0][1] - r.times[0][0])
    deg = order + acc - 1
    coef = rng.normal(size=(deg + 1, r.nf))
    t0 = float(r.col_times().min())
    scale = max(1.0, (max(float(t[-1]) for t in r.times) - t0))
    def poly(t, d=0):
        s = (np.asarray(t, float) - t0) / scale
        out = np.zeros((len(s), r.nf))
        for k in range(d, deg + 1):
            f = np.prod(np.arange(k - d + 1, k + 1)) if d else 1.0
            out += f * coef[k] * s[:, None] ** (k - d)
        return out / scale ** d
    off = {i: rng.normal() * 3 for i in r.ids}      # another polynomial in every series
    r.vals = [poly(t) + off[i] + off[i] * ((t - t0) / scale)[:, None] for i, t in zip(r.ids, r.times)]
    def truth(i, t):
        return poly(t, order) + (off[i] / scale if order == 1 else 0.0)
    X = r.tsc(); before = gen.snapshot(X)
    rec.sig(scheme, order, acc, shift, *r.tag); rec.note(scheme=scheme, order=order, acc=acc, shift=shift, **r.describe())
    Y = X.tsc.time_derivative(scheme=scheme, diff_order=order, accuracy=acc, shift_index=shift)
    rec.check(isinstance(Y, TSCDataFrame) and not gen.tsc_problems(Y), "time_derivative: valid collection")
    rec.check(gen.snapshot(X) == before, "time_derivative changes the collection")
    o = gen.observe(Y)
    rec.equal(sorted(o.ids), sorted(r.ids), "time_derivative: ids"); rec.equal([str(f) for f in o.feats], r.feats, "time_derivative: features")
    by = r.by_id()
    half = {"center": (order + 1) // 2 - 1 + acc // 2, "forward": order + acc - 1, "backward": order + acc - 1}[scheme]
    L, R = {"center": (half, half), "forward": (0, half), "backward": (half, 0)}[scheme]
    eps = 1e-9 * np.abs(r.values()).max() / dt ** order * 10
    for i, t, v in zip(o.ids, o.times, o.vals):
        full = np.asarray(by[i][0], float)
        centers = full[L:len(full) - R]
        labels = full[L + R:] if (shift and scheme != "backward") else centers
        gen.same_times(rec, t, labels, "time_derivative: time labels", msg=f"{scheme} {order} {acc} {shift}")
        if len(t) == len(labels):
            rec.close(v, truth(i, centers), "time_derivative: exact for polynomials", rtol=1e-6, atol=eps, msg=f"{scheme} {order} {acc} {shift} id {i}")
    rec.raises(lambda: X.tsc.time_derivative(scheme="central"), "time_derivative rejects unknown scheme", ValueError)
    if r.lengths[0] > 3:
        r.times[0] = np.append(r.times[0][:-1], r.times[0][-1] + dt)
        rec.raises(lambda: r.tsc().tsc.time_derivative(), "time_derivative rejects irregular sampling", TSCException)
