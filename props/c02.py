"""C02: conversions into and out of a collection preserve every sample."""
import os, io, pickle, copy, tempfile
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame, InitialCondition

RULE = ("random collections (numeric/datetime time, unequal lengths, gap/unsorted ids) pushed through every constructor and reader; every "
        "sample carries a unique value, so a lost, duplicated or misattributed sample is identified; distinct by (family, structural tag)")


@family(quick=120, thorough=1500)
def tensor(rec, rng):
    n, L, nf = (int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 5)))
    ids, idk = gen.rand_ids(rng, n)
    kind = str(rng.choice(["int", "float", "datetime"]))
    t = gen.rand_times(rng, L, kind, bool(rng.random() < .6))
    vals = [gen.unique_values(rng, i, L, nf) for i in ids]
    T = np.stack(vals)
    unsorted_t = rng.random() < 0.2 and L > 1
    perm = rng.permutation(L) if unsorted_t else np.arange(L)
    feats = [f"q{k}" for k in range(nf)]
    kw = {}
    exp_ids, exp_t, exp_f = list(range(n)), np.arange(L), [f"feature{k}" for k in range(nf)]
    opt = rng.random(3) < 0.7
    if opt[0]: kw["time_series_ids"] = np.array(ids); exp_ids = ids
    if opt[1]: kw["feature_names"] = pd.Index(feats) if rng.random() < .5 else feats; exp_f = feats
    if opt[2]: kw["time_values"] = t[perm]; exp_t = t
    Tin = T[:, perm, :] if opt[2] else T
    before = gen.snapshot([Tin] + [kw[k] for k in kw], False)
    X = TSCDataFrame.from_tensor(Tin, **kw)
    rec.sig(kind, idk, n, L, nf, tuple(opt), unsorted_t)
    exp = gen.Ref(exp_ids, [exp_t] * n, vals, exp_f)
    gen.same_rows(rec, X, exp, "from_tensor", order=False, msg=str(exp.describe()))
    rec.check(gen.snapshot([Tin] + [kw[k] for k in kw], False) == before, "from_tensor: input modified")
    # back to a tensor / array per feature
    k = int(rng.integers(nf))
    A = X.feature_to_array(exp_f[k])
    exps = exp.sorted() if list(X.ids) == sorted(exp_ids) else exp
    order = [gen.observe(X).ids.index(i) for i in gen.observe(X).ids]
    rec.equal(np.asarray(A), np.stack([exp.by_id()[i][1][:, k] for i in gen.observe(X).ids]), "feature_to_array")
    F = X.feature_to_array(exp_f[k], as_frame=True)
    for i in exp_ids:
        rec.equal(F.loc[i, :].to_numpy(), exp.by_id()[i][1][:, k], "feature_to_array:frame row")
    # malformed requests
    rec.raises(lambda: TSCDataFrame.from_tensor(T[0]), "from_tensor rejects 2-dim")
    rec.raises(lambda: TSCDataFrame.from_tensor(T, time_values=np.arange(L + 1)), "from_tensor rejects wrong number of time values")
    rec.raises(lambda: TSCDataFrame.from_tensor(T, time_series_ids=np.arange(n + 1)), "from_tensor rejects wrong number of ids")
    if n > 1:
        rec.raises(lambda: TSCDataFrame.from_tensor(T, time_series_ids=np.zeros(n, dtype=int)), "from_tensor rejects duplicate ids")


@family(quick=120, thorough=1500)
def single_and_list(rec, rng):
    r = gen.rand_ref(rng)
    rec.sig(*r.tag); rec.note(**r.describe())
    # single series: array, frame, series; time possibly given unsorted
    t, v, i = r.times[0], r.vals[0], r.ids[0]
    one = gen.Ref([i], [t], [v], r.feats)
    X = TSCDataFrame.from_array(v, time_values=t, feature_names=r.feats, ts_id=i)
    gen.same_rows(rec, X, one, "from_array")
    perm = rng.permutation(len(t))
    df = pd.DataFrame(v[perm], index=pd.Index(t[perm], name=str(rng.choice(["time", "t"]))), columns=r.feats)
    before = gen.snapshot(df, False)
    X = TSCDataFrame.from_single_timeseries(df, ts_id=i)
    gen.same_rows(rec, X, one, "from_single_timeseries")
    X = TSCDataFrame.from_single_timeseries(df[r.feats[0]])
    gen.same_rows(rec, X, gen.Ref([0], [t], [v[:, :1]], r.feats[:1]), "from_single_timeseries:series")
    rec.check(gen.snapshot(df, False) == before, "from_single_timeseries: input modified")
    # lists of frames / collections
    parts, exp_t, exp_v = [], [], []
    k = 0
    while k < r.n:
        m = int(rng.integers(1, 3))
        sub = list(range(k, min(r.n, k + m)))
        if rng.random() < 0.5:
            for j in sub:
                parts.append(pd.DataFrame(r.vals[j], index=r.times[j], columns=r.feats)); exp_t.append(r.times[j]); exp_v.append(r.vals[j])
        else:
            s = r.sub(sub); parts.append(s.tsc() if rng.random() < .7 else s.frame())
            for j in np.argsort(s.ids):
                exp_t.append(s.times[j]); exp_v.append(s.vals[j])
        k += m
    n = len(exp_t)
    ids = None
    exp_ids = list(range(n))
    if rng.random() < 0.5:
        ids, _ = gen.rand_ids(rng, n); exp_ids = ids
        ids = np.array(ids) if rng.random() < .5 else list(ids)
    before = gen.snapshot(parts, False)
    if rng.random() < .3 and n == len(parts):
        parts.append(parts[0]); exp_t.append(exp_t[0]); exp_v.append(exp_v[0])
        if isinstance(parts[0], TSCDataFrame) or parts[0].index.nlevels == 2:
            pass
        exp_ids = list(range(n + 1)); ids = None
        before = gen.snapshot(parts, False)
    X = TSCDataFrame.from_frame_list(parts, ts_ids=ids)
    gen.same_rows(rec, X, gen.Ref(exp_ids, exp_t, exp_v, r.feats), "from_frame_list", msg=str([type(p).__name__ for p in parts]))
    rec.check(gen.snapshot(parts, False) == before, "from_frame_list: input modified")
    rec.raises(lambda: TSCDataFrame.from_frame_list([]), "from_frame_list rejects empty list")
    rec.raises(lambda: TSCDataFrame.from_frame_list([parts[0], pd.DataFrame(v[:, :1], index=t, columns=["??"])]), "from_frame_list rejects other features")
    rec.raises(lambda: TSCDataFrame.from_frame_list(parts, ts_ids=list(range(len(exp_t) + 1))), "from_frame_list rejects wrong number of ids")


@family(quick=80, thorough=800)
def shift_matrices_roundtrip(rec, rng):
    n, nf = int(rng.integers(1, 8)), int(rng.integers(1, 5))
    L = gen.unique_values(rng, 1, n, nf); R = gen.unique_values(rng, 2, n, nf)
    if rng.random() < .4:   # the two matrices may have different types
        L, R = (np.round(L).astype(rng.choice(["int64", "float32", "float64"])), R) if rng.random() < .5 else (L, np.round(R).astype(rng.choice(["int64", "int32", "float64"])))
    t = sorted(rng.choice(20, 2, replace=False).tolist())
    if rng.random() < .5: t = [x * 0.5 for x in t]
    col = rng.random() < .5
    feats = [f"c{k}" for k in range(nf)]
    X = TSCDataFrame.from_shift_matrices(L.T if col else L, R.T if col else R, time_values=tuple(t),
                                         snapshot_orientation="col" if col else "row", columns=feats)
    rec.sig(n, nf, col)
    gen.same_rows(rec, X, gen.Ref(range(n), [np.array(t)] * n, [np.stack([L[i], R[i]]) for i in range(n)], feats), "from_shift_matrices")
    a, b = X.tsc.shift_matrices(snapshot_orientation="col" if col else "row")
    rec.equal(np.asarray(a), L.T if col else L, "shift matrices round trip left")
    rec.equal(np.asarray(b), R.T if col else R, "shift matrices round trip right")
    if n != nf or True:
        rec.raises(lambda: TSCDataFrame.from_shift_matrices(np.ones((2, 3)), np.ones((2, 4))), "from_shift_matrices rejects shape mismatch")


@family(quick=100, thorough=1000)
def storage(rec, rng):
    r = gen.rand_ref(rng)
    X = r.tsc()
    rec.sig(*r.tag); rec.note(**r.describe())
    for proto in (2, 4, pickle.HIGHEST_PROTOCOL):
        Y = pickle.loads(pickle.dumps(X, protocol=proto))
        rec.check(isinstance(Y, TSCDataFrame), "pickle:type")
        gen.same_rows(rec, Y, r, "pickle")
        rec.equal(list(Y.ids), sorted(r.ids), "pickle: ids of restored collection")
        gen.same_rows(rec, Y * 1.0, r, "pickle: operation on restored collection")
        gen.same_rows(rec, Y.loc[[r.ids[0]], :], r.sub([0]), "pickle: selection on restored collection")
    gen.same_rows(rec, copy.deepcopy(X), r, "deepcopy")
    gen.same_rows(rec, X.copy(), r, "copy")
    Y = X.copy(); Y.iloc[0, 0] = -1.0
    gen.same_rows(rec, X, r, "copy is independent")
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "/tmp"))
    p = os.path.join(d, "x.csv")
    X.to_csv(p)
    kw = {}
    if r.kind == "datetime":
        kw["parse_dates"] = [1]
    Y = TSCDataFrame.from_csv(p, float_precision="round_trip", **kw)
    gen.same_rows(rec, Y, r, "csv")
    s = X.to_csv()
    Y = TSCDataFrame.from_csv(io.StringIO(s), **kw)
    gen.same_rows(rec, Y, r, "csv:buffer", exact=False, rtol=1e-12)
    os.unlink(p); os.rmdir(d)


@family(quick=150, thorough=2000)
def readers(rec, rng):
    r = gen.rand_ref(rng) if rng.random() < .7 else gen.rand_ref(rng, equal_len=True, same_start=True, same_dt=True, regular=True)
    X = r.tsc()
    before = gen.snapshot(X)
    rec.sig(*r.tag); rec.note(**r.describe())
    by = r.by_id()
    got = list(X.itertimeseries())
    rec.equal(sorted(i for i, _ in got), sorted(r.ids), "itertimeseries: ids")
    for i, ts in got:
        rec.check(not isinstance(ts, TSCDataFrame), "itertimeseries: plain frame")
        gen.same_times(rec, ts.index, by[i][0], "itertimeseries: times")
        rec.equal(ts.to_numpy(), by[i][1], "itertimeseries: values")
        rec.equal([str(c) for c in ts.columns], r.feats, "itertimeseries: features")
    got = list(X.itertimeseries(valid_tsc=True))
    rec.equal(len(got), r.n, "itertimeseries(valid): number")
    for ts in got:
        i = gen.observe(ts).ids[0]
        gen.same_rows(rec, ts, gen.Ref([i], [by[i][0]], [by[i][1]], r.feats), "itertimeseries(valid)")
    for i in r.ids:
        gen.same_rows(rec, X.loc[[i], :], gen.Ref([i], [by[i][0]], [by[i][1]], r.feats), "loc[[id]]")
        one = X.loc[i, :]
        gen.same_times(rec, one.index, by[i][0], "loc[id]: times")
        rec.equal(np.asarray(one), by[i][1], "loc[id]: values")
    m = min(r.lengths)
    k = int(rng.integers(1, m + 1))
    exp_i = gen.Ref(r.ids, [t[:k] for t in r.times], [v[:k] for v in r.vals], r.feats)
    exp_f = gen.Ref(r.ids, [t[-k:] for t in r.times], [v[-k:] for v in r.vals], r.feats)
    gen.same_rows(rec, X.initial_states(k), exp_i, "initial_states")
    gen.same_rows(rec, X.final_states(k), exp_f, "final_states")
    gen.same_rows(rec, X.initial_states(), gen.Ref(r.ids, [t[:1] for t in r.times], [v[:1] for v in r.vals], r.feats), "initial_states:default")
    gen.same_rows(rec, X.final_states(), gen.Ref(r.ids, [t[-1:] for t in r.times], [v[-1:] for v in r.vals], r.feats), "final_states:default")
    rec.raises(lambda: X.initial_states(m + 1), "initial_states rejects too many samples")
    rec.raises(lambda: X.final_states(m + 1), "final_states rejects too many samples")
    rec.raises(lambda: X.initial_states(0), "initial_states rejects 0")
    rec.raises(lambda: X.final_states(-1), "final_states rejects negative")
    # selection by time values
    allt = np.unique(r.col_times())
    sel = np.sort(rng.choice(allt, size=int(rng.integers(1, len(allt) + 1)), replace=False))
    e = [(i, t[np.isin(t, sel)], v[np.isin(t, sel)]) for i, t, v in zip(r.ids, r.times, r.vals) if np.isin(t, sel).any()]
    gen.same_rows(rec, X.select_time_values(sel), gen.Ref(*zip(*e), r.feats), "select_time_values", order=False)
    if len(set(r.lengths)) == 1 and all((t == r.times[0]).all() for t in r.times):
        c = r.feats[-1]
        F = X.feature_to_array(c, as_frame=True)
        rec.equal(sorted(F.index.tolist()), sorted(r.ids), "feature_to_array: ids")
        gen.same_times(rec, F.columns, r.times[0], "feature_to_array: times")
        for i in r.ids:
            rec.equal(F.loc[i, :].to_numpy(), by[i][1][:, -1], "feature_to_array: row belongs to series")
    # labels onto other values
    w = rng.normal(size=r.values().shape)
    gen.same_rows(rec, TSCDataFrame.from_same_indices_as(X, values=w), gen.Ref(r.ids, r.times, np.split(w, np.cumsum(r.lengths)[:-1]), r.feats), "from_same_indices_as")
    w2 = rng.normal(size=(len(w), 2))
    gen.same_rows(rec, TSCDataFrame.from_same_indices_as(X, values=w2, except_columns=["p", "q"]),
                  gen.Ref(r.ids, r.times, np.split(w2, np.cumsum(r.lengths)[:-1]), ["p", "q"]), "from_same_indices_as:columns")
    j = r.sub([0])
    gen.same_rows(rec, TSCDataFrame.from_same_indices_as(X, values=w[: r.lengths[0]], except_index=j.index()),
                  gen.Ref(j.ids, j.times, [w[: r.lengths[0]]], r.feats), "from_same_indices_as:index")
    rec.raises(lambda: TSCDataFrame.from_same_indices_as(X, values=w[:-1] if len(w) > 1 else np.ones((3, r.nf))), "from_same_indices_as rejects wrong row count")
    rec.check(gen.snapshot(X) == before, "readers: collection modified")


@family(quick=60, thorough=600)
def insert(rec, rng):
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 6)))
    X = r.sub([0]).tsc()
    cur = [0]
    used = [r.ids[0]]
    rec.sig(*r.tag)
    for j in range(1, r.n):
        tsc_in = rng.random() < .4
        df = r.sub([j]).tsc() if tsc_in else pd.DataFrame(r.vals[j], index=r.times[j], columns=r.feats)
        given = rng.random() < .5
        nid = r.ids[j] + 100 if given else max(used) + 1
        if nid in used:
            raise Skip()
        X = X.insert_ts(df, ts_id=nid if given else None)
        used.append(nid)
        if len(set(used)) < len(used):
            raise Skip()
        cur.append(j)
        s = r.sub(cur)
        gen.same_rows(rec, X, gen.Ref(used, s.times, s.vals, r.feats), "insert_ts")


@family(quick=60, thorough=600)
def initial_conditions(rec, rng):
    n, nf = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    A = gen.unique_values(rng, 3, n, nf)
    ids, _ = gen.rand_ids(rng, n)
    t = float(rng.integers(0, 5)) * 0.5
    feats = [f"f{k}" for k in range(nf)]
    given = rng.random() < .6
    X = InitialCondition.from_array(A[0] if n == 1 and rng.random() < .5 else A, time_value=t,
                                    feature_names=feats if rng.random() < .5 else pd.Index(feats), ts_ids=np.array(ids) if given else None)
    rec.sig(n, nf, given)
    gen.same_rows(rec, X, gen.Ref(ids if given else range(n), [np.array([t])] * n, [A[[k]] for k in range(n)], feats), "InitialCondition.from_array")
    L = int(rng.integers(1, 7)); dt = float(rng.choice([0.5, 1, 0.25]))
    U = gen.unique_values(rng, 4, L, 2)
    Y = InitialCondition.from_array_control(U, control_names=["a", "b"], dt=dt, ts_id=7)
    gen.same_rows(rec, Y, gen.Ref([7], [dt * np.arange(L)], [U], ["a", "b"]), "InitialCondition.from_array_control:dt")
    tv = gen.rand_times(rng, L, "float", False)
    Y = InitialCondition.from_array_control(U[:, 0], control_names=["a"], time_values=tv)
    gen.same_rows(rec, Y, gen.Ref([0], [tv], [U[:, :1]], ["a"]), "InitialCondition.from_array_control:time_values")
    r = gen.rand_ref(rng, kind="float", regular=True, equal_len=True, same_start=True, same_dt=True, min_len=3)
    k = int(rng.integers(1, 3))
    gen.same_rows(rec, InitialCondition.from_tsc(r.tsc(), n_samples_ic=k),
                  gen.Ref(r.ids, [x[:k] for x in r.times], [v[:k] for v in r.vals], r.feats), "InitialCondition.from_tsc")
    # iteration over groups covers every series once, with its own initial state and time values
    r = gen.rand_ref(rng, kind=str(rng.choice(["int", "float"])), regular=True, min_len=3)
    by = r.by_id()
    seen = []
    for ic, tv in InitialCondition.iter_reconstruct_ic(r.tsc(), n_samples_ic=k):
        o = gen.observe(ic)
        for i, tt, vv in zip(o.ids, o.times, o.vals):
            seen.append(i)
            gen.same_times(rec, tt, by[i][0][:k], "iter_reconstruct_ic: ic times")
            rec.equal(vv, by[i][1][:k], "iter_reconstruct_ic: ic values")
            gen.same_times(rec, tv, by[i][0][k - 1:], "iter_reconstruct_ic: prediction times")
    rec.equal(sorted(seen), sorted(r.ids), "iter_reconstruct_ic: every series once")


@family(quick=30, thorough=300)
def reserved_names(rec, rng):
    """features named like a level of the row index are data like any other; a collection may be refused but not lose them"""
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    names = [str(rng.choice(["ID", "time", "feature"]))] + ["a", "b"][:k - 1]
    names = [names[i] for i in rng.permutation(k)]
    v = gen.unique_values(rng, 1, n, k); t = np.arange(n) + 2
    rec.sig(n, tuple(names))
    for label, fn in (("array", lambda: TSCDataFrame.from_array(v, time_values=t, feature_names=names, ts_id=3)),
                      ("single", lambda: TSCDataFrame.from_single_timeseries(pd.DataFrame(v, index=t, columns=names), ts_id=3)),
                      ("tensor", lambda: TSCDataFrame.from_tensor(v[None], time_series_ids=np.array([3]), time_values=t, feature_names=names)),
                      ("frame list", lambda: TSCDataFrame.from_frame_list([pd.DataFrame(v, index=t, columns=names)], ts_ids=[3])),
                      ("insert", lambda: TSCDataFrame.from_tensor(v[None], time_series_ids=np.array([1]), time_values=t, feature_names=names).insert_ts(pd.DataFrame(v, index=t, columns=names), 3).loc[[3], :])):
        try:
            X = fn()
        except Exception:
            rec.check(True, "reserved names: refused"); continue
        o = gen.observe(X)
        rec.equal((o.ids, list(o.feats)), ([3], names), f"reserved names: labels from {label}")
        rec.equal(o.vals[0], v, f"reserved names: values from {label}")
        gen.same_times(rec, o.times[0], t, f"reserved names: times from {label}")
