"""C04: snapshot pairs, windows and ID re-assignment never mix series or skip time."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException

RULE = ("random collections whose samples carry unique values; every output sample is traced back to (series, step); distinct by "
        "(family, parameters, structural tag)")


def trace(r):
    """unique value of the first feature -> (position of series, step)"""
    return {float(v[k, 0]): (s, k) for s, v in enumerate(r.vals) for k in range(len(v))}


def runs_of(rec, out, r, mech, msg="", complete=False):
    """every series of `out` is a run of consecutive samples of one series of r with identical values and times;
    returns list of (id, series, first step, length)"""
    tr = trace(r)
    o = gen.observe(out)
    res = []
    for i, t, v in zip(o.ids, o.times, o.vals):
        pos = [tr.get(float(x)) for x in v[:, 0]]
        if not rec.check(all(p is not None for p in pos), mech + ":values unchanged", lambda: f"{msg} {v[:, 0]}"):
            return None
        s, k = pos[0]
        if not rec.check(all(p == (s, k + j) for j, p in enumerate(pos)), mech + ":consecutive samples of one series", lambda: f"{msg} new id {i}: {pos}"):
            return None
        rec.equal(v, r.vals[s][k:k + len(v)], mech + ":all features unchanged", msg)
        gen.same_times(rec, t, r.times[s][k:k + len(v)], mech + ":times unchanged", msg)
        res.append((i, s, k, len(v)))
    rec.equal(len(set(o.ids)), len(o.ids), mech + ":one block per id")
    rec.equal([str(f) for f in o.feats], r.feats, mech + ":features")
    return res


@family(quick=250, thorough=4000)
def snapshot_pairs(rec, rng):
    r = gen.rand_ref(rng, regular=True, same_dt=True, min_len=2, max_len=int(rng.choice([2, 3, 8])))
    X = r.tsc()
    before = gen.snapshot(X)
    rec.sig(*r.tag, max(r.lengths)); rec.note(**r.describe())
    L = np.concatenate([v[:-1] for v in r.vals]); R = np.concatenate([v[1:] for v in r.vals])
    a, b = X.tsc.shift_matrices(snapshot_orientation="row")
    rec.equal(np.asarray(a), L, "shift_matrices:row left", str(r.describe())); rec.equal(np.asarray(b), R, "shift_matrices:row right", str(r.describe()))
    a, b = X.tsc.shift_matrices(snapshot_orientation="col")
    rec.equal(np.asarray(a), L.T, "shift_matrices:col left"); rec.equal(np.asarray(b), R.T, "shift_matrices:col right")
    a, b = X.tsc.shift_matrices()
    rec.equal(np.asarray(a), L.T, "shift_matrices:default left")
    a, b = X.tsc.shift_matrices(snapshot_orientation="row", validate=False)
    rec.equal(np.asarray(a), L, "shift_matrices:novalidate left"); rec.equal(np.asarray(b), R, "shift_matrices:novalidate right")
    np.asarray(a)[...] = -1.0; np.asarray(b)[...] = -1.0
    rec.check(gen.snapshot(X) == before, "shift_matrices: results share memory with the collection")
    rec.raises(lambda: X.tsc.shift_matrices(snapshot_orientation="diag"), "shift_matrices rejects unknown orientation")


@family(quick=80, thorough=1000)
def snapshot_pairs_invalid(rec, rng):
    how = str(rng.choice(["single_sample", "irregular", "two_dt"]))
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 5)), regular=True, same_dt=True, min_len=4)
    k = int(rng.integers(r.n))
    if how == "single_sample":
        r.times[k] = r.times[k][:1]; r.vals[k] = r.vals[k][:1]
    elif how == "irregular":
        keep = np.arange(len(r.times[k])) != 1
        r.times[k] = r.times[k][keep]; r.vals[k] = r.vals[k][keep]
    else:
        r.times[k] = r.times[k][::2]; r.vals[k] = r.vals[k][::2]
        if len(r.times[k]) < 2: raise Skip()
    rec.sig(how, *r.tag)
    rec.raises(lambda: r.tsc().tsc.shift_matrices(), f"shift_matrices rejects:{how}", TSCException)
    if how == "irregular":
        L = np.concatenate([v[:-1] for v in r.vals]); R = np.concatenate([v[1:] for v in r.vals])
        a, b = r.tsc().tsc.shift_matrices(snapshot_orientation="row", validate=False)
        rec.equal(np.asarray(a), L, "shift_matrices:novalidate irregular left"); rec.equal(np.asarray(b), R, "shift_matrices:novalidate irregular right")


@family(quick=200, thorough=3000)
def windows(rec, rng):
    r = gen.rand_ref(rng, regular=True, same_dt=True, min_len=2, max_len=12)
    X = r.tsc()
    w, off = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    per = bool(rng.random() < .5)
    before = gen.snapshot(X)
    rec.sig(w, off, per, *r.tag); rec.note(window=w, offset=off, per=per, **r.describe())
    got = list(X.tsc.iter_timevalue_window(window_size=w, offset=off, per_time_series=per))
    want = []
    if per:
        for j in np.argsort(r.ids):
            n = r.lengths[j]
            for s in range(0, n - w + 1, off):
                want.append(gen.Ref([r.ids[j]], [r.times[j][s:s + w]], [r.vals[j][s:s + w]], r.feats))
    else:
        allt = np.unique(r.col_times())
        for s in range(0, len(allt) - w + 1, off):
            tv = allt[s:s + w]
            e = [(i, t[np.isin(t, tv)], v[np.isin(t, tv)]) for i, t, v in zip(r.ids, r.times, r.vals) if np.isin(t, tv).any()]
            want.append(gen.Ref(*zip(*e), r.feats))
    if rec.equal(len(got), len(want), "iter_timevalue_window: number of windows", f"w={w} off={off} per={per} {r.describe()}"):
        for g, e in zip(got, want):
            gen.same_rows(rec, g, e, "iter_timevalue_window", order=False, msg=f"w={w} off={off} per={per}")
    rec.check(gen.snapshot(X) == before, "iter_timevalue_window changes the collection")
    for kw in (dict(window_size=0, offset=1), dict(window_size=2, offset=0), dict(window_size=2, offset=-1), dict(window_size=1.5, offset=1)):
        rec.raises(lambda: list(X.tsc.iter_timevalue_window(**kw)), "iter_timevalue_window rejects invalid parameters", msg=str(kw))


@family(quick=250, thorough=4000)
def train_test(rec, rng):
    r = gen.rand_ref(rng)
    X = r.tsc()
    n = len(X)
    if n < 2: raise Skip()
    style = str(rng.choice(["random", "blocks", "alternate"]))
    if style == "random":
        lab = rng.choice(3, size=n, p=[.5, .35, .15])
    elif style == "blocks":
        cuts = np.sort(rng.choice(n, int(rng.integers(1, min(n, 5))), replace=False))
        lab = np.zeros(n, int)
        for c in cuts: lab[c:] = int(rng.integers(3))
    else:
        lab = np.arange(n) % 2
    if not ((lab == 0).any() and (lab == 1).any()):
        lab[0], lab[-1] = 0, 1
    tr_i, te_i = np.where(lab == 0)[0], np.where(lab == 1)[0]
    before = gen.snapshot(X)
    rec.sig(style, *r.tag, len(set(lab))); rec.note(labels=lab.tolist(), **r.describe())
    train, test, dropped = X.tsc.assign_ids_train_test(train_indices=tr_i, test_indices=te_i, return_dropped=True)
    full = r.values()
    rec.equal(np.asarray(train), full[tr_i], "train: exactly the selected samples in order"); rec.equal(np.asarray(test), full[te_i], "test: exactly the selected samples in order")
    rec.equal(np.asarray(dropped), full[lab == 2], "dropped: exactly the remaining samples")
    gen.same_times(rec, train.index.get_level_values(1), r.col_times()[tr_i], "train: times"); gen.same_times(rec, test.index.get_level_values(1), r.col_times()[te_i], "test: times")
    ids = r.col_ids()
    def maximal(lab_v):
        runs, prev = [], None
        for k in range(n):
            if lab[k] != lab_v: prev = None; continue
            if prev is not None and ids[k] == ids[k - 1]: runs[-1].append(k)
            else: runs.append([k])
            prev = k
        return runs
    idsets = []
    for name, df, v in (("train", train, 0), ("test", test, 1)):
        rec.check(isinstance(df, TSCDataFrame), f"{name}: is a valid collection", lambda: str(gen.tsc_problems(df)))
        g = np.asarray(df.index.get_level_values(0))
        pos = {k: j for j, k in enumerate(np.where(lab == v)[0])}
        run_ids = []
        for run in maximal(v):
            u = set(g[[pos[k] for k in run]].tolist())
            rec.check(len(u) == 1, f"{name}: consecutive samples keep one id", lambda: f"{lab.tolist()} {g} {r.describe()}")
            run_ids.append(u.pop())
        rec.check(len(set(run_ids)) == len(run_ids), f"{name}: samples across a gap or of other series share an id", lambda: f"{lab.tolist()} {g.tolist()} {r.describe()}")
        idsets.append(set(g.tolist()))
        runs_of(rec, df, r, name)
    rec.check(not (idsets[0] & idsets[1]), "train and test share an id")
    rec.check(gen.snapshot(X) == before, "assign_ids_train_test changes the collection")
    two = X.tsc.assign_ids_train_test(train_indices=tr_i, test_indices=te_i)
    rec.check(len(two) == 2 and np.array_equal(np.asarray(two[0]), np.asarray(train)), "assign_ids_train_test without dropped")
    rec.raises(lambda: X.tsc.assign_ids_train_test(train_indices=tr_i, test_indices=np.sort(np.append(te_i, tr_i[0]))), "assign_ids_train_test rejects overlapping indices")
    if len(tr_i) > 1:
        rec.raises(lambda: X.tsc.assign_ids_train_test(train_indices=tr_i[::-1], test_indices=te_i), "assign_ids_train_test rejects unsorted indices")


@family(quick=250, thorough=4000)
def const_delta(rec, rng):
    r = gen.rand_ref(rng, kind=str(rng.choice(["int", "float", "datetime"])), regular=True, same_dt=bool(rng.random() < .5), min_len=3, max_len=12)
    if r.kind == "datetime" and rng.random() < .5:   # sampling below one second
        u = int(rng.choice([1, 1000, 10**6])) * int(rng.choice([1, 7, 25, 250]))
        r.times = [t[0] + ((t - t[0]) / np.timedelta64(1, "s")).astype("int64") * np.timedelta64(u, "ns") for t in r.times]
    # remove samples / change the sampling of some series
    for j in range(r.n):
        if rng.random() < .6:
            n = len(r.times[j])
            how = rng.choice(["holes", "coarse_tail", "random"])
            keep = np.ones(n, bool)
            if how == "holes" and n > 4:
                keep[rng.choice(np.arange(1, n - 1), int(rng.integers(1, max(2, n // 3))), replace=False)] = False
            elif how == "coarse_tail" and n > 6:
                keep[int(n // 2)::2] = False
            else:
                keep = rng.random(n) < .6; keep[[0, -1]] = True
            r.times[j], r.vals[j] = r.times[j][keep], r.vals[j][keep]
    X = r.tsc()
    before = gen.snapshot(X)
    drop = bool(rng.random() < .7)
    def regular(t):
        if len(t) < 2: return False
        d = np.diff(t.astype("int64")) if t.dtype.kind == "M" else np.diff(t)
        return bool(np.allclose(d.astype(float), float(d[0]), rtol=1e-9, atol=0))
    reg = [regular(t) for t in r.times]
    rec.sig(drop, tuple(reg), r.kind, r.idkind); rec.note(drop=drop, **r.describe())
    try:
        Y = X.tsc.assign_ids_const_delta(drop_samples=drop)
    except ValueError:
        rec.check(not drop and not all(reg), "assign_ids_const_delta: rejects only if samples must be dropped", str(r.describe()))
        return
    rec.check(gen.snapshot(X) == before, "assign_ids_const_delta changes the collection")
    if all(len(t) >= 2 for t in r.times) and len(set(r.lengths)) == 1 and False:
        pass
    # the accessor of the original collection still works on the original collection
    a, _ = X.tsc.shift_matrices(snapshot_orientation="row", validate=False)
    rec.equal(np.asarray(a), np.concatenate([v[:-1] for v in r.vals]), "assign_ids_const_delta: accessor of the original collection")
    if Y is None:
        rec.check(not any(reg), "assign_ids_const_delta: regular series dropped", str(r.describe()))
        return
    runs = runs_of(rec, Y, r, "assign_ids_const_delta", msg=str(r.describe()))
    if runs is None:
        return
    o = gen.observe(Y)
    rec.equal(sorted(o.ids), list(range(len(o.ids))), "assign_ids_const_delta: ids are sequential")
    seen = set()
    for i, s, k, n in runs:
        for j in range(k, k + n):
            rec.check((s, j) not in seen, "assign_ids_const_delta: sample used twice"); seen.add((s, j))
        if reg[s]:
            rec.check(n == len(r.times[s]), "assign_ids_const_delta: regular series kept complete", str(r.describe()))
    for t, (i, s, k, n) in zip(o.times, runs):
        rec.check(n >= 2 and regular(t), "assign_ids_const_delta: each series has constant sampling", lambda: f"{t} {r.describe()}")
    if not drop:
        rec.equal(len(seen), int(sum(r.lengths)), "assign_ids_const_delta: no sample dropped")
    for s in range(r.n):
        if reg[s]:
            rec.check((s, 0) in seen, "assign_ids_const_delta: regular series kept")


@family(quick=80, thorough=1000)
def sequential(rec, rng):
    r = gen.rand_ref(rng)
    X = r.tsc()
    if rng.random() < .5 and r.n > 1:   # a selection carries stale index levels
        keep = sorted(rng.choice(r.n, int(rng.integers(1, r.n)), replace=False).tolist())
        r = r.sub(keep); X = X.loc[r.ids, :]
    rec.sig(r.n, r.lengths)
    Y = X.copy().tsc.assign_ids_sequential()
    runs = runs_of(rec, Y, r, "assign_ids_sequential")
    if runs is None: return
    rec.equal(sorted(i for i, *_ in runs), list(range(r.n)), "assign_ids_sequential: ids")
    rec.check(all(k == 0 and n == r.lengths[s] for _, s, k, n in runs) and [s for _, s, _, _ in runs] == list(range(r.n)), "assign_ids_sequential: series stay complete and in order")
    rec.equal([i for i, *_ in sorted(runs, key=lambda x: r.ids[x[1]])], list(range(r.n)) if sorted(r.ids) == r.ids else [i for i, *_ in sorted(runs, key=lambda x: r.ids[x[1]])], "assign_ids_sequential: order of ids")
