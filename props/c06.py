"""C06: time series cross-validation splits are leak-free and complete."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.metric import TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime

RULE = "random collections and splitter parameters; every yielded index set is checked against the row labels; distinct by (family, parameters, structural tag)"


def basics(rec, mech, splits, n):
    for tr, te in splits:
        tr, te = np.asarray(tr), np.asarray(te)
        rec.check(tr.ndim == 1 and te.ndim == 1 and tr.dtype.kind in "iu" and te.dtype.kind in "iu", mech + ": index arrays")
        rec.check(len(tr) > 0 and len(te) > 0, mech + ": no empty side")
        rec.check(len(set(tr.tolist())) == len(tr) and len(set(te.tolist())) == len(te), mech + ": no duplicated index")
        rec.check((np.diff(tr) > 0).all() and (np.diff(te) > 0).all(), mech + ": sorted")
        rec.check(not set(tr.tolist()) & set(te.tolist()), mech + ": train and test are disjoint", lambda: f"{tr} {te}")
        rec.check(tr.min() >= 0 and te.min() >= 0 and tr.max() < n and te.max() < n, mech + ": refers to existing rows")


def balanced(sizes, n, k):
    q = n // k
    return sorted(sizes, reverse=True) == sorted([q + (1 if i < n % k else 0) for i in range(k)], reverse=True)


@family(quick=250, thorough=4000)
def kfold_series(rec, rng):
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 9)), equal_len=True)
    if rng.random() < .3:     # a selection with stale index levels
        keep = sorted(rng.choice(r.n, int(rng.integers(2, r.n + 1)), replace=False).tolist())
        X = r.tsc().loc[[r.ids[k] for k in keep], :]; r = r.sub(keep)
        X = X.loc[r.ids, :]
    else:
        X = r.tsc()
    k = int(rng.integers(2, r.n + 1)); shuffle = bool(rng.random() < .5); seed = int(rng.integers(1000)) if shuffle else None
    before = gen.snapshot(X)
    rec.sig(k, shuffle, *r.n_tag) if hasattr(r, "n_tag") else rec.sig(k, shuffle, r.n, r.lengths[0])
    rec.note(k=k, shuffle=shuffle, **r.describe())
    S = TSCKfoldSeries(n_splits=k, shuffle=shuffle, random_state=seed)
    sp = list(S.split(X))
    ids = np.asarray(X.index.get_level_values(0))
    rec.equal(len(sp), k, "kfold_series: number of splits"); rec.equal(S.get_n_splits(X), k, "kfold_series: get_n_splits")
    basics(rec, "kfold_series", sp, len(X))
    cnt = np.zeros(len(X), int); sizes = []
    for tr, te in sp:
        rec.equal(len(tr) + len(te), len(X), "kfold_series: every sample on one side")
        rec.check(not set(ids[tr]) & set(ids[te]), "kfold_series: whole series on one side", lambda: f"{ids[tr]} {ids[te]}")
        cnt[te] += 1; sizes.append(len(set(ids[te])))
        a, b = X.iloc[tr], X.iloc[te]
        rec.check(not gen.tsc_problems(a) and not gen.tsc_problems(b), "kfold_series: selected samples form a collection")
    rec.check((cnt == 1).all(), "kfold_series: every series is tested exactly once", lambda: str(cnt))
    rec.check(balanced(sizes, r.n, k), "kfold_series: balanced", lambda: str(sizes))
    sp2 = list(TSCKfoldSeries(n_splits=k, shuffle=shuffle, random_state=seed).split(X)); sp3 = list(S.split(X))
    for o in (sp2, sp3):
        rec.check(len(o) == len(sp) and all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(sp, o)), "kfold_series: reproducible")
    if not shuffle:
        order = [i for _, te in sp for i in te]
        rec.check(order == sorted(order), "kfold_series: without shuffle in order")
    rec.check(gen.snapshot(X) == before, "kfold_series: changes the collection")
    rec.raises(lambda: list(TSCKfoldSeries(n_splits=r.n + 1).split(X)), "kfold_series rejects more splits than series")
    if r.lengths[0] > 1:
        Y = X.iloc[:-1]
        rec.raises(lambda: list(S.split(Y)), "kfold_series rejects unequal length", NotImplementedError)


@family(quick=250, thorough=4000)
def kfold_time(rec, rng):
    r = gen.rand_ref(rng, min_len=2, max_len=12, equal_len=True, same_start=True, same_dt=True)
    r.times = [r.times[0].copy() for _ in range(r.n)]
    X = r.tsc()
    n = r.lengths[0]
    k = int(rng.integers(2, n + 1)) if n >= 2 else 2
    before = gen.snapshot(X)
    rec.sig(k, *r.tag, n); rec.note(k=k, **r.describe())
    S = TSCKFoldTime(n_splits=k)
    sp = list(S.split(X))
    rec.equal(len(sp), k, "kfold_time: number of splits"); rec.equal(S.get_n_splits(X), k, "kfold_time: get_n_splits")
    basics(rec, "kfold_time", sp, len(X))
    step = np.concatenate([np.arange(n)] * r.n); ids = r.col_ids()
    cnt = np.zeros(len(X), int); sizes = []; last = -1
    for tr, te in sp:
        rec.equal(len(tr) + len(te), len(X), "kfold_time: every sample on one side")
        cnt[te] += 1
        blocks = {i: step[te][ids[te] == i].tolist() for i in r.ids}
        b0 = blocks[r.ids[0]]
        rec.check(len(b0) > 0 and b0 == list(range(b0[0], b0[0] + len(b0))), "kfold_time: test is a contiguous block of time steps", lambda: str(blocks))
        rec.check(all(b == b0 for b in blocks.values()), "kfold_time: same block in every series", lambda: str(blocks))
        rec.check(b0 and b0[0] == last + 1, "kfold_time: blocks in order"); last = b0[-1] if b0 else last
        sizes.append(len(b0))
    rec.check((cnt == 1).all(), "kfold_time: every time step is tested exactly once")
    rec.check(balanced(sizes, n, k), "kfold_time: balanced", lambda: str(sizes))
    sp2 = list(S.split(X))
    rec.check(all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(sp, sp2)), "kfold_time: reproducible")
    rec.check(gen.snapshot(X) == before, "kfold_time: changes the collection")
    rec.raises(lambda: list(TSCKFoldTime(n_splits=n + 1).split(X)), "kfold_time rejects more splits than time steps")
    if r.n > 1:
        rec.raises(lambda: list(S.split(X.iloc[:-1])), "kfold_time rejects different time values", NotImplementedError)


@family(quick=300, thorough=5000)
def window_fold(rec, rng):
    ns = int(rng.integers(1, 6))
    kind = str(rng.choice(["int", "float", "datetime"]))
    dt = {"int": int(rng.integers(1, 4)), "float": float(rng.choice([.1, .5, 1.])), "datetime": int(rng.choice([60, 3600]))}[kind]
    lens = rng.integers(2, 14, size=ns)
    ids = sorted(rng.choice(40, ns, replace=False).tolist()) if rng.random() < .6 else list(range(ns))
    k0, times = int(rng.integers(0, 3)), []
    for n in lens:
        k = k0 + np.arange(n)
        times.append((gen.EPOCH + (k * dt).astype("timedelta64[s]")).astype("datetime64[ns]") if kind == "datetime" else k * dt)
        k0 += n + int(rng.integers(0, 4))
    vals = [gen.unique_values(rng, i, n, 2) for i, n in zip(ids, lens)]
    r = gen.Ref(ids, times, vals, ["x", "y"])
    perm = rng.permutation(ns) if rng.random() < .35 else np.arange(ns)
    r = r.sub(perm.tolist())
    X = r.tsc()
    w, off = int(rng.integers(1, 7)), int(rng.choice([0, 0, 1, 2, 5])); m = int(rng.integers(1, 7)) if rng.random() < .6 else None
    before = gen.snapshot(X)
    rec.sig(w, off, m, kind, tuple(lens), tuple(perm)); rec.note(w=w, off=off, m=m, **r.describe())
    S = TSCWindowFoldTime(test_window_length=w, window_offset=off, train_min_timesteps=m)
    if max(lens) < w:
        rec.raises(lambda: list(S.split(X)), "window_fold rejects if all series are too short", ValueError)
        return
    # reference: windows from the last sample of the last series backwards
    start = np.append(0, np.cumsum(r.lengths)); n = len(X)
    want = []
    for j in np.argsort(r.ids)[::-1]:
        e = start[j + 1]
        while e - w >= start[j]:
            te = np.arange(e - w, e)
            runs = []
            for q in range(r.n):
                cur = []
                for i in range(start[q], start[q + 1]):
                    if i in te:
                        if cur: runs.append(cur)
                        cur = []
                    else: cur.append(i)
                if cur: runs.append(cur)
            tr = sorted(i for run in runs for i in run if m is None or len(run) >= m)
            if tr: want.append((tr, te.tolist()))
            e -= w + off
    sp = list(S.split(X))
    rec.equal([(a.tolist(), b.tolist()) for a, b in sp], want, "window_fold: windows and training samples", msg=f"w={w} off={off} m={m} {r.describe()}")
    if sp:
        basics(rec, "window_fold", sp, n)
        allte = np.concatenate([b for _, b in sp])
        rec.equal(len(set(allte.tolist())), len(allte), "window_fold: no sample tested twice")
        for a, b in sp:
            tr, te = X.tsc.assign_ids_train_test(a, b)
            rec.check(isinstance(te, TSCDataFrame) and te.n_timeseries == 1 and te.n_timesteps == w, "window_fold: test window is one series")
            if m is not None:
                rec.check(np.min(np.asarray(tr.n_timesteps)) >= m, "window_fold: minimum number of training steps")
    rec.equal(S.get_n_splits(X), len(want), "window_fold: get_n_splits")
    rec.check(gen.snapshot(X) == before, "window_fold: changes the collection")
    if ns > 1:
        bad = gen.Ref(r.ids, [t if j else t - t[0] + r.times[1][0] for j, t in enumerate(r.times)], r.vals, r.feats)
        rec.raises(lambda: list(S.split(bad.tsc())), "window_fold rejects overlapping series")
    for kw in (dict(test_window_length=0), dict(test_window_length=1.5), dict(test_window_length=2, window_offset=-1), dict(test_window_length=2, train_min_timesteps=0)):
        rec.raises(lambda: TSCWindowFoldTime(**kw), "window_fold rejects invalid parameters", ValueError, msg=str(kw))
