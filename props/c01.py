"""C01: a time series collection is always structurally valid.

Monitors: (1) construction with valid rows gives exactly these rows; (2) construction with a corrupted row or
column index is rejected; (3) random operation histories on a collection run in lock-step with a plain pandas
shadow frame: after every step the result is either a structurally valid collection holding what the shadow
holds, or plain pandas data, or the operation raised and the collection is unchanged.
"""
import io, pickle, copy
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen
from datafold.pcfold import TSCDataFrame

RULE = ("construction cases, index corruptions and operation histories; non-trivial = at least one collection was built and "
        "observed; distinct by (family, time kind, regularity, id order, series count / sequence of operations)")


def _valid(rec, df, mech, msg=""):
    p = [x for x in gen.tsc_problems(df) if x != "non numeric data"]
    return rec.check(not p, mech, f"{msg} problems={p}\n{pd.DataFrame(df).head(8)}")


@family(quick=120, thorough=1500)
def construct_valid(rec, rng):
    r = gen.rand_ref(rng)
    rec.sig(*r.tag); rec.note(**r.describe())
    data, idx, cols = r.values(), r.index(), pd.Index(r.feats)
    builds = {
        "frame": lambda: TSCDataFrame(pd.DataFrame(data, index=idx, columns=cols)),
        "array": lambda: TSCDataFrame(data, index=idx, columns=r.feats),
        "unnamed": lambda: TSCDataFrame(data, index=pd.MultiIndex.from_arrays([r.col_ids(), r.col_times()]), columns=cols),
        "names": lambda: TSCDataFrame(data, index=idx.set_names(["a", "b"]), columns=cols),
        "floatids": lambda: TSCDataFrame(data, index=pd.MultiIndex.from_arrays([r.col_ids().astype(float), r.col_times()]), columns=cols),
        "dict": lambda: TSCDataFrame({c: pd.Series(data[:, k], index=idx) for k, c in enumerate(r.feats)}),
        "unusedlevels": lambda: TSCDataFrame(pd.concat([pd.DataFrame(data, index=idx, columns=cols),
                                                        pd.DataFrame(data[:1], index=pd.MultiIndex.from_arrays([[77], r.col_times()[:1]]), columns=cols)]).iloc[:-1]),
        "copy": lambda: TSCDataFrame(r.tsc()),
    }
    if r.kind == "int":
        builds["uint"] = lambda: TSCDataFrame(data, index=pd.MultiIndex.from_arrays([r.col_ids(), r.col_times().astype(np.uint64)]), columns=cols)
    for name, b in builds.items():
        ok, X = rec.attempt(b, f"construct:{name}")
        if not ok:
            continue
        rec.check(isinstance(X, TSCDataFrame), "construct:type")
        if _valid(rec, X, "construct:valid", name):
            gen.same_rows(rec, X, r, "construct:rows", msg=name)


def _corrupt(rng, r, how):
    """(data, index, columns) violating exactly one clause"""
    ids, times, data = r.col_ids().copy(), r.col_times().copy(), r.values()
    cols = list(r.feats)
    n = len(ids)
    longest = int(np.argmax(r.lengths)); a = int(np.sum(r.lengths[:longest])); L = r.lengths[longest]
    if how == "dup_row":
        k = int(rng.integers(n)); sel = np.insert(np.arange(n), k, k)
        ids, times, data = ids[sel], times[sel], data[sel]
    elif how == "swap_time":
        if L < 2: raise Skip()
        k = a + int(rng.integers(L - 1)); times[[k, k + 1]] = times[[k + 1, k]]
    elif how == "reverse_series":
        if L < 2: raise Skip()
        times[a:a + L] = times[a:a + L][::-1]
    elif how == "negative_id":
        ids[ids == r.ids[int(rng.integers(r.n))]] = -int(rng.integers(1, 5))
        if len(set(zip(ids.tolist(), times.tolist()))) != n: raise Skip()
    elif how == "fractional_id":
        ids = ids.astype(float); ids[ids == r.ids[int(rng.integers(r.n))]] += 0.5
    elif how == "nan_id":
        ids = ids.astype(float); ids[int(rng.integers(n))] = np.nan
    elif how == "nan_time":
        if r.kind == "datetime":
            times[int(rng.integers(n))] = np.datetime64("NaT")
        else:
            times = times.astype(float); times[int(rng.integers(n))] = np.nan
    elif how == "inf_time":
        if r.kind == "datetime": raise Skip()
        times = times.astype(float); times[-1] = np.inf
    elif how == "negative_time":
        if r.kind == "datetime": raise Skip()
        times = times - times.min() - (1 if r.kind == "int" else 0.5)
    elif how == "split_series":
        if r.n < 2 or L < 2: raise Skip()
        # move the last sample of the longest series behind/before all other series
        k = a + L - 1
        rest = np.delete(np.arange(n), k)
        sel = np.append(rest, k) if longest < r.n - 1 else np.insert(rest, 0, a)
        if longest == r.n - 1:
            sel = np.append(a, np.delete(np.arange(n), a))
        ids, times, data = ids[sel], times[sel], data[sel]
    elif how == "string_time":
        times = np.array([f"t{k}" for k in range(n)], dtype=object)
    elif how == "complex_time":
        times = np.arange(n) + 1j
    elif how == "bool_time":
        ids, times, data = np.array([0, 0]), np.array([False, True]), data[[0, 0]]
    elif how == "one_level":
        return data, pd.RangeIndex(n), cols
    elif how == "three_level":
        return data, pd.MultiIndex.from_arrays([ids, times, np.arange(n)]), cols
    elif how == "dup_feature":
        data = np.column_stack([data, data[:, 0]]); cols = cols + [cols[int(rng.integers(len(cols)))]]
    elif how == "multilevel_columns":
        return data, pd.MultiIndex.from_arrays([ids, times]), pd.MultiIndex.from_arrays([cols, cols])
    elif how == "mixed_columns":
        data = np.column_stack([data, data[:, 0]]); cols = cols + [3]
    elif how == "object_data":
        data = data.astype(object); data[0, 0] = "text"
    return data, pd.MultiIndex.from_arrays([ids, times]), cols


CORRUPT = ["dup_row", "swap_time", "reverse_series", "negative_id", "fractional_id", "nan_id", "nan_time", "inf_time", "negative_time",
           "split_series", "string_time", "complex_time", "bool_time", "one_level", "three_level", "dup_feature", "multilevel_columns",
           "mixed_columns", "object_data", "object_column"]


@family(quick=300, thorough=3000)
def construct_invalid(rec, rng):
    how = CORRUPT[rec.index % len(CORRUPT)]
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 5)), min_len=2, plain=True)
    data, idx, cols = _corrupt(rng, r, how)
    rec.sig(how, *r.tag); rec.note(corruption=how, **r.describe())
    if how == "object_column":   # only some of the features are not numeric
        df = pd.DataFrame(data, index=idx, columns=cols)
        k = int(rng.integers(len(cols)))
        new = rng.choice(["text", "object", "datetime"])
        col = pd.Series({"text": ["text"] * len(df), "object": [None] * len(df), "datetime": [np.datetime64("2020-01-01")] * len(df)}[str(new)], index=idx, dtype=None if new == "datetime" else object)
        df.insert(k, "other", col)
        rec.raises(lambda: TSCDataFrame(df), "rejects:object_column:frame")
        rec.raises(lambda: TSCDataFrame(df.iloc[:, ::-1]), "rejects:object_column:frame")
        rec.raises(lambda: TSCDataFrame({c: df[c] for c in df.columns}, index=idx), "rejects:object_column:dict")
        return
    rec.raises(lambda: TSCDataFrame(data, index=idx, columns=cols), f"rejects:{how}:ctor")
    rec.raises(lambda: TSCDataFrame(pd.DataFrame(data, index=idx, columns=cols)), f"rejects:{how}:frame")
    # through the setters of an existing, valid collection
    if how in ("dup_row", "bool_time") or isinstance(cols, pd.MultiIndex) or len(cols) != r.nf or how == "object_data":
        return
    X = r.tsc()
    snap = gen.snapshot(X)
    def setter():
        X.index = idx
    rec.raises(setter, f"rejects:{how}:set_index_attr")
    rec.check(gen.snapshot(X) == snap, "failed assignment leaves the collection unchanged")
    rec.raises(lambda: X.set_axis(idx, axis=0), f"rejects:{how}:set_axis")


# --------------------------------------------------------------------------- histories

def _op_list(rng, X, S):
    """(name, function on the collection, function on the shadow frame, in_place)"""
    r = gen.observe(S)
    ids, n, cols = r.ids, len(S), list(S.columns)
    pick = sorted(rng.choice(len(ids), size=int(rng.integers(1, len(ids) + 1)), replace=False).tolist())
    sel_ids = [ids[k] for k in pick]
    mask = rng.random(n) < 0.7
    if not mask.any():
        mask[int(rng.integers(n))] = True
    some_cols = sorted(rng.choice(len(cols), size=int(rng.integers(1, len(cols) + 1)), replace=False).tolist())
    cc = [cols[k] for k in some_cols]
    a = int(rng.integers(n)); b = int(rng.integers(a + 1, n + 1))
    rows = np.sort(rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    shuf = rng.permutation(n)
    c0 = cols[int(rng.integers(len(cols)))]
    k = int(rng.integers(1, 4))
    tv = np.asarray(S.index.get_level_values(1))
    t_pick = tv[int(rng.integers(n))]
    f = float(rng.normal())
    newid = int(rng.integers(60, 99))
    while newid in ids:
        newid += 1
    lastrow = S.index[-1]
    ops = [
        ("loc_ids", lambda d: d.loc[sel_ids, :], lambda d: d.loc[sel_ids, :]),
        ("loc_mask", lambda d: d.loc[mask, :], lambda d: d.loc[mask, :]),
        ("loc_cols", lambda d: d.loc[:, cc], lambda d: d.loc[:, cc]),
        ("loc_mask_cols", lambda d: d.loc[mask, cc], lambda d: d.loc[mask, cc]),
        ("loc_times", lambda d: d.loc[pd.IndexSlice[:, [t_pick]], :], lambda d: d.loc[pd.IndexSlice[:, [t_pick]], :]),
        ("loc_one_col", lambda d: d.loc[:, c0], lambda d: d.loc[:, [c0]]),
        ("getitem_col", lambda d: d[c0], lambda d: d[[c0]]),
        ("getitem_cols", lambda d: d[cc], lambda d: d[cc]),
        ("iloc_slice", lambda d: d.iloc[a:b], lambda d: d.iloc[a:b]),
        ("iloc_rows", lambda d: d.iloc[rows, :], lambda d: d.iloc[rows, :]),
        ("iloc_rows_cols", lambda d: d.iloc[rows, some_cols], lambda d: d.iloc[rows, some_cols]),
        ("head", lambda d: d.head(b), lambda d: d.head(b)),
        ("tail", lambda d: d.tail(n - a), lambda d: d.tail(n - a)),
        ("drop_col", lambda d: d.drop(columns=cols[:-1]) if len(cols) > 1 else d, lambda d: d.drop(columns=cols[:-1]) if len(cols) > 1 else d),
        ("drop_rows", lambda d: d.drop(d.index[~mask]), lambda d: d.drop(d.index[~mask])),
        ("mul", lambda d: d * f + 1, lambda d: d * f + 1),
        ("add_self", lambda d: d + d, lambda d: d + d),
        ("neg", lambda d: -d, lambda d: -d),
        ("np_exp", lambda d: np.tanh(d), lambda d: np.tanh(d)),
        ("copy", lambda d: d.copy(deep=True), lambda d: d.copy()),
        ("deepcopy", lambda d: copy.deepcopy(d), lambda d: d.copy()),
        ("pickle", lambda d: pickle.loads(pickle.dumps(d)), lambda d: d.copy()),
        ("astype", lambda d: d.astype(np.float64), lambda d: d.astype(np.float64)),
        ("rename", lambda d: d.rename(columns={c0: str(c0) + "_"}), lambda d: d.rename(columns={c0: str(c0) + "_"})),
        ("concat_cols", lambda d: pd.concat([d, d.rename(columns={c: f"{c}k{len(d.columns)}" for c in d.columns})], axis=1),
         lambda d: pd.concat([d, d.rename(columns={c: f"{c}k{len(d.columns)}" for c in d.columns})], axis=1)),
        ("where", lambda d: d.where(d > f), lambda d: d.where(d > f)),
        ("query_ids", lambda d: d[np.isin(d.index.get_level_values(0), sel_ids)], lambda d: d[np.isin(d.index.get_level_values(0), sel_ids)]),
        ("sort_index", lambda d: d.sort_index(), lambda d: d.sort_index()),
        ("concat_rows", lambda d: pd.concat([d.loc[[i], :] for i in ids[::-1]], axis=0), lambda d: pd.concat([d.loc[[i], :] for i in ids[::-1]], axis=0)),
        ("new_col", "setcol", None), ("loc_set", "locset", None), ("iloc_set", "ilocset", None), ("append_row", "append", None),
        # hostile: may be rejected, may return plain data, must never give a malformed collection
        ("h_shuffle", lambda d: d.iloc[shuf, :], None),
        ("h_reverse", lambda d: d.iloc[::-1, :], None),
        ("h_loc_shuffle", lambda d: d.loc[[d.index[j] for j in shuf]], None),
        ("h_dup_rows", lambda d: d.iloc[np.append(rows, rows[0]), :], None),
        ("h_sort_time", lambda d: d.sort_index(level=1), None),
        ("h_sort_values", lambda d: pd.DataFrame.sort_values(d, by=c0, ascending=False), None),
        ("h_sample", lambda d: d.sample(frac=1.0, random_state=k), None),
        ("h_reindex", lambda d: d.reindex(d.index[shuf]), None),
        ("h_concat_dup", lambda d: pd.concat([d, d], axis=0), None),
        ("h_concat_cols_dup", lambda d: pd.concat([d, d], axis=1), None),
        ("h_rename_dup", lambda d: d.rename(columns={cols[0]: cols[-1]}) if len(cols) > 1 else pd.concat([d, d], axis=1), None),
        ("h_rename_id", lambda d: d.rename(index={ids[0]: -3}, level=0), None),
        ("h_rename_merge", lambda d: d.rename(index={ids[0]: ids[-1]}, level=0), None),
        ("h_reset_index", lambda d: d.reset_index(drop=True), None),
        ("h_droplevel", lambda d: d.droplevel(0), None),
        ("h_droplevel1", lambda d: d.droplevel(1), None),
        ("h_swaplevel", lambda d: d.swaplevel(), None),
        ("h_transpose", lambda d: d.T, None),
        ("h_groupby_mean", lambda d: d.groupby(level=0).mean(), None),
        ("h_unstack", lambda d: d.unstack(), None),
        ("h_stack", lambda d: d.stack(), None),
        ("h_sum", lambda d: d.sum(), None),
        ("h_sum1", lambda d: d.sum(axis=1), None),
        ("h_describe", lambda d: d.describe(), None),
        ("h_xs", lambda d: d.xs(ids[0]), None),
        ("h_xs_time", lambda d: d.xs(t_pick, level=1), None),
        ("h_loc_id", lambda d: d.loc[ids[0]], None),
        ("h_loc_id2", lambda d: d.loc[ids[0], :], None),
        ("h_iloc_row", lambda d: d.iloc[0], None),
        ("h_iloc_col", lambda d: d.iloc[:, 0], None),
        ("h_set_axis", lambda d: d.set_axis(pd.RangeIndex(n), axis=0), None),
        ("h_append_misplaced", "append_bad", None),
        ("h_apply", lambda d: d.apply(np.mean), None),
        ("h_shift_negative", "negtime", None),
    ]
    return ops, dict(ids=ids, c0=c0, f=f, lastrow=lastrow, mask=mask, rows=rows, newid=newid)


@family(quick=220, thorough=4000)
def history(rec, rng):
    r = gen.rand_ref(rng, n_series=int(rng.integers(1, 5)), nf=int(rng.integers(1, 4)), plain=True)
    X, S = r.tsc(), r.frame()
    steps = []
    for _ in range(int(rng.integers(3, 9))):
        ops, c = _op_list(rng, X, S)
        name, fx, fs = ops[int(rng.integers(len(ops)))]
        steps.append(name)
        before = gen.snapshot(X)
        if isinstance(fx, str):
            Y, T = X.copy(), S.copy()
            def do(d):
                if fx == "setcol":
                    d[str(c["c0"]) + "n"] = np.arange(len(d)) * 1.0
                elif fx == "locset":
                    d.loc[c["mask"], c["c0"]] = c["f"]
                elif fx == "ilocset":
                    d.iloc[c["rows"], 0] = c["f"]
                elif fx == "append":
                    i, t = c["lastrow"]
                    d.loc[(i, t + (np.timedelta64(10**12, "ns") if r.kind == "datetime" else 50)), :] = c["f"]
                elif fx == "append_bad":   # new first sample of an existing series written behind everything
                    i, t = d.index[0]
                    d.loc[(i, t + (np.timedelta64(977, "ns") if r.kind == "datetime" else 0.0123)), :] = c["f"]
                elif fx == "negtime":
                    idx = d.index
                    t = np.asarray(idx.get_level_values(1))
                    if t.dtype.kind == "M":
                        d.index = pd.MultiIndex.from_arrays([idx.get_level_values(0), t[::-1]])
                    else:
                        d.index = pd.MultiIndex.from_arrays([idx.get_level_values(0), t - 10.0**4])
                return d
            try:
                res = do(Y)
            except Exception as e:
                rec.check(name.startswith("h_"), f"history:{name} must succeed", lambda: repr(e))
                # the failed in-place operation must not leave a malformed object behind
                if fx in ("negtime",):
                    _valid(rec, Y, "history:after failed operation", name)
                continue
            if _valid(rec, res, f"history:valid:{name}", str(steps)) and not name.startswith("h_"):
                do(T)
                gen.same_rows(rec, res, T, f"history:equals shadow:{name}", msg=str(steps))
                X, S = res, T
            else:
                continue
        else:
            try:
                res = fx(X)
            except (AttributeError, ValueError, KeyError, TypeError, IndexError, NotImplementedError, pd.errors.DuplicateLabelError) as e:
                rec.check(name.startswith("h_"), f"history:{name} must succeed", lambda: f"{steps} {e!r}")
                rec.check(gen.snapshot(X) == before, "history:failed operation changed its operand", name)
                continue
            rec.check(gen.snapshot(X) == before, "history:operation changed its operand", name)
            if isinstance(res, TSCDataFrame):
                ok = _valid(rec, res, f"history:valid:{name}", str(steps))
            else:
                ok = True
                rec.check(name.startswith("h_"), f"history:{name} keeps the collection type", lambda: f"{steps} {type(res)}")
            if not ok:
                continue
            if fs is not None:
                T = fs(S)
                gen.same_rows(rec, res, T, f"history:equals shadow:{name}", msg=str(steps))
                if isinstance(res, TSCDataFrame) and len(T):
                    X, S = res, T
            elif isinstance(res, TSCDataFrame) and len(res) and name not in ("h_apply",):
                X, S = res, pd.DataFrame(np.asarray(res), index=pd.MultiIndex.from_arrays(
                    [np.asarray(res.index.get_level_values(0)), np.asarray(res.index.get_level_values(1))]), columns=list(res.columns))
    rec.sig(r.kind, r.idkind, *steps)
    rec.note(history=steps, **r.describe())


@family(quick=80, thorough=800)
def insert_history(rec, rng):
    """insert_ts chains: valid inserts are kept, invalid ones rejected without damage"""
    r = gen.rand_ref(rng, n_series=int(rng.integers(1, 4)), plain=True)
    X, cur = r.tsc(), r
    steps = []
    for _ in range(int(rng.integers(1, 5))):
        how = str(rng.choice(["ok", "ok_id", "ok_tsc", "dup_id", "neg_id", "unsorted", "wrong_cols", "dup_time", "wrong_time_kind", "nan_time"]))
        steps.append(how)
        L = int(rng.integers(1, 6)) + (how in ("unsorted", "dup_time"))
        t = gen.rand_times(rng, L, r.kind, True)
        v = gen.unique_values(rng, 500 + len(steps), L, r.nf)
        feats = list(r.feats)
        ts_id = None
        if how in ("ok_id", "ok_tsc"):
            ts_id = int(rng.integers(100, 200))
            while ts_id in cur.ids: ts_id += 1
        elif how == "dup_id":
            ts_id = cur.ids[0]
        elif how == "neg_id":
            ts_id = -2
        elif how == "unsorted":
            t = t[::-1]
        elif how == "dup_time":
            t = t.copy(); t[-1] = t[-2]
        elif how == "wrong_cols":
            feats = ["other"] + feats[1:]
        elif how == "wrong_time_kind":
            t = np.arange(L) if r.kind == "datetime" else gen.rand_times(rng, L, "datetime", True)
        elif how == "nan_time":
            if r.kind == "datetime":
                t = t.copy(); t[-1] = np.datetime64("NaT")
            else:
                t = t.astype(float); t[-1] = np.nan
        df = pd.DataFrame(v, index=t, columns=feats)
        if how == "ok_tsc":
            df = gen.Ref([3], [t], [v], feats).tsc()
        before = gen.snapshot(X)
        if how.startswith("ok"):
            ok, Y = rec.attempt(lambda: X.insert_ts(df, ts_id=ts_id), f"insert:{how}")
            if not ok:
                return
            want_id = ts_id if ts_id is not None else max(cur.ids) + 1
            cur = gen.Ref(cur.ids + [want_id], cur.times + [t], cur.vals + [v], cur.feats)
            rec.check(gen.snapshot(X) == before, "insert: original collection changed")
            if not _valid(rec, Y, "insert:valid", str(steps)):
                return
            gen.same_rows(rec, Y, cur, "insert:rows", msg=str(steps))
            X = Y
        else:
            rec.raises(lambda: X.insert_ts(df, ts_id=ts_id), f"insert rejects:{how}")
            rec.check(gen.snapshot(X) == before, "insert: rejected insert changed the collection", how)
    rec.sig(r.kind, r.idkind, *steps); rec.note(history=steps, **r.describe())
