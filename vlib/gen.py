"""Input generators and the independent reference model of time series collections.

A reference collection (`Ref`) is a plain list of series (id, time values, value matrix); nothing in here
uses the code under test except `to_tsc`, which hands the rows to the public constructor.
"""
import os
import numpy as np
import pandas as pd


class Ref:
    def __init__(self, ids, times, vals, feats):
        self.ids = [int(i) for i in ids]
        self.times = [np.asarray(t) for t in times]
        self.vals = [np.asarray(v) for v in vals]
        self.feats = list(feats)

    @property
    def n(self):
        return len(self.ids)

    @property
    def lengths(self):
        return [len(t) for t in self.times]

    @property
    def nf(self):
        return len(self.feats)

    def col_ids(self):
        return np.concatenate([np.full(len(t), i) for i, t in zip(self.ids, self.times)])

    def col_times(self):
        return np.concatenate(self.times)

    def values(self):
        return np.concatenate(self.vals, axis=0)

    def index(self):
        return pd.MultiIndex.from_arrays([self.col_ids(), self.col_times()], names=["ID", "time"])

    def frame(self):
        return pd.DataFrame(self.values(), index=self.index(), columns=pd.Index(self.feats, name="feature"))

    def tsc(self):
        from datafold.pcfold import TSCDataFrame
        return TSCDataFrame(pd.DataFrame(self.values(), index=pd.MultiIndex.from_arrays(
            [self.col_ids(), self.col_times()]), columns=list(self.feats)))

    def by_id(self):
        return {i: (t, v) for i, t, v in zip(self.ids, self.times, self.vals)}

    def sub(self, which):
        return Ref([self.ids[k] for k in which], [self.times[k] for k in which], [self.vals[k] for k in which], self.feats)

    def sorted(self):
        return self.sub(list(np.argsort(self.ids)))

    def map(self, fn, feats=None):
        return Ref(self.ids, self.times, [fn(v) for v in self.vals], feats or self.feats)

    def describe(self):
        return dict(ids=self.ids, lengths=self.lengths, times=[np.asarray(t)[:4].tolist() for t in self.times], feats=self.feats)


FEATS = ["x", "y", "z", "w", "v", "u1", "q"]
EPOCH = np.datetime64("2021-03-01T00:00:00", "ns")


def rand_ids(rng, n, kind=None):
    rare = lambda name, p=.05: _rare(rng, name, p)
    kind = kind or (rng.choice(["range", "gap", "unsorted"]) if not rare("large_ids") else "large")
    if kind == "large":     # ids which differ in length
        return [int(i) for i in rng.permutation(np.unique(np.append(rng.integers(0, 10**6, size=3 * n), np.arange(n)))[:n])][:n], kind
    if kind == "range":
        return list(range(n)), kind
    ids = rng.choice(60, size=n, replace=False)
    if kind == "gap":
        return sorted(int(i) for i in ids), kind
    return [int(i) for i in ids], kind


def rand_times(rng, length, kind, regular, start=None, dt=None):
    """increasing time values; kind in int/float/datetime"""
    if kind == "int":
        dt = int(dt if dt is not None else rng.integers(1, 5))
        start = int(start if start is not None else rng.integers(0, 6))
        if regular:
            return start + dt * np.arange(length)
        inc = rng.integers(1, 5, size=max(length - 1, 0))
        return start + np.append(0, np.cumsum(inc)).astype(int)[:length]
    if kind == "float":
        dt = float(dt if dt is not None else rng.choice([0.1, 0.25, 0.5, 1.0, 0.01, 2.5]))
        start = float(start if start is not None else rng.choice([0.0, 0.5, 1.25, 3.0]))
        if regular:
            return start + dt * np.arange(length)
        inc = dt * rng.integers(1, 6, size=max(length - 1, 0))
        return (start + np.append(0.0, np.cumsum(inc)))[:length]
    if kind == "datetime":
        dt = int(dt if dt is not None else rng.choice([1, 30, 60, 3600, 86400]))
        start = int(start if start is not None else rng.integers(0, 5) * 3600)
        if regular:
            sec = start + dt * np.arange(length)
        else:
            inc = dt * rng.integers(1, 5, size=max(length - 1, 0))
            sec = start + np.append(0, np.cumsum(inc)).astype(int)[:length]
        return (EPOCH + sec.astype("timedelta64[s]")).astype("datetime64[ns]")
    raise ValueError(kind)


def unique_values(rng, sid, length, nf):
    """values which identify (series, step, feature): no two samples of a collection share a value"""
    base = sid * 1000.0 + np.arange(length)[:, None] * 10.0 + np.arange(nf)[None, :]
    return base + rng.uniform(0.0, 0.9, size=(length, nf))


def smooth_values(rng, length, nf):
    t = np.linspace(0, 1, length)[:, None]
    a, b, c = rng.normal(size=(3, 1, nf))
    return a * np.sin(3 * t + b) + c * t + rng.normal(size=(1, nf))


def _rare(rng, name, p):
    return rng.random() < (1. if os.environ.get("VERIF_FORCE") == name else p)


def rand_ref(rng, n_series=None, nf=None, kind=None, regular=None, equal_len=None, same_start=None, same_dt=None,
             ids=None, min_len=1, max_len=9, values="unique", feats=None, plain=False):
    rare = lambda name, p=.04: (not plain or name not in ("int_feats", "int_values")) and _rare(rng, name, p)
    n_series = n_series if n_series is not None else int(rng.integers(8, 24)) if rare("many") else int(rng.integers(1, 6))
    nf = nf if nf is not None else int(rng.integers(1, 5))
    kind = kind or str(rng.choice(["int", "float", "datetime"]))
    regular = bool(rng.random() < 0.7) if regular is None else regular
    equal_len = bool(rng.random() < 0.4) if equal_len is None else equal_len
    same_start = bool(rng.random() < 0.5) if same_start is None else same_start
    same_dt = bool(rng.random() < 0.6) if same_dt is None else same_dt
    idl, idk = rand_ids(rng, n_series, ids)
    L = int(rng.integers(min_len, max_len + 1))
    lens = [L if equal_len else int(rng.integers(min_len, max_len + 1)) for _ in range(n_series)]
    t0 = rand_times(rng, 2 * max_len, kind, regular)
    start0 = t0[0]
    times = []
    if kind == "float":
        dt0 = float(rng.choice([0.1, 0.25, 0.5, 1.0, 2.5])); s0 = float(rng.choice([0.0, 0.5, 1.25, 3.0]))
    elif kind == "int":
        dt0 = int(rng.integers(1, 5)); s0 = int(rng.integers(0, 5))
    else:
        dt0 = int(rng.choice([1, 30, 3600, 86400])); s0 = int(rng.integers(0, 5)) * 3600
    if kind != "datetime" and not plain and rare("late"):     # e.g. seconds since the epoch
        s0 = 1_600_000_000 if kind == "int" else 1_600_000_000.5
        same_start, same_dt, dt0 = True, True, dt0 if kind == "int" else .5
    for n in lens:
        times.append(rand_times(rng, n, kind, regular, start=s0 if same_start else None, dt=dt0 if same_dt else None))
    feats = list(feats) if feats is not None else [int(i) for i in rng.permutation(12)[:nf]] if rare("int_feats") else FEATS[:nf]
    vals = [unique_values(rng, i, n, len(feats)) if values == "unique" else smooth_values(rng, n, len(feats))
            for i, n in zip(idl, lens)]
    if values == "unique" and rare("int_values"):
        vals = [np.floor(v).astype(np.int64) for v in vals]
    r = Ref(idl, times, vals, feats)
    r.kind, r.regular, r.equal_len, r.idkind = kind, regular, equal_len, idk
    r.tag = (kind, "reg" if regular else "irr", "eq" if len(set(lens)) == 1 else "uneq", idk, n_series, len(feats))
    return r


# ------------------------------------------------------------------ observation of real objects

def observe(df):
    """Ref view of any frame with a (id, time) row index, read by plain numpy in row order"""
    ids = np.asarray(df.index.get_level_values(0))
    times = np.asarray(df.index.get_level_values(1))
    vals = pd.DataFrame(df).to_numpy()
    out_i, out_t, out_v = [], [], []
    k = 0
    while k < len(ids):
        e = k
        while e < len(ids) and ids[e] == ids[k]:
            e += 1
        out_i.append(int(ids[k])); out_t.append(times[k:e]); out_v.append(vals[k:e])
        k = e
    return Ref(out_i, out_t, out_v, list(df.columns))


def tsc_problems(df):
    """structural validity of a collection; [] if valid"""
    p = []
    idx = df.index
    if not isinstance(idx, pd.MultiIndex) or idx.nlevels != 2:
        return [f"row index is not two-level: {type(idx).__name__}"]
    ids = np.asarray(idx.get_level_values(0)); t = np.asarray(idx.get_level_values(1))
    if ids.dtype.kind not in "iu":
        p.append(f"id dtype {ids.dtype}")
    elif len(ids) and ids.min() < 0:
        p.append("negative id")
    if t.dtype.kind not in "iufM":
        p.append(f"time dtype {t.dtype}")
        return p
    if pd.isna(t).any():
        p.append("missing time value")
    if t.dtype.kind in "if" and len(t) and (t < 0).any():
        p.append("negative time value")
    if idx.duplicated().any():
        p.append("duplicated (id,time)")
    if len(ids):
        new = np.append(True, ids[1:] != ids[:-1])
        if len(set(ids[new].tolist())) != int(new.sum()):
            p.append("series not contiguous")
        tt = t.astype("int64") if t.dtype.kind == "M" else t
        same = ~new[1:]
        if (np.diff(tt.astype(float) if tt.dtype.kind == "u" else tt)[same] <= 0).any():
            p.append("time not strictly increasing")
    if df.columns.nlevels != 1:
        p.append("multi-level columns")
    elif df.columns.duplicated().any():
        p.append("duplicated feature names")
    if not all(pd.api.types.is_numeric_dtype(d) for d in df.dtypes):
        p.append("non numeric data")
    if list(idx.names) != ["ID", "time"]:
        p.append(f"index names {list(idx.names)}")
    return p


def same_rows(rec, df, ref, mech, exact=True, order=True, feats=True, rtol=1e-8, atol=1e-10, msg=""):
    """df must hold exactly the samples of ref (ids, time values, values, feature names)"""
    if isinstance(ref, pd.DataFrame):
        ref = observe(ref)
    got = observe(df)
    want = ref
    if not order:
        got, want = got.sorted(), want.sorted()
    if not rec.equal(got.ids, want.ids, mech + ":ids", msg):
        return False
    if not rec.equal(got.lengths, want.lengths, mech + ":lengths", msg):
        return False
    ok = same_times(rec, got.col_times(), want.col_times(), mech + ":times", msg)
    if exact:
        ok &= rec.equal(got.values().astype(float), want.values().astype(float), mech + ":values", msg)
    else:
        ok &= rec.close(got.values(), want.values(), mech + ":values", rtol=rtol, atol=atol, msg=msg)
    if feats:
        ok &= rec.equal([str(f) for f in got.feats], [str(f) for f in want.feats], mech + ":features", msg)
    return ok


def same_times(rec, a, b, mech, msg=""):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == "M" or b.dtype.kind == "M":
        return rec.equal(a.astype("datetime64[ns]").astype("int64"), b.astype("datetime64[ns]").astype("int64"), mech, msg)
    return rec.close(a.astype(float), b.astype(float), mech, rtol=1e-12, atol=1e-12, msg=msg)


def snapshot(obj, names=True):
    """deep, bit-exact fingerprint of arrays / frames / containers, used to detect modification of inputs;
    names=False ignores the names of index levels (the constructors of TSCDataFrame name them in place, as the tests rely on)"""
    import scipy.sparse as sp
    if isinstance(obj, pd.DataFrame):
        return ("df", type(obj).__name__, obj.shape, pd.DataFrame(obj).to_numpy().tobytes() if all(k.kind != "O" for k in obj.dtypes) else repr(obj.values.tolist()),
                tuple(str(d) for d in obj.dtypes), tuple(obj.index.to_list()), tuple(map(str, obj.index.names)) if names else None,
                tuple(obj.columns.to_list()), str(obj.columns.name) if names else None)
    if isinstance(obj, pd.Series):
        return ("series", obj.shape, obj.to_numpy().tobytes(), tuple(obj.index.to_list()), str(obj.name))
    if isinstance(obj, pd.Index):
        return ("index", tuple(obj.to_list()), tuple(map(str, obj.names)) if names else None)
    if isinstance(obj, np.ndarray):
        return ("nd", obj.shape, str(obj.dtype), obj.tobytes())
    if sp.issparse(obj):
        c = obj.tocoo()
        return ("sp", obj.shape, str(obj.dtype), c.row.tobytes(), c.col.tobytes(), c.data.tobytes())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,) + tuple(snapshot(o, names) for o in obj)
    if isinstance(obj, dict):
        return ("dict",) + tuple((k, snapshot(v, names)) for k, v in obj.items())
    return ("val", repr(obj))


def split_like(V, lengths):
    """rows of V as list of arrays with the given lengths"""
    return list(np.split(np.asarray(V), np.cumsum(lengths)[:-1]))
