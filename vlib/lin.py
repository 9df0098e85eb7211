"""Linear systems with known operators and exact trajectories (independent of the code under test)."""
import numpy as np
import scipy.linalg as sl
from vlib import gen
from vlib.core import Skip


def rand_close(rng, n):
    """real, diagonalizable, with two close eigenvalues and almost parallel eigenvectors"""
    D = np.diag(np.concatenate([np.zeros(2), rng.uniform(.4, .7, n - 2)]))
    a = rng.uniform(.85, 1.02)
    D[:2, :2] = [[a, rng.uniform(.5, 1.)], [0., a - 10. ** rng.uniform(-3, -1.5)]]
    T = np.linalg.qr(rng.normal(size=(n, n)))[0]
    return T @ D @ T.T


def rand_system(rng, n, negative=True, radius=(.55, 1.05), close=0.):
    """real, diagonalizable, non-singular, well separated spectrum and well conditioned eigenvectors"""
    if close and n >= 2 and rng.random() < close:
        return rand_close(rng, n)
    for _ in range(50):
        blocks, k = [], 0
        while k < n:
            if n - k >= 2 and rng.random() < .5:
                r, a = rng.uniform(*radius), rng.uniform(.2, 2.4)
                blocks.append(r * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])); k += 2
            else:
                s = -1 if negative and rng.random() < .3 else 1
                blocks.append(np.array([[s * rng.uniform(*radius)]])); k += 1
        D = sl.block_diag(*blocks)
        w = np.linalg.eigvals(D)
        gap = np.abs(w[:, None] - w[None, :]) + 9 * np.eye(n)
        T = np.linalg.qr(rng.normal(size=(n, n)))[0] + .25 * rng.normal(size=(n, n))
        if gap.min() > .07 and np.linalg.cond(T) < 15:
            return T @ D @ np.linalg.inv(T)
    raise Skip()


def grid(kind, dt, k):
    """time values for the integer steps k"""
    if kind == "int":
        return int(dt) * np.asarray(k)
    if kind == "float":
        return float(dt) * np.asarray(k)
    return (gen.EPOCH + (int(dt) * np.asarray(k)).astype("timedelta64[s]")).astype("datetime64[ns]")


def draw_dt(rng, kind):
    return {"int": lambda: int(rng.integers(1, 4)), "float": lambda: float(rng.choice([.1, .25, .5, 1., 2.])),
            "datetime": lambda: int(rng.choice([1, 60, 3600]))}[kind]()


def trajectories(rng, step, n, need, kind, dt, n_series=None, min_len=2, max_len=12, feats=None, starts=True, x0scale=1.):
    """collection of series x_{k+1} = step(x_k, i, k); returns Ref with .k0 (start step per series)"""
    m = n_series or int(rng.integers(1, 5))
    lens = [int(rng.integers(min_len, max_len + 1)) for _ in range(m)]
    while sum(lens) - m < need:
        lens[int(rng.integers(m))] += 1
    ids, _ = gen.rand_ids(rng, m)
    k0 = [int(rng.integers(0, 6)) if starts else 0 for _ in range(m)]
    vals = []
    for i in range(m):
        x = [x0scale * rng.normal(size=n)]
        for k in range(lens[i] - 1):
            x.append(step(x[-1], i, k))
        vals.append(np.array(x))
    R = gen.Ref(ids, [grid(kind, dt, k0[i] + np.arange(lens[i])) for i in range(m)], vals, feats or gen.FEATS[:n])
    R.k0, R.kind, R.dt = k0, kind, dt
    return R


def pairs(R):
    return (np.vstack([v[:-1] for v in R.vals]), np.vstack([v[1:] for v in R.vals]))


def relabel(R, ids=None, shift=0, order=None):
    """same series under other IDs, another time origin (in steps) and another order"""
    ids = ids or R.ids
    times = [grid(R.kind, R.dt, R.k0[i] + shift + np.arange(len(t))) for i, t in enumerate(R.times)]
    S = gen.Ref(ids, times, R.vals, R.feats)
    S.k0, S.kind, S.dt = [k + shift for k in R.k0], R.kind, R.dt
    if order is not None:
        T = S.sub(order); T.k0, T.kind, T.dt = [S.k0[o] for o in order], R.kind, R.dt
        return T
    return S


def match_spectrum(rec, got, want, mech, tol=1e-6):
    """equal as multisets (greedy nearest matching)"""
    got, want = list(np.asarray(got).astype(complex)), list(np.asarray(want).astype(complex))
    if not rec.check(len(got) == len(want), mech + ": count", f"{got} {want}"):
        return
    left = list(got)
    worst = 0
    for w in want:
        j = int(np.argmin([abs(g - w) for g in left]))
        worst = max(worst, abs(left.pop(j) - w))
    rec.check(worst <= tol, mech, lambda: f"max distance {worst} observed={got} expected={want}")


def same_collection(rec, out, R, mech, tol=1e-7, scale=None, feats=None):
    """out has exactly the series of R: IDs, time values, feature names and (close) states"""
    from datafold.pcfold import TSCDataFrame
    rec.check(isinstance(out, TSCDataFrame), mech + ": is a collection")
    o = gen.observe(out)
    rec.equal([str(f) for f in o.feats], [str(f) for f in (feats or R.feats)], mech + ": feature names")
    rec.must(sorted(o.ids) == sorted(R.ids), mech + ": IDs", lambda: f"{o.ids} {R.ids}")
    got = o.by_id()
    for i, t, v in zip(R.ids, R.times, R.vals):
        gen.same_times(rec, got[i][0], t, mech + ": time values")
        s = scale or max(1., np.abs(v).max() if v.size else 1.)
        rec.close(got[i][1], v, mech + ": states", rtol=tol, atol=tol * s, msg=f"series {i}")
    return o


def initial(R, which=None, k=0):
    """the single-sample collection of initial states"""
    which = range(R.n) if which is None else which
    S = R.sub(list(which))
    return gen.Ref(S.ids, [t[k:k + 1] for t in S.times], [v[k:k + 1] for v in S.vals], R.feats)
