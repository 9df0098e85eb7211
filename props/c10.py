"""C10: transformers compute their mathematical definition per series."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen, zoo
from datafold.pcfold import TSCDataFrame

RULE = "random transformer settings x collections, compared with an independent numpy evaluation; distinct by (transformer, parameters, structural tag)"


def _check(rec, it, out, want, mech, tol):
    got = gen.observe(out)
    if getattr(it, "sign", False):
        g, w = got.sorted(), want.sorted()
        if g.lengths == w.lengths and g.values().shape == w.values().shape:
            g = zoo.align_sign(g, w)
        gen.same_rows(rec, g.frame(), w, mech, exact=False, feats=False, rtol=tol, atol=tol * 10)
    else:
        gen.same_rows(rec, out, want, mech, exact=False, order=False, feats=False, rtol=tol, atol=tol * max(1.0, np.abs(want.values()).max() if want.values().size else 1))


def _definition(kind):
    def fam(rec, rng):
        feats = gen.FEATS[:int(rng.integers(1, 5))]
        it = zoo.draw(rng, feats, kind)
        r = zoo.data(rng, it, feats=feats, kind=zoo.time_kind(rng, it))
        if kind != "pca" and rng.random() < .25:
            r.vals = [np.round(3 * v).astype(int) for v in r.vals]      # integer data types
        if kind == "pca" and (r.values().shape[0] < len(feats) + 2):
            raise Skip()
        if kind == "rbf" and it.ref(r, r) is None:
            rec.note(**r.describe())
        rec.sig(it.tag, *r.tag); rec.note(tag=it.tag, **r.describe())
        m = it.make()
        X = r.tsc()
        m.fit(X, **it.fit_kwargs(r))
        unseen = zoo.data(rng, it, feats=feats, kind=r.kind)
        if it.const_dt:   # the transformers require the sampling interval seen during fit
            dt = r.times[0][1] - r.times[0][0]
            unseen.times = [t[0] + dt * np.arange(len(t)) for t in unseen.times]
            for t in unseen.times:
                assert (np.diff(t.astype("int64") if t.dtype.kind == "M" else t) > 0).all()
        for which, R in (("seen", r), ("unseen", unseen)):
            out = m.transform(R.tsc())
            want = it.ref(r, R)
            if want is None:      # random centers: the centers must be distinct rows of the data, features are kernel evaluations on them
                C = np.asarray(m.centers_)
                V = r.values()
                hit = [np.flatnonzero((np.abs(V - c).max(1) == 0)) for c in C]
                rows = lambda c: int((np.abs(C - c).max(1) == 0).sum())       # integer data may repeat a sample
                rec.check(C.shape == (3, len(feats)) and all(len(h) >= rows(c) for h, c in zip(hit, C)), "rbf: random centers are distinct samples of the data")
                want = zoo._apply(R, lambda v: it.phi(zoo.sqd(v, C)))
            mech = f"{kind}: definition on {which} data"
            _check(rec, it, out, want, mech, it.tol)
            if it.names is not None:
                rec.equal([str(c) for c in out.columns], [str(c) for c in it.names], f"{kind}: column names")
        # results for a series do not depend on the other series that are transformed along
        if unseen.n > 1:
            k = int(rng.integers(unseen.n))
            one = m.transform(unseen.sub([k]).tsc())
            whole = gen.observe(m.transform(unseen.tsc())).by_id()
            g = gen.observe(one)
            if unseen.ids[k] in whole:
                t, v = whole[unseen.ids[k]]
                gen.same_times(rec, g.col_times(), t, f"{kind}: series alone: times")
                rec.close(g.values(), v, f"{kind}: series alone equals series in collection", rtol=1e-9, atol=1e-9 * max(1, np.abs(v).max() if v.size else 1))
    fam.__name__ = kind
    return fam


for _k, _q, _t in [("scale", 120, 1500), ("select", 80, 1000), ("identity", 80, 800), ("pca", 120, 1500), ("takens", 200, 4000), ("ma", 120, 2000), ("rbf", 200, 3000),
                   ("poly", 150, 2000), ("lambda", 100, 1200), ("fd", 150, 2500)]:
    family(quick=_q, thorough=_t)(_definition(_k))


@family(quick=100, thorough=1500)
def takens_too_short(rec, rng):
    """series without a full history are rejected, never padded or mixed with other series"""
    feats = gen.FEATS[:2]
    it = zoo.draw(rng, feats, "takens")
    r = zoo.data(rng, it, feats=feats, n_series=int(rng.integers(2, 5)))
    rec.sig(it.tag, *r.tag); rec.note(tag=it.tag, **r.describe())
    m = it.make().fit(r.tsc())
    k = int(rng.integers(r.n)); n = int(rng.integers(2, it.min_len)) if it.min_len > 2 else None
    if n is None:
        raise Skip()
    bad = gen.Ref(r.ids, [t[:n] if j == k else t for j, t in enumerate(r.times)], [v[:n] if j == k else v for j, v in enumerate(r.vals)], feats)
    rec.raises(lambda: m.transform(bad.tsc()), "takens: transform rejects series without full history")
    rec.raises(lambda: it.make().fit(bad.tsc()), "takens: fit rejects series without full history")
    # another sampling interval has another meaning of "delay"
    other = gen.Ref(r.ids, [t[0] + 2 * (t - t[0]) for t in r.times], r.vals, feats)
    rec.raises(lambda: m.transform(other.tsc()), "takens: transform rejects other sampling interval")
