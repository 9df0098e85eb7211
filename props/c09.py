"""C09: inverse transformations restore the original data."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen, zoo
from datafold.pcfold import TSCDataFrame
import datafold.dynfold as dy

RULE = "random invertible transformers x collections x refit histories; distinct by (transformer, parameters, structural tag)"


def expected_inverse(it, F, R):
    """reference inverse of the transformed data of R (fit on F)"""
    if it.inverse == "exact":
        return R
    if it.inverse == "truncated":      # delay embedding: rows with full history
        k = it.min_len - 1
        return gen.Ref(R.ids, [t[k:] for t in R.times], [v[k:] for v in R.vals], R.feats)
    if it.inverse == "projection":     # principal components: orthogonal projection on the leading components
        V = F.values(); mu = V.mean(0)
        _, _, vt = np.linalg.svd(V - mu, full_matrices=False)
        P = vt[:it.tag[0]].T @ vt[:it.tag[0]]
        return zoo._apply(R, lambda v: (v - mu) @ P + mu)
    raise ValueError


def well_posed(it, F):
    V = F.values()
    if it.kind == "pca":
        s = np.linalg.svd(V - V.mean(0), compute_uv=False)
        k = it.tag[0]
        return len(V) > V.shape[1] + 1 and s[k - 1] > 1e-3 * s[0] and (k == len(s) or s[k - 1] > 1.05 * s[k])
    return True


def _family(kind):
    def fam(rec, rng):
        feats = gen.FEATS[:int(rng.integers(1, 5))]
        it = zoo.draw(rng, feats, kind)
        if it.inverse is None:
            raise Skip()
        sets = []
        base = zoo.data(rng, it, feats=feats)
        for k in range(3):
            d = zoo.data(rng, it, feats=feats, kind=base.kind)
            if it.const_dt:
                dt = base.times[0][1] - base.times[0][0]
                d.times = [t[0] + dt * np.arange(len(t)) for t in d.times]
            scale = 1.0 if kind == "rbf" else float(rng.choice([1.0, 20.0]))
            d.vals = [scale * v + rng.normal() for v in d.vals]
            sets.append(d)
        A, B, U = sets
        rec.sig(it.tag, *A.tag); rec.note(tag=it.tag, **A.describe())
        m = it.make()
        history = [("fit", A)] if rng.random() < .4 else [("fit", A), ("refit", B)]
        if rng.random() < .3:
            history.append(("refit again", A))
        for step, F in history:
            if not well_posed(it, F):
                raise Skip()
            T = m.fit(F.tsc(), **it.fit_kwargs(F)).transform(F.tsc()) if rng.random() < .5 else m.fit_transform(F.tsc(), **it.fit_kwargs(F))
            for what, R in (("seen", F), ("unseen", U)):
                T = T if what == "seen" else m.transform(R.tsc())
                mech = f"{kind}: inverse after {'fit' if step == 'fit' else 'refit'} on {what} data"
                if it.inverse == "rbf":
                    C = it.centers(F) if it.centers(F) is not None else np.asarray(m.centers_)
                    G = it.phi(zoo.sqd(C, C))
                    if np.linalg.cond(G) > 1e5:
                        raise Skip()
                    W = np.linalg.solve(G, C)
                    want = zoo._apply(R, lambda v: it.phi(zoo.sqd(v, C)) @ W)
                    inv = m.inverse_transform(T)
                    gen.same_rows(rec, inv, want, mech, exact=False, rtol=1e-6, atol=1e-6 * max(1, np.abs(want.values()).max()))
                    if it.center_type == "all_data" and what == "seen":
                        gen.same_rows(rec, inv, R, "rbf: data restored at the centers", exact=False, rtol=1e-6, atol=1e-6 * max(1, np.abs(R.values()).max()))
                else:
                    want = expected_inverse(it, F, R)
                    inv = m.inverse_transform(T)
                    gen.same_rows(rec, inv, want, mech, exact=False, order=False, rtol=1e-8, atol=1e-9 * max(1, np.abs(want.values()).max()) * 10)
                rec.check(isinstance(inv, TSCDataFrame) and not gen.tsc_problems(inv), f"{kind}: inverse is a collection")
                # one series alone
                k = int(rng.integers(R.n))
                if R.ids[k] in gen.observe(T).by_id():
                    o = m.inverse_transform(T.loc[[R.ids[k]]])
                    rec.close(np.asarray(o), np.asarray(pd.DataFrame(inv).loc[[R.ids[k]]]), f"{kind}: inverse of a single series", rtol=1e-9, atol=1e-9)
        # data that cannot come from the transformation is rejected
        n = T.shape[1]
        extra = TSCDataFrame(pd.DataFrame(T).assign(foreign=1.0))
        rec.raises(lambda: m.inverse_transform(extra), f"{kind}: inverse rejects additional features")
        if n > 1:
            rec.raises(lambda: m.inverse_transform(TSCDataFrame(pd.DataFrame(T).iloc[:, :-1])), f"{kind}: inverse rejects missing features")
            rec.raises(lambda: m.inverse_transform(TSCDataFrame(pd.DataFrame(T).iloc[:, ::-1])), f"{kind}: inverse rejects reordered features")
        rec.raises(lambda: m.inverse_transform(TSCDataFrame(pd.DataFrame(T).add_suffix("q"))), f"{kind}: inverse rejects renamed features")
        # arrays and plain frames
        if it.arrays and not (kind == "rbf" and it.center_type == "random"):
            a = it.make().fit(A.values(), **it.fit_kwargs(A))
            ia = a.inverse_transform(a.transform(U.values()))
            c = it.make().fit(A.tsc(), **it.fit_kwargs(A))
            ic = c.inverse_transform(c.transform(U.tsc()))
            rec.check(isinstance(ia, np.ndarray), f"{kind}: inverse: array in, array out", type(ia))
            if well_posed(it, A) and (kind != "rbf" or np.linalg.cond(it.phi(zoo.sqd(it.centers(A), it.centers(A)))) < 1e5):
                rec.close(ia, ic.to_numpy(), f"{kind}: inverse: array and collection agree", rtol=1e-6, atol=1e-6 * max(1, np.abs(ic.to_numpy()).max()))
    fam.__name__ = kind
    return fam


for _k, _q, _t in [("scale", 200, 2500), ("identity", 100, 1200), ("pca", 200, 2500), ("takens", 200, 2500), ("rbf", 300, 4000)]:
    family(quick=_q, thorough=_t)(_family(_k))


@family(quick=120, thorough=1500)
def pipeline(rec, rng):
    """inverse of a chain of invertible transformers"""
    from sklearn.pipeline import Pipeline
    feats = gen.FEATS[:int(rng.integers(1, 4))]
    cur, items = list(feats), []
    for k in range(int(rng.integers(2, 4))):
        it = zoo.draw(rng, cur, str(rng.choice(["scale", "identity", "takens"])))
        if it.names is None or len(it.names) > 20 or len(set(it.names)) != len(it.names) or (it.kind == "identity" and it.tag[0] and "const" in cur):
            continue
        items.append(it); cur = [str(c) for c in it.names]
    if len(items) < 2:
        raise Skip()
    big = zoo.Item("p", None, None, min_len=3 + sum(i.min_len for i in items), const_dt=True)
    r = zoo.data(rng, big, feats=feats, n_series=int(rng.integers(1, 4)))
    rec.sig([i.kind for i in items], *r.tag); rec.note(items=[(i.kind, i.tag) for i in items], **r.describe())
    p = Pipeline([(f"s{k}", i.make()) for k, i in enumerate(items)])
    inv = p.inverse_transform(p.fit_transform(r.tsc()))
    lost = sum(i.min_len - 1 for i in items if i.kind == "takens")
    want = gen.Ref(r.ids, [t[lost:] for t in r.times], [v[lost:] for v in r.vals], r.feats)
    gen.same_rows(rec, inv, want, "pipeline: inverse", exact=False, order=False, rtol=1e-8, atol=1e-8 * max(1, np.abs(want.values()).max()))
