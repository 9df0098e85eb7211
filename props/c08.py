"""C08: transformed data keeps its labels and matches the announced features."""
import numpy as np
import pandas as pd
from vlib.core import family, Skip
from vlib import gen, zoo
from datafold.pcfold import TSCDataFrame
import datafold.dynfold as dy
from datafold.dynfold.transform import TSCMovingAverage, TSCFeatureSelect

RULE = "random transformers, column transformers and pipelines x collections; distinct by (transformer, parameters, structural tag)"


def announced(rec, m, out, mech):
    names = [str(c) for c in m.get_feature_names_out()]
    rec.equal([str(c) for c in out.columns], names, mech + ": announced feature names")
    n = getattr(m, "n_features_out_", None)
    if n is not None:
        rec.equal(out.shape[1], int(n), mech + ": announced number of features")
    rec.equal(len(set(names)), len(names), mech + ": feature names are unique")


def labels(rec, it, out, R, mech, offset=None):
    """every output row carries (ID, time) of a sample of R, at most once, in time order; complete unless the transformer drops samples"""
    rec.check(isinstance(out, TSCDataFrame), mech + ": collection in, collection out", type(out))
    rec.equal(gen.tsc_problems(out), [], mech + ": valid collection")
    got = gen.observe(out).by_id()
    want = R.by_id()
    rec.check(set(got) <= set(want), mech + ": only IDs of the input")
    if not it.drops:
        rec.equal(set(got), set(want), mech + ": all IDs kept")
    for i, (t, _) in got.items():
        w = want[i][0]
        if it.drops:
            n = len(w) - len(t)
            rec.check(n >= 0 and len(t) > 0, mech + ": no rows made up")
            gen.same_times(rec, t, w[n:], mech + ": time values of the latest samples")
        else:
            gen.same_times(rec, t, w, mech + ": time values")
    if not it.drops:
        rec.check(list(out.index) == list(R.index()), mech + ": row order")


def numbers(rec, a, b, mech, it):
    s = max(1.0, float(np.nanmax(np.abs(b)))) if np.size(b) else 1.0
    if getattr(it, "sign", False) and np.shape(a) == np.shape(b):
        sg = np.sign((a * b).sum(0)); sg[sg == 0] = 1
        a = a * sg
    rec.close(a, b, mech, rtol=1e-8, atol=1e-8 * s)


def _bad_features(r, rng):
    feats = r.feats
    yield "renamed", gen.Ref(r.ids, r.times, r.vals, [f + "q" for f in feats])
    yield "additional", gen.Ref(r.ids, r.times, [np.column_stack([v, v[:, 0]]) for v in r.vals], feats + ["extra"])
    if len(feats) > 1:
        yield "missing", gen.Ref(r.ids, r.times, [v[:, :-1] for v in r.vals], feats[:-1])
        yield "reordered", gen.Ref(r.ids, r.times, [v[:, ::-1] for v in r.vals], feats[::-1])
        yield "one renamed", gen.Ref(r.ids, r.times, r.vals, feats[:-1] + ["other"])


def _family(kind):
    def fam(rec, rng):
        feats = gen.FEATS[:int(rng.integers(1, 5))]
        it = zoo.draw(rng, feats, kind)
        r = zoo.data(rng, it, feats=feats, kind=zoo.time_kind(rng, it))
        if kind == "pca" and r.values().shape[0] < len(feats) + 2:
            raise Skip()
        rec.sig(it.tag, *r.tag); rec.note(tag=it.tag, **r.describe())
        X, kw = r.tsc(), it.fit_kwargs(r)
        m = it.make()
        f = m.fit(X, **kw)
        rec.check(f is m, f"{kind}: fit returns the estimator")
        rec.equal(int(m.n_features_in_), len(feats), f"{kind}: n_features_in_")
        rec.equal([str(c) for c in m.feature_names_in_], feats, f"{kind}: feature_names_in_")
        out = m.transform(X)
        labels(rec, it, out, r, kind)
        announced(rec, m, out, kind)
        # in one step
        m2 = it.make()
        out2 = m2.fit_transform(X, **kw)
        rec.check(isinstance(out2, TSCDataFrame), f"{kind}: fit_transform returns a collection", type(out2))
        rec.check(list(out2.index) == list(out.index), f"{kind}: fit_transform has the rows of fit and transform")
        announced(rec, m2, out2, f"{kind}: fit_transform")
        if np.shape(out2) == np.shape(out):
            numbers(rec, np.asarray(out2, float), np.asarray(out, float), f"{kind}: fit_transform equals fit and transform", it)
            numbers(rec, np.asarray(m2.transform(X), float), np.asarray(out, float), f"{kind}: transform after fit_transform", it)
        # the same numbers for other containers
        fresh = zoo.data(rng, it, feats=feats, kind=r.kind)
        if it.const_dt:
            dt = r.times[0][1] - r.times[0][0]
            fresh.times = [t[0] + dt * np.arange(len(t)) for t in fresh.times]
        Z = fresh.tsc()
        oz = m.transform(Z)
        labels(rec, it, oz, fresh, f"{kind}: unseen data")
        announced(rec, m, oz, f"{kind}: unseen data")
        if it.arrays and not (kind == "rbf" and it.center_type == "initial_condition"):
            a = it.make()
            kw_a = dict(kw)
            oa = a.fit(r.values(), **kw_a).transform(fresh.values())
            rec.check(isinstance(oa, np.ndarray), f"{kind}: array in, array out", type(oa))
            numbers(rec, np.asarray(oa, float), np.asarray(oz, float), f"{kind}: array and collection give the same numbers", it)
            oa2 = it.make().fit_transform(r.values(), **kw_a)
            rec.check(isinstance(oa2, np.ndarray), f"{kind}: array in, array out (fit_transform)", type(oa2))
            numbers(rec, np.asarray(oa2, float), np.asarray(out, float), f"{kind}: array and collection give the same numbers (fit_transform)", it)
            rec.raises(lambda: a.transform(np.column_stack([fresh.values(), fresh.values()[:, 0]])), f"{kind}: rejects arrays with additional features")
            if len(feats) > 1:
                rec.raises(lambda: a.transform(fresh.values()[:, :-1]), f"{kind}: rejects arrays with missing features")
        if it.ref is not None and kind in ("scale", "select", "identity", "pca", "rbf", "poly"):
            # sample by sample: rows of the training data in another order
            V = r.values(); q = rng.permutation(len(V)) if rng.random() < .5 else np.arange(len(V))[::-1]
            P = gen.Ref(r.ids, r.times, gen.split_like(V[q], r.lengths), r.feats)
            op = m.transform(P.tsc())
            labels(rec, it, op, P, f"{kind}: reordered samples")
            if gen.observe(op).by_id().keys() == P.by_id().keys():
                o_, x_ = gen.observe(op).by_id(), gen.observe(out).by_id()
                a_ = np.vstack([o_[i][1] for i in r.ids]); b_ = np.vstack([x_[i][1] for i in r.ids])
                if a_.shape == b_.shape:
                    numbers(rec, a_, b_[q], f"{kind}: samples are transformed one by one", it)
        if it.frames:
            b = it.make()
            df = lambda q: pd.DataFrame(q.values(), columns=q.feats, index=pd.Index(np.arange(len(q.values())) * 3 + 5))
            ob = b.fit(df(r), **kw).transform(df(fresh))
            rec.check(type(ob) is pd.DataFrame and list(ob.index) == list(df(fresh).index), f"{kind}: frame in, frame out with the same row labels", type(ob))
            announced(rec, b, ob, f"{kind}: frame")
            numbers(rec, np.asarray(ob, float), np.asarray(oz, float), f"{kind}: frame and collection give the same numbers", it)
        # other features than those of fit are rejected
        for what, bad in _bad_features(fresh, rng):
            rec.raises(lambda: m.transform(bad.tsc()), f"{kind}: rejects {what} features")
    fam.__name__ = kind
    return fam


for _k, _q, _t in [("scale", 80, 1000), ("select", 60, 800), ("identity", 60, 800), ("pca", 80, 1000), ("takens", 100, 2000), ("ma", 80, 1000), ("rbf", 120, 1500),
                   ("poly", 100, 1200), ("lambda", 80, 1000), ("fd", 100, 1500)]:
    family(quick=_q, thorough=_t)(_family(_k))


CTK = ["scale", "identity", "pca", "takens", "ma", "poly", "lambda", "fd", "rbf"]


@family(quick=150, thorough=2500)
def columns(rec, rng):
    """column transformer: every block equals the transformer alone on its columns; rows which all blocks can serve"""
    feats = gen.FEATS[:int(rng.integers(2, 6))]
    nb = int(rng.integers(1, 4))
    blocks = []
    for k in range(nb):
        cols = [feats[j] for j in sorted(rng.permutation(len(feats))[:int(rng.integers(1, len(feats) + 1))])]
        if rng.random() < .3:
            cols = cols[::-1]
        kind = str(rng.choice(CTK + ["passthrough", "drop"]))
        it = None if kind in ("passthrough", "drop") else zoo.draw(rng, cols, kind)
        if it is not None and getattr(it, "center_type", None) in ("random", "fit_params"):
            it = zoo.draw(rng, cols, "identity")
        blocks.append((f"b{k}", kind, it, cols))
    if all(b[1] == "drop" for b in blocks):
        raise Skip()
    big = zoo.Item("ct", None, None, min_len=max([3] + [b[2].min_len for b in blocks if b[2]]), const_dt=True)
    r = zoo.data(rng, big, feats=feats, kind=str(rng.choice(["int", "float"])), ids=str(rng.choice(["range", "gap", "unsorted"])), n_series=int(rng.integers(2, 5)))
    if any(b[1] == "pca" for b in blocks) and r.values().shape[0] < len(feats) + 2:
        raise Skip()
    rem = str(rng.choice(["drop", "passthrough"])); verbose = bool(rng.integers(2))
    by_pos = rng.random() < .2
    rec.sig([b[1] for b in blocks], rem, verbose, *r.tag); rec.note(blocks=[(b[1], b[2].tag if b[2] else None, b[3]) for b in blocks], rem=rem, **r.describe())
    mk = lambda: dy.TSCColumnTransformer([(b[0], b[2].make() if b[2] else b[1], [feats.index(c) for c in b[3]] if by_pos else b[3]) for b in blocks],
                                         remainder=rem, verbose_feature_names_out=verbose)
    X = r.tsc()
    # expected blocks from the transformers used alone
    parts, names = [], []
    for n, kind, it, cols in blocks:
        if kind == "drop":
            continue
        sub = gen.Ref(r.ids, r.times, [v[:, [feats.index(c) for c in cols]] for v in r.vals], cols)
        o = sub.tsc() if it is None else it.make().fit_transform(sub.tsc())
        parts.append((n, o))
    used = {c for b in blocks for c in b[3]}
    rest = [f for f in feats if f not in used]
    if rem == "passthrough" and rest:
        parts.append(("remainder", gen.Ref(r.ids, r.times, [v[:, [feats.index(c) for c in rest]] for v in r.vals], rest).tsc()))
    names = [(f"{n}__" if verbose else "") + str(c) for n, o in parts for c in o.columns]
    if len(set(names)) != len(names):
        rec.raises(lambda: mk().fit_transform(X), "columns: ambiguous feature names are rejected")
        return
    rows = [set(map(tuple, o.index)) for _, o in parts]
    common = set.intersection(*rows)
    if not common:
        raise Skip()
    ct = mk()
    out = ct.fit_transform(X)
    rec.check(isinstance(out, TSCDataFrame), "columns: collection in, collection out", type(out))
    rec.equal(gen.tsc_problems(out), [], "columns: valid collection")
    rec.equal([str(c) for c in out.columns], names, "columns: names of the blocks in order")
    rec.equal(set(map(tuple, out.index)), common, "columns: rows which are available in all blocks")
    if set(map(tuple, out.index)) == common and out.shape[1] == len(names):
        want = np.hstack([pd.DataFrame(o).loc[list(map(tuple, out.index))].to_numpy() for _, o in parts])
        rec.close(out.to_numpy(), want, "columns: values equal the transformers used alone", rtol=1e-8, atol=1e-8 * max(1, np.abs(want).max()))
    announced(rec, ct, out, "columns")
    out2 = mk().fit(X).transform(X)
    rec.check(list(out2.index) == list(out.index) and list(out2.columns) == list(out.columns), "columns: fit and transform: labels")
    if out2.shape == out.shape:
        w = out.to_numpy(); g = out2.to_numpy()
        sg = np.sign((w * g).sum(0)); sg[sg == 0] = 1
        rec.close(g * np.where([("pca" in str(c)) for c in out.columns], sg, 1), w, "columns: fit and transform equals fit_transform", rtol=1e-7, atol=1e-7 * max(1, np.abs(w).max()))
    c = next(b[3][0] for b in blocks if b[1] != "drop")     # a column that is in use
    bad = pd.DataFrame(r.frame()).drop(columns=[c])
    if bad.shape[1]:
        rec.raises(lambda: ct.transform(TSCDataFrame(bad)), "columns: rejects missing features")


@family(quick=100, thorough=1500)
def pipeline(rec, rng):
    """chains of transformers: each step sees exactly the output of the step before"""
    from sklearn.pipeline import Pipeline
    feats = gen.FEATS[:int(rng.integers(1, 4))]
    cur, items = list(feats), []
    for k in range(int(rng.integers(2, 4))):
        it = zoo.draw(rng, cur, str(rng.choice(["scale", "identity", "takens", "ma", "poly", "fd", "pca", "lambda"])))
        if it.names is None or len(it.names) > 25 or len(set(it.names)) != len(it.names) or (it.kind == "identity" and it.tag[0] and "const" in cur):
            continue
        items.append(it); cur = [str(c) for c in it.names]
    if len(items) < 2:
        raise Skip()
    need = 3 + sum(i.min_len for i in items)
    big = zoo.Item("p", None, None, min_len=need, const_dt=True)
    r = zoo.data(rng, big, feats=feats, kind=str(rng.choice(["int", "float"])), n_series=int(rng.integers(2, 4)))
    r.vals = [v + rng.normal(size=v.shape) for v in r.vals]
    if any(i.kind == "pca" for i in items):
        return_sign = True
    rec.sig([i.kind for i in items], *r.tag); rec.note(items=[(i.kind, i.tag) for i in items], **r.describe())
    X = r.tsc()
    steps = [i.make() for i in items]
    Y = X
    for s in steps:
        Y = s.fit_transform(Y)
    p = Pipeline([(f"s{k}", i.make()) for k, i in enumerate(items)])
    out = p.fit_transform(X)
    rec.check(isinstance(out, TSCDataFrame), "pipeline: collection in, collection out")
    rec.equal([str(c) for c in p.get_feature_names_out()], [str(c) for c in out.columns], "pipeline: announced feature names")
    gen.same_rows(rec, out, gen.observe(Y), "pipeline equals the steps", exact=False, rtol=1e-8, atol=1e-8 * max(1, np.abs(Y.to_numpy()).max()))
    if not any(i.kind == "pca" for i in items):
        o2 = p.transform(X)
        gen.same_rows(rec, o2, gen.observe(out), "pipeline: transform equals fit_transform", exact=False, rtol=1e-8, atol=1e-8 * max(1, np.abs(Y.to_numpy()).max()))


@family(quick=25, thorough=300)
def manifold(rec, rng):
    """diffusion map and Roseland embeddings of collections keep the labels"""
    from datafold.pcfold import kernels as K
    nf = int(rng.integers(2, 4)); feats = gen.FEATS[:nf]
    r = gen.rand_ref(rng, n_series=int(rng.integers(2, 5)), feats=feats, min_len=6, max_len=12, values="smooth")
    r.vals = [v + .3 * rng.normal(size=v.shape) for v in r.vals]
    it = zoo.Item("manifold", None, None)
    ne = int(rng.integers(2, 5))
    which = str(rng.choice(["dmap", "dmap-nonsym", "roseland"]))
    rec.sig(which, ne, *r.tag); rec.note(which=which, **r.describe())
    def mk():
        if which == "roseland":
            return dy.Roseland(K.GaussianKernel(epsilon=2.0), n_svdtriplet=ne, landmarks=8, random_state=3)
        return dy.DiffusionMaps(K.GaussianKernel(epsilon=2.0), n_eigenpairs=ne, symmetrize_kernel=which == "dmap")
    X = r.tsc()
    m = mk().fit(X)
    out = m.transform(X)
    labels(rec, it, out, r, which)
    announced(rec, m, out, which)
    m2 = mk(); o2 = m2.fit_transform(X)
    labels(rec, it, o2, r, which + ": fit_transform")
    announced(rec, m2, o2, which + ": fit_transform")
    if np.shape(o2) == np.shape(out):
        a, b = np.asarray(o2), np.asarray(out)
        rec.close(np.abs(a), np.abs(b), which + ": fit_transform equals fit and transform", rtol=1e-5, atol=1e-6 * np.abs(b).max())
    a = mk().fit(r.values()).transform(r.values())
    rec.check(isinstance(a, np.ndarray), which + ": array in, array out", type(a))
    rec.close(np.abs(np.asarray(a)), np.abs(np.asarray(out)), which + ": array and collection give the same numbers", rtol=1e-6, atol=1e-7 * np.abs(np.asarray(out)).max())
    k = int(rng.integers(r.n))
    one = m.transform(r.sub([k]).tsc())
    rec.close(np.asarray(one), np.asarray(gen.observe(out).vals[k]), which + ": single series equals series in collection", rtol=1e-7, atol=1e-8)
    for what, bad in _bad_features(r, rng):
        rec.raises(lambda: m.transform(bad.tsc()), f"{which}: rejects {what} features")
