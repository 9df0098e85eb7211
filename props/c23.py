"""C23: refitting, cloning, pickling or sharing an estimator has no side effects."""
import copy
import io
import pickle
import joblib
import numpy as np
import pandas as pd
from sklearn.base import clone
from vlib.core import family, Skip
from vlib import fault, gen, models
from vlib.fault import corrupt

RULE = "all models x histories of fits, calls, failing and interrupted fits, copies and shared parameters on different data; distinct by (model, settings, history)"


def seeded(fn, s=11):
    """runs fn with a fixed state of the global random number generator"""
    st = np.random.get_state()
    np.random.seed(s)
    try:
        return fn()
    finally:
        np.random.set_state(st)


def params(o, deep=True):
    """comparable view of constructor parameters (estimators and kernels recursively)"""
    if hasattr(o, "get_params") and not isinstance(o, type):
        try:
            p = o.get_params(deep=False)
        except Exception as e:
            return ("no params", type(o).__name__, repr(e)[:100])
        return (type(o).__name__,) + tuple((k, params(p[k])) for k in sorted(p))
    if isinstance(o, (np.ndarray, pd.DataFrame, pd.Index)):
        return gen.snapshot(o)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(params(x) for x in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((k, params(v)) for k, v in o.items())
    if callable(o):
        return ("callable", id(o))
    return ("val", repr(o))


def fitted(rec, M, k, m=None):
    m = m or M.make()
    o = models.outcome(lambda: seeded(lambda: M.fit(m, k)))
    if o[0] == "raises":
        rec.note(fit=str(o)[:300])
        raise Skip()
    return m


def results(M, m, k, only=None):
    """outcomes of all calls; random global state is the same for every call"""
    return {c.label: models.outcome(lambda c=c: seeded(lambda: c.run(m))) for c in M.calls(k) if only is None or c.label in only}


def agree(rec, M, got, want, mech, where):
    for l, w in want.items():
        d = models.same(got[l], w, M.tol)
        rec.check(not d, mech, lambda: f"{M.kind} {M.tag} {l}: {d} [{where}]")


def names(o):
    """fitted attributes visible to users"""
    return sorted(k for k in vars(o) if k.endswith("_") and not k.endswith("__") and not k.startswith("_"))


@family(quick=90, thorough=1500)
def refit(rec, rng):
    """any history followed by fit(B) is the same as a fresh model with fit(B)"""
    _refit(rec, rng, models.draw(rng))


@family(quick=480, thorough=6000)
def refit_transformers(rec, rng):
    """the same for the (cheap) transformers, all of whose settings must be reached"""
    _refit(rec, rng, models.draw(rng, ["transform", "transform", "column"]))


def _refit(rec, rng, M):
    if M.data[0][0].method != "fit":
        raise Skip()
    want_m = fitted(rec, M, 1); want = results(M, want_m, 1)
    m = M.make(); before = params(m); hist = []
    for _ in range(int(rng.integers(1, 5))):
        op = str(rng.choice(["fit A", "fit B", "calls", "bad fit", "interrupted fit", "pickle", "deepcopy", "fit A and calls"]))
        f = M.data[0][0]
        if op in ("fit A", "fit A and calls"):
            models.outcome(lambda: M.fit(m, 0))
        if op == "fit B":
            models.outcome(lambda: M.fit(m, 1))
        if op in ("calls", "fit A and calls"):
            for j in rng.permutation(len(M.calls(0)))[:4]:
                models.outcome(lambda: M.calls(int(rng.integers(2)))[0].run(m)); models.outcome(lambda: M.calls(0)[j].run(m))
        if op == "bad fit":
            try:
                a, kw = f.resolve(m)
                a[0] = corrupt(rng, a[0])[1]
            except Skip:
                continue
            models.outcome(lambda: f.run(m, a, kw))
        if op == "interrupted fit":
            n, *_ = fault.run(lambda: M.fit(copy.deepcopy(m), 0))
            if n:
                fault.run(lambda: M.fit(m, 0), int(rng.integers(1, n + 1)))
        if op == "pickle":
            m = pickle.loads(pickle.dumps(m))
        if op == "deepcopy":
            m = copy.deepcopy(m)
        hist.append(op)
    rec.sig(M.kind, M.tag, *hist); rec.note(model=M.kind, tag=M.tag, history=hist)
    ok, _ = rec.attempt(lambda: seeded(lambda: M.fit(m, 1)), "refit: the model can be fitted again", f"{M.kind} {M.tag} {hist}")
    if not ok:
        return
    agree(rec, M, results(M, m, 1), want, "refit: same as a fresh model", hist)
    if not any(h in ("pickle", "deepcopy") for h in hist):
        rec.check(params(m) == before, "refit: constructor parameters unchanged", lambda: f"{M.kind} {M.tag} {hist}: {params(m)} was {before}")
    extra = [a for a in names(m) if a not in names(want_m)]
    rec.note(extra=extra)


@family(quick=70, thorough=1000)
def copies(rec, rng):
    """clones, pickles and deep copies"""
    M = models.draw(rng)
    m = fitted(rec, M, 0); want = results(M, m, 0)
    before = params(M.make())
    rec.sig(M.kind, M.tag)
    rec.check(_nocallable(params(m)) == _nocallable(before), "copies: parameters after fit", lambda: f"{M.kind} {M.tag} {params(m)} was {before}")

    def jl(o):
        b = io.BytesIO(); joblib.dump(o, b); b.seek(0)
        return joblib.load(b)
    for nm, fn in (("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("deepcopy", copy.deepcopy), ("joblib", jl)):
        ok, c = rec.attempt(lambda: fn(m), f"copies: {nm} of a fitted model", f"{M.kind} {M.tag}")
        if ok:
            agree(rec, M, results(M, c, 0), want, f"copies: {nm} gives the same results", "")
            if rng.random() < .5 and M.data[1][0].method == "fit":
                models.outcome(lambda: M.fit(c, 1)); results(M, c, 1)
                agree(rec, M, results(M, m, 0), want, "copies: the original is independent of the copy", nm)
    # clone: unfitted, same parameters, same model when fitted
    ok, c = rec.attempt(lambda: clone(m), "copies: clone of a fitted model", f"{M.kind} {M.tag}")
    if not ok:
        return
    rec.check(_nocallable(params(c)) == _nocallable(before), "copies: parameters of the clone", lambda: f"{M.kind} {M.tag} {params(c)} was {before}")
    rec.check(names(c) == names(M.make()), "copies: clone has no fitted attributes", lambda: f"{M.kind} {names(c)}")
    other = fitted(rec, M, 1); w1 = results(M, other, 1)
    ok, _ = rec.attempt(lambda: seeded(lambda: M.fit(c, 1)), "copies: the clone can be fitted", f"{M.kind} {M.tag}")
    if ok:
        agree(rec, M, results(M, c, 1), w1, "copies: clone fitted to other data", "")
        agree(rec, M, results(M, m, 0), want, "copies: the original is independent of the clone", "clone")


def _nocallable(p):
    if isinstance(p, tuple):
        if p and p[0] == "callable":
            return ("callable",)
        return tuple(_nocallable(x) for x in p)
    return p


@family(quick=70, thorough=1000)
def repeated(rec, rng):
    """calls do not change the model: any order and number of calls, interrupted and failing calls, repeated runs"""
    M = models.draw(rng)
    m = fitted(rec, M, 0); want = results(M, m, 0)
    rec.sig(M.kind, M.tag)
    cs = M.calls(0)
    for j in rng.permutation(len(cs)):
        c = cs[j]
        agree(rec, M, {c.label: models.outcome(lambda: seeded(lambda: c.run(m)))}, {c.label: want[c.label]}, "repeated: call gives the same result again", "")
    hist = []
    for _ in range(3):
        c = cs[int(rng.integers(len(cs)))]
        try:
            a, kw = c.resolve(m)
        except Exception:
            continue
        if rng.random() < .5 and a:
            try:
                a[0] = corrupt(rng, a[0])[1]
            except Skip:
                continue
            models.outcome(lambda: c.run(m, a, kw)); hist.append(c.label + " with unusable data")
        else:
            n, *_ = fault.run(lambda: c.run(copy.deepcopy(m), a, kw))
            if n:
                _, _, e = fault.run(lambda: c.run(m, a, kw), int(rng.integers(1, n + 1))); hist.append(f"{c.label} interrupted at {e}")
    agree(rec, M, results(M, m, 0), want, "repeated: failing calls do not change the model", hist)
    m2 = fitted(rec, M, 0)
    agree(rec, M, results(M, m2, 0), want, "repeated: same random state gives the same model", "")


@family(quick=50, thorough=1000)
def shared(rec, rng):
    """two models with the same kernel object"""
    M = models.draw(rng, ["dmap", "dmap", "roseland", "gh", "jsf"])
    k = M.shared(); before = _nocallable(params(k))
    w0 = results(M, fitted(rec, M, 0), 0); w1 = results(M, fitted(rec, M, 1), 1)
    a, b = M.make(k), M.make(k)
    rec.sig(M.kind, M.tag)
    rec.must(True, "shared")
    seeded(lambda: M.fit(a, 0))
    agree(rec, M, results(M, a, 0), w0, "shared: first model", "")
    seeded(lambda: M.fit(b, 1))
    agree(rec, M, results(M, a, 0), w0, "shared: first model after the second model was fitted", "")
    agree(rec, M, results(M, b, 1), w1, "shared: second model", "")
    agree(rec, M, results(M, a, 0), w0, "shared: first model after calls of the second model", "")
    rec.check(_nocallable(params(k)) == before, "shared: parameters of the kernel", lambda: f"{params(k)} was {before}")
