"""Harness of all checks: runs the monitored workloads of one property and decides the verdict.

A property module /verif/props/<id>.py registers workload *families* with @family(name, quick, thorough).
A family is a function (rec, rng): it drives the real code in /repo with inputs drawn from rng and
hands every observation to an oracle through `rec`.  A case is a pure function of
(VERIF_SEED, family name, index), so every violation replays exactly.

Verdicts: 0 held on everything observed, 1 violated (VIOLATION line + replay file), 2 inconclusive
(a family reached no oracle, a case ran out of time or memory, the code could not be imported).
"""
import sys, os, json, time, types, zlib, signal, traceback, importlib, warnings, io, contextlib
import multiprocessing as mp
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
CASE_TIMEOUT = 150
QUICK_BUDGET = 660       # wall seconds after which the quick tier decides on what it has observed
QUICK_MIN_FRACTION = 0.5  # ... provided it got through this fraction of the cases of every family
MAX_TIMEOUT_FRACTION = 0.03


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """Raised by a case that could not reach its oracle (not a violation)."""


class Skip(Exception):
    """Raised by a case whose drawn input is outside the quantified domain."""


class AbortCase(Exception):
    """A violation was already recorded; the rest of the case makes no sense."""


FAMILIES = []


def family(quick, thorough=None, name=None):
    def deco(fn):
        FAMILIES.append((name or fn.__name__, fn, quick, thorough or quick * 10))
        return fn
    return deco


def _short(x, n=600):
    try:
        s = str(x)
    except Exception:
        s = "<unprintable>"
    return s if len(s) <= n else s[:n] + "..."


class Rec:
    """Observation recorder of one case; holds the verdict of its oracles."""

    def __init__(self, fam):
        self.fam = fam
        self.counts = Counter()
        self.viol = []
        self.sigs = []
        self.info = {}

    # -- bookkeeping
    def sig(self, *parts):
        self.sigs.append(self.fam + "|" + "|".join(_short(p, 80) for p in parts))

    def note(self, **kw):
        for k, v in kw.items():
            self.info[k] = _short(v, 1500)

    # -- oracles
    def fail(self, mech, msg=""):
        self.counts[mech] += 1
        self.viol.append((mech, _short(msg, 3000)))

    def check(self, cond, mech, msg=""):
        self.counts[mech] += 1
        ok = bool(cond)
        if not ok:
            self.viol.append((mech, _short(msg() if isinstance(msg, types.FunctionType) else msg, 3000)))
        return ok

    def must(self, cond, mech, msg=""):
        if not self.check(cond, mech, msg):
            raise AbortCase(mech)

    def equal(self, a, b, mech, msg=""):
        """exact equality of python objects / arrays (nan equal nan)"""
        import numpy as np
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                a_, b_ = np.asarray(a), np.asarray(b)
                ok = a_.shape == b_.shape and bool(
                    np.all((a_ == b_) | ((a_ != a_) & (b_ != b_))))
            else:
                if isinstance(a, list) and isinstance(b, list) and any(type(x) is str for x in a + b):
                    a, b = [str(x) for x in a], [str(x) for x in b]       # names may be given as numbers
                ok = bool(a == b)
        except Exception as e:
            ok = False
            msg = f"{msg} compare failed {e!r}"
        return self.check(ok, mech, lambda: f"{msg} observed={_short(a)} expected={_short(b)}")

    def close(self, a, b, mech, rtol=1e-8, atol=1e-10, msg=""):
        import numpy as np
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.dtype == object:
            a_ = a_.astype(complex) if any(isinstance(x, complex) for x in a_.ravel()) else a_.astype(float)
        if b_.dtype == object:
            b_ = b_.astype(float)
        if a_.shape != b_.shape:
            return self.check(False, mech, f"{msg} shape {a_.shape} expected {b_.shape}")
        ok = bool(np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True))
        return self.check(ok, mech, lambda: f"{msg} max|diff|={np.nanmax(np.abs(a_ - b_)) if a_.size else 0} observed={_short(a_)} expected={_short(b_)}")

    def raises(self, fn, mech, exc=Exception, msg=""):
        """the call must be rejected with an ordinary exception"""
        try:
            r = fn()
        except (MemoryError, CaseTimeout):
            raise
        except exc as e:
            self.counts[mech] += 1
            return e
        except Exception as e:
            self.check(False, mech, f"{msg} raised {e!r} instead of {exc}")
            return e
        self.check(False, mech, f"{msg} no exception, returned {_short(r, 300)}")
        return None

    def attempt(self, fn, mech, msg=""):
        """the call must succeed; returns (ok, result)"""
        try:
            r = fn()
        except (MemoryError, CaseTimeout, AbortCase, Skip, Inconclusive):
            raise
        except Exception as e:
            tb = traceback.format_exc().splitlines()[-8:]
            self.check(False, mech, f"{msg} raised {e!r}\n" + "\n".join(tb))
            return False, None
        self.counts[mech] += 1
        return True, r


def case_rng(seed, fam, idx):
    import numpy as np
    return np.random.default_rng([seed, zlib.crc32(fam.encode()), idx])


def _alarm(*_):
    raise CaseTimeout()


def run_case(famname, fn, idx, seed):
    import numpy as np
    rec = Rec(famname)
    status = "ok"
    rng = case_rng(seed, famname, idx)
    np.random.seed(int(rng.integers(2**31)))
    out = io.StringIO()
    # processor time, so that a loaded machine does not end a case; the wall clock only ends a hang
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    signal.alarm(2 * CASE_TIMEOUT)
    rec.index = idx
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(rec, rng)
    except CaseTimeout:
        status = "timeout"
    except Skip:
        status = "skip"
    except AbortCase:
        status = "abort"
    except Inconclusive as e:
        status = f"inconclusive: {e}"
    except (MemoryError, ModuleNotFoundError) as e:
        status = f"inconclusive: {e!r}"
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        rec.fail(f"{famname}:exception", f"{e!r}\n" + "\n".join(tb[-14:]))
        status = "exception"
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(fam=famname, idx=idx, status=status, counts=rec.counts, viol=rec.viol,
                sigs=rec.sigs, info=rec.info)


def _worker(args):
    famname, idxs, seed = args
    fn = next(f[1] for f in FAMILIES if f[0] == famname)
    return [run_case(famname, fn, i, seed) for i in idxs]


def known_findings(prop):
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=C01 mech=<id> what fails
                parts = line[len("finding: "):].split(" ", 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                if d.get("property") == prop:
                    res[d["mech"]] = parts[2]
    return res


def main(argv):
    prop, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    warnings.simplefilter("ignore")
    try:
        mod = importlib.import_module(f"props.{prop.lower()}")
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} cannot load the code under test")
        return 2
    level = getattr(mod, "LEVEL", "exploration")

    if tier == "replay":
        rp = json.load(open(argv[2]))
        fn = next(f[1] for f in FAMILIES if f[0] == rp["family"])
        r = run_case(rp["family"], fn, rp["index"], rp["seed"])
        for m, msg in r["viol"]:
            print(f"{m}: {msg}")
        print(r["status"], r["info"])
        if r["viol"]:
            print(f"VIOLATION property={prop} replay={argv[2]}")
        return 1 if r["viol"] else 0
    if tier == "one":  # debugging: run.sh C01 one family index
        fn = next(f[1] for f in FAMILIES if f[0] == argv[2])
        r = run_case(argv[2], fn, int(argv[3]), seed)
        for m, msg in r["viol"]:
            print(f"{m}: {msg}")
        print(r["status"], dict(r["counts"]), r["sigs"], r["info"])
        return 0

    only = os.environ.get("VERIF_FAMILY")
    jobs = []
    for name, fn, q, t in FAMILIES:
        if only and name not in only.split(","):
            continue
        n = q if tier == "quick" else t
        chunk = max(1, min(8, n // 16))
        for a in range(0, n, chunk):
            jobs.append((name, list(range(a, min(n, a + chunk))), seed))
    # interleave families so that long ones do not all end up last
    jobs.sort(key=lambda j: j[1][0])
    nproc = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    results, broken, out_of_time = [], None, False
    ctx = mp.get_context("fork")
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures import TimeoutError as FTimeout
    budget = QUICK_BUDGET if tier == "quick" else 6 * 3600
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    with ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
        futs = [ex.submit(_worker, j) for j in jobs]
        try:
            for f in as_completed(futs, timeout=budget):
                results.extend(f.result())
        except Exception as e:  # worker died or budget exhausted
            if isinstance(e, (FTimeout, TimeoutError)):
                out_of_time = True
            else:
                broken = repr(e)
            for f in futs:
                f.cancel()
            for p_ in list(getattr(ex, "_processes", {}).values()):
                p_.kill()
    results.sort(key=lambda r: (r["fam"], r["idx"]))

    known = known_findings(prop)
    counts, famcases, famoracle, statuses = Counter(), Counter(), Counter(), Counter()
    sigs, viols, kf, samples = set(), [], Counter(), {}
    for r in results:
        counts.update(r["counts"])
        famcases[r["fam"]] += 1
        famoracle[r["fam"]] += sum(r["counts"].values())
        statuses[r["status"].split(":")[0]] += 1
        sigs.update(r["sigs"])
        if r["sigs"] and r["fam"] not in samples:
            samples[r["fam"]] = dict(family=r["fam"], index=r["idx"], case=r["sigs"][:3], **r["info"])
        for m, msg in r["viol"]:
            if m in known:
                kf[m] += 1
            else:
                viols.append((r["fam"], r["idx"], m, msg))
    for m, what in known.items():
        print(f"KNOWN-FINDING: property={prop} {m}: {what} (observed {kf.get(m, 0)} times in this run)")

    inconclusive = []
    if broken:
        inconclusive.append(f"worker pool: {broken}")
    timeouts = [f"{r['fam']}[{r['idx']}]: timeout" for r in results if r["status"] == "timeout"]
    if len(timeouts) > max(1, MAX_TIMEOUT_FRACTION * len(results)):
        inconclusive.extend(timeouts)
    for r in results:
        if r["status"].startswith("inconclusive"):
            inconclusive.append(f"{r['fam']}[{r['idx']}]: {r['status']}")
    if out_of_time:
        for name, _, q, t in FAMILIES:
            n = q if tier == "quick" else t
            if (not only or name in only.split(",")) and famcases[name] < QUICK_MIN_FRACTION * n:
                inconclusive.append(f"out of time: {famcases[name]} of {n} cases of family {name}")
    for name, *_ in FAMILIES:
        if only and name not in only.split(","):
            continue
        if not broken and famoracle[name] == 0:
            inconclusive.append(f"family {name} reached no oracle")

    seen = set()
    nprinted = 0
    for fam, idx, m, msg in viols:
        if (fam, m) in seen:
            continue
        seen.add((fam, m))
        path = os.path.join(EVID, "replays", f"{prop}-{fam}-{idx}-s{seed}-{zlib.crc32(m.encode()):08x}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, family=fam, index=idx, seed=seed, mechanism=m, message=msg,
                           replay=f"VERIF_SEED={seed} /verif/run.sh {prop} replay {path}"), f, indent=1)
        if nprinted < 40:
            print(f"  {fam}[{idx}] {m}: {_short(msg, 1200)}")
            print(f"VIOLATION property={prop} replay={path}")
        nprinted += 1

    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level,
              coverage=dict(
                  evaluations=len(results), distinct_nontrivial=len(sigs),
                  rule=getattr(mod, "RULE", "A case is drawn from (seed, family, index); it counts as non-trivial if its oracle was "
                       "reached on a structurally valid input, and as distinct by its structural signature "
                       "(family, parameters, shape class of the data)."),
                  samples=list(samples.values())[:12],
                  oracle_evaluations=int(sum(counts.values())),
                  cases_per_family=dict(famcases), oracle_evaluations_per_mechanism=dict(sorted(counts.items())),
                  case_status=dict(statuses), timeouts=timeouts[:20],
                  stopped_by_time_budget=out_of_time, inconclusive=inconclusive[:20]),
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                  "held on the executions counted here only; nothing is claimed about inputs not driven",
                  "numpy, scipy, pandas and scikit-learn as installed are trusted by the reference computations"],
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {len(results)} cases, {sum(counts.values())} oracle evaluations, "
          f"{len(sigs)} distinct, {len(viols)} violations, {len(inconclusive)} inconclusive, {time.time()-t0:.1f}s")
    if viols:
        return 1
    if inconclusive:
        for x in inconclusive[:10]:
            print("INCONCLUSIVE", x)
        return 2
    return 0


if __name__ == "__main__":
    from vlib import core as _core  # one module instance shared with the property modules
    sys.exit(_core.main(sys.argv[1:]))
