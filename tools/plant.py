#!/usr/bin/env python3
"""Plant changes: plant.py SPEC.py [--tests] [--check]  (development aid, no check uses it)
SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Writes /verif/seeded/<id>/ when the demonstration separates; --tests runs the stable tests, --check the quick check."""
import sys, os, json, subprocess, tempfile, shutil, importlib.util, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -W ignore "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=3600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def one(b, tests, check):
    out = [b["id"]]
    d = tempfile.mkdtemp(prefix="/tmp/plant")
    try:
        sh(f"git -C /repo archive HEAD | tar -x -C {d}; cd {d}; git init -q; git add -A; git -c user.name=a -c user.email=a@b commit -qm a")
        for f, old, new in b["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1:
                return out + [f"EDIT occurs {s.count(old)} times in {f}: {old[:60]!r}"]
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", cwd=d).stdout
        t = os.path.join(HERE, "seeded", b["id"]); os.makedirs(t, exist_ok=True)
        open(os.path.join(t, "patch.diff"), "w").write(patch)
        open(os.path.join(t, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(t, "demo.sh"), 0o755)
        open(os.path.join(t, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(t, "meta.json"), "w"), indent=1)
        r1 = sh(f"{t}/demo.sh", cwd=d)
        sh("git stash -q", cwd=d); r0 = sh(f"{t}/demo.sh", cwd=d); sh("git stash pop -q", cwd=d)
        out.append(f"demo base={r0.returncode} patched={r1.returncode}")
        if r0.returncode != 0 or r1.returncode == 0:
            out.append((r0.stderr[-400:] if r0.returncode else "") + " DEMO DOES NOT SEPARATE")
            return out
        if check:
            r = sh(f"{HERE}/run.sh {b['property']} quick", env=dict(ENV, VERIF_REPO=d, VERIF_JOBS="3"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check rc={r.returncode} violations={len(v)}")
        if tests:
            r = sh(f"N=2 /tmp/rt.sh {t}/patch.diff")
            bad = [l for l in r.stdout.splitlines() if ("FAILED" in l or "ERROR" in l) and "test_sample_weights" not in l]
            out.append("tests ok" if not bad and "passed" in r.stdout else f"TESTS {bad[:4]} {r.stdout[-200:] if not bad else ''}")
    except Exception as e:
        out.append(repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in m.BUGS if not only or b["id"] in only]
    with cf.ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda b: one(b, "--tests" in sys.argv, "--check" in sys.argv), bugs):
            print(" | ".join(o), flush=True)
