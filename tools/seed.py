"""Write and confirm planted bugs.

    python3 tools/seed.py SPEC.py [id-substring ...]

SPEC.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new)], demo=python source, needs=, breaks=)].
Each change is confirmed in a scratch copy of /repo: it applies, builds, the stable tests pass, and the demonstration
passes without and fails with it; only then is it written to seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# run with cwd at the repository; finds its files beside itself
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD:$HERE" exec /opt/venv/bin/python "$HERE/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(s, n):
    w = f"/tmp/seedwork/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        r = f"{w}/repo"
        sh(f"cp -a /repo {r}", "/tmp")
        d = f"{w}/demo"
        os.makedirs(d)
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        p = sh(f"bash {d}/demo.sh", r, timeout=300)
        if p.returncode != 0:
            return s["id"], "demo fails on the unchanged tree: " + (p.stdout + p.stderr)[-600:]
        for f, old, new in s["edits"]:
            src = open(f"{r}/{f}").read()
            if src.count(old) != 1:
                return s["id"], f"edit matches {src.count(old)} times: {old[:70]!r}"
            open(f"{r}/{f}", "w").write(src.replace(old, new))
        patch = sh("git diff", r).stdout
        p = sh("/opt/venv/bin/python -m compileall -q skops", r)
        if p.returncode:
            return s["id"], "does not compile " + p.stdout[-300:]
        p = sh(f"bash {d}/demo.sh", r, timeout=300)
        if p.returncode == 0:
            return s["id"], "demo passes with the change"
        why = (p.stdout + p.stderr).strip().splitlines()[-1:]
        env = dict(HOME="/root", PATH="/opt/venv/bin:" + os.environ["PATH"], MPLBACKEND="Agg", PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2",
                   PYTHONPATH=f"{r}:/opt/vp/plugins")
        p = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov -p vp_seed --timeout=300 "
               "--continue-on-collection-errors -m 'not inference' -o junit_family=xunit2 "
               f"--junitxml={w}/junit.xml skops", r, env)
        sh(f"python3 /opt/vp/results.py {w}/o.json junit:{w}/junit.xml", r)
        o = json.load(open(f"{w}/o.json"))
        miss = sorted(STABLE - set(o["passed"]))
        if miss:
            return s["id"], f"{len(miss)} stable tests fail: {miss[:3]}"
        out = f"{VERIF}/seeded/{s['id']}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out, ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{out}/patch.diff", "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        return s["id"], "CONFIRMED " + " ".join(why)[:150]
    except Exception as e:
        return s["id"], f"{type(e).__name__}: {e}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [s for s in ns["SEEDS"] if len(sys.argv) < 3 or any(a in s["id"] for a in sys.argv[2:])]
    with ThreadPoolExecutor(5) as ex:
        for i, m in ex.map(lambda x: one(x[1], x[0]), list(enumerate(todo))):
            print(i, m, flush=True)


main()
