"""Self test of the checks: apply small edits to the analysed source in memory and compare the verdict.

    python3 selftest/run.py [name-substring ...] [--props=C01,C02] [--bugs]

selftest/bugs.py    BUGS  = [(name, {expected properties}, [(file, old, new), ...]), ...]
selftest/quiet.py   QUIET = [(name, [(file, old, new), ...]), ...]  behaviour preserving: every check must stay quiet
"""
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)
ROOT = os.environ.get("VERIF_REPO", "/repo")


def overlay(edits):
    ov = {}
    for f, old, new in edits:
        src = ov.get(f)
        if src is None:
            src = open(os.path.join(ROOT, f)).read()
        if src.count(old) < 1:
            raise ValueError(f"edit does not apply: {f}: {old[:60]!r}")
        ov[f] = src.replace(old, new, 1)
    for f in ov:
        compile(ov[f], f, "exec")
    return ov


def one(job):
    name, prop, edits = job
    from sa import props
    from sa.core import Report
    from sa.run import load_known
    t = time.time()
    rep = Report(prop)
    known = {(k["rule"], k["key"]) for k in load_known()["known"]}
    try:
        ctx = props.Ctx(ROOT, overlay(edits))
        rep.budget = float(os.environ.get('RULE_BUDGET', '60'))
        props.run_rules(rep, props.TABLE[prop], prop, ctx)
        fs = [f for f in rep.findings if (f.rule, f.key) not in known]
        st = "FOUND" if fs else "quiet"
        proved = sum(r["proved"] for r in rep.rules.values())
        if not fs and not proved:
            st = "BROKEN"
        msg = "; ".join(sorted({f"[{f.rule}] {f.where} {f.msg[:150]}" for f in fs})[:2])
        if st == "quiet" and name.startswith("bug:"):
            msg = "UNDECIDED " + "; ".join(f"[{u['rule']}] {u['instance'][:60]}: {u['why'][:120]}" for u in rep.undecided[:40]
                                           if u["rule"] != "x")[:1200]
        if rep.errors:
            msg += " ERR " + str([(e["rule"], e["error"][:80]) for e in rep.errors])[:300]
    except Exception as e:
        st, msg = "BROKEN", f"{type(e).__name__}: {str(e)[:200]}"
    return name, prop, st, msg, time.time() - t


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = None
    for a in sys.argv[1:]:
        if a.startswith("--props="):
            only = set(a[8:].split(","))
    from sa import props
    from bugs import BUGS
    from quiet import QUIET
    jobs = []
    exp = {}
    for name, want, edits in BUGS:
        if args and not any(a in name for a in args):
            continue
        for p in want:
            if p in props.TABLE and (only is None or p in only):
                jobs.append(("bug:" + name, p, edits))
    for name, edits in QUIET if "--bugs" not in sys.argv else []:
        if args and not any(a in name for a in args):
            continue
        for p in props.TABLE:
            if only is None or p in only:
                jobs.append(("quiet:" + name, p, edits))
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for name, prop, st, msg, dt in ex.map(one, jobs):
            ok = st == ("FOUND" if name.startswith("bug:") else "quiet")
            bad += not ok
            if not ok or "-v" in sys.argv or "ERR" in msg:
                print(("ok  " if ok else "MISS" if st == "quiet" else "NOISE" if st == "FOUND" else "BROKEN"),
                      prop, name, f"{dt:.0f}s", msg[:700], flush=True)
    print(f"{len(jobs)} runs, {bad} unexpected")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
