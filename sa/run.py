"""Decide one property on the current source of the repository.

    python3 -m sa.run C01 [--tier quick|thorough] [--root DIR] [--verbose]

exit 0: no rule is violated (known findings are printed), exit 1: violation, exit 2: analysis broken
"""
from __future__ import annotations

import argparse
import json
import os
import re
import sys
import time
import traceback

sys.setrecursionlimit(12000)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--root", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ns = ap.parse_args(argv)
    t0 = time.time()
    from .core import Report
    from .engine import AnalysisBroken
    from . import props
    rep = Report(ns.prop)
    broken = None
    try:
        props.decide(ns.prop, rep, ns.root, ns.tier)
    except AnalysisBroken as e:
        broken = f"analysis broken: {e}"
    except Exception:
        broken = "analysis broken: " + traceback.format_exc()
    wall = time.time() - t0
    proved = sum(r["proved"] for r in rep.rules.values())
    undec = sum(r["undecided"] for r in rep.rules.values())
    if broken is None and not rep.findings:
        if proved == 0:
            broken = "no obligation was discharged: " + json.dumps(rep.errors)[:2000]
        elif rep.control_failures and not any(c['reported'] for c in rep.controls):
            broken = "positive controls not reported: " + "; ".join(rep.control_failures)
    known = [k for k in load_known().get("known", []) if k["property"] == ns.prop]
    new, old = [], []
    seen = set()
    for f in rep.findings:
        sig = (f.rule, f.key)
        if sig in seen:
            continue
        seen.add(sig)
        (old if any(k["rule"] == f.rule and k["key"] == f.key for k in known) else new).append(f)

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    obl = {}
    for o in rep.obligations:
        obl.setdefault((o["rule"], o["instance"]), o)
    samples = []
    per = {}
    for o in obl.values():
        if per.get(o["rule"], 0) < 6:
            per[o["rule"]] = per.get(o["rule"], 0) + 1
            samples.append(o)
    ev = {
        "property": ns.prop, "tier": "thorough" if ns.tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: every rule below was applied to every instance "
                           "found (registered node classes, writer functions, entry points, call events on abstract "
                           "paths). 'discharged' counts distinct rule instances shown to hold, 'undecided' those the "
                           "analysis could not settle (never reported as violations).",
            "rules": [dict(id=k, **v) for k, v in rep.rules.items()],
            "obligations": proved + undec + sum(r["violated"] for r in rep.rules.values()),
            "discharged": proved,
            "undecided": undec,
            "distinct_obligations": len(obl),
            "undecided_instances": dedupe(rep.undecided)[:60],
            "files_analysed": sorted(rep.analysed["files"]),
            "functions_analysed": len(rep.analysed["functions"]),
            "samples": samples[:60],
            "controls": rep.controls,
            "rule_errors": rep.errors[:10],
            "known_findings": [f.as_dict() for f in old],
            "findings": [f.as_dict() for f in new],
        },
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    if broken:
        ev["coverage"]["broken"] = broken
    if not ns.no_evidence:
        with open(os.path.join(evdir, ns.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for f in old:
        k = next(k for k in known if k["rule"] == f.rule and k["key"] == f.key)
        print(f"KNOWN-FINDING: property={ns.prop} {f.where} [{f.rule}] {k.get('what', f.msg)}")
    if ns.verbose:
        for rid, r in rep.rules.items():
            print(f"  {rid}: {r['proved']} proved, {r['violated']} violated, {r['undecided']} undecided")
        for u in dedupe(rep.undecided):
            print("  ?", u["rule"], u["instance"][:140], u["where"], u["why"][:200])
        for e in rep.errors:
            print("  ERR", e)
        for c in rep.controls:
            print("  control", c)
    if new:
        for i, f in enumerate(new):
            slug = re.sub(r"[^A-Za-z0-9._-]+", "_", f"{ns.prop}_{f.rule}_{f.key}")[:120]
            path = os.path.join("evidence", slug + ".txt")
            if not ns.no_evidence:
                with open(os.path.join(HERE, path), "w") as fh:
                    fh.write(f"property {ns.prop}\nrule {f.rule}\n  {rep.rules.get(f.rule, {}).get('text', '')}\n"
                             f"construct {f.where}\n{f.msg}\n\nreproduce: cd /verif && python3 -m sa.run {ns.prop}\n")
            print(f"{f.where}: [{f.rule}] {f.msg}")
            print(f"VIOLATION property={ns.prop} replay={path}")
        return 1
    if broken:
        print(broken)
        return 2
    print(f"{ns.prop}: {proved} obligations hold, {undec} undecided, {len(old)} known findings, "
          f"{len(rep.analysed['files'])} files, {wall:.1f} s")
    return 0


def dedupe(us):
    out, seen = [], set()
    for u in us:
        k = (u["rule"], u["instance"], u["where"])
        if k not in seen:
            seen.add(k)
            out.append(u)
    return out


if __name__ == "__main__":
    sys.exit(main())
