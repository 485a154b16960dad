"""Write MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props  # noqa: E402
ALL = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Static analysis of the current source (nothing of skops is executed). Assumes third-party and stdlib "
        "functions behave as documented (modelled by name), no monkey-patching of the package, and that loops are "
        "covered by one generic iteration. Instances the analysis cannot settle are listed as undecided in the "
        "evidence and are not reported as violations. ")
m = {"version": 1,
     "setup_cmd": "python3 -m compileall -q sa",
     "checks": [], "not_applicable": []}
for p in ALL:
    if p in props.TABLE and p in props.TECHNIQUE:
        tech, note = props.TECHNIQUE[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 -m sa.run {p} --tier quick",
                            "thorough_cmd": f"python3 -m sa.run {p} --tier thorough",
                            "technique": tech, "level": "other", "level_note": NOTE + note})
    else:
        m["not_applicable"].append({"property": p, "reason": props.NOT_APPLICABLE.get(p, "no check registered yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
