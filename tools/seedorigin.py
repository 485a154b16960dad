"""List seeded changes that only touch lines which the fix commits added (they do not count)."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "1178c39"


def added(path):
    d = subprocess.run(["git", "-C", "/repo", "diff", "-U0", BASE, "HEAD", "--", path], capture_output=True, text=True).stdout
    out = set()
    for m in re.finditer(r"^@@ -\S+ \+(\d+)(?:,(\d+))? @@", d, re.M):
        out |= set(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
    return out


for sid in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = os.path.join(V, "seeded", sid, "patch.diff")
    path, line, own, rem, mine = None, 0, {}, 0, 0
    for l in open(p):
        if l.startswith("--- a/"):
            path = l[6:].strip()
            own = added(path)
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") and not l.startswith("---"):
            rem += 1
            mine += line in own
            line += 1
        elif l.startswith(" "):
            line += 1
    if rem and rem == mine:
        print(sid, "removes only lines of fix commits")
