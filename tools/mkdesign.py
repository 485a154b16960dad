"""rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the last seedcheck log"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted -->\n"
s = s.split(mark)[0]
log = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        m = re.match(r"(\S+)\s+(C\d\d)\s+(CAUGHT|MISSED)\S*\s*(?:\S+:\d+|\S+ \S+): \[([\w.-]+)\]", line) or \
            re.match(r"(\S+)\s+(C\d\d)\s+(CAUGHT|MISSED).*?\[(C\d\d\.[\w-]+)\]", line)
        if m:
            log[m.group(1)] = m.group(4)
out = ["| planted bug | property | reported by | needs |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", n, "meta.json")))
    out.append(f"| {n} | {m['property']} | {log.get(n, '(missed)' if log else '')} | {m['needs']} |")
open(p, "w").write(s + mark + "\n".join(out) + "\n")
