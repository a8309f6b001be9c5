"""seeded/README.md from the meta files and the log of tools/bugs.py."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
log = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) \| (C\d+) caught \S+ \[(.*?)\] ", l)
    if m:
        log.setdefault(m.group(1), (m.group(2), m.group(3)))
out = ["# Planted bugs", "",
       "Written from the properties and the code; each passes the repository's tests and has a demonstration.",
       "`tools/bugs.py` applies each to a copy and runs the checks; the last column is the first violation it is caught by.", "",
       "| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(root)):
    p = os.path.join(root, d, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        c = log.get(d)
        out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], "%s: `%s`" % c if c else "not caught"))
open(os.path.join(root, "README.md"), "w").write("\n".join(out) + "\n")
