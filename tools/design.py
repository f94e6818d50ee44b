"""Builds DESIGN.md from tools/design_head.md, tools/design_tail.md and tools/catches.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
rows = []
for i, (p, first, by) in sorted(json.load(open(here + "/catches.json")).items()):
    if os.path.isdir("%s/seeded/%s" % (root, i)):
        rows.append("| %s | %s | %s | %s |" % (i, p, first, by))
t = open(here + "/design_head.md").read() + open(here + "/design_tail.md").read()
open(root + "/DESIGN.md", "w").write(t.replace("@TABLE@", "\n".join(rows)))
