#!/usr/bin/env python3
"""Copies bounds and rules of bin/targets.py and the list of planted bugs into DESIGN.md."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import targets
p = os.path.join(V, "DESIGN.md")
out, prop = [], None
for line in open(p):
    m = re.match(r"### (C\d\d) ", line)
    if m:
        prop = m.group(1)
    elif line.startswith("#"):
        prop = None
    if prop and line.startswith("* *Enumerated*: "):
        line = "* *Enumerated*: %s.\n" % targets.CHECKS[prop]["bounds"]
    if prop and line.startswith("* *Case*: "):
        line = "* *Case*: %s.\n" % targets.CHECKS[prop]["rule"]
    out.append(line)
text = "".join(out)
# the table of planted bugs
import glob, json
rows = ["| change | property and check | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
text = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda g: g.group(1) + "\n".join(rows) + "\n" + g.group(2), text, flags=re.S)
open(p, "w").write(text)
