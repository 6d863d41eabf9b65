#!/usr/bin/env python3-vt
"""writes /verif/MANIFEST.json from properties.jsonl and contracts/"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        na.append(dict(property=i, reason=NA.get(i, "no contract of this property is built yet")))
        continue
    m = importlib.import_module("contracts." + i.lower())
    quals = []
    for c in m.contracts():
        if c.qual not in quals:
            quals.append(c.qual)
    note = "deductive: every obligation of %s, generated from the current source, discharged for all inputs" % ", ".join(
        q.split(":")[1] for q in quals)
    b = getattr(m, "BOUNDED", ())
    if b:
        note += "; bounded (not counted as proved): " + "; ".join(b)
    note += ". The executable form of the same contract is run against the real code to find and replay a failing input."
    checks.append(dict(
        property=i, quick_cmd="python3-vt run.py %s" % i, thorough_cmd="python3-vt run.py %s --thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="contract-based deductive verification (contracts on the real functions, obligations from the "
                  "current source's ast, z3 and cvc5)",
        level=getattr(m, "LEVEL", "proof"), level_note=note))
d = dict(version=1, setup_cmd="python3-vt -c 'import z3' && test -x /opt/pypyvenv/bin/python", checks=checks,
         not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
