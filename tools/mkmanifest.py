#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the tags present in contracts/*.vc"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.vc import parse_contracts, UNITS
tags = {}
for u in UNITS:
    p = os.path.join(V, "contracts", u + ".vc")
    if os.path.exists(p):
        for c in parse_contracts(p):
            for t in c.tags:
                tags.setdefault(t, {}).setdefault(u, []).append(c.path)
claimed = set(json.load(open(os.path.join(V, "tools/claims.json"))))
NOTE = ("Verus discharges every obligation of the contracts tagged with this property, on code extracted from /repo on this run: {n} tagged functions in {u}, for all inputs and iterations. "
        "Trusted: Verus/Z3, the Soroban SDK model in contracts/prelude.rs, the extraction rules in DESIGN.md; cross-contract results are arbitrary. Partial correctness: overflow and explicit panics abort the transaction and are not excluded.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in claimed and i in tags:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                           technique="contract-based deductive verification (Verus) of the extracted real code", level="proof",
                           level_note=NOTE.format(n=sum(len(x) for x in tags[i].values()), u=", ".join(tags[i]))))
    else:
        na.append(dict(property=i, reason="contracts for this property are not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Checks extract /repo's current source, attach contracts/*.vc and run Verus. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks], "not", [x["property"] for x in na])
