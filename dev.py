#!/usr/bin/env python3
"""developer driver: dev.py UNIT [fn ...]  - verify a unit (or some functions of it) and print what fails"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.vc import *
unit = sys.argv[1]
want = sys.argv[2:]
cs = parse_contracts(os.path.join(VERIF, "contracts", unit + ".vc"))
ex = extract(unit, cs)
for e in ex["errors"]: print("EXTRACT", e)
for m in ex["missing"]: print("MISSING", m)
for f in ex["fns"]:
    if f["errs"]: print("FN", f["path"], f["errs"])
cl = {c.path for c in cs if not want or c.name in want or c.path in want}
g = gen_unit(unit, cs, ex, cl)
wd = os.environ.get("VCWD", "/tmp/vc"); os.makedirs(wd, exist_ok=True)
r = run_verus(g.text(), wd, unit)
fails, tool = classify(g, r)
if os.environ.get("ADAPT"):
    import time
    broken = {t["fn"] for t in tool if t["fn"]}
    if broken:
        g = gen_unit(unit, cs, ex, cl, broken=broken); r = run_verus(g.text(), wd, unit); fails, tool2 = classify(g, r)
        tool = tool + tool2
    for f in sorted({t["fn"] for t in fails if t["fn"]} | broken | {x["contract"] for x in ex["fns"] if x.get("misplaced")}):
        ok = reprove(unit, cs, ex, broken, f, fails, tool, wd, time.time() + 170)
        if ok:
            fails = [t for t in fails if t["fn"] != f]; tool = [t for t in tool if t["fn"] != f]; broken.discard(f)
            print("ADAPTED", f, ok[1])
            if not fails and not tool: print("'success': True")
for f in ex["fns"]:
    if f["errs"] and f.get("misplaced"): print("FN", f["path"], f["errs"])
for t in tool: print("TOOL", t["fn"], t["line"], t["msg"])
for t in fails: print("FAIL", t["fn"], t["line"], t["msg"], "|", t["text"][:1000])
if r["summary"]: print(r["summary"].get("verification-results"), "%.1fs" % r["wall"])
else: print(r["raw_err"][-2000:])
if "-v" in os.environ.get("DEV", ""): 
    for d in r["diags"]:
        if d["level"]=="error": print(d.get("rendered"))
try:
    import json
    ft=r["summary"]["times-ms"]["smt"]["smt-run-module-times"]
    fb=[(x["time"],x["function"]) for m in ft for x in m.get("function-breakdown",[])]
    fb.sort(reverse=True)
    print([f"{n.split('::')[-1]}:{t}" for t,n in fb[:6]])
except Exception as x: print("times", x)
