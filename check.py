#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree by deductive verification of the real code.
exit 0: held; exit 1 with a VIOLATION line: broken."""
import sys, os, json, time, shutil, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import vc
from vlib.vc import VERIF, UNITS, parse_contracts, extract, gen_unit, run_verus, classify

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def unit_contracts(u):
    p = os.path.join(VERIF, "contracts", u + ".vc")
    return parse_contracts(p) if os.path.exists(p) else []


def closure_of(prop, cs, ex):
    byc = {c.path: c for c in cs}
    calls = {f["contract"]: set(f["called"]) for f in ex["fns"]}
    todo = [c.path for c in cs if prop in c.tags and c.path in calls]
    seen = set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        todo += [q for q in calls.get(p, ()) if q in byc and q not in seen]
    return seen


def norm_called(cs, ex):
    """`called` lists contract paths already; keep those that exist"""
    known = {c.path for c in cs}
    for f in ex["fns"]:
        f["called"] = [x for x in f["called"] if x in known]


def verify_unit(prop, u, wd, log):
    cs = unit_contracts(u)
    r = dict(unit=u, fns=[], fails=[], undecided=[], verified=0, errors=0, clauses=0, wall=0.0, smt_ms=0, cmd="", trusted=[], broken=[])
    ex = extract(u, cs)
    norm_called(cs, ex)
    for e in ex["errors"]:
        r["undecided"].append(f"{u}: extraction: {e}")
    missing = [str(m) for m in ex["missing"]]
    byc = {c.path: c for c in cs}
    for m in missing:
        c = byc.get(m)
        if c is None or prop in c.tags:
            r["undecided"].append(f"{u}: function under contract not found in the source: {m}")
    cl = closure_of(prop, cs, ex)
    if not cl:
        return r, None
    broken, toolb = set(), []
    for attempt in range(4):
        g = gen_unit(u, cs, ex, cl, broken=broken)
        res = run_verus(g.text(), wd, f"{u}_{attempt}", timeout=600)
        r["wall"] += res["wall"]
        r["cmd"] = res["cmd"]
        fails, tool = classify(g, res)
        newb = set()
        hard = []
        for t in tool:
            if t["fn"] is None:
                hard.append(t)
            elif is_rlimit(t["msg"]):
                pass
            else:
                newb.add(t["fn"])
        if newb - broken and not res["timeout"]:
            log(f"{u}: generated code not accepted for {sorted(newb - broken)}: " + "; ".join(t["msg"] for t in tool if t["fn"] in newb)[:600])
            broken |= newb
            toolb += [t for t in tool if t["fn"] in newb]
            continue
        break
    for f in ex["fns"]:
        if f["errs"] and f["contract"] in cl:
            r["undecided"].append(f"{f['contract']}: not brought within the verifier's subset: {'; '.join(f['errs'])[:300]}")
    for b in sorted(broken & cl):
        r["undecided"].append(f"{b}: extracted code rejected by the verifier front end: " + "; ".join(t["msg"] for t in toolb if t["fn"] == b)[:300])
    for t in hard:
        r["undecided"].append(f"{u}: verifier: {t['msg'][:300]}")
    rl = sorted({t["fn"] for t in tool if t["fn"] and is_rlimit(t["msg"])})
    # retry what failed, with more resources and another solver seed, before believing it
    suspects = sorted({t["fn"] for t in fails if t["fn"]} | set(rl))
    if suspects and not res["timeout"]:
        g2 = gen_unit(u, cs, ex, set(suspects), broken=broken)
        res2 = run_verus(g2.text(), wd, f"{u}_retry", timeout=420, extra=["--rlimit", "40", "--smt-option", "smt.random_seed=7"])
        r["wall"] += res2["wall"]
        f2, t2 = classify(g2, res2)
        if not res2["timeout"]:
            bad2 = {t["fn"] for t in f2} | {t["fn"] for t in t2}
            okd = [s for s in suspects if s not in bad2 and None not in bad2]
            fails = [t for t in f2] if not any(x["fn"] is None for x in t2) else fails
            rl = sorted({t["fn"] for t in t2 if t["fn"] and is_rlimit(t["msg"])})
            if okd:
                log(f"{u}: accepted on the second attempt: {okd}")
    # where the shape of a function changed, another proof of the same postconditions
    r["adapted"] = []
    t0 = time.time()
    for f in sorted({t["fn"] for t in fails if t["fn"] and (byc[t["fn"]].alts or any(x["fn"] == t["fn"] and (x.get("inv") or x.get("pline")) for x in fails))} | (broken & cl) | {f["contract"] for f in ex["fns"] if f.get("misplaced") and f["contract"] in cl}):
        if time.time() - t0 > 150:
            break
        try:
            ok = vc.reprove(u, cs, ex, broken, f, fails, toolb, wd, t0 + 170)
        except Exception as x:
            log(f"{u}: {f}: {type(x).__name__}: {str(x)[:200]}")
            ok = None
        if ok:
            fails = [t for t in fails if t["fn"] != f]
            rl = [x for x in rl if x != f]
            broken.discard(f)
            r["adapted"].append(f)
            what = "; ".join(f"{a} read as {b}" for a, b in ok[1]["rename"].items()) + f" {len(ok[1]['drop'])} loop clauses left out"
            log(f"{u}: {f}: accepted with an adapted proof ({what.strip()})")
    r["undecided"] = [n for n in r["undecided"] if not any(n.startswith((f + ": extracted code rejected", f + ": not brought within")) for f in r["adapted"])]
    for f in rl:
        r["undecided"].append(f"{f}: solver resource limit")
    for f in sorted(cl - vc.bodies(g) - broken - set(r["adapted"])):
        if not byc[f].trusted and not any(n.startswith(f + ":") for n in r["undecided"]):
            r["undecided"].append(f"{f}: its body was not handed to the verifier")
    r["fails"] = fails
    vr = (res["summary"] or {}).get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    try:
        for m in res["summary"]["times-ms"]["smt"]["smt-run-module-times"]:
            r["smt_ms"] += sum(x["time"] for x in m.get("function-breakdown", []))
    except Exception:
        pass
    if not fails and not rl:
        r["verified"], r["errors"] = r["verified"] + r["errors"], 0     # what was refused at first was accepted later
    bad = {t["fn"] for t in fails} | set(rl) | broken
    for f in ex["fns"]:
        if f["contract"] in cl:
            c = byc[f["contract"]]
            n = len(c.ensures) + sum(len(v) for v in c.loops.values())
            st = "trusted" if c.trusted else "undecided" if (f["errs"] or c.path in broken or c.path in rl) else "failed" if c.path in bad else "proved"
            r["fns"].append(dict(function=f["contract"], file=os.path.relpath(f["file"], vc.REPO), line=f["line"], clauses=n, inlined=len(f["inlined"]), status=st))
            r["clauses"] += n
            if c.trusted:
                r["trusted"].append(c.path)
    if r["verified"] == 0 and not fails:
        r["undecided"].append(f"{u}: the verifier reported no discharged obligation")
    r["drops"] = ex.get("dropped", [])
    r["text"] = g.text()
    r["gen"] = (cs, ex, cl, broken | set(r["adapted"]))
    return r, g


def is_rlimit(m):
    m = m.lower()
    return "resource limit" in m or "rlimit" in m or "timed out" in m or "canceled" in m


def probe(u, gen, wd):
    """vacuity: with every postcondition replaced by `false`, every function has to be refused"""
    cs, ex, cl, broken = gen
    g = gen_unit(u, cs, ex, cl, broken=broken, probe=True)
    res = run_verus(g.text(), wd, u + "_probe", timeout=600)
    fails, tool = classify(g, res)
    refused = {t["fn"] for t in fails} | {t["fn"] for t in tool}
    live = {f["contract"] for f in ex["fns"] if f["contract"] in cl and f["contract"] not in broken and not f["errs"]}
    trusted = {c.path for c in cs if c.trusted}
    return sorted(live - refused - trusted), len(live)


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix="vcheck_")
    lines = []

    def log(s):
        print(s, flush=True)
        lines.append(s)
    units = [u for u in UNITS if any(prop in c.tags for c in unit_contracts(u))]
    results = []
    try:
        for u in units:
            try:
                r, g = verify_unit(prop, u, wd, log)
            except Exception as x:
                r = dict(unit=u, fns=[], fails=[], undecided=[f"{u}: {type(x).__name__}: {str(x)[:500]}"], verified=0, errors=0, clauses=0, wall=0, smt_ms=0, cmd="", trusted=[], broken=[])
            results.append(r)
        from vlib import fixedpoint
        fp = fixedpoint.run(wd)
        viol, undec, other = [], [], []
        for r in results:
            undec += r["undecided"]
            tagsof = {c.path: c.tags for c in unit_contracts(r["unit"])}
            for t in r["fails"]:
                if t["tags"] is None or not t["tags"]:
                    # proof text / untagged clause: an obligation of everything the function carries
                    own = tagsof.get(t["fn"], set())
                    (viol if prop in own or not own or t["tags"] == [] else other).append(t)
                elif prop in t["tags"]:
                    viol.append(t)
                else:
                    other.append(t)
        undec += [f"{t['fn']}: an obligation of another property failed that this proof relies on: {t['text'][:160]}" for t in other]
        vac = []
        if TIER == "thorough" and not viol:
            for r in results:
                if r.get("gen"):
                    v, n = probe(r["unit"], r["gen"], wd)
                    vac += v
                    r["probed"] = n
            if vac:
                undec.append(f"vacuous contract (false is provable): {vac}")
        # ---- verdict
        from vlib import bounded
        bres = None
        # the bounded replay looks for a failing input: of the failed obligation, or, where a function could not be brought
        # within the verifier's reach, in its place. It never counts towards a proof.
        unproved = [n for n in undec if "an obligation of another property failed" not in n]
        spent = time.time() - t0
        if (viol or unproved or TIER == "thorough") and not (TIER == "quick" and spent > 600) and os.environ.get("VERIF_REPLAY") != "0":
            budget = (45 if spent < 500 else 25) if TIER == "quick" else 240
            bres = bounded.run(prop, SEED, budget, wd, log, 420 if TIER == "thorough" else max(60, 800 - spent - budget))
            if bres["status"] == "violation" and not viol and not unproved and not bres["invariant_broken"]:
                # everything was discharged: a difference from the reference tree alone is not a violation
                bres["status"] = "differs"
        code = 0
        nviol = 0
        known = known_findings(prop)
        for k in known:
            log(f"KNOWN-FINDING: property={prop} {k}")
        rp = os.path.join(VERIF, "evidence", f"{prop}.replay.txt")
        if viol or (bres and bres["status"] == "violation"):
            code, nviol = 1, max(1, len(viol))
            with open(rp, "w") as f:
                f.write(f"property {prop}\n")
                for t in viol:
                    f.write(f"\nFAILED OBLIGATION in {t['fn']}: {t['msg']}\n    {t['text']}\n    tags {t['tags']}\n")
                if bres and bres["status"] == "violation":
                    f.write("\nFAILING INPUT, replayed on the real code:\n" + bres["replay"] + "\n")
                f.write("\nverifier output:\n")
                for r in results:
                    f.write(f"{r['cmd']}\n")
                for n in undec:
                    f.write("undecided: " + n + "\n")
            for t in viol:
                log(f"failed obligation: {t['fn']}: {t['msg']}: {t['text'][:200]}")
            if bres and bres["status"] == "violation":
                log(f"VIOLATION property={prop} replay={rp}")
            else:
                log(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        else:
            if os.path.exists(rp):
                os.unlink(rp)
            for n in undec:
                log("undecided: " + n)
            if undec:
                log(f"{prop}: not proved on this tree (see above); bounded stand-in: {bres['status'] if bres else 'none'}")
            else:
                log(f"{prop}: every obligation discharged ({sum(r['verified'] for r in results)} verified, {sum(r['clauses'] for r in results)} contract clauses)")
        write_evidence(prop, results, viol, undec, bres, time.time() - t0, nviol, fp)
        return code
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^finding: property=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


TRUST = [
    "Verus 0.2026.09.13 and Z3 (the deciding back end)",
    "contracts/prelude.rs: model of the Soroban SDK (storage maps, host collections, ledger, authorisation, calls to other contracts recorded in a ghost log, results of such calls uninterpreted)",
    "tools/extract: mechanical extraction of /repo's source (rules listed in DESIGN.md); every checked machine operation returns only when it does not overflow (overflow-checks = true)",
    "soroban-fixed-point-math contracts (mul/div floor/ceil): not discharged against the crate's source on this run",
    "SEP-41 token, oracle and other contract clients are external: their results are arbitrary, their calls are recorded",
    "soroban-fixed-point-math with a negative denominator: some function of the arguments",
    "TTL bumping and events are dropped by the extraction; storage entries do not expire",
    "cross-contract calls do not re-enter the calling contract's storage (enforced by the Soroban host)",
]


def write_evidence(prop, results, viol, undec, bres, wall, nviol, fp):
    fns = [f for r in results for f in r["fns"]]
    obl = sum(r["verified"] + r["errors"] for r in results)
    base = [t for t in TRUST if not ("not discharged against" in t and fp["status"] == "discharged")]
    trusted = [t for r in results for t in r["trusted"]]
    ext = sum(len(re.findall(r"external_body", r.get("text", ""))) for r in results)
    cov = dict(obligations=obl, discharged=sum(r["verified"] for r in results),
               checker_cmd="verus <generated unit>.rs (generated by tools/extract + contracts/*.vc from /repo on this run); units: " + ", ".join(r["unit"] for r in results),
               trusted_base=base + [f"contract assumed, body not verified: {t}" for t in trusted],
               back_end="verus/z3", contract_clauses=sum(r["clauses"] for r in results), functions_under_contract=fns,
               solver_ms=sum(r["smt_ms"] for r in results), external_body_items=ext, inlined_calls=sum(f["inlined"] for f in fns),
               dependency_contracts=fp, undecided=undec, failed=[dict(fn=t["fn"], msg=t["msg"], clause=t["text"][:300]) for t in viol],
               samples=[f"{f['function']} ({f['file']}:{f['line']}): {f['clauses']} clauses, {f['status']}" for f in fns[:5]])
    if any("probed" in r for r in results):
        cov["vacuity_probes"] = sum(r.get("probed", 0) for r in results)
    if bres:
        cov["bounded"] = {k: v for k, v in bres.items() if k != "replay"}
    lvl = level_of(prop)
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=lvl, coverage=cov,
              assumptions=base, wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


if __name__ == "__main__":
    sys.exit(main())
