"""Contract-based verification driver: extract /repo's current source, attach the contracts, run Verus."""
import copy, difflib, itertools, json, os, re, subprocess, hashlib, time, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EXTRACT = os.path.join(VERIF, "tools/extract")
RUST_ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), CARGO_NET_OFFLINE="true",
                RUSTUP_TOOLCHAIN="1.79.0-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
for _k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER"):
    RUST_ENV.pop(_k, None)

CLIENTS = ["TokenClient", "StellarAssetClient", "PriceFeedClient", "BackstopClient", "EmitterClient", "CometClient", "PoolFactoryClient"]
CLIENT_RETURNS = {
    "TokenClient.balance": "i128", "TokenClient.allowance": "i128", "TokenClient.decimals": "u32", "StellarAssetClient.balance": "i128",
    "PriceFeedClient.decimals": "u32", "PriceFeedClient.lastprice": "Option<PriceData>",
    "BackstopClient.pool_data": "PoolBackstopData", "BackstopClient.backstop_token": "Address", "BackstopClient.gulp_pool_emissions": "i128",
    "EmitterClient.get_last_distro": "u64", "PoolFactoryClient.is_pool": "bool",
    "CometClient.balance": "i128", "CometClient.total_supply": "i128", "CometClient.get_total_supply": "i128", "CometClient.dep_tokn_amt_in_get_lp_tokns_out": "i128", "CometClient.get_balance": "i128",
}
UNITS = {
    "emitter": dict(root="emitter/src/lib.rs"),
    "factory": dict(root="pool-factory/src/lib.rs"),
    "backstop": dict(root="backstop/src/lib.rs"),
    "pool": dict(root="pool/src/lib.rs"),
}


def fnv(s):
    h = 0xcbf29ce484222325
    for b in s.encode():
        h = ((h ^ b) * 0x100000001b3) & 0xffffffffffffffff
    return h


def build_extractor():
    exe = os.path.join(EXTRACT, "target/debug/extract")
    srcs = [os.path.join(EXTRACT, "src", f) for f in os.listdir(os.path.join(EXTRACT, "src"))]
    if os.path.exists(exe) and all(os.path.getmtime(s) <= os.path.getmtime(exe) for s in srcs):
        return exe
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=EXTRACT, env=RUST_ENV, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("cannot build the extractor:\n" + p.stderr[-4000:])
    os.utime(exe)
    return exe


# ------------------------------------------------------------------ contract files
class Contract:
    def __init__(self, path, params, ret, line):
        self.path, self.params, self.ret, self.line = path, params, ret, line
        self.requires, self.ensures = [], []      # (tags, text)
        self.loops = {}                            # n -> list of (kind, text)
        self.loopstart, self.loopend, self.looppre = {}, {}, {}
        self.start = self.end = ""
        self.anchored = []                         # (when, name, n, text)
        self.attrs = []
        self.hides = []                            # specification functions the solver need not unfold here
        self.nloops = None
        self.over = {}                             # loop -> what it walks, so that it is recognised wherever it stands
        self.trusted = False
        self.panics = []                           # (error variants or ["*"], tags, condition under which the function may reject)
        self.acc = []                              # (loop, expression a loop builds up): may be built in a local first
        self.nonzero = None                        # tags: no division by zero in this body
        self.perm = None                           # loop of the code -> loop of the contract, when there are more loops now
        self.alts = []                             # other proof texts for the same contract
        self.tags = set()

    @property
    def name(self):
        return self.path.split("::")[-1]


def parse_contracts(fname):
    cs, cur, sec, buf = [], None, None, []
    item, opt = None, ""

    def flush_text():
        nonlocal buf, sec
        if cur is None or sec is None:
            buf = []
            return
        t = "\n".join(buf)
        k = sec[0]
        if k == "start": cur.start += t + "\n"
        elif k == "end": cur.end += t + "\n"
        elif k == "loopstart": cur.loopstart[sec[1]] = cur.loopstart.get(sec[1], "") + t + "\n"
        elif k == "looppre": cur.looppre[sec[1]] = cur.looppre.get(sec[1], "") + t + "\n"
        elif k == "loopend": cur.loopend[sec[1]] = cur.loopend.get(sec[1], "") + t + "\n"
        elif k in ("after", "before"): cur.anchored.append([k, sec[1], sec[2], t])
        buf = []

    def add_item(tags, text):
        if sec[0] == "requires": cur.requires.append([tags, text])
        elif sec[0] == "ensures": cur.ensures.append([tags, text])
        elif sec[0] == "loop": cur.loops.setdefault(sec[1], []).append([sec[2] if len(sec) > 2 else "invariant", text, tags, opt])

    for ln, raw in enumerate(open(fname), 1):
        line = raw.rstrip("\n")
        if line.startswith("#"):
            continue
        m = re.match(r"^fn\s+([\w:]+)\s*\(([^)]*)\)\s*(?:->\s*(\w+))?\s*$", line)
        if m:
            flush_text()
            cur = Contract(m.group(1), [p.strip() for p in m.group(2).split(",") if p.strip()], m.group(3) or "r", ln)
            cs.append(cur)
            sec = None
            continue
        if cur is None:
            continue
        if line.strip() == "alt":
            flush_text()
            sec = None
            base = cs[-1]
            cur = copy.deepcopy(base)
            cur.alts, cur.start, cur.end, cur.anchored = [], "", "", []
            base.alts.append(cur)
            continue
        m = re.match(r"^(requires|ensures|start|end|trusted)\s*$", line)
        if m:
            flush_text()
            if m.group(1) == "trusted":
                cur.trusted = True
                sec = None
            else:
                sec = (m.group(1),)
            continue
        m = re.match(r"^(loop|loopstart|loopend|looppre)\s+(\d+)\s*(\w+)?\s*$", line)
        if m:
            flush_text()
            sec = (m.group(1), int(m.group(2)), m.group(3) or "invariant")
            continue
        m = re.match(r"^(after|before)\s+(\w+)\s+(\d+)\s*$", line)
        if m:
            flush_text()
            sec = (m.group(1), m.group(2), int(m.group(3)))
            continue
        m = re.match(r"^over\s+(\d+)\s+(.*\S)\s*$", line)
        if m:
            flush_text()
            cur.over[int(m.group(1))] = m.group(2)
            sec = None
            continue
        m = re.match(r"^acc\s+(\d+)\s+(\S+)\s*$", line)
        if m:
            flush_text()
            cur.acc.append((int(m.group(1)), m.group(2)))
            sec = None
            continue
        m = re.match(r"^attr\s+(.*)$", line)
        if m:
            flush_text()
            cur.attrs.append(m.group(1))
            continue
        m = re.match(r"^hide\s+(.*)$", line)
        if m:
            flush_text()
            cur.hides += m.group(1).split()
            continue
        m = re.match(r"^panics\s+\[([^\]]*)\]\s+([\w, *]+?):\s+(.*)$", line)
        if m:
            flush_text()
            tags = set(m.group(1).split())
            cur.tags |= tags
            cur.panics.append((re.split(r"[ ,]+", m.group(2)), tags, m.group(3)))
            sec = None
            continue
        m = re.match(r"^nonzero\s+(.*)$", line)
        if m:
            flush_text()
            cur.nonzero = set(m.group(1).split())
            cur.tags |= cur.nonzero
            continue
        m = re.match(r"^loops\s+(.*)$", line)
        if m:
            flush_text()
            cur.nloops = m.group(1).split()
            continue
        if sec is None:
            if line.strip():
                raise ValueError(f"{fname}:{ln}: text outside a section: {line}")
            continue
        if sec[0] in ("requires", "ensures", "loop"):
            m = re.match(r"^-([?|]?) (?:\[([^\]]*)\]\s*)?(.*)$", line)
            if m:
                opt = m.group(1)
                line = "- " + line[len(opt) + 2:]
                m = re.match(r"^- (?:\[([^\]]*)\]\s*)?(.*)$", line)
            if m and (m.group(1) is None or re.fullmatch(r"[A-Z]\d+( [A-Z]\d+)*", m.group(1))):
                tags = set((m.group(1) or "").split())
                cur.tags |= tags
                add_item(tags, m.group(2))
            elif m:
                add_item(set(), line[2:])
            elif line.strip():
                lst = {"requires": cur.requires, "ensures": cur.ensures}.get(sec[0]) if sec[0] != "loop" else cur.loops[sec[1]]
                lst[-1][1] += "\n" + line
        else:
            buf.append(line)
    flush_text()
    return cs


def expand(t, where):
    """shorthand of the contract language; `where`: 'sig' (requires/ensures), 'body'"""
    t = re.sub(r'sym!\("([^"]*)"\)', lambda m: f"{fnv(m.group(1))}u64", t)
    if where == "spec":
        return t
    t = re.sub(r"\bw0\b", "old(e)@", t)
    t = re.sub(r"\bw1\b", "final(e)@", t)
    if where == "body":
        t = re.sub(r"\bw\b", "e@", t)
    return t


# ------------------------------------------------------------------ extraction
def extract(unit, contracts, repo=None):
    exe = build_extractor()
    cfg = dict(root=os.path.join(repo or REPO, UNITS[unit]["root"]), skip_modules=["testutils", "dependencies", "test"],
               clients=CLIENTS, client_returns=CLIENT_RETURNS,
               contracts=[dict(path=c.path, params=c.params, end=bool(c.end.strip()), anchors=sorted({a[1] for d in [c, *c.alts] for a in d.anchored})) for c in contracts])
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(cfg, f)
    try:
        p = subprocess.run([exe, f.name], capture_output=True, text=True)
        if p.returncode != 0:
            raise RuntimeError("extractor failed: " + p.stderr[-3000:])
        return json.loads(p.stdout)
    finally:
        os.unlink(f.name)


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self):
        self.lines = []
        self.meta = {}      # line number (1-based) -> dict(fn, kind, tags, text)
        self.ranges = []    # (first, last, contract path)
        self.nonzero = {}

    def add(self, text, meta=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if meta:
                self.meta[len(self.lines)] = meta

    def text(self):
        return "\n".join(self.lines) + "\n"


HEADER = """#![verifier::exec_allows_no_decreases_clause]
#![verifier::loop_isolation(false)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unreachable_code, non_camel_case_types, non_snake_case, unused_parens, unused_braces, path_statements, clippy::all)]
pub mod m0 {
USES
"""
USES = """use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
verus! {
"""
BROADCAST = "broadcast use {crate::m0::axiom_enc, crate::m0::axiom_enc_opt, crate::m0::axiom_entries, crate::m0::axiom_smap_finite, crate::m0::axiom_svec_ext, crate::m0::axiom_smap_ext};\n"
BROADCAST2 = BROADCAST.replace("};", ", crate::m1::bc_mul_zero_l, crate::m1::bc_mul_zero_r};")


def gen_unit(unit, contracts, ex, closure, broken=(), probe=False, adapt=None):
    """closure: contract paths whose bodies are verified; the others keep only their contract"""
    g = Gen()
    g.add(HEADER.replace("USES", USES))
    g.add(open(os.path.join(VERIF, "contracts/prelude.rs")).read())
    tn = [t["name"] for t in ex["type_names"]]
    keys = [t["name"] for t in ex["type_names"] if t["name"].endswith("DataKey")]
    g.add("pub enum SKey { Sym(u64), " + "".join(f"K_{k}({k}), " for k in keys) + "}")
    for k in keys:
        g.add(f"impl SK for {k} {{ open spec fn sk(&self) -> SKey {{ SKey::K_{k}(*self) }} }}")
    g.add(ex["types"])
    for t in tn:
        g.add(f"impl PartialEq for {t} {{ #[verifier::external_body] fn eq(&self, o: &{t}) -> (r: bool) {{ unimplemented!() }} }}")
        g.add(f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {t} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{t}) -> bool {{ *self == *o }} }}")
    g.add(ex["consts"])
    pu = os.path.join(VERIF, "contracts", f"prelude_{unit}.rs")
    if os.path.exists(pu):
        g.add(open(pu).read())
    g.add("} // verus!\n}\npub mod m1 {\nuse crate::m0::*;\n" + USES + BROADCAST)
    for f in UNITS[unit].get("specs", ["common.rs", unit + ".rs"]):
        p = os.path.join(VERIF, "contracts", f)
        if os.path.exists(p):
            g.add(expand(open(p).read(), "spec"), dict(kind="spec", fn=f))
    g.add("} // verus!\n}\npub mod m2 {\n// ================= extracted code =================\nuse crate::m0::*;\nuse crate::m1::*;\n" + USES + BROADCAST2)
    byc = {c.path: c for c in contracts}
    for f in ex["fns"]:
        c = byc[f["contract"]]
        if c.nonzero is not None:
            g.nonzero[c.path] = sorted(c.nonzero)
        body_on = c.path in closure and c.path not in broken and not f["errs"] and not c.trusted
        first = len(g.lines) + 1
        if f["owner"]:
            g.add(f"impl {f['owner']} {{")
        g.add(f"// {os.path.relpath(f['file'], REPO)}:{f['line']}  {f['path']}")
        for a in c.attrs:
            g.add(a)
        if not body_on:
            g.add("#[verifier::external_body]")
        ps = ([f["recv"]] if f["recv"] else []) + [f"{p['name']}: {p['ty']}" for p in f["params"]]
        hasret = f["ret"] is not None
        ret = f" -> ({c.ret}: {f['ret']})" if hasret else ""
        g.add(f"pub fn {f['emit']}{f['generics']}({', '.join(ps)}){ret}", dict(kind="sig", fn=c.path))
        if c.requires:
            g.add("    requires")
            for tags, t in c.requires:
                g.add("        " + expand(t, "sig") + ",", dict(kind="requires", fn=c.path, tags=sorted(tags), text=t))
        if probe and body_on:
            g.add("    ensures false,", dict(kind="probe", fn=c.path, tags=[], text="false"))
        elif c.ensures:
            g.add("    ensures")
            for tags, t in c.ensures:
                g.add("        " + expand(t, "sig") + ",", dict(kind="ensures", fn=c.path, tags=sorted(tags), text=t))
        if not body_on:
            g.add("{ unimplemented!() }")
        else:
            try:
                f["unit"] = unit
                ad = (adapt or {}).get(c.path)
                body = place(f, adapted(c.alts[ad["alt"] - 1] if ad and ad.get("alt") else c, ad))
            except LookupError as x:
                f["errs"].append(str(x))
                f["misplaced"] = True
                g.add("{ assume(false); loop {} }")
                body = None
            if body is not None:
                n0 = len(g.lines)
                g.add(body, dict(kind="body", fn=c.path))
                for i in range(n0, len(g.lines)):
                    m = re.search(r"//@I (\S+)", g.lines[i])
                    if m:
                        g.meta[i + 1] = dict(kind="body", fn=c.path, inv=m.group(1), text=g.lines[i][:m.start()].strip())
                    m = re.search(r"//@T (.*)$", g.lines[i])
                    if m:
                        inv = g.meta[i + 1].get("inv")
                        tg, _, rj = m.group(1).partition(" // rejection ")
                        g.meta[i + 1] = dict(kind="body", fn=c.path, tags=tg.split(), text=re.sub(r"\s*//@I.*", "", g.lines[i][:m.start()]).strip(), rej=rj, inv=inv)
        if f["owner"]:
            g.add("}")
        g.ranges.append((first, len(g.lines), c.path))
    g.add("} // verus!\n}\nfn main() {}")
    return g


def bodies(g):
    """the functions whose bodies (not only contracts) the generated unit hands to the verifier"""
    return {m["fn"] for m in g.meta.values() if m.get("kind") == "body"}


def proof_block(t):
    """lines `ghost x = ...` become ghost variables visible to later proof text; the rest is a proof block"""
    gh, pr = [], []
    for l in expand(t, "body").split("\n"):
        (gh if re.match(r"^ghost\s", l) else pr).append(l)
    out = "".join("let " + l + "\n" for l in gh)
    if any(l.strip() for l in pr):
        out += "proof {\n" + "\n".join(pr) + "\n}\n"
    return out


def tagged(t, tags, cid):
    """mark every line of a loop clause with its number and the properties it carries (read back by `gen_unit`)"""
    return "\n".join(l + "  //@I " + cid + (" //@T " + " ".join(sorted(tags)) if tags else "") for l in t.split("\n"))


def adapted(c, ad):
    """the contract with another proof: loop clauses left out or renamed (what decides, the postconditions and rejection
    clauses, stays as it is); clauses marked `-|` are used only here"""
    c = copy.deepcopy(c)
    for n in c.loops:
        c.loops[n] = [x[:4] + [f"{n}.{i}"] for i, x in enumerate(c.loops[n]) if (ad or x[3] != "|") and f"{n}.{i}" not in (ad or {}).get("drop", ())]
    if not ad:
        return c
    if ad.get("loopmap"):
        # the function has more loops now: the ones the contract speaks about are these
        lm, nl = ad["loopmap"], ad["nl"]
        rest = [k for k in range(nl) if k not in lm.values()]
        c.perm = {**{k: n for n, k in lm.items()}, **{k: len(lm) + i for i, k in enumerate(rest)}}
        for n in range(nl):
            c.loops.setdefault(n, [])
        c.nloops, c.over = None, {}

    def ren(t, n=None):
        for (k, path), y in ad.get("acc", {}).items():
            if k == n:
                t = re.sub(r"(?<![.\w])" + re.escape(path) + r"\b", y, t)
        t = "\n".join(l for l in t.split("\n") if expand(l, "body").strip() not in ad["lines"])
        return re.sub(r"(?<![.\w])(" + "|".join(map(re.escape, ad["rename"])) + r")\b", lambda m: ad["rename"][m.group(1)], t) if ad["rename"] else t
    for n in c.loops:
        for x in c.loops[n]:
            x[1] = ren(x[1], n)
    for d in (c.loopstart, c.loopend, c.looppre):
        for n in d:
            d[n] = ren(d[n], None if d is c.looppre else n)
    # a rejection clause follows a renamed local only where the proof that leads to the postconditions does
    role = " ".join([x[1] for l in c.loops.values() for x in l] + [t for *_, t in c.anchored])
    keep = dict(ad["rename"])
    ad_rename = {x: y for x, y in keep.items() if re.search(r"(?<![.\w])%s\b" % y, role)}
    if ad_rename:
        c.panics = [(a, b, re.sub(r"(?<![.\w])(" + "|".join(map(re.escape, ad_rename)) + r")\b", lambda m: ad_rename[m.group(1)], t)) for a, b, t in c.panics]
    c.end = ren(c.end)
    c.anchored = [(w, n, k, ren(t)) for w, n, k, t in c.anchored]
    return c


def reorder_loops(b, nl, over):
    """number the loops as in the contract when each is recognised by what it walks; otherwise by position"""
    walked = {}
    for n in range(nl):
        m = re.search(r"let it_s%d = (.*?);" % n, b, re.S)
        if not m:
            return b
        t = m.group(1)
        for _ in range(3):  # look through local names
            t2 = re.sub(r"(?<![.\w])([a-z_]\w*)\b(?!\s*[(:])", lambda w: next((d.group(1) for d in [re.search(r"let (?:mut )?%s(?:: [^=;]*)? = ([^;]*);" % w.group(1), b[:m.start()])] if d), w.group(0)) if not w.group(1).startswith("it_") else w.group(0), t)
            if t2 == t:
                break
            t = t2
        walked[n] = t
    perm = {}
    for n, t in walked.items():
        hit = [k for k, pat in over.items() if re.search(pat, t)]
        if len(hit) != 1:
            return b
        perm[n] = hit[0]
    if sorted(perm.values()) != list(range(nl)) or all(k == v for k, v in perm.items()):
        return b
    return renumber(b, perm)


def renumber(b, perm):
    b = re.sub(r"\bit_(s|i|hi)(\d+)\b", lambda m: f"it_{m.group(1)}{perm[int(m.group(2))]}", b)
    return re.sub(r"__loop_(start|end)!\((\d+)\)", lambda m: f"__loop_{m.group(1)}!({perm[int(m.group(2))]})", b)


def body_of(f, c):
    b = f["body"]
    b = b[b.index("{"):]
    nl = len(f["loops"])
    if c.perm:
        return renumber(b, c.perm)
    return reorder_loops(b, nl, c.over) if c.over and len(c.over) == nl else b


def place(f, c):
    """put invariants and proof text at their markers"""
    nl = len(f["loops"])
    b = body_of(f, c)
    want = set(c.loops) | set(c.loopstart) | set(c.loopend)
    if want and max(want) >= nl:
        raise LookupError(f"{c.path}: loop {max(want)} not found (the function has {nl})")
    if c.nloops is not None and c.nloops != f["loops"]:
        raise LookupError(f"{c.path}: loops are {f['loops']}, the contract was written for {c.nloops}")
    if c.nloops is None and nl != len(c.loops):
        raise LookupError(f"{c.path}: {nl} loops, invariants for {len(c.loops)}")
    out = b
    if c.nonzero is not None:
        out = re.sub(r"\b(fp_mul_floor|fp_mul_ceil|fp_div_floor|fp_div_ceil|ck_div|ck_rem)\(", r"\1_nz(", out)
    for n in range(nl):
        m = re.search(r"\{\s*__loop_start!\(%d\);" % n, out)
        inv = ""
        kinds = {}
        for k, t, tags, _, cid in c.loops.get(n, []):
            kinds.setdefault(k, []).append(tagged("    " + expand(t, "body") + ",", tags, cid) + "\n")
        for k in ("invariant_except_break", "invariant", "ensures", "decreases"):
            if k in kinds:
                inv += f"\n{k}\n" + "".join(kinds[k])
        rep = inv + "{\n" + (proof_block(c.loopstart[n]) if n in c.loopstart else "")
        out = out[:m.start()] + rep + out[m.end():]
        if n in c.looppre:
            w = max(out.rfind("while ", 0, m.start()), out.rfind("loop ", 0, m.start()))
            out = out[:w] + proof_block(c.looppre[n]) + out[w:]
        out = out.replace(f"__loop_end!({n});", proof_block(c.loopend[n]) if n in c.loopend else "")
    used = set()

    def entry(t):
        """parameters in a rejection clause stand for their value on entry, whatever the code around the panic calls them"""
        def one(m):
            used.add(m.group(0))
            return "g0__" + m.group(0)
        ps = [p["name"] for p in f["params"] if p["name"] != "e"]
        return re.sub(r"(?<![.\w])(?<!old\()(" + "|".join(map(re.escape, ps)) + r")\b(?!\s*[:(])", one, t) if ps else t

    # rejections: the condition under which the function may refuse, at every explicit panic
    def rej(m):
        code = m.group(1)
        cl = [p for p in c.panics if code in p[0]] or [p for p in c.panics if "*" in p[0]]
        return "".join("proof {\n" + f"assert({entry(expand(t, 'body'))});  //@T {' '.join(sorted(tags))} // rejection {code}\n" + "}\n" for _, tags, t in cl if t != "true")
    out = re.sub(r'__panic!\("([^"]*)"\);', rej, out)
    # anchored proof text
    todo = {(w, n, k): t for w, n, k, t in c.anchored}
    cnt = {}

    def sub(m):
        w = m.group(1)
        s = ""
        for nm in m.group(2).split(","):
            cnt[(w, nm)] = cnt.get((w, nm), -1) + 1
            t = todo.pop((w, nm, cnt[(w, nm)]), None)
            if t is not None:
                s += proof_block(t)
        return s
    out = re.sub(r'__(before|after)!\("([^"]*)"\);', sub, out)
    if todo:
        raise LookupError(f"{c.path}: proof anchors not found: {sorted(todo)}")
    # mutable shadowing first, then the start proof
    pre = "{\n" + "".join(f"hide({h});\n" for h in c.hides) + "".join(hide_stmt(f["unit"], h, i) for i, h in enumerate(c.hides))
    if c.start.strip():
        pre += proof_block(c.start)
    pre += "".join(f"let ghost g0__{n} = {n};\n" for n in sorted(used))
    inner = out[1:out.rindex("}")]
    if c.end.strip():
        rt = f["ret"]
        if rt:
            return pre + f"let ret__: {rt} = {{\n{inner}\n}};\n" + proof_block(c.end) + "ret__\n}"
        return pre + inner + "\n;" + proof_block(c.end) + "}"
    return pre + inner + "\n}"


_SIGS = {}


def hide_stmt(unit, name, i):
    """hide a specification function, and mention it so that it is in the function's context whatever the code calls"""
    if unit not in _SIGS:
        txt = "".join(open(os.path.join(VERIF, "contracts", f)).read() for f in UNITS[unit].get("specs", ["common.rs", unit + ".rs"]))
        _SIGS[unit] = {m.group(1): m.group(2) for m in re.finditer(r"spec fn (\w+)\(((?:[^()]|\([^()]*\))*)\) ->", txt)}
    ps = _SIGS[unit].get(name)
    if ps is None:
        return ""
    args = ", ".join(p.split(":")[0].strip() for p in re.split(r",(?![^<(]*[>)])", ps) if ":" in p)
    return f"let ghost h__{i} = |{ps}| {name}({args});\n"


# ------------------------------------------------------------------ running Verus
def run_verus(text, workdir, name, timeout=700, extra=()):
    path = os.path.join(workdir, name + ".rs")
    open(path, "w").write(text)
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["verus", path, "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "30", "--num-threads", "8"] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir, env=env)
        out, err, to = p.stdout, p.stderr, False
    except subprocess.TimeoutExpired as x:
        out, err, to = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), "", True
    res = dict(cmd=" ".join(cmd), wall=time.time() - t0, timeout=to, diags=[], summary=None, raw_err=err[-6000:])
    i = out.find("{")
    if i >= 0:
        try:
            res["summary"] = json.loads(out[i:])
        except Exception:
            pass
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("$message_type") == "diagnostic" or "message" in d:
                res["diags"].append(d)
    return res


VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic", "possible division",
              "loop ensures not satisfied", "unable to prove", "split assertion", "cannot show invariant", "recommendation not met", "possible bit shift", "decreases not satisfied", "failed this postcondition")


def classify(g, res):
    """-> (failures: list of dict(fn, kind, msg, tags, text, line), toolerr: list of dict(fn or None, msg))"""
    fails, tool = [], []
    for d in res["diags"]:
        if d.get("level") != "error":
            continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        spans = d.get("spans", [])
        fn = None
        prim = [s for s in spans if s.get("is_primary")] or spans
        for s in prim:
            for a, b, p in g.ranges:
                if a <= s["line_start"] <= b:
                    fn = p
        isver = any(msg.startswith(m) or m in msg for m in VERIF_MSGS)
        if isver:
            tags, text, inv, pline = None, "", None, None
            target = None
            for s in spans:
                me = g.meta.get(s["line_start"])
                lab = s.get("label") or ""
                if me and me["kind"] in ("ensures", "probe") and ("failed this postcondition" in lab or "failed this" in lab):
                    target = me
                elif me and me["kind"] == "requires" and "precondition" in lab:
                    text = "precondition of " + me["fn"] + ": " + me["text"]
            # the function being verified: for a postcondition it is the function of the clause
            if target:
                fn = target["fn"]
                tags, text = target["tags"], target["text"]
            else:
                for s in spans:
                    me = g.meta.get(s["line_start"])
                    if me and me["kind"] == "body":
                        fn = me["fn"]
                        if "invariant" in msg and me.get("inv"):
                            inv = me["inv"]
                        if "assertion" in msg and not me.get("rej"):
                            pline = g.lines[s["line_start"] - 1].strip()
                        if me.get("tags") and "invariant" in msg:
                            tags, text = me["tags"], "loop invariant: " + me["text"]
                        if me.get("tags") and "assertion" in msg and me.get("rej"):
                            tags, text = me["tags"], f"may reject ({me['rej']}) only if: " + me["text"]
                        src = " ".join(x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1] for x in s.get("text", []))
                        if fn in g.nonzero and "precondition" in msg and "_nz(" in src:
                            tags, text = g.nonzero[fn], "divisor may be zero: " + " ".join(src.split())[:200]
                        if not text:
                            text = " ".join(x["text"].strip() for x in s.get("text", []))[:300]
            fails.append(dict(fn=fn, msg=msg, tags=tags, text=text, line=prim[0]["line_start"] if prim else 0, inv=inv, pline=pline))
        else:
            tool.append(dict(fn=fn, msg=msg, line=prim[0]["line_start"] if prim else 0))
    if res["timeout"]:
        tool.append(dict(fn=None, msg="verus timed out", line=0))
    return fails, tool


# ------------------------------------------------------------------ another proof of the same contract
def droppable(c, cid):
    """loop clauses are steps of the proof; what they lead to is stated as a postcondition"""
    return True


def reprove(unit, contracts, ex, broken, path, fails, tool, wd, deadline):
    """the proof text (loop invariants, assertions) fits the shape the function had; where the shape changed, look for
    another proof of the same postconditions: leave out the loop clauses that no longer hold, use the alternative ones, and
    read a local name that is gone as one of the new locals. -> (summary, what was changed) once everything is accepted"""
    base = next(x for x in contracts if x.path == path)
    f = next(x for x in ex["fns"] if x["contract"] == path)
    errs = list(f["errs"])
    if errs and not f.get("misplaced"):
        return None
    budget = [12]
    nl = len(f["loops"])
    maps = [None]
    if errs and base.nloops is None and 0 <= len(base.loops) < nl <= 5 and set(base.loops) == set(range(len(base.loops))):
        maps = [dict(enumerate(k)) for k in itertools.combinations(range(nl), len(base.loops))][:6]
    for alt, lm in [(a, m) for m in maps for a in range(len(base.alts) + 1)]:
        f["errs"] = []
        if alt == 0 and errs and lm is None:
            continue
        ok = reprove1(unit, contracts, ex, broken, path, fails, tool, wd, deadline, alt, budget, lm)
        if ok and not f["errs"]:
            return ok
    f["errs"] = errs
    return None


def reprove1(unit, contracts, ex, broken, path, fails, tool, wd, deadline, alt, budget, lm=None):
    c = next(x for x in contracts if x.path == path)
    f = next(x for x in ex["fns"] if x["contract"] == path)
    if alt:
        c = c.alts[alt - 1]
    if not (lm is not None or c.loops or c.anchored or c.end or c.start):
        return None
    txt = "\n".join([x[1] for l in c.loops.values() for x in l] + list(c.loopstart.values()) + list(c.loopend.values()) + list(c.looppre.values()) + [c.start, c.end] + [a[3] for a in c.anchored])
    gone = sorted({m.group(1) for t in tool if t["fn"] == path for m in [re.search(r"cannot find value `(\w+)`", t["msg"])] if m})
    if any("cannot find value" not in t["msg"] for t in tool if t["fn"] == path):
        return None
    if alt:
        txt_words = set(re.findall(r"\w+", txt))
        gone = [x for x in gone if x in txt_words]
    words = set(re.findall(r"\w+", txt))
    bound = re.findall(r"let (?:mut )?(\w+)\b", f["body"]) + [y for m in re.finditer(r"let \(([^()=;]*)\)", f["body"]) for y in re.findall(r"(?:mut )?([a-z]\w*)", m.group(1).replace("mut ", "")) if y != "_"]
    locs = [x for x in dict.fromkeys(bound) if x not in words and not re.match(r"(it_|inl_|self_|try_|ck_|[A-Z])", x)]
    muts = set(re.findall(r"let mut (\w+)\b", f["body"])) | {y for m in re.finditer(r"let \(([^()=;]*)\)", f["body"]) for y in re.findall(r"mut (\w+)", m.group(1))}
    cand = []
    for x in gone:
        near = sorted(locs, key=lambda y: -difflib.SequenceMatcher(None, x, y).ratio())
        cand.append([y for y in near if y in muts][:4] + [y for y in near if y not in muts][:3] + [None])
    combos = [k for k in itertools.product(*cand) if len([y for y in k if y]) == len({y for y in k if y})]
    combos.sort(key=lambda k: sum(v.index(y) for v, y in zip(cand, k)))
    # what a loop builds up, when it builds it in a local now
    b = body_of(f, c)
    accs = []
    for n, what in c.acc:
        m = re.search(r"__loop_start!\(%d\);(.*)__loop_end!\(%d\);" % (n, n), b, re.S)
        if m and not re.search(r"(?<![.\w])" + re.sub(r"\\\.", r"\\s*\\.\\s*", re.escape(what)) + r"\b", m.group(1)):
            mod = [y for y in locs if y in muts and re.search(r"(?<![.\w])%s\s*(=[^=]|\.\s*(set|vset|vpush|push_back)\b)|&\s*mut\s+%s\b" % (y, y), m.group(1))]
            accs.append([((n, what), y) for y in mod] or [None])
    bylocal = {a[0][1] for l in accs for a in l if a}
    combos = [(k, a) for a in itertools.product(*accs) for k in combos]
    if bylocal & set(gone):
        # the name is still there after the loop; only the loop uses another one
        combos = [(tuple("@loop" if x in bylocal else y for x, y in zip(gone, k)), a) for k, a in combos] + [(k, ()) for k, a in combos]
    combos = list(dict.fromkeys(combos))
    if lm is None and not alt and not gone and not (fails and c.loops):
        return None
    runs = 0
    for combo, al in combos[:10]:
        ad = dict(rename={x: y for x, y in zip(gone, combo) if y and y != "@loop"}, drop=set(), lines=set(), acc=dict(a for a in al if a), alt=alt, loopmap=lm, nl=len(f["loops"]))
        lost = [x for x, y in zip(gone, combo) if y is None]
        for x in lost:
            for n, l in c.loops.items():
                for i, cl in enumerate(l):
                    if re.search(r"\b%s\b" % x, cl[1]):
                        if not droppable(c, f"{n}.{i}"):
                            ad = None
                            break
                        ad["drop"].add(f"{n}.{i}")
                if ad is None:
                    break
            if ad is None:
                break
            ad["lines"] |= {expand(l, "body").strip() for l in txt.split("\n") if re.search(r"\b%s\b" % x, l) and re.match(r"\s*assert\(.*\);$", l)}
        if ad is None:
            continue
        for _ in range(5):
            left = deadline - time.time()
            if left < 15 or budget[0] <= 0:
                return None
            budget[0] -= 1
            runs += 1
            g = gen_unit(unit, contracts, ex, {path}, broken=set(broken) - {path}, adapt={path: ad})
            r = run_verus(g.text(), wd, f"{unit}_re{alt}_{runs}", timeout=min(200, left), extra=["--rlimit", "40"])
            f2, t2 = classify(g, r)
            if t2 and not r["timeout"]:
                # a clause about a name that is not there
                ids = {(g.meta.get(t["line"]) or {}).get("inv") for t in t2}
                if None not in ids and all(droppable(c, i) for i in ids) and ids - ad["drop"]:
                    ad["drop"] |= ids
                    continue
            if r["timeout"] or t2:
                break
            if not f2:
                vr = (r["summary"] or {}).get("verification-results", {})
                if not vr.get("verified") or path not in bodies(g):
                    break
                return vr, ad
            new = {t["inv"] for t in f2 if t["fn"] == path and t["inv"] and droppable(c, t["inv"])} - ad["drop"]
            lines = {t["pline"] for t in f2 if t["fn"] == path and t["pline"] and re.match(r"assert\(.*\);$", t["pline"])} - ad["lines"]
            if not new and not lines:
                break
            ad["drop"] |= new
            ad["lines"] |= lines
    return None
