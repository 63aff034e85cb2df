"""soroban-fixed-point-math: the contracts of contracts/prelude.rs (fp_mul_floor, fp_mul_ceil, fp_div_floor,
fp_div_ceil) discharged against the text of the crate version that /repo's Cargo.lock pins.  The functions are
sliced verbatim out of the crate's i128.rs and fixed_point.rs; only `ensures` clauses and proof blocks are added."""
import os, re, glob
from .vc import REPO, run_verus, classify

HEAD = """use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
verus!{
pub open spec fn cdiv(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
proof fn lemma_neg(r: int, z: int)
    requires z > 0, r <= 0
    ensures -((-r) / z) == cdiv(r, z), r / z == -((-r) / z) - (if r % z > 0 { 1int } else { 0 })
{
    lemma_fundamental_div_mod(r, z); lemma_mod_bound(r, z); lemma_fundamental_div_mod(-r, z); lemma_mod_bound(-r, z);
    let (a, b, p, q) = (r / z, r % z, (-r) / z, (-r) % z);
    assert(z * (a + p) == -(b + q)) by (nonlinear_arith) requires r == z * a + b, -r == z * p + q;
    assert(a + p == 0 || a + p == -1) by (nonlinear_arith) requires z * (a + p) == -(b + q), 0 <= b < z, 0 <= q < z, z > 0;
    assert(a + p == 0 ==> b + q == 0) by (nonlinear_arith) requires z * (a + p) == -(b + q);
    assert(a + p == -1 ==> b + q == z) by (nonlinear_arith) requires z * (a + p) == -(b + q);
}
proof fn lemma_range(r: int, z: int)
    requires z > 0
    ensures r <= 0 ==> r / z >= r, r > 0 ==> 0 <= r / z && (r % z > 0 ==> r / z < r)
{
    lemma_fundamental_div_mod(r, z); lemma_mod_bound(r, z);
    let (a, b) = (r / z, r % z);
    if r <= 0 { assert(a >= r) by (nonlinear_arith) requires r == z * a + b, r <= 0, z > 0, 0 <= b < z; }
    else { assert(a >= 0) by (nonlinear_arith) requires r == z * a + b, r > 0, z > 0, 0 <= b < z; assert(b > 0 ==> a < r) by (nonlinear_arith) requires r == z * a + b, z > 0, 0 <= b < z, a >= 0; }
}
"""
PROOF = "proof { if z > 0 && r <= 0 { lemma_neg(r as int, z as int); } if z > 0 { lemma_range(r as int, z as int); } } "


def crate_dir():
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    m = re.search(r'name = "soroban-fixed-point-math"\nversion = "([^"]+)"', lock)
    if not m:
        return None, None
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    d = sorted(glob.glob(os.path.join(home, "registry/src/*/soroban-fixed-point-math-" + m.group(1))))
    return m.group(1), (d[0] if d else None)


def item(src, pat):
    m = re.search(pat, src)
    i, n = src.index("{", m.start()), 0
    for j in range(i, len(src)):
        n += (src[j] == "{") - (src[j] == "}")
        if n == 0:
            return src[m.start():j + 1]
    raise ValueError(pat)


def contract(z, f, x):
    return f"match out {{ Some(v) => {z} != 0 && ({z} > 0 ==> v as int == {f}), None => {z} == 0 || !(i128::MIN <= {x} <= i128::MAX) || {z} < 0 }}"


def with_contract(f, c, pr=""):
    h, b = f.split("{", 1)
    h = h.replace("-> Option<i128>", "-> (out: Option<i128>)").replace("pub(crate) ", "")
    return h + "\n    ensures " + c + "\n{ " + pr + b


def generate(d):
    s, t = (open(os.path.join(d, "src", f)).read() for f in ("i128.rs", "fixed_point.rs"))
    o = [HEAD, item(t, r"pub trait FixedPoint\b")]
    fn = lambda n: item(s, r"(pub\(crate\) )?fn " + n + r"\(")
    o.append(with_contract(fn("div_floor"), contract("z", "r as int / z as int", "r"), PROOF))
    o.append(with_contract(fn("div_ceil"), contract("z", "cdiv(r as int, z as int)", "r"), PROOF))
    o.append(with_contract(fn("mul_div_floor"), contract("z", "(x * y) / z as int", "x * y")))
    o.append(with_contract(fn("mul_div_ceil"), contract("z", "cdiv(x * y, z as int)", "x * y")))
    im = item(s, r"impl FixedPoint for i128 ")
    for n, z, f, x in (("fixed_mul_floor", "denominator", "(self * y) / denominator as int", "self * y"), ("fixed_mul_ceil", "denominator", "cdiv(self * y, denominator as int)", "self * y"),
                       ("fixed_div_floor", "y", "(self * denominator) / y as int", "self * denominator"), ("fixed_div_ceil", "y", "cdiv(self * denominator, y as int)", "self * denominator")):
        b = item(im, r"fn " + n + r"\(")
        im = im.replace(b, with_contract(b, contract(z, f, x)))
    o.append(im)
    return "\n".join(o) + "\n}\nfn main() {}\n"


def run(wd):
    """-> dict(status, detail, verified)"""
    try:
        v, d = crate_dir()
        if d is None:
            return dict(status="assumed", detail="crate source not found", verified=0)
        r = run_verus(generate(d), wd, "fixedpoint", timeout=120)
        vr = (r["summary"] or {}).get("verification-results", {})
        ok = bool(vr.get("success"))
        return dict(status="discharged" if ok else "assumed", crate=f"soroban-fixed-point-math {v}", verified=vr.get("verified", 0), wall_s=round(r["wall"], 2),
                    detail="8 functions of the crate's own source verified against the contracts of contracts/prelude.rs" if ok else "the crate's source was not accepted: " + r["raw_err"][-300:])
    except Exception as x:
        return dict(status="assumed", detail=f"{type(x).__name__}: {x}"[:300], verified=0)
