// specification helpers shared by all units
pub open spec fn k_sym(id: u64) -> SKey { SKey::Sym(id) }
/// nothing outside the keys selected by `f` changed
pub open spec fn only(m0: Map<SKey, SVal>, m1: Map<SKey, SVal>, f: spec_fn(SKey) -> bool) -> bool {
    forall|k: SKey| #![trigger m1.contains_key(k)] #![trigger m1[k]] !f(k) ==> m1.contains_key(k) == m0.contains_key(k) && (m0.contains_key(k) ==> m1[k] == m0[k])
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn no_dup<T>(s: Seq<T>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j] }
pub proof fn lemma_mul_div(a: int, b: int, d: int)
    requires d > 0
    ensures mul_floor(a, b, d) * d <= a * b < mul_floor(a, b, d) * d + d, mul_floor(a, b, d) == (a * b) / d
{
    let x = a * b;
    lemma_fundamental_div_mod(x, d); lemma_mod_bound(x, d);
    assert(mul_floor(a, b, d) * d == d * (x / d)) by (nonlinear_arith) requires mul_floor(a, b, d) == x / d;
}
pub proof fn lemma_mul_nonneg(a: int, b: int, d: int)
    requires d > 0, a >= 0, b >= 0
    ensures mul_floor(a, b, d) >= 0
{
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
    assert((a * b) / d >= 0) by (nonlinear_arith) requires d > 0, a * b >= 0;
}
pub proof fn lemma_ceil(a: int, b: int, d: int)
    requires d > 0
    ensures mul_ceil(a, b, d) * d >= a * b, mul_ceil(a, b, d) * d < a * b + d, a >= 0 && b >= 0 ==> mul_ceil(a, b, d) >= 0
{
    let x = a * b;
    lemma_fundamental_div_mod(x, d); lemma_mod_bound(x, d);
    assert((x / d + 1) * d == d * (x / d) + d) by (nonlinear_arith);
    assert((x / d) * d == d * (x / d)) by (nonlinear_arith);
    if a >= 0 && b >= 0 { assert(x >= 0) by (nonlinear_arith) requires a >= 0, b >= 0, x == a * b; assert(x / d >= 0) by (nonlinear_arith) requires d > 0, x >= 0; }
}
pub proof fn lemma_mul_zero() ensures forall|x: int, d: int| d > 0 ==> #[trigger] mul_floor(0, x, d) == 0, forall|x: int, d: int| d > 0 ==> #[trigger] mul_floor(x, 0, d) == 0
{
    assert forall|x: int, d: int| d > 0 implies #[trigger] mul_floor(0, x, d) == 0 by { assert(0 * x == 0) by (nonlinear_arith); assert(0int / d == 0) by (nonlinear_arith) requires d > 0; }
    assert forall|x: int, d: int| d > 0 implies #[trigger] mul_floor(x, 0, d) == 0 by { assert(x * 0 == 0) by (nonlinear_arith); assert(0int / d == 0) by (nonlinear_arith) requires d > 0; }
}

pub broadcast proof fn bc_mul_zero_l(x: int, d: int)
    requires d > 0
    ensures #[trigger] mul_floor(0, x, d) == 0
{ lemma_mul_zero(); }
pub broadcast proof fn bc_mul_zero_r(x: int, d: int)
    requires d > 0
    ensures #[trigger] mul_floor(x, 0, d) == 0
{ lemma_mul_zero(); }
