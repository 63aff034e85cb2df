pub open spec fn S7() -> int { 1_0000000 }
pub open spec fn S9() -> int { 1_000_000_000 }
// ---- names for the stored state
pub open spec fn p_init(w: World) -> bool { w.inst.contains_key(SKey::Sym(sym!("IsInit"))) }
pub open spec fn p_admin(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("Admin"))) }
pub open spec fn p_backstop(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("Backstop"))) }
pub open spec fn p_blnd(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("BLNDTkn"))) }
pub open spec fn p_config(w: World) -> Option<PoolConfig> { mget::<PoolConfig>(w.inst, SKey::Sym(sym!("Config"))) }
pub open spec fn p_name(w: World) -> Option<SString> { mget::<SString>(w.inst, SKey::Sym(sym!("Name"))) }
pub open spec fn k_list() -> SKey { SKey::Sym(sym!("ResList")) }
pub open spec fn k_pemis() -> SKey { SKey::Sym(sym!("PoolEmis")) }
pub open spec fn k_rcfg(a: Address) -> SKey { SKey::K_PoolDataKey(PoolDataKey::ResConfig(a)) }
pub open spec fn k_rinit(a: Address) -> SKey { SKey::K_PoolDataKey(PoolDataKey::ResInit(a)) }
pub open spec fn k_rdat(a: Address) -> SKey { SKey::K_PoolDataKey(PoolDataKey::ResData(a)) }
pub open spec fn k_ecfg(t: u32) -> SKey { SKey::K_PoolDataKey(PoolDataKey::EmisConfig(t)) }
pub open spec fn k_edat(t: u32) -> SKey { SKey::K_PoolDataKey(PoolDataKey::EmisData(t)) }
pub open spec fn k_pos(u: Address) -> SKey { SKey::K_PoolDataKey(PoolDataKey::Positions(u)) }
pub open spec fn k_uem(u: Address, t: u32) -> SKey { SKey::K_PoolDataKey(PoolDataKey::UserEmis(UserReserveKey { user: u, reserve_id: t })) }
pub open spec fn k_auct(u: Address, t: u32) -> SKey { SKey::K_PoolDataKey(PoolDataKey::Auction(AuctionKey { user: u, auct_type: t })) }
pub open spec fn rcfg(w: World, a: Address) -> Option<ReserveConfig> { mget::<ReserveConfig>(w.pers, k_rcfg(a)) }
pub open spec fn rdat(w: World, a: Address) -> Option<ReserveData> { mget::<ReserveData>(w.pers, k_rdat(a)) }
pub open spec fn rlist(w: World) -> Seq<Address> { match mget::<SVec<Address>>(w.pers, k_list()) { Some(v) => v@, None => Seq::empty() } }
pub open spec fn ecfg(w: World, t: u32) -> Option<ReserveEmissionsConfig> { match mget::<Option<ReserveEmissionsConfig>>(w.pers, k_ecfg(t)) { Some(o) => o, None => None } }
pub open spec fn edat(w: World, t: u32) -> Option<ReserveEmissionsData> { match mget::<Option<ReserveEmissionsData>>(w.pers, k_edat(t)) { Some(o) => o, None => None } }
pub open spec fn uem(w: World, u: Address, t: u32) -> Option<UserEmissionData> { match mget::<Option<UserEmissionData>>(w.pers, k_uem(u, t)) { Some(o) => o, None => None } }
pub open spec fn auct(w: World, u: Address, t: u32) -> Option<AuctionData> { mget::<AuctionData>(w.temp, k_auct(u, t)) }
pub open spec fn is_empty_pos(p: Positions) -> bool { p.liabilities@ == Map::<u32, i128>::empty() && p.collateral@ == Map::<u32, i128>::empty() && p.supply@ == Map::<u32, i128>::empty() }
pub open spec fn empty_pos() -> Positions { choose|p: Positions| is_empty_pos(p) }
pub open spec fn posof(w: World, u: Address) -> Positions { match mget::<Positions>(w.pers, k_pos(u)) { Some(p) => p, None => empty_pos() } }
pub open spec fn mg(m: Map<u32, i128>, i: u32) -> int { if m.contains_key(i) { m[i] as int } else { 0 } }
pub open spec fn lbal(p: Positions, i: u32) -> int { mg(p.liabilities@, i) }
pub open spec fn cbal(p: Positions, i: u32) -> int { mg(p.collateral@, i) }
pub open spec fn sbal(p: Positions, i: u32) -> int { mg(p.supply@, i) }
/// store a balance, dropping it when it is zero
pub open spec fn mset(m: Map<u32, i128>, i: u32, v: int) -> Map<u32, i128> { if v == 0 { m.remove(i) } else { m.insert(i, v as i128) } }
pub open spec fn all_pos(m: Map<u32, i128>) -> bool { forall|i: u32| #[trigger] m.contains_key(i) ==> m[i] > 0 }
pub open spec fn pos_wf(p: Positions) -> bool { all_pos(p.liabilities@) && all_pos(p.collateral@) && all_pos(p.supply@) }

// ---- reserves
pub open spec fn asset_d(r: Reserve, x: int) -> int { mul_ceil(x, r.d_rate as int, S9()) }
pub open spec fn asset_b(r: Reserve, x: int) -> int { mul_floor(x, r.b_rate as int, S9()) }
pub open spec fn tot_l(r: Reserve) -> int { asset_d(r, r.d_supply as int) }
pub open spec fn tot_s(r: Reserve) -> int { asset_b(r, r.b_supply as int) }
pub open spec fn util(r: Reserve) -> int { mul_ceil(tot_l(r), S7(), tot_s(r)) }
pub open spec fn d_up(r: Reserve, x: int) -> int { mul_ceil(x, S9(), r.d_rate as int) }
pub open spec fn d_down(r: Reserve, x: int) -> int { mul_floor(x, S9(), r.d_rate as int) }
pub open spec fn b_up(r: Reserve, x: int) -> int { mul_ceil(x, S9(), r.b_rate as int) }
pub open spec fn b_down(r: Reserve, x: int) -> int { mul_floor(x, S9(), r.b_rate as int) }
pub open spec fn eff_d(r: Reserve, x: int) -> int { mul_ceil(asset_d(r, x), S7(), r.l_factor as int) }
pub open spec fn eff_b(r: Reserve, x: int) -> int { mul_floor(asset_b(r, x), r.c_factor as int, S7()) }

/// the three-leg interest curve (7 decimals), scaled by the rate modifier
pub open spec fn ir_of(c: ReserveConfig, u: int, m: int) -> int {
    let t = c.util as int;
    if u <= t { mul_ceil(mul_ceil(mul_ceil(u, S7(), t), c.r_one as int, S7()) + c.r_base, m, S9()) }
    else if u <= 9500000 { mul_ceil(mul_ceil(mul_ceil(u - t, S7(), 9500000 - t), c.r_two as int, S7()) + c.r_one + c.r_base, m, S9()) }
    else { mul_ceil(mul_ceil(u - 9500000, S7(), 500000), c.r_three as int, S7()) + mul_ceil(m, c.r_two + c.r_one + c.r_base, S9()) }
}
/// accrual factor over `dt` seconds (9 decimals)
pub open spec fn accr_of(c: ReserveConfig, u: int, m: int, dt: int) -> int { S9() + mul_ceil(tdiv(dt * S9(), 31536000), ir_of(c, u, m) * 100, S9()) }
/// the rate modifier after `dt` seconds at utilisation `u`
pub open spec fn mod_of(c: ReserveConfig, u: int, m: int, dt: int) -> int {
    let d = (u - c.util) * 100;
    if d >= 0 { imin(m + mul_floor(mul_floor(dt * S9(), d, S9()), c.reactivity as int, S7()), 10 * S9()) }
    else { imax(m + mul_ceil(mul_ceil(dt * S9(), d, S9()), c.reactivity as int, S7()), S9() / 10) }
}
pub open spec fn cfg_ok(c: ReserveConfig) -> bool { c.decimals <= 18 && c.c_factor <= 1_0000000 && c.l_factor <= 1_0000000 && c.util <= 9500000 && c.util < c.max_util && c.max_util <= 1_0000000 && 1000 <= c.r_base && c.r_base < 1_0000000 && c.r_one <= c.r_two && c.r_two <= c.r_three && c.reactivity <= 1000 }
/// the stored reserve, before accrual
pub open spec fn raw_res(w: World, a: Address) -> Reserve {
    let c = rcfg(w, a)->0; let d = rdat(w, a)->0;
    Reserve { asset: a, index: c.index, l_factor: c.l_factor, c_factor: c.c_factor, max_util: c.max_util, last_time: d.last_time, scalar: pow(10, c.decimals as nat) as i128,
        d_rate: d.d_rate, b_rate: d.b_rate, ir_mod: d.ir_mod, b_supply: d.b_supply, d_supply: d.d_supply, backstop_credit: d.backstop_credit }
}
pub open spec fn d_rate_next(c: ReserveConfig, r: Reserve, ts: u64) -> int { mul_ceil(accr_of(c, util(r), r.ir_mod as int, ts - r.last_time), r.d_rate as int, S9()) }
/// interest charged to borrowers by the accrual
pub open spec fn interest(c: ReserveConfig, r: Reserve, ts: u64) -> int { mul_ceil(r.d_supply as int, d_rate_next(c, r, ts), S9()) - tot_l(r) }
pub open spec fn take(pc: PoolConfig, i: int) -> int { if pc.bstop_rate > 0 { mul_floor(i, pc.bstop_rate as int, S7()) } else { 0 } }
pub open spec fn accrued(pc: PoolConfig, c: ReserveConfig, r: Reserve, ts: u64) -> Reserve {
    if ts == r.last_time { r }
    else if r.b_supply == 0 || util(r) == 0 { Reserve { last_time: ts, ..r } }
    else {
        let i = interest(c, r, ts);
        let m = mod_of(c, util(r), r.ir_mod as int, ts - r.last_time) as i128;
        let d = d_rate_next(c, r, ts) as i128;
        if i > 0 { Reserve { ir_mod: m, d_rate: d, b_rate: mul_floor(tot_s(r) + i - take(pc, i), S9(), r.b_supply as int) as i128, backstop_credit: (r.backstop_credit + take(pc, i)) as i128, last_time: ts, ..r } }
        else { Reserve { ir_mod: m, d_rate: d, last_time: ts, ..r } }
    }
}
/// the reserve with interest accrued up to now
pub open spec fn loaded(pc: PoolConfig, w: World, a: Address) -> Reserve { accrued(pc, rcfg(w, a)->0, raw_res(w, a), w.ts) }
pub open spec fn has_res(w: World, a: Address) -> bool { rcfg(w, a) is Some && rdat(w, a) is Some }
/// a reserve record as every operation leaves it
pub open spec fn rwf(r: Reserve) -> bool { r.d_rate >= S9() && r.b_rate >= S9() && r.b_supply >= 0 && r.d_supply >= 0 && 100_000_000 <= r.ir_mod && r.ir_mod <= 10 * S9() }

pub proof fn lemma_ceil_mono(a: int, b: int, c: int, d: int)
    requires d > 0, a * b <= c
    ensures mul_ceil(a, b, d) <= cdiv(c, d)
{
    lemma_fundamental_div_mod(a * b, d); lemma_mod_bound(a * b, d); lemma_fundamental_div_mod(c, d); lemma_mod_bound(c, d);
    let x = a * b; let p = cdiv(x, d); let q = cdiv(c, d);
    assert((x / d + 1) * d == d * (x / d) + d) by (nonlinear_arith);
    assert((c / d + 1) * d == d * (c / d) + d) by (nonlinear_arith);
    assert((x / d) * d == d * (x / d) && (c / d) * d == d * (c / d)) by (nonlinear_arith);
    assert(p * d < x + d && q * d >= c);
    assert(p <= q) by (nonlinear_arith) requires p * d < q * d + d, d > 0;
}
pub proof fn lemma_ceil_ge(x: int, y: int, d: int)
    requires d > 0, x >= 0, y >= d
    ensures mul_ceil(x, y, d) >= x
{
    lemma_ceil(x, y, d);
    let q = mul_ceil(x, y, d);
    assert(q >= x) by (nonlinear_arith) requires q * d >= x * y, y >= d, x >= 0, d > 0;
}
/// C21: the rate is non-negative
pub proof fn lemma_ir_nonneg(c: ReserveConfig, u: int, m: int)
    requires u >= 0, m >= 0, c.util <= 9500000, c.util > 0 || u > 0
    ensures ir_of(c, u, m) >= 0
{
    let t = c.util as int;
    if u <= t { lemma_ceil(u, S7(), t); let s = mul_ceil(u, S7(), t); lemma_ceil(s, c.r_one as int, S7()); lemma_ceil(mul_ceil(s, c.r_one as int, S7()) + c.r_base, m, S9()); }
    else if u <= 9500000 { lemma_ceil(u - t, S7(), 9500000 - t); let s = mul_ceil(u - t, S7(), 9500000 - t); lemma_ceil(s, c.r_two as int, S7()); lemma_ceil(mul_ceil(s, c.r_two as int, S7()) + c.r_one + c.r_base, m, S9()); }
    else { lemma_ceil(u - 9500000, S7(), 500000); let s = mul_ceil(u - 9500000, S7(), 500000); lemma_ceil(s, c.r_three as int, S7()); lemma_ceil(m, c.r_two + c.r_one + c.r_base, S9()); }
}
pub proof fn lemma_ceil2(a: int, b: int, y: int, d: int)
    requires d > 0, a <= b, y >= 0
    ensures mul_ceil(a, y, d) <= mul_ceil(b, y, d)
{
    assert(a * y <= b * y) by (nonlinear_arith) requires a <= b, y >= 0;
    lemma_ceil_mono(a, y, b * y, d);
}
pub proof fn lemma_ceil_one(a: int, d: int)
    requires d > 0
    ensures mul_ceil(d, a, d) == a, mul_ceil(a, d, d) == a
{
    assert(d * a == a * d) by (nonlinear_arith);
    lemma_ceil(a, d, d);
    let q = mul_ceil(a, d, d);
    assert(q == a) by (nonlinear_arith) requires q * d >= a * d, q * d < a * d + d, d > 0;
    assert(mul_ceil(d, a, d) == cdiv(d * a, d));
}
/// C21: the curve is monotone in the utilisation, across the kinks (continuity up to rounding: each leg starts where the previous one ends)
pub proof fn lemma_ir_monotone(c: ReserveConfig, u: int, v: int, m: int)
    requires 0 < u <= v, m >= 0, cfg_ok(c)
    ensures ir_of(c, u, m) <= ir_of(c, v, m)
{
    let t = c.util as int; let r1 = c.r_one as int; let r2 = c.r_two as int; let r3 = c.r_three as int; let r0 = c.r_base as int;
    if v <= t {
        lemma_ceil2(u, v, S7(), t);
        let (s, s2) = (mul_ceil(u, S7(), t), mul_ceil(v, S7(), t));
        lemma_ceil2(s, s2, r1, S7());
        lemma_ceil2(mul_ceil(s, r1, S7()) + r0, mul_ceil(s2, r1, S7()) + r0, m, S9());
    } else if v <= 9500000 {
        let s2 = mul_ceil(v - t, S7(), 9500000 - t);
        lemma_ceil(v - t, S7(), 9500000 - t);
        lemma_ceil(s2, r2, S7());
        if u <= t {
            lemma_ceil2(u, t, S7(), t); lemma_ceil_one(S7(), t);
            let s = mul_ceil(u, S7(), t);
            assert(s <= S7());
            lemma_ceil2(s, S7(), r1, S7()); lemma_ceil_one(r1, S7());
            lemma_ceil2(mul_ceil(s, r1, S7()) + r0, mul_ceil(s2, r2, S7()) + r1 + r0, m, S9());
        } else {
            lemma_ceil2(u - t, v - t, S7(), 9500000 - t);
            let s = mul_ceil(u - t, S7(), 9500000 - t);
            lemma_ceil2(s, s2, r2, S7());
            lemma_ceil2(mul_ceil(s, r2, S7()) + r1 + r0, mul_ceil(s2, r2, S7()) + r1 + r0, m, S9());
        }
    } else {
        let s3 = mul_ceil(v - 9500000, S7(), 500000);
        lemma_ceil(v - 9500000, S7(), 500000); lemma_ceil(s3, r3, S7());
        if u > 9500000 {
            lemma_ceil2(u - 9500000, v - 9500000, S7(), 500000);
            lemma_ceil2(mul_ceil(u - 9500000, S7(), 500000), s3, r3, S7());
        } else {
            let top = r2 + r1 + r0;
            assert(top * m == m * top) by (nonlinear_arith);
            assert(mul_ceil(top, m, S9()) == mul_ceil(m, top, S9()));
            if u <= t {
                lemma_ceil2(u, t, S7(), t); lemma_ceil_one(S7(), t);
                let s = mul_ceil(u, S7(), t);
                lemma_ceil2(s, S7(), r1, S7()); lemma_ceil_one(r1, S7());
                lemma_ceil2(mul_ceil(s, r1, S7()) + r0, top, m, S9());
            } else {
                lemma_ceil2(u - t, 9500000 - t, S7(), 9500000 - t); lemma_ceil_one(S7(), 9500000 - t);
                let s = mul_ceil(u - t, S7(), 9500000 - t);
                lemma_ceil2(s, S7(), r2, S7()); lemma_ceil_one(r2, S7());
                lemma_ceil2(mul_ceil(s, r2, S7()) + r1 + r0, top, m, S9());
            }
        }
    }
}
/// C21: accrual factor at least 1, modifier within its bounds
pub proof fn lemma_accr(c: ReserveConfig, u: int, m: int, dt: int)
    requires u > 0, cfg_ok(c), 100_000_000 <= m <= 10 * S9(), dt >= 0
    ensures accr_of(c, u, m, dt) >= S9(), 100_000_000 <= mod_of(c, u, m, dt) <= 10 * S9(), u >= c.util ==> mod_of(c, u, m, dt) >= m, u < c.util ==> mod_of(c, u, m, dt) <= m
{
    lemma_ir_nonneg(c, u, m);
    let tw = tdiv(dt * S9(), 31536000);
    assert(tw >= 0) by { lemma_div_nonneg(dt * S9(), 31536000); }
    lemma_ceil(tw, ir_of(c, u, m) * 100, S9());
    let d = (u - c.util) * 100;
    let x = dt * S9();
    if d >= 0 {
        lemma_mul_nonneg(x, d, S9());
        lemma_mul_nonneg(mul_floor(x, d, S9()), c.reactivity as int, S7());
    } else {
        assert(x * d <= 0) by (nonlinear_arith) requires x >= 0, d < 0;
        lemma_ceil_mono(x, d, 0, S9());
        let e = mul_ceil(x, d, S9());
        assert(cdiv(0, S9()) == 0 && cdiv(0, S7()) == 0) by { assert(0int % 1_000_000_000 == 0); }
        assert(e * c.reactivity <= 0) by (nonlinear_arith) requires e <= 0, c.reactivity >= 0;
        lemma_ceil_mono(e, c.reactivity as int, 0, S7());
    }
}
proof fn lemma_div_nonneg(a: int, b: int) requires a >= 0, b > 0 ensures a / b >= 0, tdiv(a, b) >= 0 { assert(a / b >= 0) by (nonlinear_arith) requires a >= 0, b > 0; }
/// C20: rates never fall, the backstop's credit and the suppliers' value grow together by no more than what borrowers are charged
pub open spec fn accrual_ok(r0: Reserve, r: Reserve) -> bool {
    &&& r == (Reserve { last_time: r.last_time, ir_mod: r.ir_mod, d_rate: r.d_rate, b_rate: r.b_rate, backstop_credit: r.backstop_credit, ..r0 })
    &&& r.d_rate >= r0.d_rate && r.b_rate >= r0.b_rate && r.backstop_credit >= r0.backstop_credit
    &&& (tot_s(r) - tot_s(r0)) + (r.backstop_credit - r0.backstop_credit) <= tot_l(r) - tot_l(r0)
}
pub proof fn lemma_accrued(pc: PoolConfig, c: ReserveConfig, r: Reserve, ts: u64)
    requires rwf(r), cfg_ok(c), pc.bstop_rate < 1_0000000, r.last_time <= ts, ts != r.last_time && r.b_supply != 0 && util(r) != 0 ==> tot_s(r) != 0,
        // the machine values fit
        accrued(pc, c, r, ts).d_rate == r.d_rate || accrued(pc, c, r, ts).d_rate == d_rate_next(c, r, ts),
        accrued(pc, c, r, ts).b_rate == r.b_rate || accrued(pc, c, r, ts).b_rate as int == mul_floor(tot_s(r) + interest(c, r, ts) - take(pc, interest(c, r, ts)), S9(), r.b_supply as int),
        accrued(pc, c, r, ts).backstop_credit == r.backstop_credit || accrued(pc, c, r, ts).backstop_credit == r.backstop_credit + take(pc, interest(c, r, ts)),
        !(ts == r.last_time || r.b_supply == 0 || util(r) == 0) ==> accrued(pc, c, r, ts).d_rate == d_rate_next(c, r, ts) && accrued(pc, c, r, ts).ir_mod == mod_of(c, util(r), r.ir_mod as int, ts - r.last_time),
        !(ts == r.last_time || r.b_supply == 0 || util(r) == 0) && interest(c, r, ts) > 0 ==> accrued(pc, c, r, ts).b_rate as int == mul_floor(tot_s(r) + interest(c, r, ts) - take(pc, interest(c, r, ts)), S9(), r.b_supply as int) && accrued(pc, c, r, ts).backstop_credit == r.backstop_credit + take(pc, interest(c, r, ts)),
    ensures accrual_ok(r, accrued(pc, c, r, ts)), rwf(accrued(pc, c, r, ts))
{
    let n = accrued(pc, c, r, ts);
    if !(ts == r.last_time || r.b_supply == 0 || util(r) == 0) {
        let u = util(r);
        lemma_ceil(r.d_supply as int, r.d_rate as int, S9());
        lemma_mul_nonneg(r.b_supply as int, r.b_rate as int, S9());
        lemma_ceil(tot_l(r), S7(), tot_s(r));
        lemma_accr(c, u, r.ir_mod as int, ts - r.last_time);
        let a = accr_of(c, u, r.ir_mod as int, ts - r.last_time);
        assert(mul_ceil(a, r.d_rate as int, S9()) == mul_ceil(r.d_rate as int, a, S9())) by { assert(a * r.d_rate == r.d_rate * a) by (nonlinear_arith); }
        lemma_ceil_ge(r.d_rate as int, a, S9());
        let i = interest(c, r, ts);
        assert(r.d_supply * r.d_rate <= r.d_supply * n.d_rate) by (nonlinear_arith) requires r.d_supply >= 0, n.d_rate >= r.d_rate;
        lemma_ceil_mono(r.d_supply as int, r.d_rate as int, r.d_supply * n.d_rate, S9());
        assert(i >= 0);
        if i > 0 {
            let k = take(pc, i);
            lemma_mul_nonneg(i, pc.bstop_rate as int, S7());
            lemma_mul_div(i, pc.bstop_rate as int, S7());
            assert(0 <= k < i) by (nonlinear_arith) requires k >= 0, i > 0, k * 1_0000000 <= i * pc.bstop_rate || k == 0, pc.bstop_rate < 1_0000000;
            let x = tot_s(r) + i - k; let b = r.b_supply as int; let s9 = S9();
            lemma_mul_div(b, r.b_rate as int, S9());
            lemma_mul_div(x, S9(), b);
            let nb = n.b_rate as int; let ob = r.b_rate as int; let ts0 = tot_s(r);
            // floor(b*ob/S9) + 1 <= x, so x*S9 >= b*ob
            assert(nb >= ob) by (nonlinear_arith) requires nb * b + b > x * s9, x >= ts0 + 1, ts0 * s9 + s9 > b * ob, b > 0, s9 > 0;
            lemma_mul_div(b, nb, S9());
            let t1 = tot_s(n);
            assert(t1 <= x) by (nonlinear_arith) requires t1 * s9 <= b * nb, nb * b <= x * s9, s9 > 0;
        }
    }
}
// ---- pools
/// the reserve the pool works with: the cached one, or the stored one accrued to now
pub open spec fn er(p: Pool, w: World, a: Address) -> Reserve { if p.reserves@.contains_key(a) { p.reserves@[a] } else { loaded(p.config, w, a) } }
pub open spec fn ex(p: Pool, w: World, a: Address) -> bool { p.reserves@.contains_key(a) || has_res(w, a) }
/// reserve configuration and stored data, clock and settings are the same
pub open spec fn res_same(w0: World, w1: World) -> bool {
    &&& w1.ts == w0.ts && w1.seq == w0.seq && w1.this == w0.this && w1.inst == w0.inst
    &&& forall|a: Address| #![trigger rcfg(w1, a)] rcfg(w1, a) == rcfg(w0, a)
    &&& forall|a: Address| #![trigger rdat(w1, a)] rdat(w1, a) == rdat(w0, a)
    &&& rlist(w1) == rlist(w0)
}
/// what a cached reserve has in common with the stored one: everything that only configuration sets
pub open spec fn res_static(w: World, a: Address, r: Reserve) -> bool {
    let c = rcfg(w, a)->0;
    has_res(w, a) && r.asset == a && r.index == c.index && r.l_factor == c.l_factor && r.c_factor == c.c_factor && r.max_util == c.max_util && r.scalar as int == pow(10, c.decimals as nat) && r.last_time == w.ts
}
/// rates of the accrued reserve: nothing but accrual changes them
pub open spec fn res_rates(pc: PoolConfig, w: World, a: Address, r: Reserve) -> bool { let l = loaded(pc, w, a); r.d_rate == l.d_rate && r.b_rate == l.b_rate && r.ir_mod == l.ir_mod }
/// invariant of the reserve cache: every cached reserve is the stored one accrued to now, except for totals of reserves marked to be stored
pub open spec fn pool_wf(p: Pool, w: World) -> bool {
    &&& forall|a: Address| #[trigger] p.reserves@.contains_key(a) ==> res_static(w, a, p.reserves@[a]) && res_rates(p.config, w, a, p.reserves@[a])
    &&& forall|a: Address| #[trigger] p.reserves@.contains_key(a) ==> p.reserves_to_store@.contains(a) || p.reserves@[a] == loaded(p.config, w, a)
}
pub open spec fn fresh_price(w: World, o: Address, a: Address) -> bool { oracle_last(w.ts, o, a) is Some && (oracle_last(w.ts, o, a)->0).timestamp + 86400 >= w.ts }
pub open spec fn price_of(p: Pool, w: World, a: Address) -> int { (oracle_last(w.ts, p.config.oracle, a)->0).price as int }
/// invariant of the price cache: cached prices are fresh prices of the pool's oracle
pub open spec fn prices_wf(p: Pool, w: World) -> bool {
    &&& forall|a: Address| #[trigger] p.prices@.contains_key(a) ==> fresh_price(w, p.config.oracle, a) && p.prices@[a] as int == price_of(p, w, a)
    &&& p.price_decimals is Some ==> p.price_decimals == Some(oracle_dec(p.config.oracle))
}

// ---- emissions
pub open spec fn edat_next(w: World, t: u32, supply: int, scalar: int) -> ReserveEmissionsData {
    let d = edat(w, t)->0; let c = ecfg(w, t)->0;
    if d.last_time >= c.expiration || w.ts == d.last_time || c.eps == 0 || supply == 0 { d }
    else { ReserveEmissionsData { index: (d.index + mul_floor((imin(w.ts as int, c.expiration as int) - d.last_time) * c.eps, scalar, supply)) as i128, last_time: imin(w.ts as int, c.expiration as int) as u64 } }
}
/// what the user has accrued once settled against index `idx` with balance `bal`
pub open spec fn accrued_at(w: World, u: Address, t: u32, idx: int, bal: int, scalar: int) -> int {
    match uem(w, u, t) {
        Some(d) => d.accrued + (if bal != 0 && idx != d.index { mul_floor(bal, idx - d.index, scalar) } else { 0 }),
        None => if bal == 0 { 0 } else { mul_floor(bal, idx, scalar) },
    }
}
/// emissions of (user, reserve token) are settled at the supply and balance given
pub open spec fn settled(w0: World, w1: World, u: Address, t: u32, supply: int, scalar: int, bal: int, claimed: bool) -> bool {
    if ecfg(w0, t) is None { edat(w1, t) == edat(w0, t) && uem(w1, u, t) == uem(w0, u, t) }
    else {
        let d = edat_next(w0, t, supply, scalar);
        &&& edat(w0, t) is Some && edat(w1, t) == Some(d)
        &&& uem(w1, u, t) is Some && (uem(w1, u, t)->0).index == d.index
        &&& (uem(w1, u, t)->0).accrued == (if claimed { 0 } else { accrued_at(w0, u, t, d.index as int, bal, scalar) })
    }
}

// ---- user operations on a reserve
/// one settlement of emissions and nothing else
pub open spec fn emis_step(w0: World, w1: World, u: Address, t: int, supply: int, scalar: int, bal: int) -> bool {
    &&& 0 <= t <= u32::MAX
    &&& settled(w0, w1, u, t as u32, supply, scalar, bal, false)
    &&& w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_edat(t as u32) || k == k_uem(u, t as u32))
}
pub open spec fn fits(x: int) -> bool { i128::MIN <= x <= i128::MAX }
/// write a balance; additions keep the entry, removals drop it when it is used up
pub open spec fn upd(m: Map<u32, i128>, i: u32, v: int, add: bool) -> Map<u32, i128> { if add || v != 0 { m.insert(i, v as i128) } else { m.remove(i) } }
/// the position of `u` in reserve `r` changes by exactly `x` and so does the reserve's total; kind 0: liabilities, 1: collateral, 2: supply
pub open spec fn pos_move(u0: User, u1: User, r0: Reserve, r1: Reserve, kind: int, x: int, add: bool) -> bool {
    let (p0, p1) = (u0.positions, u1.positions);
    &&& u1.address == u0.address
    &&& fits(bal_of(p0, r0.index, kind) + x) && (!add ==> bal_of(p0, r0.index, kind) + x >= 0)
    &&& if kind == 0 { p1.liabilities@ == upd(p0.liabilities@, r0.index, lbal(p0, r0.index) + x, add) } else { p1.liabilities == p0.liabilities }
    &&& if kind == 1 { p1.collateral@ == upd(p0.collateral@, r0.index, cbal(p0, r0.index) + x, add) } else { p1.collateral == p0.collateral }
    &&& if kind == 2 { p1.supply@ == upd(p0.supply@, r0.index, sbal(p0, r0.index) + x, add) } else { p1.supply == p0.supply }
    &&& if kind == 0 { fits(r0.d_supply + x) && r1 == (Reserve { d_supply: (r0.d_supply + x) as i128, ..r0 }) } else { fits(r0.b_supply + x) && r1 == (Reserve { b_supply: (r0.b_supply + x) as i128, ..r0 }) }
}
pub open spec fn bal_of(p: Positions, i: u32, kind: int) -> int { if kind == 0 { lbal(p, i) } else if kind == 1 { cbal(p, i) } else { sbal(p, i) } }
/// emissions of the user for the token that backs `kind` are settled with the balances before the change
pub open spec fn emis_move(w0: World, w1: World, u0: User, r0: Reserve, kind: int) -> bool {
    if kind == 0 { emis_step(w0, w1, u0.address, r0.index * 2, r0.d_supply as int, r0.scalar as int, lbal(u0.positions, r0.index)) }
    else { emis_step(w0, w1, u0.address, r0.index * 2 + 1, r0.b_supply as int, r0.scalar as int, cbal(u0.positions, r0.index) + sbal(u0.positions, r0.index)) }
}

// ---- moving many positions at once
/// reserve list and reserve configurations agree: the asset at index i is the one configured with index i
pub open spec fn idx_ok(w: World) -> bool {
    &&& rlist(w).len() <= u32::MAX
    &&& forall|i: int| 0 <= i < rlist(w).len() ==> has_res(w, #[trigger] rlist(w)[i]) && (rcfg(w, rlist(w)[i])->0).index == i
    &&& forall|a: Address| (#[trigger] rcfg(w, a)) is Some ==> has_res(w, a) && (rcfg(w, a)->0).index < rlist(w).len() && rlist(w)[(rcfg(w, a)->0).index as int] == a
}
pub open spec fn idx(w: World, a: Address) -> u32 { (rcfg(w, a)->0).index }
pub open spec fn mga(m: Map<Address, i128>, a: Address) -> int { if m.contains_key(a) { m[a] as int } else { 0 } }
/// amount listed for the reserve with index i
pub open spec fn amt(w: World, m: Map<Address, i128>, i: u32) -> int { if i < rlist(w).len() { mga(m, rlist(w)[i as int]) } else { 0 } }
pub open spec fn sg(add: bool, x: int) -> int { if add { x } else { -x } }
pub open spec fn pool_same(p0: Pool, p1: Pool) -> bool { p1.config == p0.config && p1.prices == p0.prices && p1.price_decimals == p0.price_decimals }
/// the entries of `m` that come before position `k` of the iteration
pub open spec fn pre(m: Map<Address, i128>, k: int) -> Map<Address, i128> { m.restrict(m.dom().filter(|a: Address| eidx(m, a) < k)) }
/// keys of emissions records of `u` (or of nobody in particular)
pub open spec fn emis_key(k: SKey, u: Address) -> bool {
    match k { SKey::K_PoolDataKey(PoolDataKey::EmisData(_)) => true, SKey::K_PoolDataKey(PoolDataKey::UserEmis(x)) => x.user == u, _ => false }
}
/// the user's collateral moves by `mc`, the liabilities by `ml` (per asset), and so do the reserves' totals
pub open spec fn bulk_pos(w0: World, p0: Pool, p1: Pool, w1: World, u0: User, u1: User, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool) -> bool {
    &&& u1.address == u0.address && u1.positions.supply == u0.positions.supply
    &&& forall|a: Address| #![trigger mc.contains_key(a)] mc.contains_key(a) ==> ex(p0, w0, a) && mc[a] != 0
    &&& forall|a: Address| #![trigger ml.contains_key(a)] ml.contains_key(a) ==> ex(p0, w0, a) && ml[a] != 0
    &&& forall|i: u32| #[trigger] cbal(u1.positions, i) == cbal(u0.positions, i) + sg(add, amt(w0, mc, i))
    &&& forall|i: u32| #[trigger] lbal(u1.positions, i) == lbal(u0.positions, i) + sg(add, amt(w0, ml, i))
    &&& forall|a: Address| #![trigger er(p1, w1, a)] ex(p0, w0, a) ==> ex(p1, w1, a) && {
            let (r0, r1) = (er(p0, w0, a), er(p1, w1, a));
            r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, ..r0 }) && r1.b_supply == r0.b_supply + sg(add, mga(mc, a)) && r1.d_supply == r0.d_supply + sg(add, mga(ml, a))
        }
    &&& (!add ==> (pos_wf(u0.positions) ==> pos_wf(u1.positions)))
    &&& (add && (forall|a: Address| #[trigger] mc.contains_key(a) ==> mc[a] > 0) && (forall|a: Address| #[trigger] ml.contains_key(a) ==> ml[a] > 0) ==> (pos_wf(u0.positions) ==> pos_wf(u1.positions)))
}
/// emissions of every moved balance are settled with the totals and balances from before the move, all others are untouched
pub open spec fn bulk_emis(w0: World, w1: World, p0: Pool, u0: User, mc: Map<Address, i128>, ml: Map<Address, i128>) -> bool {
    &&& forall|a: Address| #![trigger mc.contains_key(a)] mc.contains_key(a) ==> { let r = er(p0, w0, a); r.index * 2 + 1 <= u32::MAX && settled(w0, w1, u0.address, (r.index * 2 + 1) as u32, r.b_supply as int, r.scalar as int, cbal(u0.positions, r.index) + sbal(u0.positions, r.index), false) }
    &&& forall|a: Address| #![trigger ml.contains_key(a)] ml.contains_key(a) ==> { let r = er(p0, w0, a); r.index * 2 <= u32::MAX && settled(w0, w1, u0.address, (r.index * 2) as u32, r.d_supply as int, r.scalar as int, lbal(u0.positions, r.index), false) }
    &&& forall|t: u32| #![trigger edat(w1, t)] #![trigger uem(w1, u0.address, t)] (forall|a: Address| mc.contains_key(a) ==> t != idx(w0, a) * 2 + 1) && (forall|a: Address| ml.contains_key(a) ==> t != idx(w0, a) * 2) ==> edat(w1, t) == edat(w0, t) && uem(w1, u0.address, t) == uem(w0, u0.address, t)
}
pub open spec fn bulk_frame(w0: World, w1: World, p0: Pool, p1: Pool, u: Address) -> bool {
    pool_wf(p1, w1) && pool_same(p0, p1) && w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| emis_key(k, u))
}
pub open spec fn cached(p: Pool, a: Address, r: Reserve, p1: Pool) -> bool {
    &&& p1.reserves@ == p.reserves@.insert(a, r) && pool_same(p, p1)
    &&& p1.reserves_to_store@ == (if p.reserves_to_store@.contains(a) { p.reserves_to_store@ } else { p.reserves_to_store@.push(a) })
}
/// writing emissions records leaves reserves, positions and settings alone
pub proof fn lemma_emis_frame(w0: World, w1: World, u: Address)
    requires w1 == (World { pers: w1.pers, ..w0 }), only(w0.pers, w1.pers, |k: SKey| emis_key(k, u))
    ensures res_same(w0, w1), forall|p: Pool, a: Address| #![trigger er(p, w1, a)] er(p, w1, a) == er(p, w0, a), forall|p: Pool, a: Address| #![trigger ex(p, w1, a)] ex(p, w1, a) == ex(p, w0, a), forall|p: Pool| pool_wf(p, w0) ==> #[trigger] pool_wf(p, w1),
        forall|a: Address| #![trigger idx(w1, a)] idx(w1, a) == idx(w0, a), forall|x: Address| #![trigger w1.pers.contains_key(k_pos(x))] posof(w1, x) == posof(w0, x)
{
    hide(accrued); hide(settled);
    assert forall|a: Address| #![trigger rcfg(w1, a)] rcfg(w1, a) == rcfg(w0, a) by { let k = k_rcfg(a); assert(!emis_key(k, u)); assert(w1.pers.contains_key(k) == w0.pers.contains_key(k)); }
    assert forall|a: Address| #![trigger rdat(w1, a)] rdat(w1, a) == rdat(w0, a) by { let k = k_rdat(a); assert(!emis_key(k, u)); assert(w1.pers.contains_key(k) == w0.pers.contains_key(k)); }
    assert(w1.pers.contains_key(k_list()) == w0.pers.contains_key(k_list()));
    assert forall|p: Pool, a: Address| #![trigger er(p, w1, a)] er(p, w1, a) == er(p, w0, a) by { assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a)); }
    assert forall|p: Pool, a: Address| #![trigger ex(p, w1, a)] ex(p, w1, a) == ex(p, w0, a) by { assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a)); }
    assert forall|p: Pool| pool_wf(p, w0) implies #[trigger] pool_wf(p, w1) by {
        assert forall|a: Address| #[trigger] p.reserves@.contains_key(a) implies res_static(w1, a, p.reserves@[a]) && res_rates(p.config, w1, a, p.reserves@[a]) && (p.reserves_to_store@.contains(a) || p.reserves@[a] == loaded(p.config, w1, a)) by {
            assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a));
        }
    }
}
pub proof fn lemma_emis_only(w0: World, w1: World, w2: World, u: Address, t: int, supply: int, scalar: int, bal: int)
    requires w1 == (World { pers: w1.pers, ..w0 }), only(w0.pers, w1.pers, |k: SKey| emis_key(k, u)), emis_step(w1, w2, u, t, supply, scalar, bal)
    ensures w2 == (World { pers: w2.pers, ..w0 }), only(w0.pers, w2.pers, |k: SKey| emis_key(k, u)), only(w1.pers, w2.pers, |k: SKey| emis_key(k, u))
{
    assert(emis_key(k_edat(t as u32), u) && emis_key(k_uem(u, t as u32), u));
    assert forall|k: SKey| !emis_key(k, u) implies w2.pers.contains_key(k) == w1.pers.contains_key(k) && (w1.pers.contains_key(k) ==> w2.pers[k] == w1.pers[k]) by {}
    assert forall|k: SKey| !emis_key(k, u) implies w2.pers.contains_key(k) == w0.pers.contains_key(k) && (w0.pers.contains_key(k) ==> w2.pers[k] == w0.pers[k]) by { assert(w1.pers.contains_key(k) == w0.pers.contains_key(k)); }
}
pub proof fn lemma_ex(p: Pool, w: World, a: Address)
    requires idx_ok(w), pool_wf(p, w), ex(p, w, a)
    ensures has_res(w, a), er(p, w, a).index == idx(w, a), idx(w, a) < rlist(w).len(), rlist(w)[idx(w, a) as int] == a
{
    assert(rcfg(w, a) is Some);
    if p.reserves@.contains_key(a) { assert(res_static(w, a, p.reserves@[a])); }
}
pub proof fn lemma_amt(w: World, m: Map<Address, i128>, a: Address, x: i128, i: u32)
    requires idx_ok(w), has_res(w, a), !m.contains_key(a)
    ensures amt(w, m.insert(a, x), i) == amt(w, m, i) + (if i == idx(w, a) { x as int } else { 0 })
{
    assert(rcfg(w, a) is Some);
    if i < rlist(w).len() { assert(has_res(w, rlist(w)[i as int])); }
}
#[verifier::rlimit(50)]
pub proof fn lemma_bulk_pos(w0: World, w1: World, w2: World, p0: Pool, p1: Pool, p2: Pool, u0: User, u1: User, u2: User, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool, kind: int, a: Address, x: i128, r1: Reserve)
    requires idx_ok(w0), pool_wf(p0, w0), kind == 0 || kind == 1,
        bulk_pos(w0, p0, p1, w1, u0, u1, mc, ml, add), bulk_frame(w0, w1, p0, p1, u0.address),
        !(if kind == 1 { mc } else { ml }).contains_key(a), ex(p1, w1, a), x != 0,
        pos_move(u1, u2, er(p1, w1, a), r1, kind, sg(add, x as int), add), emis_move(w1, w2, u1, er(p1, w1, a), kind), 
        cached(p1, a, r1, p2), res_static(w1, a, er(p1, w1, a)),
    ensures ({ let mc2 = if kind == 1 { mc.insert(a, x) } else { mc }; let ml2 = if kind == 0 { ml.insert(a, x) } else { ml };
        bulk_pos(w0, p0, p2, w2, u0, u2, mc2, ml2, add) }), bulk_frame(w0, w2, p0, p2, u0.address)
{
    hide(accrued); hide(settled);
    let mc2 = if kind == 1 { mc.insert(a, x) } else { mc }; let ml2 = if kind == 0 { ml.insert(a, x) } else { ml };
    let r = er(p1, w1, a);
    if kind == 0 { lemma_emis_only(w0, w1, w2, u0.address, r.index * 2, r.d_supply as int, r.scalar as int, lbal(u1.positions, r.index)); }
    else { lemma_emis_only(w0, w1, w2, u0.address, r.index * 2 + 1, r.b_supply as int, r.scalar as int, cbal(u1.positions, r.index) + sbal(u1.positions, r.index)); }
    lemma_emis_frame(w0, w1, u0.address); lemma_emis_frame(w1, w2, u0.address); lemma_emis_frame(w0, w2, u0.address);
    assert(ex(p0, w0, a)) by { if p1.reserves@.contains_key(a) { assert(res_static(w1, a, p1.reserves@[a])); } assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a)); }
    lemma_ex(p0, w0, a);
    assert(r.index == idx(w0, a)) by { assert(er(p1, w1, a).index == er(p0, w0, a).index); }
    assert forall|i: u32| #[trigger] cbal(u2.positions, i) == cbal(u0.positions, i) + sg(add, amt(w0, mc2, i)) by {
        assert(cbal(u1.positions, i) == cbal(u0.positions, i) + sg(add, amt(w0, mc, i)));
        if kind == 1 { lemma_amt(w0, mc, a, x, i); }
    }
    assert forall|i: u32| #[trigger] lbal(u2.positions, i) == lbal(u0.positions, i) + sg(add, amt(w0, ml2, i)) by {
        assert(lbal(u1.positions, i) == lbal(u0.positions, i) + sg(add, amt(w0, ml, i)));
        if kind == 0 { lemma_amt(w0, ml, a, x, i); }
    }
    assert forall|b: Address| #![trigger er(p2, w2, b)] ex(p0, w0, b) implies ex(p2, w2, b) && ({
            let (r0, r2) = (er(p0, w0, b), er(p2, w2, b));
            r2 == (Reserve { b_supply: r2.b_supply, d_supply: r2.d_supply, ..r0 }) && r2.b_supply == r0.b_supply + sg(add, mga(mc2, b)) && r2.d_supply == r0.d_supply + sg(add, mga(ml2, b))
        }) by {
        assert(ex(p1, w1, b));
        let r1b = er(p1, w1, b); let r0b = er(p0, w0, b);
        assert(r1b == (Reserve { b_supply: r1b.b_supply, d_supply: r1b.d_supply, ..r0b }));
    }
    assert(pos_wf(u1.positions) && (add ==> x > 0) ==> pos_wf(u2.positions));
    assert(add && (forall|a: Address| #[trigger] mc2.contains_key(a) ==> mc2[a] > 0) && (forall|a: Address| #[trigger] ml2.contains_key(a) ==> ml2[a] > 0) ==> x > 0 && (forall|a: Address| #[trigger] mc.contains_key(a) ==> mc[a] > 0) && (forall|a: Address| #[trigger] ml.contains_key(a) ==> ml[a] > 0)) by {
        if add { 
            if kind == 1 { assert(mc2.contains_key(a)); } else { assert(ml2.contains_key(a)); }
            assert forall|b: Address| mc.contains_key(b) implies mc2.contains_key(b) && mc2[b] == mc[b] by {}
            assert forall|b: Address| ml.contains_key(b) implies ml2.contains_key(b) && ml2[b] == ml[b] by {}
        }
    }
    assert(pool_wf(p2, w2)) by {
        assert(pool_wf(p1, w2));
        assert forall|b: Address| #[trigger] p2.reserves@.contains_key(b) implies res_static(w2, b, p2.reserves@[b]) && res_rates(p2.config, w2, b, p2.reserves@[b]) && (p2.reserves_to_store@.contains(b) || p2.reserves@[b] == loaded(p2.config, w2, b)) by {
            if b == a {
                assert(rcfg(w2, a) == rcfg(w0, a) && rdat(w2, a) == rdat(w0, a) && rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a));
                assert(p2.reserves@[a] == r1 && res_rates(p1.config, w1, a, r));
                assert(p2.reserves_to_store@.contains(a)) by { if !p1.reserves_to_store@.contains(a) { assert(p2.reserves_to_store@[p1.reserves_to_store@.len() as int] == a); } }
            } else {
                assert(p1.reserves@.contains_key(b));
                assert(p2.reserves@[b] == p1.reserves@[b]);
                assert(p1.reserves_to_store@.contains(b) || p1.reserves@[b] == loaded(p1.config, w2, b));
                if p1.reserves_to_store@.contains(b) { let j = choose|j: int| 0 <= j < p1.reserves_to_store@.len() && p1.reserves_to_store@[j] == b; assert(p2.reserves_to_store@[j] == b); }
            }
        }
    }
}
pub proof fn lemma_settled_cong(w0: World, w1: World, w2: World, u: Address, t: u32, supply: int, scalar: int, bal: int)
    requires w0.ts == w1.ts
    ensures ecfg(w1, t) == ecfg(w0, t) && edat(w1, t) == edat(w0, t) && uem(w1, u, t) == uem(w0, u, t) && settled(w1, w2, u, t, supply, scalar, bal, false) ==> settled(w0, w2, u, t, supply, scalar, bal, false),
        edat(w2, t) == edat(w1, t) && uem(w2, u, t) == uem(w1, u, t) && settled(w0, w1, u, t, supply, scalar, bal, false) ==> settled(w0, w2, u, t, supply, scalar, bal, false)
{}
#[verifier::rlimit(50)]
pub proof fn lemma_bulk_emis(w0: World, w1: World, w2: World, p0: Pool, p1: Pool, u0: User, mc: Map<Address, i128>, ml: Map<Address, i128>, kind: int, a: Address, x: i128)
    requires idx_ok(w0), pool_wf(p0, w0), kind == 0 || kind == 1, ex(p0, w0, a),
        forall|b: Address| #[trigger] mc.contains_key(b) ==> ex(p0, w0, b), forall|b: Address| #[trigger] ml.contains_key(b) ==> ex(p0, w0, b),
        w1 == (World { pers: w1.pers, ..w0 }), only(w0.pers, w1.pers, |k: SKey| emis_key(k, u0.address)), bulk_emis(w0, w1, p0, u0, mc, ml),
        !(if kind == 1 { mc } else { ml }).contains_key(a),
        emis_move(w1, w2, u0, er(p0, w0, a), kind),
    ensures ({ let mc2 = if kind == 1 { mc.insert(a, x) } else { mc }; let ml2 = if kind == 0 { ml.insert(a, x) } else { ml };
        bulk_emis(w0, w2, p0, u0, mc2, ml2) })
{
    hide(settled); hide(loaded);
    let mc2 = if kind == 1 { mc.insert(a, x) } else { mc }; let ml2 = if kind == 0 { ml.insert(a, x) } else { ml };
    let u = u0.address;
    lemma_ex(p0, w0, a);
    let r = er(p0, w0, a); let i = idx(w0, a);
    let t = if kind == 0 { (i * 2) as u32 } else { (i * 2 + 1) as u32 };
    assert(t as int == (if kind == 0 { i * 2 } else { i * 2 + 1 }));
    assert forall|b: Address| ex(p0, w0, b) && b != a implies idx(w0, b) != i by { lemma_ex(p0, w0, b); }
    assert(edat(w1, t) == edat(w0, t) && uem(w1, u, t) == uem(w0, u, t)) by {
        assert forall|b: Address| mc.contains_key(b) implies t != idx(w0, b) * 2 + 1 by { assert(ex(p0, w0, b)); }
        assert forall|b: Address| ml.contains_key(b) implies t != idx(w0, b) * 2 by { assert(ex(p0, w0, b)); }
    }
    assert forall|s: u32| #![trigger ecfg(w1, s)] ecfg(w1, s) == ecfg(w0, s) by { let k = k_ecfg(s); assert(!emis_key(k, u)); assert(w1.pers.contains_key(k) == w0.pers.contains_key(k)); }
    assert forall|s: u32| s != t implies #[trigger] edat(w2, s) == edat(w1, s) && uem(w2, u, s) == uem(w1, u, s) by {
        assert(w2.pers.contains_key(k_edat(s)) == w1.pers.contains_key(k_edat(s))); assert(w2.pers.contains_key(k_uem(u, s)) == w1.pers.contains_key(k_uem(u, s)));
    }
    assert forall|b: Address| #![trigger mc2.contains_key(b)] mc2.contains_key(b) implies ({ let q = er(p0, w0, b); q.index * 2 + 1 <= u32::MAX && settled(w0, w2, u, (q.index * 2 + 1) as u32, q.b_supply as int, q.scalar as int, cbal(u0.positions, q.index) + sbal(u0.positions, q.index), false) }) by {
        let q = er(p0, w0, b); let s = (q.index * 2 + 1) as u32;
        if kind == 1 && b == a { assert(ecfg(w1, t) == ecfg(w0, t)); }
        else { assert(mc.contains_key(b)); assert(ex(p0, w0, b)); lemma_ex(p0, w0, b); assert(s as int == idx(w0, b) * 2 + 1); assert(s != t); assert(edat(w2, s) == edat(w1, s) && uem(w2, u, s) == uem(w1, u, s)); }
        lemma_settled_cong(w0, w1, w2, u, s, q.b_supply as int, q.scalar as int, cbal(u0.positions, q.index) + sbal(u0.positions, q.index));
    }
    assert forall|b: Address| #![trigger ml2.contains_key(b)] ml2.contains_key(b) implies ({ let q = er(p0, w0, b); q.index * 2 <= u32::MAX && settled(w0, w2, u, (q.index * 2) as u32, q.d_supply as int, q.scalar as int, lbal(u0.positions, q.index), false) }) by {
        let q = er(p0, w0, b); let s = (q.index * 2) as u32;
        if kind == 0 && b == a { assert(ecfg(w1, t) == ecfg(w0, t)); }
        else { assert(ml.contains_key(b)); assert(ex(p0, w0, b)); lemma_ex(p0, w0, b); assert(s as int == idx(w0, b) * 2); assert(s != t); assert(edat(w2, s) == edat(w1, s) && uem(w2, u, s) == uem(w1, u, s)); }
        lemma_settled_cong(w0, w1, w2, u, s, q.d_supply as int, q.scalar as int, lbal(u0.positions, q.index));
    }
    assert forall|s: u32| (forall|b: Address| mc2.contains_key(b) ==> s != idx(w0, b) * 2 + 1) && (forall|b: Address| ml2.contains_key(b) ==> s != idx(w0, b) * 2) implies #[trigger] edat(w2, s) == edat(w0, s) && uem(w2, u, s) == uem(w0, u, s) by {
        assert forall|b: Address| mc.contains_key(b) implies s != idx(w0, b) * 2 + 1 by { assert(mc2.contains_key(b)); }
        assert forall|b: Address| ml.contains_key(b) implies s != idx(w0, b) * 2 by { assert(ml2.contains_key(b)); }
        if kind == 1 { assert(mc2.contains_key(a)); } else { assert(ml2.contains_key(a)); }
        assert(edat(w1, s) == edat(w0, s) && uem(w1, u, s) == uem(w0, u, s));
    }
}
/// the emissions step seen from the state before the whole move
pub proof fn lemma_bulk_same(w0: World, w1: World, w2: World, p0: Pool, p1: Pool, u0: User, u1: User, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool, kind: int, a: Address)
    requires idx_ok(w0), pool_wf(p0, w0), kind == 0 || kind == 1,
        bulk_pos(w0, p0, p1, w1, u0, u1, mc, ml, add), bulk_frame(w0, w1, p0, p1, u0.address),
        !(if kind == 1 { mc } else { ml }).contains_key(a), ex(p1, w1, a), emis_move(w1, w2, u1, er(p1, w1, a), kind),
    ensures ex(p0, w0, a), emis_move(w1, w2, u0, er(p0, w0, a), kind), er(p1, w1, a).index == er(p0, w0, a).index,
{
    hide(accrued); hide(settled);
    lemma_emis_frame(w0, w1, u0.address);
    assert(ex(p0, w0, a)) by { if p1.reserves@.contains_key(a) { assert(res_static(w1, a, p1.reserves@[a])); } assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a)); }
    lemma_ex(p0, w0, a);
    let i = idx(w0, a); let r = er(p1, w1, a); let r0 = er(p0, w0, a);
    assert(r == (Reserve { b_supply: r.b_supply, d_supply: r.d_supply, ..r0 }));
    assert(lbal(u1.positions, i) == lbal(u0.positions, i) + sg(add, amt(w0, ml, i)));
    assert(cbal(u1.positions, i) == cbal(u0.positions, i) + sg(add, amt(w0, mc, i)));
}
pub proof fn lemma_bulk_step(w0: World, w1: World, w2: World, p0: Pool, p1: Pool, p2: Pool, u0: User, u1: User, u2: User, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool, kind: int, a: Address, x: i128, r1: Reserve)
    requires idx_ok(w0), pool_wf(p0, w0), kind == 0 || kind == 1,
        bulk_pos(w0, p0, p1, w1, u0, u1, mc, ml, add), bulk_frame(w0, w1, p0, p1, u0.address), bulk_emis(w0, w1, p0, u0, mc, ml),
        !(if kind == 1 { mc } else { ml }).contains_key(a), ex(p1, w1, a), x != 0,
        pos_move(u1, u2, er(p1, w1, a), r1, kind, sg(add, x as int), add), emis_move(w1, w2, u1, er(p1, w1, a), kind), 
        cached(p1, a, r1, p2), res_static(w1, a, er(p1, w1, a)),
    ensures ({ let mc2 = if kind == 1 { mc.insert(a, x) } else { mc }; let ml2 = if kind == 0 { ml.insert(a, x) } else { ml };
        bulk_pos(w0, p0, p2, w2, u0, u2, mc2, ml2, add) && bulk_emis(w0, w2, p0, u0, mc2, ml2) }), bulk_frame(w0, w2, p0, p2, u0.address)
{
    lemma_bulk_pos(w0, w1, w2, p0, p1, p2, u0, u1, u2, mc, ml, add, kind, a, x, r1);
    lemma_bulk_same(w0, w1, w2, p0, p1, u0, u1, mc, ml, add, kind, a);
    lemma_bulk_emis(w0, w1, w2, p0, p1, u0, mc, ml, kind, a, x);
}
pub proof fn lemma_pre(m: Map<Address, i128>)
    ensures pre(m, 0) == Map::<Address, i128>::empty(), pre(m, entries(m).len() as int) == m,
        forall|k: int| 0 <= k < entries(m).len() ==> #[trigger] pre(m, k + 1) == pre(m, k).insert(entries(m)[k].0, entries(m)[k].1) && !pre(m, k).contains_key(entries(m)[k].0),
        forall|k: int, a: Address| #[trigger] pre(m, k).contains_key(a) ==> m.contains_key(a) && pre(m, k)[a] == m[a],
{
    assert(entries(m).len() == m.len());
    assert(pre(m, 0) =~= Map::<Address, i128>::empty()) by {
        assert forall|a: Address| !pre(m, 0).contains_key(a) by { if m.contains_key(a) { assert(eidx(m, a) >= 0); } }
    }
    assert(pre(m, entries(m).len() as int) =~= m) by {
        assert forall|a: Address| m.contains_key(a) == pre(m, entries(m).len() as int).contains_key(a) by { if m.contains_key(a) { assert(eidx(m, a) < entries(m).len()); } }
    }
    assert forall|k: int| 0 <= k < entries(m).len() implies #[trigger] pre(m, k + 1) == pre(m, k).insert(entries(m)[k].0, entries(m)[k].1) && !pre(m, k).contains_key(entries(m)[k].0) by {
        let (a, x) = entries(m)[k];
        assert(m.contains_key(a) && m[a] == x && eidx(m, a) == k);
        assert forall|b: Address| pre(m, k + 1).contains_key(b) == pre(m, k).insert(a, x).contains_key(b) by {
            if m.contains_key(b) && eidx(m, b) == k { assert(entries(m)[k] == (b, m[b])); }
        }
        assert(pre(m, k + 1) =~= pre(m, k).insert(a, x));
    }
}
pub proof fn lemma_empty_pos(p: Positions)
    requires is_empty_pos(p)
    ensures p == empty_pos()
{
    let q = empty_pos();
    assert(is_empty_pos(q));
    assert(p.liabilities@ == q.liabilities@ && p.collateral@ == q.collateral@ && p.supply@ == q.supply@);
}

// ---- configuration
pub open spec fn fixed_same(w0: World, w1: World) -> bool {
    &&& p_init(w1) == p_init(w0) && p_backstop(w1) == p_backstop(w0) && p_blnd(w1) == p_blnd(w0) && p_name(w1) == p_name(w0)
    &&& p_config(w0) is Some ==> p_config(w1) is Some && (p_config(w1)->0).oracle == (p_config(w0)->0).oracle
}
pub open spec fn with_config(w: World, c: PoolConfig) -> World { World { inst: w.inst.insert(SKey::Sym(sym!("Config")), enc(c)), ..w } }
pub open spec fn by_admin(w: World) -> World { World { auths: w.auths.insert(p_admin(w)->0), ..w } }
pub open spec fn queued(w: World, a: Address) -> Option<QueuedReserveInit> { mget::<QueuedReserveInit>(w.temp, k_rinit(a)) }
pub open spec fn data_of(r: Reserve) -> ReserveData { ReserveData { d_rate: r.d_rate, b_rate: r.b_rate, ir_mod: r.ir_mod, b_supply: r.b_supply, d_supply: r.d_supply, backstop_credit: r.backstop_credit, last_time: r.last_time } }
/// the parameters of the interest curve are the same
pub open spec fn same_curve(a: ReserveConfig, b: ReserveConfig) -> bool { a.r_base == b.r_base && a.r_one == b.r_one && a.r_two == b.r_two && a.r_three == b.r_three && a.util == b.util }

// ---- status
pub open spec fn sm(a: int, b: int) -> int { clamp(a * b, i128::MIN as int, i128::MAX as int) }
/// backstop size relative to the required one, to the fifth power, 7 decimals (saturating)
pub open spec fn thr(d: PoolBackstopData) -> int { let b = d.blnd as int / S7(); let u = d.usdc as int / S7(); tdiv(imin(b * b * b * b * u * S7(), i128::MAX as int), 320_000_000_000_000_000_000_000_000) }
pub open spec fn bs_data(w: World) -> PoolBackstopData { bs_pool_data(w.calls, p_backstop(w)->0, w.this) }
pub open spec fn bs_sane(d: PoolBackstopData) -> bool { d.blnd >= 0 && d.usdc >= 0 }
pub proof fn lemma_sm(x: int, y: int, m: int)
    requires x >= 0, y >= 0, m == i128::MAX
    ensures sm(imin(x, m), y) == imin(x * y, m), x * y >= 0
{
    assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
    assert(imin(x, m) * y >= 0) by (nonlinear_arith) requires imin(x, m) >= 0, y >= 0;
    if x > m { if y == 0 { assert(x * y == 0 && m * y == 0) by (nonlinear_arith) requires y == 0; } else { assert(x * y >= m && m * y >= m) by (nonlinear_arith) requires y >= 1, x >= m, m >= 0; } }
}
/// the status dictated by the backstop's state
pub open spec fn status_next(s: u32, d: PoolBackstopData) -> u32 {
    let met = thr(d) >= S7(); let q = d.q4w_pct as int;
    if s == 2 { if q >= 7500000 { 5 } else { 2 } }
    else if s == 0 { if !met || q >= 5000000 { 3 } else { 0 } }
    else if q >= 6000000 { 5 } else if q >= 3000000 || !met { 3 } else { 1 }
}
pub open spec fn status_allowed(s: u32, d: PoolBackstopData) -> bool {
    if s == 0 { thr(d) >= S7() && d.q4w_pct < 5000000 } else if s == 2 || s == 3 { d.q4w_pct < 7500000 } else { s == 4 }
}

// ---- emissions configuration
pub open spec fn pe(w: World) -> Map<u32, u64> { match mget::<SMap<u32, u64>>(w.pers, k_pemis()) { Some(m) => m@, None => Map::empty() } }
pub open spec fn meta_key(m: ReserveEmissionMetadata) -> int { m.res_index * 2 + m.res_type }
/// the weights set by a list of entries (the last entry for a token counts)
pub open spec fn meta_map(s: Seq<ReserveEmissionMetadata>) -> Map<u32, u64> decreases s.len() { if s.len() == 0 { Map::empty() } else { meta_map(s.drop_last()).insert(meta_key(s.last()) as u32, s.last().share) } }
pub open spec fn meta_sum(s: Seq<ReserveEmissionMetadata>) -> int decreases s.len() { if s.len() == 0 { 0 } else { meta_sum(s.drop_last()) + s.last().share } }
pub open spec fn meta_ok(w: World, s: Seq<ReserveEmissionMetadata>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).res_type <= 1 && s[i].res_index < rlist(w).len() && meta_key(s[i]) <= u32::MAX }
/// what the running period still owes
pub open spec fn owed(w: World, t: u32) -> int { match ecfg(w, t) { Some(c) => if c.expiration > w.ts { c.eps * (c.expiration - w.ts) } else { 0 }, None => 0 } }
/// a reserve token starts a new period with `x` new tokens
pub open spec fn new_period(w0: World, w1: World, a: Address, t: u32, x: int) -> bool {
    let n = tdiv(x + owed(w0, t), 604800);
    &&& w0.ts + 604800 <= u64::MAX && 0 <= n <= u64::MAX
    &&& ecfg(w1, t) == Some(ReserveEmissionsConfig { expiration: (w0.ts + 604800) as u64, eps: n as u64 })
    &&& edat(w1, t) == (if ecfg(w0, t) is None { Some(ReserveEmissionsData { index: 0, last_time: w0.ts }) } else {
            let s = if t % 2 == 0 { (rdat(w0, a)->0).d_supply } else { (rdat(w0, a)->0).b_supply };
            Some(ReserveEmissionsData { index: edat_next(w0, t, s as int, pow(10, (rcfg(w0, a)->0).decimals as nat)).index, last_time: w0.ts })
        })
}
pub open spec fn ecfg_key(k: SKey) -> bool { match k { SKey::K_PoolDataKey(PoolDataKey::EmisData(_)) => true, SKey::K_PoolDataKey(PoolDataKey::EmisConfig(_)) => true, _ => false } }
/// token `t` gets its share of `n` new tokens
pub open spec fn gulped(w0: World, w1: World, t: u32, n: int) -> bool { t as int / 2 < rlist(w0).len() && new_period(w0, w1, rlist(w0)[t as int / 2], t, mul_floor(pe(w0)[t] as int, n, S7())) }
pub open spec fn eunch(w0: World, w1: World, t: u32) -> bool { ecfg(w1, t) == ecfg(w0, t) && edat(w1, t) == edat(w0, t) }
pub open spec fn gulp_tok(w0: World, w: World, k: int, n: int, t: u32) -> bool { if pe(w0).contains_key(t) && eidx(pe(w0), t) < k { gulped(w0, w, t, n) } else { eunch(w0, w, t) } }
pub open spec fn gulp_all(w0: World, w: World, k: int, n: int) -> bool { forall|t: u32| #![trigger ecfg(w, t)] #![trigger edat(w, t)] #![trigger gulp_tok(w0, w, k, n, t)] gulp_tok(w0, w, k, n, t) }
pub open spec fn gulp_inv(w0: World, w: World, k: int, n: int) -> bool {
    &&& gulp_all(w0, w, k, n)
    &&& only(w0.pers, w.pers, |k: SKey| ecfg_key(k))
}
pub proof fn lemma_ecfg_frame(w0: World, w1: World)
    requires w1 == (World { pers: w1.pers, calls: w1.calls, ..w0 }), only(w0.pers, w1.pers, |k: SKey| ecfg_key(k))
    ensures res_same(w0, w1), pe(w1) == pe(w0)
{
    assert forall|a: Address| #![trigger rcfg(w1, a)] rcfg(w1, a) == rcfg(w0, a) by { assert(w1.pers.contains_key(k_rcfg(a)) == w0.pers.contains_key(k_rcfg(a))); }
    assert forall|a: Address| #![trigger rdat(w1, a)] rdat(w1, a) == rdat(w0, a) by { assert(w1.pers.contains_key(k_rdat(a)) == w0.pers.contains_key(k_rdat(a))); }
    assert(w1.pers.contains_key(k_list()) == w0.pers.contains_key(k_list()));
    assert(w1.pers.contains_key(k_pemis()) == w0.pers.contains_key(k_pemis()));
}
pub proof fn lemma_gulp_step(w0: World, v: World, w: World, k: int, n: int, t: u32, share: u64)
    requires gulp_inv(w0, v, k, n), v == (World { pers: v.pers, calls: v.calls, ..w0 }), w == (World { pers: w.pers, ..v }),
        0 <= k < entries(pe(w0)).len(), entries(pe(w0))[k] == (t, share), t as int / 2 < rlist(w0).len(),
        new_period(v, w, rlist(w0)[t as int / 2], t, mul_floor(share as int, n, S7())), only(v.pers, w.pers, |k: SKey| k == k_edat(t) || k == k_ecfg(t)),
    ensures gulp_inv(w0, w, k + 1, n)
{
    lemma_ecfg_frame(w0, v);
    let m = pe(w0);
    assert(m.len() == entries(m).len());
    assert(m.contains_key(t) && m[t] == share && eidx(m, t) == k);
    assert(eunch(w0, v, t)) by { assert(ecfg(v, t) == ecfg(w0, t)); }
    assert(gulped(w0, w, t, n));
    assert forall|s: u32| #![trigger ecfg(w, s)] #![trigger edat(w, s)] #![trigger gulp_tok(w0, w, k + 1, n, s)] gulp_tok(w0, w, k + 1, n, s) by {
        assert(ecfg(v, s) == ecfg(v, s)); assert(gulp_tok(w0, v, k, n, s));
        if s != t {
            assert(w.pers.contains_key(k_edat(s)) == v.pers.contains_key(k_edat(s)) && (v.pers.contains_key(k_edat(s)) ==> w.pers[k_edat(s)] == v.pers[k_edat(s)]));
            assert(w.pers.contains_key(k_ecfg(s)) == v.pers.contains_key(k_ecfg(s)) && (v.pers.contains_key(k_ecfg(s)) ==> w.pers[k_ecfg(s)] == v.pers[k_ecfg(s)]));
            assert(ecfg(v, s) == ecfg(v, s));
            if m.contains_key(s) && eidx(m, s) == k { assert(entries(m)[eidx(m, s)] == (s, m[s])); }
        }
    }
    assert forall|q: SKey| !ecfg_key(q) implies w.pers.contains_key(q) == w0.pers.contains_key(q) && (w0.pers.contains_key(q) ==> w.pers[q] == w0.pers[q]) by { assert(v.pers.contains_key(q) == w0.pers.contains_key(q)); assert(q != k_edat(t) && q != k_ecfg(t)); assert(w.pers.contains_key(q) == v.pers.contains_key(q)); }
    assert(only(w0.pers, w.pers, |k: SKey| ecfg_key(k)));
    assert(gulp_all(w0, w, k + 1, n));
}
// ---- claims
pub open spec fn claim_res(w: World, t: u32) -> Address { rlist(w)[t as int / 2] }
pub open spec fn claim_sup(w: World, t: u32) -> int { let d = rdat(w, claim_res(w, t))->0; if t % 2 == 0 { d.d_supply as int } else { d.b_supply as int } }
pub open spec fn claim_scal(w: World, t: u32) -> int { pow(10, (rcfg(w, claim_res(w, t))->0).decimals as nat) }
pub open spec fn claim_bal(w: World, u: Address, t: u32) -> int { let p = posof(w, u); let i = (t as int / 2) as u32; if t % 2 == 0 { lbal(p, i) } else { cbal(p, i) + sbal(p, i) } }
/// what a claim for token `t` pays in state `w`
pub open spec fn claim_amt(w: World, u: Address, t: u32) -> int {
    if ecfg(w, t) is None { 0 } else { accrued_at(w, u, t, edat_next(w, t, claim_sup(w, t), claim_scal(w, t)).index as int, claim_bal(w, u, t), claim_scal(w, t)) }
}
/// states of a claim: one settlement with reset per token, in order
pub open spec fn claim_trace(w0: World, u: Address, ids: Seq<u32>, t: Seq<World>) -> bool {
    &&& t.len() > 0 && t[0] == w0 && t.len() <= ids.len() + 1
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> claim_step(w0, t[i], #[trigger] t[i + 1], u, ids[i])
}
pub open spec fn claim_step(w0: World, a: World, b: World, u: Address, t: u32) -> bool {
    &&& t as int / 2 < rlist(w0).len() && has_res(w0, claim_res(w0, t))
    &&& settled(a, b, u, t, claim_sup(w0, t), claim_scal(w0, t), claim_bal(w0, u, t), true)
    &&& b == (World { pers: b.pers, ..a }) && only(a.pers, b.pers, |k: SKey| k == k_edat(t) || k == k_uem(u, t))
}
pub open spec fn claim_sum(u: Address, ids: Seq<u32>, t: Seq<World>, n: int) -> int decreases n { if n <= 0 { 0 } else { claim_sum(u, ids, t, n - 1) + claim_amt(t[n - 1], u, ids[n - 1]) } }
pub proof fn lemma_claim_sum(u: Address, ids: Seq<u32>, t: Seq<World>, x: World, n: int)
    requires 0 <= n <= t.len()
    ensures claim_sum(u, ids, t.push(x), n) == claim_sum(u, ids, t, n)
    decreases n
{ if n > 0 { lemma_claim_sum(u, ids, t, x, n - 1); assert(t.push(x)[n - 1] == t[n - 1]); } }
pub open spec fn by(w: World, a: Address) -> World { World { auths: w.auths.insert(a), ..w } }
/// a positive total is paid from the backstop's allowance to `to`
pub open spec fn claim_paid(w: World, to: Address, n: int) -> World { if n > 0 { logc(w, Call::TransferFrom { token: p_blnd(w)->0, spender: w.this, from: p_backstop(w)->0, to, amount: n as i128 }) } else { w } }
/// sum of the weights
pub open spec fn msum(m: Map<u32, u64>) -> int decreases m.dom().len() { if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k] + msum(m.remove(k)) } }
/// sum of what the tokens get out of `n`
pub open spec fn gsum(m: Map<u32, u64>, n: int) -> int decreases m.dom().len() { if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); mul_floor(m[k] as int, n, S7()) + gsum(m.remove(k), n) } }
pub proof fn lemma_msum_rm(m: Map<u32, u64>, k: u32)
    requires m.contains_key(k)
    ensures msum(m) == m[k] + msum(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::<u32>::empty()); } }
    assert(m.dom().contains(c));
    if c != k {
        assert(m.remove(c).dom().len() < m.dom().len());
        lemma_msum_rm(m.remove(c), k);
        lemma_msum_rm(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn lemma_msum_nonneg(m: Map<u32, u64>) ensures msum(m) >= 0 decreases m.dom().len()
{ if m.dom().len() != 0 { assert(m.dom().contains(m.dom().choose())); lemma_msum_nonneg(m.remove(m.dom().choose())); } }
/// C27: the weights in force add up to no more than the listed shares
pub proof fn lemma_meta_sum(s: Seq<ReserveEmissionMetadata>)
    ensures msum(meta_map(s)) <= meta_sum(s)
    decreases s.len()
{
    if s.len() > 0 {
        let m = meta_map(s.drop_last()); let k = meta_key(s.last()) as u32; let v = s.last().share;
        lemma_meta_sum(s.drop_last());
        let m2 = m.insert(k, v);
        lemma_msum_rm(m2, k);
        if m.contains_key(k) { lemma_msum_rm(m, k); assert(m2.remove(k) =~= m.remove(k)); } else { assert(m2.remove(k) =~= m); }
    } else { assert(meta_map(s).dom() =~= Set::<u32>::empty()); }
}
/// C27: what is given out never exceeds what was received
pub proof fn lemma_gsum(m: Map<u32, u64>, n: int)
    requires n >= 0
    ensures gsum(m, n) * S7() <= msum(m) * n, gsum(m, n) >= 0, msum(m) <= S7() ==> gsum(m, n) <= n
    decreases m.dom().len()
{
    if m.dom().len() != 0 {
        let k = m.dom().choose(); let x = m[k] as int; let f = mul_floor(x, n, S7()); let g = gsum(m.remove(k), n); let r = msum(m.remove(k)); let s7 = S7();
        assert(m.dom().contains(k));
        lemma_gsum(m.remove(k), n);
        lemma_mul_div(x, n, S7()); lemma_mul_nonneg(x, n, S7());
        assert((f + g) * s7 <= (x + r) * n) by (nonlinear_arith) requires f * s7 <= x * n, g * s7 <= r * n;
    } else { assert(0 * n == 0) by (nonlinear_arith); }
    let g = gsum(m, n); let s = msum(m); let s7 = S7();
    if s <= s7 { assert(g <= n) by (nonlinear_arith) requires g * s7 <= s * n, s <= s7, n >= 0, s7 > 0; }
}

// ---- writing reserves back
/// the reserves marked for storing are written, no others
pub open spec fn stored(p: Pool, w0: World, w1: World) -> bool {
    &&& forall|a: Address| #![trigger rdat(w1, a)] rdat(w1, a) == (if p.reserves_to_store@.contains(a) { Some(data_of(p.reserves@[a])) } else { rdat(w0, a) })
    &&& forall|a: Address| #[trigger] p.reserves_to_store@.contains(a) ==> p.reserves@.contains_key(a)
}
pub proof fn lemma_store_all(p: Pool, w0: World, w: World)
    requires store_n(p, w0, w, p.reserves_to_store@.len() as int)
    ensures stored(p, w0, w)
{
    assert(p.reserves_to_store@.take(p.reserves_to_store@.len() as int) =~= p.reserves_to_store@);
    assert forall|a: Address| #![trigger rdat(w, a)] rdat(w, a) == (if p.reserves_to_store@.contains(a) { Some(data_of(p.reserves@[a])) } else { rdat(w0, a) }) by { assert(store_one(p, w0, w, p.reserves_to_store@.len() as int, a)); }
    assert forall|a: Address| #[trigger] p.reserves_to_store@.contains(a) implies p.reserves@.contains_key(a) by { assert(store_one(p, w0, w, p.reserves_to_store@.len() as int, a)); }
}
pub open spec fn rdat_key(k: SKey) -> bool { match k { SKey::K_PoolDataKey(PoolDataKey::ResData(_)) => true, _ => false } }
pub open spec fn store_one(p: Pool, w0: World, w: World, n: int, a: Address) -> bool {
    let c = p.reserves_to_store@.take(n).contains(a);
    rdat(w, a) == (if c { Some(data_of(p.reserves@[a])) } else { rdat(w0, a) }) && (c ==> p.reserves@.contains_key(a))
}
pub open spec fn store_n(p: Pool, w0: World, w: World, n: int) -> bool { forall|a: Address| #![trigger rdat(w, a)] #![trigger store_one(p, w0, w, n, a)] store_one(p, w0, w, n, a) }
pub proof fn lemma_store_step(p: Pool, w0: World, v: World, w: World, n: int)
    requires store_n(p, w0, v, n), 0 <= n < p.reserves_to_store@.len(), p.reserves@.contains_key(p.reserves_to_store@[n]),
        w.pers == v.pers.insert(k_rdat(p.reserves_to_store@[n]), enc(data_of(p.reserves@[p.reserves_to_store@[n]])))
    ensures store_n(p, w0, w, n + 1)
{
    let s = p.reserves_to_store@; let x = s[n];
    assert(s.take(n + 1) =~= s.take(n).push(x));
    assert forall|a: Address| #![trigger rdat(w, a)] #![trigger store_one(p, w0, w, n + 1, a)] store_one(p, w0, w, n + 1, a) by {
        assert(store_one(p, w0, v, n, a));
        if s.take(n).contains(a) { let j = choose|j: int| 0 <= j < n && #[trigger] s.take(n)[j] == a; assert(s.take(n + 1)[j] == a); }
        if a == x { assert(s.take(n + 1)[n] == a); } else {
            assert(k_rdat(a) != k_rdat(x));
            if s.take(n + 1).contains(a) { let j = choose|j: int| 0 <= j < n + 1 && #[trigger] s.take(n + 1)[j] == a; assert(j < n); assert(s.take(n)[j] == a); }
        }
    }
}
/// C16, C20: after storing, the recorded totals are those the operation worked with
pub proof fn lemma_stored(p: Pool, w0: World, w1: World)
    requires pool_wf(p, w0), stored(p, w0, w1)
    ensures forall|a: Address| #![trigger rdat(w1, a)] ex(p, w0, a) ==> rdat(w1, a) is Some && (rdat(w1, a)->0).b_supply == er(p, w0, a).b_supply && (rdat(w1, a)->0).d_supply == er(p, w0, a).d_supply
        && (rdat(w1, a) == Some(data_of(er(p, w0, a))) || !p.reserves_to_store@.contains(a) && er(p, w0, a) == loaded(p.config, w0, a) && rdat(w1, a) == rdat(w0, a))
{
    assert forall|a: Address| #![trigger rdat(w1, a)] ex(p, w0, a) implies rdat(w1, a) is Some && (rdat(w1, a)->0).b_supply == er(p, w0, a).b_supply && (rdat(w1, a)->0).d_supply == er(p, w0, a).d_supply
        && (rdat(w1, a) == Some(data_of(er(p, w0, a))) || !p.reserves_to_store@.contains(a) && er(p, w0, a) == loaded(p.config, w0, a) && rdat(w1, a) == rdat(w0, a)) by {
        if p.reserves@.contains_key(a) { assert(res_static(w0, a, p.reserves@[a])); }
    }
}

// ---- health
pub open spec fn at_i(p: Pool, w: World, i: int) -> Reserve { er(p, w, rlist(w)[i]) }
pub open spec fn pr_i(p: Pool, w: World, i: int) -> int { price_of(p, w, rlist(w)[i]) }
/// value of position `i`, in the oracle's base asset
pub open spec fn v_cb(p: Pool, w: World, x: Positions, i: int) -> int { let b = cbal(x, i as u32); if b > 0 { mul_floor(pr_i(p, w, i), eff_b(at_i(p, w, i), b), at_i(p, w, i).scalar as int) } else { 0 } }
pub open spec fn v_cr(p: Pool, w: World, x: Positions, i: int) -> int { let b = cbal(x, i as u32); if b > 0 { mul_floor(pr_i(p, w, i), asset_b(at_i(p, w, i), b), at_i(p, w, i).scalar as int) } else { 0 } }
pub open spec fn v_lb(p: Pool, w: World, x: Positions, i: int) -> int { let b = lbal(x, i as u32); if b > 0 { mul_ceil(pr_i(p, w, i), eff_d(at_i(p, w, i), b), at_i(p, w, i).scalar as int) } else { 0 } }
pub open spec fn v_lr(p: Pool, w: World, x: Positions, i: int) -> int { let b = lbal(x, i as u32); if b > 0 { mul_ceil(pr_i(p, w, i), asset_d(at_i(p, w, i), b), at_i(p, w, i).scalar as int) } else { 0 } }
/// sums over the first `n` reserves of the list
pub open spec fn s_cb(p: Pool, w: World, x: Positions, n: int) -> int decreases n { if n <= 0 { 0 } else { s_cb(p, w, x, n - 1) + v_cb(p, w, x, n - 1) } }
pub open spec fn s_cr(p: Pool, w: World, x: Positions, n: int) -> int decreases n { if n <= 0 { 0 } else { s_cr(p, w, x, n - 1) + v_cr(p, w, x, n - 1) } }
pub open spec fn s_lb(p: Pool, w: World, x: Positions, n: int) -> int decreases n { if n <= 0 { 0 } else { s_lb(p, w, x, n - 1) + v_lb(p, w, x, n - 1) } }
pub open spec fn s_lr(p: Pool, w: World, x: Positions, n: int) -> int decreases n { if n <= 0 { 0 } else { s_lr(p, w, x, n - 1) + v_lr(p, w, x, n - 1) } }
pub open spec fn held(x: Positions, i: int) -> bool { cbal(x, i as u32) != 0 || lbal(x, i as u32) != 0 }
/// every held reserve has a fresh price
pub open spec fn priced(p: Pool, w: World, x: Positions, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] held(x, i) ==> fresh_price(w, p.config.oracle, rlist(w)[i]) && ex(p, w, rlist(w)[i]) }
/// the position data of `x`
pub open spec fn pdata_ok(p: Pool, w: World, x: Positions, d: PositionData) -> bool {
    let n = rlist(w).len() as int;
    d.collateral_base as int == s_cb(p, w, x, n) && d.collateral_raw as int == s_cr(p, w, x, n) && d.liability_base as int == s_lb(p, w, x, n) && d.liability_raw as int == s_lr(p, w, x, n) && d.scalar as int == pow(10, oracle_dec(p.config.oracle) as nat)
}
/// only the caches changed: every reserve is worth what it was
pub open spec fn er_eq(p0: Pool, p1: Pool, w: World, a: Address) -> bool { er(p1, w, a) == er(p0, w, a) && ex(p1, w, a) == ex(p0, w, a) && (p0.reserves@.contains_key(a) ==> p1.reserves@.contains_key(a)) }
pub open spec fn pool_eq(p0: Pool, p1: Pool, w: World) -> bool {
    &&& p1.config == p0.config && p1.reserves_to_store@ == p0.reserves_to_store@
    &&& forall|a: Address| #![trigger er(p1, w, a)] #![trigger ex(p1, w, a)] #![trigger er_eq(p0, p1, w, a)] er_eq(p0, p1, w, a)
}
pub open spec fn hf(d: PositionData) -> int { mul_floor(d.collateral_base as int, d.scalar as int, d.liability_base as int) }
pub open spec fn hf_under(d: PositionData, m: int) -> bool { d.liability_base != 0 && hf(d) < mul_floor(d.scalar as int, m, S7()) }
pub open spec fn hf_over(d: PositionData, m: int) -> bool { d.liability_base == 0 || hf(d) > mul_ceil(d.scalar as int, m, S7()) }

// ---- auctions
/// block modifiers, 7 decimals
pub open spec fn lot_mod(n: int) -> int { if n > 200 { S7() } else { n * 50000 } }
pub open spec fn bid_mod(n: int) -> int { if n <= 200 { S7() } else if n < 400 { S7() - (n - 200) * 50000 } else { 0 } }
/// an amount of an auction filled for `p` percent at block distance `n`; kind 0: bid paid, 1: bid left, 2: lot received, 3: lot left
pub open spec fn sc(kind: int, x: int, p: int, n: int) -> int {
    if kind == 0 { mul_ceil(mul_ceil(x, p * 100000, S7()), bid_mod(n), S7()) } else if kind == 1 { x - mul_ceil(x, p * 100000, S7()) }
    else if kind == 2 { mul_floor(mul_floor(x, p * 100000, S7()), lot_mod(n), S7()) } else { x - mul_floor(x, p * 100000, S7()) }
}
/// the same for every asset; amounts that come to nothing are left out
pub open spec fn scaled(m: Map<Address, i128>, kind: int, p: int, n: int) -> Map<Address, i128> { m.restrict(m.dom().filter(|a: Address| sc(kind, m[a] as int, p, n) > 0)).map_values(|x: i128| sc(kind, x as int, p, n) as i128) }
pub proof fn lemma_scaled(m: Map<Address, i128>, a: Address, x: i128, kind: int, p: int, n: int)
    requires !m.contains_key(a)
    ensures scaled(m.insert(a, x), kind, p, n) == (if sc(kind, x as int, p, n) > 0 { scaled(m, kind, p, n).insert(a, sc(kind, x as int, p, n) as i128) } else { scaled(m, kind, p, n) })
{
    let l = scaled(m.insert(a, x), kind, p, n); let r = if sc(kind, x as int, p, n) > 0 { scaled(m, kind, p, n).insert(a, sc(kind, x as int, p, n) as i128) } else { scaled(m, kind, p, n) };
    assert forall|b: Address| l.contains_key(b) == r.contains_key(b) && (l.contains_key(b) ==> l[b] == r[b]) by {}
    assert(l =~= r);
}
pub proof fn lemma_scaled_empty(kind: int, p: int, n: int) ensures scaled(Map::<Address, i128>::empty(), kind, p, n) == Map::<Address, i128>::empty() { assert(scaled(Map::<Address, i128>::empty(), kind, p, n) =~= Map::<Address, i128>::empty()); }
pub proof fn lemma_scaled_step(m: Map<Address, i128>, k: int, kind: int, p: int, n: int)
    requires 0 <= k < entries(m).len()
    ensures ({ let (a, x) = entries(m)[k]; scaled(pre(m, k + 1), kind, p, n) == (if sc(kind, x as int, p, n) > 0 { scaled(pre(m, k), kind, p, n).insert(a, sc(kind, x as int, p, n) as i128) } else { scaled(pre(m, k), kind, p, n) }) })
{
    lemma_pre(m);
    let (a, x) = entries(m)[k];
    assert(pre(m, k + 1) == pre(m, k).insert(a, x) && !pre(m, k).contains_key(a));
    lemma_scaled(pre(m, k), a, x, kind, p, n);
}
pub open spec fn usr(w: World, a: Address) -> User { User { address: a, positions: posof(w, a) } }
pub open spec fn with_pos(w: World, a: Address, p: Positions) -> World { World { pers: w.pers.insert(k_pos(a), enc(p)), ..w } }
/// collateral moves by `mc`, liabilities by `ml` (per asset), supply not at all
pub open spec fn bals(w: World, x0: Positions, x1: Positions, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool) -> bool {
    &&& x1.supply == x0.supply
    &&& forall|i: u32| #[trigger] cbal(x1, i) == cbal(x0, i) + sg(add, amt(w, mc, i))
    &&& forall|i: u32| #[trigger] lbal(x1, i) == lbal(x0, i) + sg(add, amt(w, ml, i))
}
/// every reserve is what it was
pub open spec fn ers_same(p0: Pool, w0: World, p1: Pool, w1: World) -> bool { forall|a: Address| #![trigger er(p1, w1, a)] #![trigger ex(p1, w1, a)] ex(p0, w0, a) ==> ex(p1, w1, a) && er(p1, w1, a) == er(p0, w0, a) }
pub open spec fn two_key(k: SKey, u: Address, f: Address) -> bool { emis_key(k, u) || emis_key(k, f) || k == k_pos(u) }
/// C26: the user's moved balances are settled before the move, and then the filler's
pub open spec fn two_emis(w0: World, w1: World, p0: Pool, u: User, f: User, mc: Map<Address, i128>, ml: Map<Address, i128>) -> bool {
    exists|wm: World, pm: Pool, um: User| #[trigger] bulk_pos(w0, p0, pm, wm, u, um, mc, ml, false) && bulk_emis(w0, wm, p0, u, mc, ml) && bulk_emis(wm, w1, pm, f, mc, ml)
}
pub proof fn lemma_with_pos(w: World, a: Address, x: Positions)
    ensures ({ let v = with_pos(w, a, x); res_same(w, v) && posof(v, a) == x && (forall|b: Address| b != a ==> #[trigger] posof(v, b) == posof(w, b))
        && (forall|t: u32| #[trigger] edat(v, t) == edat(w, t)) && (forall|t: u32| #[trigger] ecfg(v, t) == ecfg(w, t)) && (forall|u: Address, t: u32| #[trigger] uem(v, u, t) == uem(w, u, t))
        && (forall|p: Pool, b: Address| #[trigger] er(p, v, b) == er(p, w, b)) && (forall|p: Pool, b: Address| #[trigger] ex(p, v, b) == ex(p, w, b)) && (forall|p: Pool| #[trigger] pool_wf(p, v) == pool_wf(p, w)) && (idx_ok(w) ==> idx_ok(v)) })
{
    hide(accrued);
    let v = with_pos(w, a, x);
    assert forall|b: Address| #![trigger rcfg(v, b)] rcfg(v, b) == rcfg(w, b) by {}
    assert forall|b: Address| #![trigger rdat(v, b)] rdat(v, b) == rdat(w, b) by {}
    assert(rlist(v) == rlist(w));
    assert forall|p: Pool, b: Address| #[trigger] er(p, v, b) == er(p, w, b) by { assert(rcfg(v, b) == rcfg(w, b) && rdat(v, b) == rdat(w, b)); }
    assert forall|p: Pool, b: Address| #[trigger] ex(p, v, b) == ex(p, w, b) by { assert(rcfg(v, b) == rcfg(w, b) && rdat(v, b) == rdat(w, b)); }
    lemma_same_wf(w, v); lemma_same_wf(v, w);
}
pub proof fn lemma_same_wf(w0: World, w1: World)
    requires res_same(w0, w1)
    ensures forall|p: Pool| pool_wf(p, w0) ==> #[trigger] pool_wf(p, w1), idx_ok(w0) ==> idx_ok(w1), forall|p: Pool, b: Address| #[trigger] er(p, w1, b) == er(p, w0, b), forall|p: Pool, b: Address| #[trigger] ex(p, w1, b) == ex(p, w0, b)
{
    hide(accrued);
    assert forall|p: Pool, b: Address| #[trigger] er(p, w1, b) == er(p, w0, b) by { assert(rcfg(w1, b) == rcfg(w0, b) && rdat(w1, b) == rdat(w0, b)); }
    assert forall|p: Pool, b: Address| #[trigger] ex(p, w1, b) == ex(p, w0, b) by { assert(rcfg(w1, b) == rcfg(w0, b) && rdat(w1, b) == rdat(w0, b)); }
    assert forall|p: Pool| pool_wf(p, w0) implies #[trigger] pool_wf(p, w1) by {
        assert forall|a: Address| #[trigger] p.reserves@.contains_key(a) implies res_static(w1, a, p.reserves@[a]) && res_rates(p.config, w1, a, p.reserves@[a]) && (p.reserves_to_store@.contains(a) || p.reserves@[a] == loaded(p.config, w1, a)) by {
            assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a));
        }
    }
    if idx_ok(w0) {
        assert forall|a: Address| (#[trigger] rcfg(w1, a)) is Some implies has_res(w1, a) && (rcfg(w1, a)->0).index < rlist(w1).len() && rlist(w1)[(rcfg(w1, a)->0).index as int] == a by { assert(rcfg(w0, a) is Some); assert(rdat(w1, a) == rdat(w0, a)); }
        assert forall|i: int| 0 <= i < rlist(w1).len() implies has_res(w1, #[trigger] rlist(w1)[i]) && (rcfg(w1, rlist(w1)[i])->0).index == i by { let a = rlist(w0)[i]; assert(has_res(w0, a)); assert(rcfg(w1, a) == rcfg(w0, a) && rdat(w1, a) == rdat(w0, a)); }
    }
}
/// amounts per reserve index listed per asset; kind 0: `num`/`den` of them rounded up, 1: all, 2: the positive ones
pub open spec fn sc2(x: int, kind: int, num: int, den: int) -> int { if kind == 0 { mul_ceil(x, num, den) } else { x } }
pub open spec fn lst1(w: World, m: Map<u32, i128>, o: Map<Address, i128>, k: int, kind: int, num: int, den: int, a: Address) -> bool {
    let i = idx(w, a);
    &&& o.contains_key(a) == (rcfg(w, a) is Some && m.contains_key(i) && eidx(m, i) < k && (kind == 2 ==> m[i] > 0))
    &&& o.contains_key(a) ==> o[a] == sc2(m[i] as int, kind, num, den)
}
pub open spec fn lst(w: World, m: Map<u32, i128>, o: Map<Address, i128>, k: int, kind: int, num: int, den: int) -> bool {
    &&& forall|a: Address| #![trigger o.contains_key(a)] #![trigger lst1(w, m, o, k, kind, num, den, a)] lst1(w, m, o, k, kind, num, den, a)
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] entries(m)[i]).0 < rlist(w).len()
}
pub open spec fn lst_all(w: World, m: Map<u32, i128>, o: Map<Address, i128>, kind: int, num: int, den: int) -> bool { lst(w, m, o, m.len() as int, kind, num, den) }
pub proof fn lemma_lst(w: World, m: Map<u32, i128>, o: Map<Address, i128>, o2: Map<Address, i128>, k: int, kind: int, num: int, den: int, a: Address, x: i128)
    ensures idx_ok(w) && lst(w, m, o, k, kind, num, den) && 0 <= k < entries(m).len() && entries(m)[k].0 < rlist(w).len() && a == rlist(w)[entries(m)[k].0 as int]
        && (if kind == 2 && entries(m)[k].1 <= 0 { o2 == o } else { x == sc2(entries(m)[k].1 as int, kind, num, den) && o2 == o.insert(a, x) })
        ==> lst(w, m, o2, k + 1, kind, num, den)
{
    if !(idx_ok(w) && lst(w, m, o, k, kind, num, den) && 0 <= k < entries(m).len() && entries(m)[k].0 < rlist(w).len() && a == rlist(w)[entries(m)[k].0 as int]) { return; }
    if !(if kind == 2 && entries(m)[k].1 <= 0 { o2 == o } else { x == sc2(entries(m)[k].1 as int, kind, num, den) && o2 == o.insert(a, x) }) { return; }
    let i0 = entries(m)[k].0;
    assert(m.len() == entries(m).len());
    assert(m.contains_key(i0) && m[i0] == entries(m)[k].1 && eidx(m, i0) == k);
    assert(has_res(w, a) && idx(w, a) == i0);
    assert forall|b: Address| #![trigger o2.contains_key(b)] #![trigger lst1(w, m, o2, k + 1, kind, num, den, b)] lst1(w, m, o2, k + 1, kind, num, den, b) by {
        assert(lst1(w, m, o, k, kind, num, den, b));
        if b != a && rcfg(w, b) is Some { assert(rlist(w)[idx(w, b) as int] == b); assert(idx(w, b) != i0); if m.contains_key(idx(w, b)) && eidx(m, idx(w, b)) == k { assert(entries(m)[k] == (idx(w, b), m[idx(w, b)])); } }
    }
}
/// the amount listed at index `i`
pub proof fn lemma_lst_amt(w: World, m: Map<u32, i128>, o: Map<Address, i128>, kind: int, num: int, den: int)
    requires idx_ok(w), lst_all(w, m, o, kind, num, den)
    ensures forall|i: u32| #[trigger] amt(w, o, i) == (if m.contains_key(i) && (kind == 2 ==> m[i] > 0) { sc2(m[i] as int, kind, num, den) } else { 0 }), forall|i: u32| #[trigger] m.contains_key(i) ==> i < rlist(w).len()
{
    assert(m.len() == entries(m).len());
    assert forall|i: u32| #[trigger] m.contains_key(i) implies i < rlist(w).len() by { assert(entries(m)[eidx(m, i)] == (i, m[i])); }
    assert forall|i: u32| #[trigger] amt(w, o, i) == (if m.contains_key(i) && (kind == 2 ==> m[i] > 0) { sc2(m[i] as int, kind, num, den) } else { 0 }) by {
        if i < rlist(w).len() { let a = rlist(w)[i as int]; assert(has_res(w, a) && idx(w, a) == i); assert(lst1(w, m, o, m.len() as int, kind, num, den, a)); }
        else { assert(!m.contains_key(i)); }
    }
}
// ---- filling a bad-debt auction
/// what is written off: the backstop's remaining liabilities
pub open spec fn burn_ok(w0: World, p0: Pool, p1: Pool, w1: World, xm: Positions, b: Address) -> bool {
    &&& forall|i: u32| #[trigger] lbal(posof(w1, b), i) == 0
    &&& forall|i: u32| #[trigger] cbal(posof(w1, b), i) == cbal(xm, i)
    &&& posof(w1, b).supply == xm.supply
    &&& forall|a: Address| #![trigger er(p1, w1, a)] #![trigger ex(p1, w1, a)] ex(p0, w0, a) ==> ex(p1, w1, a) && ({ let (r0, r1) = (er(p0, w0, a), er(p1, w1, a)); r1 == (Reserve { d_supply: r1.d_supply, ..r0 }) && r1.d_supply == r0.d_supply - lbal(xm, idx(w0, a)) })
}
pub open spec fn no_debt(x: Positions) -> bool { x.liabilities@ == Map::<u32, i128>::empty() }
pub open spec fn bad_fill(w0: World, p0: Pool, p1: Pool, w1: World, b: Address, bid: Map<Address, i128>) -> bool {
    exists|xm: Positions| #[trigger] bals(w0, posof(w0, b), xm, Map::empty(), bid, false) && ({
        let burn = !no_debt(xm) && thr(bs_pool_data(w1.calls, b, w0.this)) < 3;
        ||| (bs_sane(bs_pool_data(w1.calls, b, w0.this)) && !no_debt(xm) ==> !burn) && posof(w1, b) == xm && ers_same(p0, w0, p1, w1)
        ||| (bs_sane(bs_pool_data(w1.calls, b, w0.this)) ==> burn) && !no_debt(xm) && burn_ok(w0, p0, p1, w1, xm, b)
    })
}
pub open spec fn bad_emis(w0: World, w1: World, p0: Pool, u: User, f: User, bid: Map<Address, i128>) -> bool {
    exists|wm: World, pm: Pool, um: User, wn: World, pn: Pool, fm: User| #[trigger] bulk_pos(w0, p0, pm, wm, u, um, Map::empty(), bid, false) && bulk_emis(w0, wm, p0, u, Map::empty(), bid)
        && #[trigger] bulk_pos(wm, pm, pn, wn, f, fm, Map::empty(), bid, true) && bulk_emis(wm, wn, pm, f, Map::empty(), bid)
        && (bemis_same(wn, w1, um.address) || exists|o: Map<Address, i128>| lst_all(w0, um.positions.liabilities@, o, 1, 0, 0) && #[trigger] bulk_emis(wn, w1, pn, um, Map::empty(), o))
}
pub open spec fn bemis_same(w0: World, w1: World, u: Address) -> bool { forall|t: u32| #![trigger edat(w1, t)] #![trigger uem(w1, u, t)] edat(w1, t) == edat(w0, t) && uem(w1, u, t) == uem(w0, u, t) }
/// one transfer out of the pool per entry, in order
pub open spec fn pays(from: Address, to: Address, s: Seq<(Address, i128)>, n: int) -> Seq<Call> decreases n { if n <= 0 { Seq::empty() } else { pays(from, to, s, n - 1).push(Call::Transfer { token: s[n - 1].0, from, to, amount: s[n - 1].1 }) } }
/// the reserves' credit falls by the listed amounts
pub open spec fn credit_taken(p0: Pool, p1: Pool, w: World, m: Map<Address, i128>) -> bool {
    &&& forall|a: Address| #![trigger er(p1, w, a)] #![trigger ex(p1, w, a)] ex(p0, w, a) ==> ex(p1, w, a) && ({ let (r0, r1) = (er(p0, w, a), er(p1, w, a)); r1 == (Reserve { backstop_credit: r1.backstop_credit, ..r0 }) && r1.backstop_credit == r0.backstop_credit - mga(m, a) })
    &&& forall|a: Address| #[trigger] m.contains_key(a) ==> ex(p0, w, a)
}
pub proof fn lemma_res_trans(a: World, b: World, c: World)
    requires res_same(a, b), res_same(b, c)
    ensures res_same(a, c)
{
    assert forall|x: Address| #![trigger rcfg(c, x)] rcfg(c, x) == rcfg(a, x) by { assert(rcfg(b, x) == rcfg(a, x)); }
    assert forall|x: Address| #![trigger rdat(c, x)] rdat(c, x) == rdat(a, x) by { assert(rdat(b, x) == rdat(a, x)); }
}
pub proof fn lemma_frame_wf(w0: World, w1: World, p0: Pool, p1: Pool, u: Address)
    requires bulk_frame(w0, w1, p0, p1, u)
    ensures res_same(w0, w1), pool_wf(p1, w1), idx_ok(w0) ==> idx_ok(w1), forall|x: Address| #![trigger posof(w1, x)] posof(w1, x) == posof(w0, x)
{
    hide(pool_wf); hide(idx_ok);
    lemma_emis_frame(w0, w1, u); lemma_same_wf(w0, w1);
    assert forall|x: Address| #![trigger posof(w1, x)] posof(w1, x) == posof(w0, x) by { assert(w1.pers.contains_key(k_pos(x)) == w0.pers.contains_key(k_pos(x))); }
}
pub proof fn lemma_bals(w0: World, w1: World, v: World, p0: Pool, p1: Pool, u0: User, u1: User, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool)
    requires bulk_pos(w0, p0, p1, w1, u0, u1, mc, ml, add), res_same(v, w0)
    ensures bals(v, u0.positions, u1.positions, mc, ml, add), u1.address == u0.address
{
    assert forall|i: u32| #[trigger] cbal(u1.positions, i) == cbal(u0.positions, i) + sg(add, amt(v, mc, i)) by { assert(amt(v, mc, i) == amt(w0, mc, i)); }
    assert forall|i: u32| #[trigger] lbal(u1.positions, i) == lbal(u0.positions, i) + sg(add, amt(v, ml, i)) by { assert(amt(v, ml, i) == amt(w0, ml, i)); }
}
/// emissions records only: `settled` cannot tell the two states apart
pub open spec fn emis_eq(a: World, b: World) -> bool { a.ts == b.ts && (forall|t: u32| #[trigger] edat(b, t) == edat(a, t)) && (forall|t: u32| #[trigger] ecfg(b, t) == ecfg(a, t)) && (forall|u: Address, t: u32| #[trigger] uem(b, u, t) == uem(a, u, t)) }
pub proof fn lemma_bulk_emis_eq(w0: World, w1: World, w2: World, p0: Pool, u: User, mc: Map<Address, i128>, ml: Map<Address, i128>)
    requires bulk_emis(w0, w1, p0, u, mc, ml), emis_eq(w1, w2)
    ensures bulk_emis(w0, w2, p0, u, mc, ml)
{
    assert forall|t: u32| #![trigger edat(w2, t)] #![trigger uem(w2, u.address, t)] (forall|a: Address| mc.contains_key(a) ==> t != idx(w0, a) * 2 + 1) && (forall|a: Address| ml.contains_key(a) ==> t != idx(w0, a) * 2) implies edat(w2, t) == edat(w0, t) && uem(w2, u.address, t) == uem(w0, u.address, t) by {
        assert(edat(w2, t) == edat(w1, t) && uem(w2, u.address, t) == uem(w1, u.address, t));
    }
}
pub proof fn lemma_only2(w0: World, w1: World, w2: World, u: Address, f: Address, q: Address, x: Positions)
    requires only(w0.pers, w1.pers, |k: SKey| emis_key(k, u)), only(w1.pers, w2.pers, |k: SKey| emis_key(k, f))
    ensures only(w0.pers, w2.pers.insert(k_pos(u), enc(x)), |k: SKey| two_key(k, u, f)), only(w0.pers, w2.pers, |k: SKey| two_key(k, u, f))
{
    assert forall|k: SKey| !two_key(k, u, f) implies w2.pers.contains_key(k) == w0.pers.contains_key(k) && (w0.pers.contains_key(k) ==> w2.pers[k] == w0.pers[k]) by { assert(w1.pers.contains_key(k) == w0.pers.contains_key(k)); }
}
#[verifier::rlimit(50)]
pub proof fn lemma_fill_user(w0: World, wm: World, wn: World, p0: Pool, pm: Pool, pn: Pool, u0: User, u1: User, f0: User, f1: User, mc: Map<Address, i128>, ml: Map<Address, i128>)
    requires idx_ok(w0), pool_wf(p0, w0), u0 == usr(w0, u0.address),
        bulk_pos(w0, p0, pm, wm, u0, u1, mc, ml, false), bulk_emis(w0, wm, p0, u0, mc, ml), bulk_frame(w0, wm, p0, pm, u0.address),
        bulk_pos(wm, pm, pn, wn, f0, f1, mc, ml, true), bulk_emis(wm, wn, pm, f0, mc, ml), bulk_frame(wm, wn, pm, pn, f0.address),
    ensures ({
        let w1 = with_pos(wn, u0.address, u1.positions);
        &&& bals(w0, u0.positions, posof(w1, u0.address), mc, ml, false)
        &&& bals(w0, f0.positions, f1.positions, mc, ml, true) && f1.address == f0.address && u1.address == u0.address
        &&& ers_same(p0, w0, pn, w1)
        &&& two_emis(w0, w1, p0, u0, f0, mc, ml)
        &&& pool_wf(pn, w1) && pool_same(p0, pn) && idx_ok(w1)
        &&& w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| two_key(k, u0.address, f0.address))
    })
{
    hide(accrued); hide(settled); hide(idx_ok); hide(pool_wf); hide(bulk_emis);
    let w1 = with_pos(wn, u0.address, u1.positions);
    lemma_frame_wf(w0, wm, p0, pm, u0.address); lemma_frame_wf(wm, wn, pm, pn, f0.address); lemma_res_trans(w0, wm, wn);
    lemma_same_wf(wm, wn);
    lemma_with_pos(wn, u0.address, u1.positions);
    lemma_bals(w0, wm, w0, p0, pm, u0, u1, mc, ml, false); lemma_bals(wm, wn, w0, pm, pn, f0, f1, mc, ml, true);
    assert forall|a: Address| #![trigger er(pn, w1, a)] #![trigger ex(pn, w1, a)] ex(p0, w0, a) implies ex(pn, w1, a) && er(pn, w1, a) == er(p0, w0, a) by {
        assert(er(pm, wm, a).index == er(p0, w0, a).index); assert(er(pn, wn, a) == er(pn, w1, a)); assert(er(pn, wn, a).index == er(pm, wm, a).index);
        let (r0, r1, r2) = (er(p0, w0, a), er(pm, wm, a), er(pn, wn, a));
        assert(r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, ..r0 })); assert(r2 == (Reserve { b_supply: r2.b_supply, d_supply: r2.d_supply, ..r1 }));
        assert(r2.b_supply == r0.b_supply && r2.d_supply == r0.d_supply);
    }
    assert(emis_eq(wn, w1));
    lemma_bulk_emis_eq(wm, wn, w1, pm, f0, mc, ml);
    lemma_only2(w0, wm, wn, u0.address, f0.address, u0.address, u1.positions);
}
/// the same when the positions are stored before the filler's change
#[verifier::rlimit(50)]
pub proof fn lemma_fill_user2(w0: World, wm: World, ws: World, w1: World, p0: Pool, pm: Pool, pn: Pool, u0: User, u1: User, f0: User, f1: User, mc: Map<Address, i128>, ml: Map<Address, i128>)
    requires idx_ok(w0), pool_wf(p0, w0), u0 == usr(w0, u0.address),
        bulk_pos(w0, p0, pm, wm, u0, u1, mc, ml, false), bulk_emis(w0, wm, p0, u0, mc, ml), bulk_frame(w0, wm, p0, pm, u0.address),
        ws == with_pos(wm, u0.address, u1.positions),
        bulk_pos(ws, pm, pn, w1, f0, f1, mc, ml, true), bulk_emis(ws, w1, pm, f0, mc, ml), bulk_frame(ws, w1, pm, pn, f0.address),
    ensures
        bals(w0, u0.positions, posof(w1, u0.address), mc, ml, false),
        bals(w0, f0.positions, f1.positions, mc, ml, true) && f1.address == f0.address && u1.address == u0.address,
        ers_same(p0, w0, pn, w1),
        two_emis(w0, w1, p0, u0, f0, mc, ml),
        pool_wf(pn, w1) && pool_same(p0, pn) && idx_ok(w1),
        w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| two_key(k, u0.address, f0.address))
{
    hide(accrued); hide(settled); hide(idx_ok); hide(pool_wf); hide(bulk_emis);
    lemma_with_pos(wm, u0.address, u1.positions);
    lemma_frame_wf(w0, wm, p0, pm, u0.address); lemma_frame_wf(ws, w1, pm, pn, f0.address); lemma_res_trans(w0, wm, ws); lemma_res_trans(w0, ws, w1);
    assert(posof(w1, u0.address) == posof(ws, u0.address));
    lemma_bals(w0, wm, w0, p0, pm, u0, u1, mc, ml, false); lemma_bals(ws, w1, w0, pm, pn, f0, f1, mc, ml, true);
    assert forall|a: Address| #![trigger er(pn, w1, a)] #![trigger ex(pn, w1, a)] ex(p0, w0, a) implies ex(pn, w1, a) && er(pn, w1, a) == er(p0, w0, a) by {
        assert(er(pm, wm, a).index == er(p0, w0, a).index); assert(er(pm, ws, a) == er(pm, wm, a)); assert(ex(pm, ws, a) == ex(pm, wm, a)); assert(er(pn, w1, a).index == er(pm, ws, a).index);
        let (r0, r1, r2) = (er(p0, w0, a), er(pm, ws, a), er(pn, w1, a));
        assert(r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, ..r0 })); assert(r2 == (Reserve { b_supply: r2.b_supply, d_supply: r2.d_supply, ..r1 }));
        assert(r2.b_supply == r0.b_supply && r2.d_supply == r0.d_supply);
    }
    assert(emis_eq(wm, ws));
    lemma_bulk_emis_from(wm, ws, w1, pm, f0, mc, ml);
    assert forall|k: SKey| !two_key(k, u0.address, f0.address) implies w1.pers.contains_key(k) == w0.pers.contains_key(k) && (w0.pers.contains_key(k) ==> w1.pers[k] == w0.pers[k]) by {
        assert(!emis_key(k, u0.address) && !emis_key(k, f0.address) && k != k_pos(u0.address));
        assert(wm.pers.contains_key(k) == w0.pers.contains_key(k)); assert(ws.pers.contains_key(k) == wm.pers.contains_key(k)); assert(w1.pers.contains_key(k) == ws.pers.contains_key(k));
    }
}
#[verifier::rlimit(50)]
pub proof fn lemma_bad_fill(w0: World, wm: World, wn: World, wd: World, wr: World, p0: Pool, pm: Pool, pn: Pool, pr: Pool, u0: User, um: User, ur: User, f0: User, f1: User, bid: Map<Address, i128>, o: Map<Address, i128>, burned: bool, c: Call)
    requires idx_ok(w0), pool_wf(p0, w0), u0 == usr(w0, u0.address),
        bulk_pos(w0, p0, pm, wm, u0, um, Map::empty(), bid, false), bulk_emis(w0, wm, p0, u0, Map::empty(), bid), bulk_frame(w0, wm, p0, pm, u0.address),
        bulk_pos(wm, pm, pn, wn, f0, f1, Map::empty(), bid, true), bulk_emis(wm, wn, pm, f0, Map::empty(), bid), bulk_frame(wm, wn, pm, pn, f0.address),
        wd == logc(wn, c),
        ({ let d = bs_pool_data(wd.calls, u0.address, w0.this);
            if burned { !no_debt(um.positions) && (bs_sane(d) ==> thr(d) < 3) && lst_all(w0, um.positions.liabilities@, o, 1, 0, 0)
                && bulk_pos(wd, pn, pr, wr, um, ur, Map::empty(), o, false) && bulk_emis(wd, wr, pn, um, Map::empty(), o) && bulk_frame(wd, wr, pn, pr, um.address) }
            else { wr == wd && pr == pn && ur == um && (bs_sane(d) && !no_debt(um.positions) ==> thr(d) >= 3) } })
    ensures ({
        let w1 = with_pos(wr, u0.address, ur.positions); let b = u0.address;
        &&& bad_fill(w0, p0, pr, w1, b, bid)
        &&& bals(w0, f0.positions, f1.positions, Map::empty(), bid, true) && f1.address == f0.address && ur.address == b && um.address == b
        &&& bad_emis(w0, w1, p0, u0, f0, bid)
        &&& pool_wf(pr, w1) && pool_same(p0, pr) && idx_ok(w1)
        &&& w1 == (World { pers: w1.pers, ..logc(w0, c) }) && only(w0.pers, w1.pers, |k: SKey| two_key(k, b, f0.address))
    })
{
    hide(accrued); hide(settled); hide(idx_ok); hide(pool_wf); hide(bulk_emis); hide(lst); hide(thr); hide(bs_sane);
    let w1 = with_pos(wr, u0.address, ur.positions); let b = u0.address; let e = Map::<Address, i128>::empty();
    lemma_frame_wf(w0, wm, p0, pm, b); lemma_frame_wf(wm, wn, pm, pn, f0.address); lemma_res_trans(w0, wm, wn);
    lemma_same_wf(wm, wn);
    assert(res_same(wn, wd)) by { assert forall|x: Address| #![trigger rcfg(wd, x)] rcfg(wd, x) == rcfg(wn, x) by {} assert forall|x: Address| #![trigger rdat(wd, x)] rdat(wd, x) == rdat(wn, x) by {} }
    lemma_res_trans(w0, wn, wd); lemma_same_wf(wn, wd);
    lemma_bals(w0, wm, w0, p0, pm, u0, um, e, bid, false); lemma_bals(wm, wn, w0, pm, pn, f0, f1, e, bid, true);
    assert forall|a: Address| #![trigger er(pn, wn, a)] #![trigger ex(pn, wn, a)] ex(p0, w0, a) implies ex(pn, wn, a) && er(pn, wn, a) == er(p0, w0, a) by {
        assert(er(pm, wm, a).index == er(p0, w0, a).index); assert(er(pn, wn, a).index == er(pm, wm, a).index);
        let (r0, r1, r2) = (er(p0, w0, a), er(pm, wm, a), er(pn, wn, a));
        assert(r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, ..r0 })); assert(r2 == (Reserve { b_supply: r2.b_supply, d_supply: r2.d_supply, ..r1 }));
        assert(r2.b_supply == r0.b_supply && r2.d_supply == r0.d_supply);
    }
    assert(emis_eq(wn, wd));
    if burned {
        lemma_frame_wf(wd, wr, pn, pr, b); lemma_res_trans(w0, wd, wr);
        lemma_with_pos(wr, b, ur.positions); lemma_res_trans(w0, wr, w1);
        lemma_bals(wd, wr, w0, pn, pr, um, ur, e, o, false);
        lemma_lst_amt(w0, um.positions.liabilities@, o, 1, 0, 0);
        assert(burn_ok(w0, p0, pr, w1, um.positions, b)) by {
            let x = posof(w1, b);
            assert(x == ur.positions);
            assert forall|i: u32| #[trigger] lbal(x, i) == 0 by { assert(lbal(ur.positions, i) == lbal(um.positions, i) - amt(w0, o, i)); }
            assert forall|i: u32| #[trigger] cbal(x, i) == cbal(um.positions, i) by { assert(cbal(ur.positions, i) == cbal(um.positions, i) - amt(w0, e, i)); }
            assert forall|a: Address| #![trigger er(pr, w1, a)] #![trigger ex(pr, w1, a)] ex(p0, w0, a) implies ex(pr, w1, a) && ({ let (r0, r1) = (er(p0, w0, a), er(pr, w1, a)); r1 == (Reserve { d_supply: r1.d_supply, ..r0 }) && r1.d_supply == r0.d_supply - lbal(um.positions, idx(w0, a)) }) by {
                assert(er(pn, wn, a) == er(p0, w0, a)); assert(ex(pn, wd, a)); assert(er(pn, wd, a) == er(pn, wn, a));
                assert(er(pr, wr, a).index == er(pn, wd, a).index);
                assert(er(pr, w1, a) == er(pr, wr, a));
                lemma_ex(p0, w0, a);
                assert(lst1(w0, um.positions.liabilities@, o, um.positions.liabilities@.len() as int, 1, 0, 0, a)) by { reveal(lst); }
                assert(um.positions.liabilities@.len() == entries(um.positions.liabilities@).len());
                let i = idx(w0, a);
                assert(um.positions.liabilities@.contains_key(i) ==> eidx(um.positions.liabilities@, i) < um.positions.liabilities@.len());
                assert(mga(o, a) == lbal(um.positions, i));
                let (r0, r1) = (er(pn, wd, a), er(pr, wr, a));
                assert(r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, ..r0 }));
                assert(r1.b_supply == r0.b_supply);
            }
        }
        assert(emis_eq(wr, w1));
        lemma_bulk_emis_eq(wd, wr, w1, pn, um, e, o);
        lemma_bulk_emis_from(wn, wd, w1, pn, um, e, o);
        assert(bulk_emis(wn, w1, pn, um, e, o));
        assert forall|k: SKey| !two_key(k, b, f0.address) implies w1.pers.contains_key(k) == w0.pers.contains_key(k) && (w0.pers.contains_key(k) ==> w1.pers[k] == w0.pers[k]) by { 
            assert(!emis_key(k, b) && !emis_key(k, f0.address) && k != k_pos(b));
            assert(wm.pers.contains_key(k) == w0.pers.contains_key(k)); assert(wn.pers.contains_key(k) == wm.pers.contains_key(k)); assert(wr.pers.contains_key(k) == wd.pers.contains_key(k)); assert(w1.pers.contains_key(k) == wr.pers.contains_key(k)); }
    } else {
        lemma_with_pos(wr, b, ur.positions); lemma_res_trans(w0, wr, w1);
        assert(ers_same(p0, w0, pr, w1)) by {
            assert forall|a: Address| #![trigger er(pr, w1, a)] #![trigger ex(pr, w1, a)] ex(p0, w0, a) implies ex(pr, w1, a) && er(pr, w1, a) == er(p0, w0, a) by {
                assert(er(pn, wn, a) == er(p0, w0, a)); assert(er(pn, wd, a) == er(pn, wn, a)); assert(ex(pn, wd, a) == ex(pn, wn, a)); assert(er(pr, w1, a) == er(pr, wr, a)); assert(ex(pr, w1, a) == ex(pr, wr, a));
            }
        }
        assert forall|t: u32| #![trigger edat(w1, t)] #![trigger uem(w1, b, t)] edat(w1, t) == edat(wn, t) && uem(w1, b, t) == uem(wn, b, t) by {}
        lemma_only2(w0, wm, wn, b, f0.address, b, ur.positions);
    }
    assert(bals(w0, u0.positions, um.positions, e, bid, false));
    assert(bulk_pos(w0, p0, pm, wm, u0, um, e, bid, false) && bulk_pos(wm, pm, pn, wn, f0, f1, e, bid, true));
}
pub proof fn lemma_bulk_emis_from(w0: World, w1: World, w2: World, p: Pool, u: User, mc: Map<Address, i128>, ml: Map<Address, i128>)
    requires bulk_emis(w1, w2, p, u, mc, ml), emis_eq(w0, w1), res_same(w0, w1)
    ensures bulk_emis(w0, w2, p, u, mc, ml)
{
    hide(accrued);
    lemma_same_wf(w0, w1);
    assert forall|a: Address| #![trigger mc.contains_key(a)] mc.contains_key(a) implies ({ let r = er(p, w0, a); r.index * 2 + 1 <= u32::MAX && settled(w0, w2, u.address, (r.index * 2 + 1) as u32, r.b_supply as int, r.scalar as int, cbal(u.positions, r.index) + sbal(u.positions, r.index), false) }) by {
        let r = er(p, w1, a); assert(er(p, w0, a) == r);
        let t = (r.index * 2 + 1) as u32;
        assert(edat(w1, t) == edat(w0, t) && ecfg(w1, t) == ecfg(w0, t) && uem(w1, u.address, t) == uem(w0, u.address, t));
    }
    assert forall|a: Address| #![trigger ml.contains_key(a)] ml.contains_key(a) implies ({ let r = er(p, w0, a); r.index * 2 <= u32::MAX && settled(w0, w2, u.address, (r.index * 2) as u32, r.d_supply as int, r.scalar as int, lbal(u.positions, r.index), false) }) by {
        let r = er(p, w1, a); assert(er(p, w0, a) == r);
        let t = (r.index * 2) as u32;
        assert(edat(w1, t) == edat(w0, t) && ecfg(w1, t) == ecfg(w0, t) && uem(w1, u.address, t) == uem(w0, u.address, t));
    }
    assert forall|t: u32| #![trigger edat(w2, t)] #![trigger uem(w2, u.address, t)] (forall|a: Address| mc.contains_key(a) ==> t != idx(w0, a) * 2 + 1) && (forall|a: Address| ml.contains_key(a) ==> t != idx(w0, a) * 2) implies edat(w2, t) == edat(w0, t) && uem(w2, u.address, t) == uem(w0, u.address, t) by {
        assert(forall|a: Address| idx(w1, a) == idx(w0, a)) by { assert forall|a: Address| idx(w1, a) == idx(w0, a) by { assert(rcfg(w1, a) == rcfg(w0, a)); } }
        assert(edat(w1, t) == edat(w0, t) && uem(w1, u.address, t) == uem(w0, u.address, t));
    }
}
pub proof fn lemma_log_same(w: World, c: Call)
    ensures res_same(w, logc(w, c)), idx_ok(w) ==> idx_ok(logc(w, c)), forall|p: Pool| pool_wf(p, w) ==> #[trigger] pool_wf(p, logc(w, c)), forall|p: Pool, a: Address| #[trigger] er(p, logc(w, c), a) == er(p, w, a), forall|p: Pool, a: Address| #[trigger] ex(p, logc(w, c), a) == ex(p, w, a)
{
    let v = logc(w, c);
    assert forall|x: Address| #![trigger rcfg(v, x)] rcfg(v, x) == rcfg(w, x) by {} 
    assert forall|x: Address| #![trigger rdat(v, x)] rdat(v, x) == rdat(w, x) by {}
    lemma_same_wf(w, v);
}
pub open spec fn donated(w: World, b: Address, who: Address, x: i128) -> World { logc(w, Call::BackstopDonate { backstop: b, from: who, pool: w.this, amount: x }) }
pub open spec fn int_inv(w0: World, w: World, p0: Pool, p: Pool, m: Map<Address, i128>, who: Address, b: Address, x: i128, k: int) -> bool {
    &&& w == (World { calls: donated(w0, b, who, x).calls + pays(w0.this, who, entries(m), k), ..w0 })
    &&& credit_taken(p0, p, w0, pre(m, k)) && pool_wf(p, w) && pool_same(p0, p)
}
pub proof fn lemma_wf_put(p: Pool, p2: Pool, w: World, a: Address, r1: Reserve)
    requires pool_wf(p, w), ex(p, w, a), cached(p, a, r1, p2), res_static(w, a, er(p, w, a)),
        ({ let r = er(p, w, a); r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, backstop_credit: r1.backstop_credit, ..r }) })
    ensures pool_wf(p2, w), er(p2, w, a) == r1, forall|b: Address| b != a ==> #[trigger] er(p2, w, b) == er(p, w, b), forall|b: Address| #[trigger] ex(p2, w, b) == ex(p, w, b), p2.reserves_to_store@.contains(a)
{
    hide(accrued);
    let r = er(p, w, a);
    assert(res_rates(p.config, w, a, r));
    assert(p2.reserves_to_store@.contains(a)) by { if !p.reserves_to_store@.contains(a) { assert(p2.reserves_to_store@[p.reserves_to_store@.len() as int] == a); } }
    assert forall|b: Address| #[trigger] p2.reserves@.contains_key(b) implies res_static(w, b, p2.reserves@[b]) && res_rates(p2.config, w, b, p2.reserves@[b]) && (p2.reserves_to_store@.contains(b) || p2.reserves@[b] == loaded(p2.config, w, b)) by {
        if b != a {
            assert(p.reserves@.contains_key(b)); assert(p2.reserves@[b] == p.reserves@[b]);
            if p.reserves_to_store@.contains(b) { let j = choose|j: int| 0 <= j < p.reserves_to_store@.len() && p.reserves_to_store@[j] == b; assert(p2.reserves_to_store@[j] == b); }
        }
    }
}
pub proof fn lemma_int_step(w0: World, v: World, w: World, p0: Pool, p1: Pool, p2: Pool, m: Map<Address, i128>, who: Address, b: Address, x: i128, k: int, r1: Reserve)
    requires int_inv(w0, v, p0, p1, m, who, b, x, k), 0 <= k < entries(m).len(), pool_wf(p0, w0),
        ({ let (a, n) = entries(m)[k]; let r = er(p1, v, a); ex(p1, v, a) && res_static(v, a, r) && cached(p1, a, r1, p2) && r1 == (Reserve { backstop_credit: r1.backstop_credit, ..r }) && r1.backstop_credit == r.backstop_credit - n
            && w == logc(v, Call::Transfer { token: a, from: w0.this, to: who, amount: n }) }),
    ensures int_inv(w0, w, p0, p2, m, who, b, x, k + 1)
{
    hide(accrued); hide(pool_wf);
    lemma_pre(m);
    let (a, n) = entries(m)[k];
    lemma_log_same(v, Call::Transfer { token: a, from: w0.this, to: who, amount: n });
    assert(pre(m, k + 1) == pre(m, k).insert(a, n) && !pre(m, k).contains_key(a));
    lemma_wf_put(p1, p2, v, a, r1);
    assert(res_same(w0, v)) by { assert forall|x: Address| #![trigger rcfg(v, x)] rcfg(v, x) == rcfg(w0, x) by {} assert forall|x: Address| #![trigger rdat(v, x)] rdat(v, x) == rdat(w0, x) by {} }
    lemma_same_wf(w0, v);
    assert(donated(w0, b, who, x).calls + pays(w0.this, who, entries(m), k + 1) =~= (donated(w0, b, who, x).calls + pays(w0.this, who, entries(m), k)).push(Call::Transfer { token: a, from: w0.this, to: who, amount: n }));
    assert(credit_taken(p0, p2, w0, pre(m, k + 1))) by {
        assert forall|y: Address| #![trigger er(p2, w0, y)] #![trigger ex(p2, w0, y)] ex(p0, w0, y) implies ex(p2, w0, y) && ({ let (r0, r1) = (er(p0, w0, y), er(p2, w0, y)); r1 == (Reserve { backstop_credit: r1.backstop_credit, ..r0 }) && r1.backstop_credit == r0.backstop_credit - mga(pre(m, k + 1), y) }) by {
            let (s0, s1, s2) = (er(p0, w0, y), er(p1, w0, y), er(p2, w0, y));
            assert(s1 == (Reserve { backstop_credit: s1.backstop_credit, ..s0 }));
            assert(er(p1, v, y) == s1); assert(er(p2, v, y) == s2); assert(ex(p2, v, y) == ex(p1, v, y)); assert(ex(p1, v, y) == ex(p1, w0, y)); assert(ex(p2, v, y) == ex(p2, w0, y));
            if y == a { assert(s2 == (Reserve { backstop_credit: s2.backstop_credit, ..s0 })); }
        }
        assert forall|y: Address| #[trigger] pre(m, k + 1).contains_key(y) implies ex(p0, w0, y) by { if y != a { assert(pre(m, k).contains_key(y)); } else { assert(res_static(v, a, er(p1, v, a))); assert(rcfg(v, a) == rcfg(w0, a) && rdat(v, a) == rdat(w0, a)); } }
    }
}
// ---- filling an auction
pub open spec fn dif(w: World, u: Address, t: u32) -> int { w.seq - (auct(w, u, t)->0).block }
pub open spec fn fbid(w: World, u: Address, t: u32, p: int) -> Map<Address, i128> { scaled((auct(w, u, t)->0).bid@, 0, p, dif(w, u, t)) }
pub open spec fn flot(w: World, u: Address, t: u32, p: int) -> Map<Address, i128> { scaled((auct(w, u, t)->0).lot@, 2, p, dif(w, u, t)) }
/// C22: what is left of the auction
pub open spec fn left(w0: World, w1: World, u: Address, t: u32, p: int) -> bool {
    let a = auct(w0, u, t)->0; let (b, l) = (scaled(a.bid@, 1, p, dif(w0, u, t)), scaled(a.lot@, 3, p, dif(w0, u, t)));
    &&& only(w0.temp, w1.temp, |k: SKey| k == k_auct(u, t))
    &&& match auct(w1, u, t) { Some(r) => r.bid@ == b && r.lot@ == l && r.block == a.block, None => b == Map::<Address, i128>::empty() && l == Map::<Address, i128>::empty() && !w1.temp.contains_key(k_auct(u, t)) }
}
pub open spec fn nothing() -> Map<Address, i128> { Map::empty() }
pub open spec fn fill_calls(w: World, f: Address, u: Address, t: u32, p: int) -> Seq<Call> {
    let b = p_backstop(w)->0;
    if t == 0 { w.calls }
    else if t == 1 { w.calls.push(Call::BackstopDraw { backstop: b, pool: w.this, amount: flot(w, u, t, p)[bs_token(b)], to: f }) }
    else { donated(w, b, f, fbid(w, u, t, p)[bs_token(b)]).calls + pays(w.this, f, entries(flot(w, u, t, p)), entries(flot(w, u, t, p)).len() as int) }
}
/// the user whose stored positions a fill changes
pub open spec fn fill_from(w: World, u: Address, t: u32) -> Address { if t == 0 { u } else { p_backstop(w)->0 } }
pub open spec fn fill_pos(w0: World, w1: World, p0: Pool, p1: Pool, f0: User, f1: User, u: Address, t: u32, p: int) -> bool {
    let (b, l) = (fbid(w0, u, t, p), flot(w0, u, t, p));
    &&& f1.address == f0.address
    &&& t == 0 ==> bals(w0, posof(w0, u), posof(w1, u), l, b, false) && bals(w0, f0.positions, f1.positions, l, b, true) && ers_same(p0, w0, p1, w1)
    &&& t == 1 ==> bad_fill(w0, p0, p1, w1, p_backstop(w0)->0, b) && bals(w0, f0.positions, f1.positions, nothing(), b, true)
    &&& t == 2 ==> f1.positions == f0.positions && w1.pers == w0.pers && credit_taken(p0, p1, w0, l)
}
pub open spec fn fill_emis(w0: World, w1: World, p0: Pool, f0: User, u: Address, t: u32, p: int) -> bool {
    let (b, l) = (fbid(w0, u, t, p), flot(w0, u, t, p));
    &&& t == 0 ==> two_emis(w0, w1, p0, usr(w0, u), f0, l, b)
    &&& t == 1 ==> bad_emis(w0, w1, p0, usr(w0, p_backstop(w0)->0), f0, b)
}
pub open spec fn fill_key(w: World, f: Address, u: Address, t: u32, k: SKey) -> bool { t < 2 && two_key(k, fill_from(w, u, t), f) }
pub open spec fn temp_like(a: World, b: World) -> bool { b == (World { temp: b.temp, ..a }) }
/// temporary storage holds nothing that the rest depends on
pub proof fn lemma_temp(a: World, b: World)
    requires temp_like(a, b)
    ensures res_same(a, b), emis_eq(a, b), forall|p: Pool| pool_wf(p, a) ==> #[trigger] pool_wf(p, b), idx_ok(a) ==> idx_ok(b),
        forall|p: Pool, x: Address| #[trigger] er(p, b, x) == er(p, a, x), forall|p: Pool, x: Address| #[trigger] ex(p, b, x) == ex(p, a, x), forall|x: Address| #[trigger] posof(b, x) == posof(a, x)
{
    assert forall|x: Address| #![trigger rcfg(b, x)] rcfg(b, x) == rcfg(a, x) by {}
    assert forall|x: Address| #![trigger rdat(b, x)] rdat(b, x) == rdat(a, x) by {}
    lemma_same_wf(a, b);
}
pub proof fn lemma_fill_temp(w0: World, v: World, w: World, p0: Pool, p1: Pool, f0: User, f1: User, u: Address, t: u32, p: int)
    requires temp_like(v, w), fill_pos(w0, v, p0, p1, f0, f1, u, t, p), fill_emis(w0, v, p0, f0, u, t, p)
    ensures fill_pos(w0, w, p0, p1, f0, f1, u, t, p), fill_emis(w0, w, p0, f0, u, t, p)
{
    hide(bals); hide(bulk_pos); hide(bulk_emis); hide(thr); hide(bs_sane); hide(accrued); hide(scaled); hide(lst_all); hide(credit_taken); hide(pool_wf); hide(idx_ok);
    lemma_temp(v, w);
    let (b, l) = (fbid(w0, u, t, p), flot(w0, u, t, p)); let bs = p_backstop(w0)->0; let e = Map::<Address, i128>::empty();
    if t == 0 {
        assert(ers_same(p0, w0, p1, w)) by { assert forall|a: Address| #![trigger er(p1, w, a)] #![trigger ex(p1, w, a)] ex(p0, w0, a) implies ex(p1, w, a) && er(p1, w, a) == er(p0, w0, a) by { assert(er(p1, v, a) == er(p1, w, a)); } }
        let us = usr(w0, u);
        let (wm, pm, um) = choose|wm: World, pm: Pool, um: User| #[trigger] bulk_pos(w0, p0, pm, wm, us, um, l, b, false) && bulk_emis(w0, wm, p0, us, l, b) && bulk_emis(wm, v, pm, f0, l, b);
        lemma_bulk_emis_eq(wm, v, w, pm, f0, l, b);
        assert(bulk_pos(w0, p0, pm, wm, us, um, l, b, false) && bulk_emis(wm, w, pm, f0, l, b));
    }
    if t == 1 {
        let xm = choose|xm: Positions| #[trigger] bals(w0, posof(w0, bs), xm, Map::empty(), b, false) && ({
            let burn = !no_debt(xm) && thr(bs_pool_data(v.calls, bs, w0.this)) < 3;
            ||| (bs_sane(bs_pool_data(v.calls, bs, w0.this)) && !no_debt(xm) ==> !burn) && posof(v, bs) == xm && ers_same(p0, w0, p1, v)
            ||| (bs_sane(bs_pool_data(v.calls, bs, w0.this)) ==> burn) && !no_debt(xm) && burn_ok(w0, p0, p1, v, xm, bs)
        });
        assert(ers_same(p0, w0, p1, v) ==> ers_same(p0, w0, p1, w)) by { assert forall|a: Address| #![trigger er(p1, w, a)] #![trigger ex(p1, w, a)] ers_same(p0, w0, p1, v) && ex(p0, w0, a) implies ex(p1, w, a) && er(p1, w, a) == er(p0, w0, a) by { assert(er(p1, v, a) == er(p1, w, a)); } }
        assert(burn_ok(w0, p0, p1, v, xm, bs) ==> burn_ok(w0, p0, p1, w, xm, bs)) by { assert(posof(v, bs) == posof(w, bs)); assert forall|a: Address| #![trigger er(p1, w, a)] #![trigger ex(p1, w, a)] er(p1, v, a) == er(p1, w, a) && ex(p1, v, a) == ex(p1, w, a) by {} }
        assert(bals(w0, posof(w0, bs), xm, Map::empty(), b, false));
        assert(bad_fill(w0, p0, p1, w, bs, b));
        lemma_bad_emis_eq(w0, v, w, p0, usr(w0, bs), f0, b);
    }
}
pub proof fn lemma_bad_emis_eq(w0: World, v: World, w: World, p0: Pool, u: User, f: User, bid: Map<Address, i128>)
    requires bad_emis(w0, v, p0, u, f, bid), emis_eq(v, w)
    ensures bad_emis(w0, w, p0, u, f, bid)
{
    hide(bulk_pos); hide(bulk_emis); hide(lst_all);
    let (wm, pm, um, wn, pn, fm) = choose|wm: World, pm: Pool, um: User, wn: World, pn: Pool, fm: User| #[trigger] bulk_pos(w0, p0, pm, wm, u, um, Map::empty(), bid, false) && bulk_emis(w0, wm, p0, u, Map::empty(), bid)
        && #[trigger] bulk_pos(wm, pm, pn, wn, f, fm, Map::empty(), bid, true) && bulk_emis(wm, wn, pm, f, Map::empty(), bid)
        && (bemis_same(wn, v, um.address) || exists|o: Map<Address, i128>| lst_all(w0, um.positions.liabilities@, o, 1, 0, 0) && #[trigger] bulk_emis(wn, v, pn, um, Map::empty(), o));
    if bemis_same(wn, v, um.address) { assert(bemis_same(wn, w, um.address)) by { assert forall|t: u32| #![trigger edat(w, t)] #![trigger uem(w, um.address, t)] edat(w, t) == edat(wn, t) && uem(w, um.address, t) == uem(wn, um.address, t) by { assert(edat(v, t) == edat(w, t)); assert(uem(v, um.address, t) == uem(w, um.address, t)); } } }
    else {
        let o = choose|o: Map<Address, i128>| lst_all(w0, um.positions.liabilities@, o, 1, 0, 0) && #[trigger] bulk_emis(wn, v, pn, um, Map::empty(), o);
        lemma_bulk_emis_eq(wn, v, w, pn, um, Map::empty(), o);
        assert(bulk_emis(wn, w, pn, um, Map::empty(), o));
    }
    assert(bulk_pos(w0, p0, pm, wm, u, um, Map::empty(), bid, false) && bulk_pos(wm, pm, pn, wn, f, fm, Map::empty(), bid, true));
}
/// what ran from a ledger that differs in temporary storage only: the auction was stored before the fill
pub proof fn lemma_temp_from(a: World, b: World, w: World, p0: Pool, p1: Pool, f0: User, f1: User, u: Address, bs: Address, l: Map<Address, i128>, bid: Map<Address, i128>, t: u32)
    requires temp_like(a, b),
        t == 0 ==> bals(b, posof(b, u), posof(w, u), l, bid, false) && bals(b, f0.positions, f1.positions, l, bid, true) && ers_same(p0, b, p1, w) && two_emis(b, w, p0, usr(b, u), f0, l, bid),
        t == 1 ==> bad_fill(b, p0, p1, w, bs, bid) && bals(b, f0.positions, f1.positions, nothing(), bid, true) && bad_emis(b, w, p0, usr(b, bs), f0, bid),
        t == 2 ==> credit_taken(p0, p1, b, l) && temp_like(World { calls: w.calls, ..b }, w),
    ensures
        t == 0 ==> bals(a, posof(a, u), posof(w, u), l, bid, false) && bals(a, f0.positions, f1.positions, l, bid, true) && ers_same(p0, a, p1, w) && two_emis(a, w, p0, usr(a, u), f0, l, bid),
        t == 1 ==> bad_fill(a, p0, p1, w, bs, bid) && bals(a, f0.positions, f1.positions, nothing(), bid, true) && bad_emis(a, w, p0, usr(a, bs), f0, bid),
        t == 2 ==> credit_taken(p0, p1, a, l),
        forall|f: Address, x: i128| (#[trigger] donated(b, bs, f, x)).calls == donated(a, bs, f, x).calls,
{
    hide(accrued); hide(thr); hide(bs_sane); hide(bulk_pos); hide(bulk_emis); hide(bals); hide(pool_wf); hide(idx_ok); hide(lst_all); hide(burn_ok);
    lemma_temp(a, b);
    let e = nothing();
    assert(usr(a, u) == usr(b, u) && usr(a, bs) == usr(b, bs));
    if t == 0 {
        lemma_bals_temp(a, b, posof(b, u), posof(w, u), l, bid, false); lemma_bals_temp(a, b, f0.positions, f1.positions, l, bid, true);
        assert forall|x: Address| #![trigger er(p1, w, x)] #![trigger ex(p1, w, x)] ex(p0, a, x) implies ex(p1, w, x) && er(p1, w, x) == er(p0, a, x) by { assert(ex(p0, b, x)); assert(er(p0, b, x) == er(p0, a, x)); }
        let us = usr(a, u);
        let (wm, pm, um) = choose|wm: World, pm: Pool, um: User| #[trigger] bulk_pos(b, p0, pm, wm, us, um, l, bid, false) && bulk_emis(b, wm, p0, us, l, bid) && bulk_emis(wm, w, pm, f0, l, bid);
        lemma_bulk_temp(a, b, p0, pm, wm, us, um, l, bid, false);
        assert(bulk_pos(a, p0, pm, wm, us, um, l, bid, false));
    }
    if t == 1 {
        lemma_bals_temp(a, b, f0.positions, f1.positions, e, bid, true);
        let d = bs_pool_data(w.calls, bs, b.this);
        let xm = choose|xm: Positions| #[trigger] bals(b, posof(b, bs), xm, Map::empty(), bid, false) && ({
            let burn = !no_debt(xm) && thr(bs_pool_data(w.calls, bs, b.this)) < 3;
            ||| (bs_sane(bs_pool_data(w.calls, bs, b.this)) && !no_debt(xm) ==> !burn) && posof(w, bs) == xm && ers_same(p0, b, p1, w)
            ||| (bs_sane(bs_pool_data(w.calls, bs, b.this)) ==> burn) && !no_debt(xm) && burn_ok(b, p0, p1, w, xm, bs)
        });
        lemma_bals_temp(a, b, posof(b, bs), xm, e, bid, false);
        assert(ers_same(p0, b, p1, w) ==> ers_same(p0, a, p1, w)) by {
            assert forall|x: Address| #![trigger er(p1, w, x)] #![trigger ex(p1, w, x)] ers_same(p0, b, p1, w) && ex(p0, a, x) implies ex(p1, w, x) && er(p1, w, x) == er(p0, a, x) by { assert(ex(p0, b, x)); assert(er(p0, b, x) == er(p0, a, x)); }
        }
        assert(burn_ok(b, p0, p1, w, xm, bs) ==> burn_ok(a, p0, p1, w, xm, bs)) by {
            reveal(burn_ok);
            assert forall|x: Address| #![trigger er(p1, w, x)] #![trigger ex(p1, w, x)] burn_ok(b, p0, p1, w, xm, bs) && ex(p0, a, x) implies ex(p1, w, x) && ({ let (r0, r1) = (er(p0, a, x), er(p1, w, x)); r1 == (Reserve { d_supply: r1.d_supply, ..r0 }) && r1.d_supply == r0.d_supply - lbal(xm, idx(a, x)) }) by { assert(ex(p0, b, x)); assert(er(p0, b, x) == er(p0, a, x)); assert(rcfg(a, x) == rcfg(b, x)); }
        }
        assert(bals(a, posof(a, bs), xm, Map::empty(), bid, false));
        assert(bad_fill(a, p0, p1, w, bs, bid));
        let us = usr(a, bs);
        let (wm, pm, um, wn, pn, fm) = choose|wm: World, pm: Pool, um: User, wn: World, pn: Pool, fm: User| #[trigger] bulk_pos(b, p0, pm, wm, us, um, Map::empty(), bid, false) && bulk_emis(b, wm, p0, us, Map::empty(), bid)
            && #[trigger] bulk_pos(wm, pm, pn, wn, f0, fm, Map::empty(), bid, true) && bulk_emis(wm, wn, pm, f0, Map::empty(), bid)
            && (bemis_same(wn, w, um.address) || exists|o: Map<Address, i128>| lst_all(b, um.positions.liabilities@, o, 1, 0, 0) && #[trigger] bulk_emis(wn, w, pn, um, Map::empty(), o));
        lemma_bulk_temp(a, b, p0, pm, wm, us, um, e, bid, false);
        assert(bulk_pos(a, p0, pm, wm, us, um, Map::empty(), bid, false) && bulk_emis(a, wm, p0, us, Map::empty(), bid) && bulk_pos(wm, pm, pn, wn, f0, fm, Map::empty(), bid, true));
        if !bemis_same(wn, w, um.address) {
            let o = choose|o: Map<Address, i128>| lst_all(b, um.positions.liabilities@, o, 1, 0, 0) && #[trigger] bulk_emis(wn, w, pn, um, Map::empty(), o);
            assert(lst_all(a, um.positions.liabilities@, o, 1, 0, 0)) by { reveal(lst_all); lemma_lst_temp(a, b, um.positions.liabilities@, o, um.positions.liabilities@.len() as int, 1, 0, 0); }
            assert(bulk_emis(wn, w, pn, um, Map::empty(), o));
        }
        assert(bad_emis(a, w, p0, us, f0, bid));
    }
    if t == 2 {
        assert forall|x: Address| #![trigger er(p1, a, x)] #![trigger ex(p1, a, x)] ex(p0, a, x) implies ex(p1, a, x) && ({ let (r0, r1) = (er(p0, a, x), er(p1, a, x)); r1 == (Reserve { backstop_credit: r1.backstop_credit, ..r0 }) && r1.backstop_credit == r0.backstop_credit - mga(l, x) }) by { assert(er(p1, b, x) == er(p1, a, x)); assert(er(p0, b, x) == er(p0, a, x)); assert(ex(p1, b, x) == ex(p1, a, x)); assert(ex(p0, b, x) == ex(p0, a, x)); }
        assert forall|x: Address| #[trigger] l.contains_key(x) implies ex(p0, a, x) by { assert(ex(p0, b, x)); }
    }
}
pub proof fn lemma_bals_temp(a: World, b: World, x0: Positions, x1: Positions, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool)
    requires temp_like(a, b), bals(b, x0, x1, mc, ml, add)
    ensures bals(a, x0, x1, mc, ml, add)
{
    lemma_temp(a, b);
    assert forall|i: u32| amt(a, mc, i) == #[trigger] amt(b, mc, i) by {}
    assert forall|i: u32| amt(a, ml, i) == #[trigger] amt(b, ml, i) by {}
    assert forall|i: u32| #[trigger] cbal(x1, i) == cbal(x0, i) + sg(add, amt(a, mc, i)) by { assert(amt(a, mc, i) == amt(b, mc, i)); }
    assert forall|i: u32| #[trigger] lbal(x1, i) == lbal(x0, i) + sg(add, amt(a, ml, i)) by { assert(amt(a, ml, i) == amt(b, ml, i)); }
}
pub proof fn lemma_bulk_temp(a: World, b: World, p0: Pool, p1: Pool, w1: World, u0: User, u1: User, mc: Map<Address, i128>, ml: Map<Address, i128>, add: bool)
    requires temp_like(a, b), bulk_pos(b, p0, p1, w1, u0, u1, mc, ml, add), bulk_emis(b, w1, p0, u0, mc, ml)
    ensures bulk_pos(a, p0, p1, w1, u0, u1, mc, ml, add), bulk_emis(a, w1, p0, u0, mc, ml)
{
    hide(accrued); hide(pos_wf); hide(edat_next); hide(accrued_at);
    lemma_temp(a, b);
    assert forall|i: u32| #[trigger] cbal(u1.positions, i) == cbal(u0.positions, i) + sg(add, amt(a, mc, i)) by { assert(amt(a, mc, i) == amt(b, mc, i)); }
    assert forall|i: u32| #[trigger] lbal(u1.positions, i) == lbal(u0.positions, i) + sg(add, amt(a, ml, i)) by { assert(amt(a, ml, i) == amt(b, ml, i)); }
    assert forall|x: Address| ex(p0, b, x) == #[trigger] ex(p0, a, x) && er(p0, b, x) == er(p0, a, x) by {}
    assert forall|t: u32, s: int, c: int| edat_next(a, t, s, c) == #[trigger] edat_next(b, t, s, c) by { reveal(edat_next); }
    assert forall|y: Address, t: u32, i: int, s: int, c: int| accrued_at(a, y, t, i, s, c) == #[trigger] accrued_at(b, y, t, i, s, c) by { reveal(accrued_at); }
    assert forall|t: u32| ecfg(a, t) == ecfg(b, t) && edat(a, t) == #[trigger] edat(b, t) by {}
    assert forall|x: Address| idx(a, x) == #[trigger] idx(b, x) by {}
}
pub proof fn lemma_lst_temp(a: World, b: World, m: Map<u32, i128>, o: Map<Address, i128>, k: int, kind: int, num: int, den: int)
    requires temp_like(a, b), lst(b, m, o, k, kind, num, den)
    ensures lst(a, m, o, k, kind, num, den)
{
    lemma_temp(a, b);
    assert forall|x: Address| #![trigger o.contains_key(x)] #![trigger lst1(a, m, o, k, kind, num, den, x)] lst1(a, m, o, k, kind, num, den, x) by { assert(lst1(b, m, o, k, kind, num, den, x)); }
    assert(rlist(a) == rlist(b));
}

// ---- submitting requests
/// the state between two requests of a batch: the ledger, the reserve cache, the user, and what is to be paid in and out
pub struct St { pub w: World, pub p: Pool, pub u: User, pub at: Map<Address, i128>, pub pt: Map<Address, i128> }
pub open spec fn mk(w: World, p: Pool, u: User, at: Map<Address, i128>, pt: Map<Address, i128>) -> St { St { w, p, u, at, pt } }
/// 0: liabilities, 1: collateral, 2: supply
pub open spec fn kind_of(t: u32) -> int { if t <= 1 { 2 } else if t <= 3 { 1 } else { 0 } }
pub open spec fn adds(t: u32) -> bool { t == 0 || t == 2 || t == 4 }
pub open spec fn r_at(s: St, a: Address) -> Reserve { er(s.p, s.w, a) }
/// shares the user held in the reserve, and by how much they changed
pub open spec fn held_at(s: St, q: Request) -> int { bal_of(s.u.positions, idx(s.w, q.address), kind_of(q.request_type)) }
pub open spec fn moved(s: St, t: St, q: Request) -> int { bal_of(t.u.positions, idx(s.w, q.address), kind_of(q.request_type)) - held_at(s, q) }
pub open spec fn pct_of(q: Request) -> int { q.amount as int % 0x1_0000_0000_0000_0000 }
pub open spec fn kind8(q: Request) -> u32 { if q.request_type == 6 { 0 } else if q.request_type == 7 { 1 } else { 2 } }
pub open spec fn is_fill(q: Request) -> bool { 6 <= q.request_type <= 8 }
pub open spec fn sub_key(k: SKey) -> bool { match k { SKey::K_PoolDataKey(PoolDataKey::EmisData(_)) => true, SKey::K_PoolDataKey(PoolDataKey::UserEmis(_)) => true, SKey::K_PoolDataKey(PoolDataKey::Positions(_)) => true, _ => false } }
pub open spec fn auct_key(k: SKey) -> bool { match k { SKey::K_PoolDataKey(PoolDataKey::Auction(_)) => true, _ => false } }
/// nothing but positions, emissions and auctions changed
pub open spec fn sub_frame(w0: World, w1: World) -> bool { w1 == (World { pers: w1.pers, temp: w1.temp, calls: w1.calls, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| sub_key(k)) && only(w0.temp, w1.temp, |k: SKey| auct_key(k)) }
pub open spec fn st_frame(s: St, t: St, q: Request) -> bool {
    &&& pool_wf(t.p, t.w) && pool_same(s.p, t.p) && idx_ok(t.w) && sub_frame(s.w, t.w) && t.u.address == s.u.address
    &&& q.request_type <= 5 ==> t.w.temp == s.w.temp
    &&& forall|v: Address| #![trigger posof(t.w, v)] !(6 <= q.request_type <= 7 && v == fill_from(s.w, q.address, kind8(q))) ==> posof(t.w, v) == posof(s.w, v)
}
/// C16: shares and totals move together, on the named reserve only
pub open spec fn st_pos(s: St, t: St, q: Request) -> bool {
    q.request_type <= 5 ==> {
        &&& ex(s.p, s.w, q.address) && ex(t.p, t.w, q.address) && r_at(s, q.address).index == idx(s.w, q.address)
        &&& pos_move(s.u, t.u, r_at(s, q.address), r_at(t, q.address), kind_of(q.request_type), moved(s, t, q), adds(q.request_type))
        &&& forall|b: Address| #![trigger er(t.p, t.w, b)] #![trigger ex(t.p, t.w, b)] b != q.address && ex(s.p, s.w, b) ==> ex(t.p, t.w, b) && er(t.p, t.w, b) == er(s.p, s.w, b)
    }
}
/// C15: by how many shares, rounded in the pool's favour
pub open spec fn st_amt(s: St, t: St, q: Request) -> bool {
    let r = r_at(s, q.address); let n = q.amount as int;
    &&& q.request_type == 0 || q.request_type == 2 ==> moved(s, t, q) == b_down(r, n) && b_down(r, n) != 0
    &&& q.request_type == 1 || q.request_type == 3 ==> moved(s, t, q) == -imin(b_up(r, n), held_at(s, q)) && imin(b_up(r, n), held_at(s, q)) != 0
    &&& q.request_type == 4 ==> moved(s, t, q) == d_up(r, n) && d_up(r, n) != 0
    &&& q.request_type == 5 ==> moved(s, t, q) == -imin(d_down(r, n), held_at(s, q)) && imin(d_down(r, n), held_at(s, q)) != 0
}
/// C31: what the request has the spender pay in and the pool pay out
pub open spec fn pays_in(s: St, q: Request) -> int { if q.request_type == 0 || q.request_type == 2 || q.request_type == 5 { q.amount as int } else { 0 } }
pub open spec fn pays_out(s: St, q: Request) -> int {
    let r = r_at(s, q.address); let n = q.amount as int;
    if q.request_type == 1 || q.request_type == 3 { if b_up(r, n) > held_at(s, q) { asset_b(r, held_at(s, q)) } else { n } }
    else if q.request_type == 4 { n }
    else if q.request_type == 5 && d_down(r, n) > held_at(s, q) { n - asset_d(r, held_at(s, q)) }
    else { 0 }
}
pub open spec fn added(m0: Map<Address, i128>, m1: Map<Address, i128>, a: Address, x: int) -> bool { forall|b: Address| #[trigger] mga(m1, b) == mga(m0, b) + (if b == a { x } else { 0 }) }
pub open spec fn st_pay(s: St, t: St, q: Request) -> bool {
    &&& q.amount >= 0 && (q.request_type == 5 ==> pays_out(s, q) >= 0)
    &&& added(s.at, t.at, q.address, pays_in(s, q)) && added(s.pt, t.pt, q.address, pays_out(s, q))
}
/// C19: the utilization after a borrow
pub open spec fn st_cap(s: St, t: St, q: Request) -> bool { q.request_type == 4 ==> util(r_at(t, q.address)) <= r_at(t, q.address).max_util && r_at(t, q.address).max_util == (rcfg(s.w, q.address)->0).max_util }
/// C26: emissions are settled with the balances before the change
pub open spec fn st_emis(s: St, t: St, q: Request) -> bool {
    &&& q.request_type <= 5 ==> emis_move(s.w, t.w, s.u, r_at(s, q.address), kind_of(q.request_type))
    &&& is_fill(q) ==> fill_emis(s.w, t.w, s.p, s.u, q.address, kind8(q), pct_of(q))
    &&& q.request_type > 7 ==> t.w.pers == s.w.pers
}
/// C22: terms and remainder of a filled auction
pub open spec fn st_terms(s: St, t: St, q: Request) -> bool { is_fill(q) ==> auct(s.w, q.address, kind8(q)) is Some && 1 <= pct_of(q) <= 100 && s.w.seq >= (auct(s.w, q.address, kind8(q))->0).block && left(s.w, t.w, q.address, kind8(q), pct_of(q)) }
/// C23, C24, C25: what a fill moves
pub open spec fn st_fill(s: St, t: St, q: Request) -> bool {
    is_fill(q) ==> q.address != s.u.address && (kind8(q) > 0 ==> p_backstop(s.w) is Some && s.u.address != p_backstop(s.w)->0) && fill_pos(s.w, t.w, s.p, t.p, s.u, t.u, q.address, kind8(q), pct_of(q))
}
/// C22, C24, C25, C31: calls made while the batch is processed
pub open spec fn st_calls(s: St, t: St, q: Request) -> bool { t.w.calls == (if is_fill(q) { fill_calls(s.w, s.u.address, q.address, kind8(q), pct_of(q)) } else { s.w.calls }) }
/// C23: cancelling one's own liquidation
pub open spec fn st_del(s: St, t: St, q: Request) -> bool { q.request_type == 9 ==> s.w.temp.contains_key(k_auct(s.u.address, 0)) && t.w == (World { temp: s.w.temp.remove(k_auct(s.u.address, 0)), ..s.w }) && t.u == s.u && t.p == s.p }
pub open spec fn st(n: int, s: St, t: St, q: Request) -> bool {
    if n == 0 { st_frame(s, t, q) } else if n == 1 { st_pos(s, t, q) } else if n == 2 { st_amt(s, t, q) } else if n == 3 { st_pay(s, t, q) } else if n == 4 { st_cap(s, t, q) } else if n == 5 { st_emis(s, t, q) }
    else if n == 6 { st_terms(s, t, q) } else if n == 7 { st_fill(s, t, q) } else if n == 8 { st_calls(s, t, q) } else { st_del(s, t, q) }
}
pub open spec fn st_at(n: int, tr: Seq<St>, qs: Seq<Request>, i: int) -> bool { st(n, tr[i], tr[i + 1], qs[i]) }
pub open spec fn chain(n: int, tr: Seq<St>, qs: Seq<Request>, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] st_at(n, tr, qs, i) }
/// a batch, request by request
pub open spec fn batch(w: World, p: Pool, from: Address, qs: Seq<Request>, tr: Seq<St>) -> bool {
    &&& tr.len() == qs.len() + 1 && tr[0].w == w && tr[0].p == p && tr[0].u == usr(w, from) && tr[0].at == nothing() && tr[0].pt == nothing()
    &&& forall|n: int| #![trigger chain(n, tr, qs, qs.len() as int)] 0 <= n <= 9 ==> chain(n, tr, qs, qs.len() as int)
}
/// C18
pub open spec fn gate(status: u32, t: u32) -> bool { t <= 9 && !(status > 1 && (t == 4 || t == 9)) && !(status > 3 && (t == 0 || t == 2)) }
/// C17: requests after which the health of the position is checked
pub open spec fn risky(t: u32) -> bool { t == 3 || t == 4 || t == 6 || t == 7 || t == 9 }
pub open spec fn npos(x: Positions) -> int { (x.liabilities@.len() + x.collateral@.len()) as int }
pub proof fn lemma_chain(tr: Seq<St>, t: St, qs: Seq<Request>, k: int)
    requires 0 <= k < qs.len(), tr.len() == k + 1
    ensures forall|n: int| #![trigger chain(n, tr.push(t), qs, k + 1)] chain(n, tr, qs, k) && st(n, tr.last(), t, qs[k]) ==> chain(n, tr.push(t), qs, k + 1)
{
    hide(st);
    assert forall|n: int| #![trigger chain(n, tr.push(t), qs, k + 1)] chain(n, tr, qs, k) && st(n, tr.last(), t, qs[k]) implies chain(n, tr.push(t), qs, k + 1) by {
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] st_at(n, tr.push(t), qs, i) by {
            if i < k { assert(st_at(n, tr, qs, i)); assert(tr.push(t)[i] == tr[i] && tr.push(t)[i + 1] == tr[i + 1]); } else { assert(tr.push(t)[k] == tr.last() && tr.push(t)[k + 1] == t); }
        }
    }
}
/// what the operations on one reserve come to
pub open spec fn req_pre(s: St, t: St, q: Request) -> bool {
    let a = q.address; let r = r_at(s, a);
    &&& q.request_type <= 5 && pool_wf(s.p, s.w) && idx_ok(s.w) && ex(s.p, s.w, a) && res_static(s.w, a, r)
    &&& cached(s.p, a, t.p.reserves@[a], t.p) && emis_move(s.w, t.w, s.u, r, kind_of(q.request_type))
    &&& pos_move(s.u, t.u, r, t.p.reserves@[a], kind_of(q.request_type), moved(s, t, q), adds(q.request_type))
}
pub proof fn lemma_req(s: St, t: St, q: Request)
    ensures req_pre(s, t, q) ==> st_frame(s, t, q) && st_pos(s, t, q) && r_at(t, q.address) == t.p.reserves@[q.address]
{
    hide(accrued); hide(idx_ok); hide(pool_wf); hide(settled);
    if req_pre(s, t, q) {
        let a = q.address; let r1 = t.p.reserves@[a]; let r = r_at(s, a);
        lemma_wf_put(s.p, t.p, s.w, a, r1);
        assert(only(s.w.pers, t.w.pers, |k: SKey| emis_key(k, s.u.address)));
        lemma_emis_frame(s.w, t.w, s.u.address);
        lemma_same_wf(s.w, t.w);
        assert forall|v: Address| #![trigger posof(t.w, v)] posof(t.w, v) == posof(s.w, v) by { assert(t.w.pers.contains_key(k_pos(v)) == s.w.pers.contains_key(k_pos(v))); }
    }
}
pub proof fn lemma_chain0(tr: Seq<St>, qs: Seq<Request>) ensures forall|n: int| #[trigger] chain(n, tr, qs, 0) {}
pub open spec fn fill_only(w0: World, w1: World, f: Address, u: Address, t: u32) -> bool { w1 == (World { pers: w1.pers, temp: w1.temp, calls: w1.calls, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| fill_key(w0, f, u, t, k)) }
pub proof fn lemma_sub(a: World, b: World, c: World)
    ensures sub_frame(a, a), sub_frame(a, b) && sub_frame(b, c) ==> sub_frame(a, c), forall|p: Pool| #[trigger] pool_same(p, p)
{ }
pub open spec fn fill_done(s: St, t: St, q: Request) -> bool {
    &&& is_fill(q) && fill_only(s.w, t.w, s.u.address, q.address, kind8(q)) && left(s.w, t.w, q.address, kind8(q), pct_of(q)) && pool_wf(t.p, t.w) && pool_same(s.p, t.p) && idx_ok(t.w)
    &&& fill_pos(s.w, t.w, s.p, t.p, s.u, t.u, q.address, kind8(q), pct_of(q)) && fill_emis(s.w, t.w, s.p, s.u, q.address, kind8(q), pct_of(q)) && s.u.address != q.address && (kind8(q) > 0 ==> p_backstop(s.w) is Some && s.u.address != p_backstop(s.w)->0)
}
pub proof fn lemma_fill_step(s: St, t: St, q: Request)
    ensures fill_done(s, t, q) ==> st_frame(s, t, q) && st_pos(s, t, q) && st_emis(s, t, q)
{
    hide(bals); hide(bad_fill); hide(ers_same); hide(pool_wf); hide(idx_ok); hide(scaled); hide(fill_emis); hide(credit_taken); hide(accrued); hide(settled);
    if fill_done(s, t, q) {
        assert forall|v: Address| #![trigger posof(t.w, v)] !(6 <= q.request_type <= 7 && v == fill_from(s.w, q.address, kind8(q))) implies posof(t.w, v) == posof(s.w, v) by { assert(t.w.pers.contains_key(k_pos(v)) == s.w.pers.contains_key(k_pos(v)) || kind8(q) == 2); }
    }
}
pub open spec fn del_done(s: St, t: St, q: Request) -> bool { q.request_type == 9 && st_del(s, t, q) && pool_wf(s.p, s.w) && idx_ok(s.w) }
pub proof fn lemma_del(s: St, t: St, q: Request)
    ensures del_done(s, t, q) ==> st_frame(s, t, q) && st_pos(s, t, q) && st_emis(s, t, q)
{
    hide(pool_wf); hide(idx_ok); hide(fill_emis); hide(accrued); hide(settled);
    if del_done(s, t, q) { lemma_temp(s.w, t.w); }
}
pub open spec fn fresh_pool(p: Pool, w: World) -> bool { p_config(w) is Some && p.config == p_config(w)->0 && p.reserves@ == Map::<Address, Reserve>::empty() && p.reserves_to_store@ == Seq::<Address>::empty() && p.prices@ == nothing() && p.price_decimals is None }
pub proof fn lemma_fresh(p: Pool, w: World) requires fresh_pool(p, w) ensures pool_wf(p, w), prices_wf(p, w) { }
/// other calls, authorisations and temporary storage hold nothing that the reserves depend on
pub proof fn lemma_quiet(a: World, b: World)
    requires b == (World { temp: b.temp, calls: b.calls, auths: b.auths, ..a })
    ensures res_same(a, b), emis_eq(a, b), forall|p: Pool| pool_wf(p, a) ==> #[trigger] pool_wf(p, b), idx_ok(a) ==> idx_ok(b),
        forall|p: Pool, x: Address| #[trigger] er(p, b, x) == er(p, a, x), forall|p: Pool, x: Address| #[trigger] ex(p, b, x) == ex(p, a, x), forall|x: Address| #[trigger] posof(b, x) == posof(a, x)
{
    assert forall|x: Address| #![trigger rcfg(b, x)] rcfg(b, x) == rcfg(a, x) by {}
    assert forall|x: Address| #![trigger rdat(b, x)] rdat(b, x) == rdat(a, x) by {}
    lemma_same_wf(a, b);
}
/// C16, C20: at the end the reserves and the user's positions are written back, exactly as the batch left them
pub open spec fn fin_res(l: St, w1: World, a: Address) -> bool {
    let r = r_at(l, a);
    if ex(l.p, l.w, a) {
        &&& rdat(w1, a) is Some && (rdat(w1, a)->0).b_supply == r.b_supply && (rdat(w1, a)->0).d_supply == r.d_supply
        &&& rdat(w1, a) == Some(data_of(r)) || r == loaded(l.p.config, l.w, a) && rdat(w1, a) == rdat(l.w, a)
    } else { rdat(w1, a) == rdat(l.w, a) }
}
pub open spec fn fin_pos(l: St, w1: World) -> bool {
    &&& forall|a: Address| #![trigger rdat(w1, a)] #![trigger fin_res(l, w1, a)] fin_res(l, w1, a)
    &&& posof(w1, l.u.address) == l.u.positions && forall|v: Address| v != l.u.address ==> #[trigger] posof(w1, v) == posof(l.w, v)
}
/// C17: the position the batch leaves is healthy at fresh prices and rates
pub open spec fn healthy(l: St, m: int) -> bool {
    &&& forall|d: PositionData| #[trigger] pdata_ok(l.p, l.w, l.u.positions, d) ==> !hf_under(d, m)
    &&& priced(l.p, l.w, l.u.positions, rlist(l.w).len() as int)
}
pub open spec fn fin_pay(l: St, w1: World, spender: Address, to: Address) -> bool {
    w1.calls == l.w.calls + pays(spender, l.w.this, entries(l.at), entries(l.at).len() as int) + pays(l.w.this, to, entries(l.pt), entries(l.pt).len() as int)
}
pub open spec fn sub_key2(k: SKey) -> bool { sub_key(k) || rdat_key(k) }
pub open spec fn sub_all(w0: World, w1: World) -> bool { w1 == (World { pers: w1.pers, temp: w1.temp, calls: w1.calls, auths: w1.auths, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| sub_key2(k)) && only(w0.temp, w1.temp, |k: SKey| auct_key(k)) }
pub open spec fn signed(w0: World, w1: World) -> World { World { auths: w1.auths, ..w0 } }
pub proof fn lemma_pdata(p: Pool, w: World, x: Positions, d: PositionData, m: int)
    requires pdata_ok(p, w, x, d), !hf_under(d, m), priced(p, w, x, rlist(w).len() as int)
    ensures forall|c: PositionData| #[trigger] pdata_ok(p, w, x, c) ==> !hf_under(c, m)
{ hide(s_cb); hide(s_cr); hide(s_lb); hide(s_lr); }
/// writing back: `va` before the reserves are stored, `vb` after
pub proof fn lemma_fin(l: St, p: Pool, va: World, vb: World, w1: World)
    requires pool_eq(l.p, p, l.w), pool_wf(p, l.w), idx_ok(l.w), va == (World { calls: va.calls, ..l.w }), stored(p, va, vb), vb == (World { pers: vb.pers, ..va }), only(va.pers, vb.pers, |k: SKey| rdat_key(k)),
        w1 == (World { calls: w1.calls, ..with_pos(vb, l.u.address, l.u.positions) })
    ensures fin_pos(l, w1), idx_ok(w1), only(l.w.pers, w1.pers, |k: SKey| sub_key2(k))
{
    hide(accrued);
    lemma_quiet(l.w, va); lemma_stored(p, va, vb);
    lemma_with_pos(vb, l.u.address, l.u.positions);
    let vc = with_pos(vb, l.u.address, l.u.positions);
    lemma_quiet(vc, w1);
    assert forall|a: Address| #![trigger rdat(w1, a)] #![trigger fin_res(l, w1, a)] fin_res(l, w1, a) by {
        assert(rdat(w1, a) == rdat(vb, a)); assert(er_eq(l.p, p, l.w, a)); assert(er(p, va, a) == er(p, l.w, a) && ex(p, va, a) == ex(p, l.w, a)); assert(rdat(va, a) == rdat(l.w, a)); assert(rcfg(va, a) == rcfg(l.w, a));
        if ex(p, va, a) { } else { if p.reserves_to_store@.contains(a) { assert(p.reserves@.contains_key(a)); } }
    }
    assert forall|v: Address| v != l.u.address implies #[trigger] posof(w1, v) == posof(l.w, v) by { assert(posof(vc, v) == posof(vb, v)); assert(vb.pers.contains_key(k_pos(v)) == va.pers.contains_key(k_pos(v))); }
    assert(forall|a: Address| #![trigger rcfg(w1, a)] rcfg(w1, a) == rcfg(l.w, a)) by { assert forall|a: Address| #![trigger rcfg(w1, a)] rcfg(w1, a) == rcfg(l.w, a) by { assert(vb.pers.contains_key(k_rcfg(a)) == va.pers.contains_key(k_rcfg(a))); } }
    assert(rlist(w1) == rlist(l.w)) by { assert(vb.pers.contains_key(k_list()) == va.pers.contains_key(k_list())); }
    assert forall|a: Address| #[trigger] has_res(l.w, a) implies has_res(w1, a) by { assert(fin_res(l, w1, a)); assert(rdat(w1, a) == rdat(w1, a)); }
    assert forall|a: Address| (#[trigger] rcfg(w1, a)) is Some implies has_res(w1, a) && (rcfg(w1, a)->0).index < rlist(w1).len() && rlist(w1)[(rcfg(w1, a)->0).index as int] == a by { assert(rcfg(l.w, a) is Some); assert(has_res(l.w, a)); }
    assert forall|i: int| 0 <= i < rlist(w1).len() implies has_res(w1, #[trigger] rlist(w1)[i]) && (rcfg(w1, rlist(w1)[i])->0).index == i by { assert(has_res(l.w, rlist(l.w)[i])); }
    assert forall|k: SKey| !sub_key2(k) implies w1.pers.contains_key(k) == l.w.pers.contains_key(k) && (l.w.pers.contains_key(k) ==> w1.pers[k] == l.w.pers[k]) by { assert(vb.pers.contains_key(k) == va.pers.contains_key(k)); }
}
pub proof fn lemma_pdata_uniq(p: Pool, w: World, x: Positions, m: int)
    ensures forall|c: PositionData, d: PositionData| #[trigger] pdata_ok(p, w, x, d) && !hf_under(d, m) && #[trigger] pdata_ok(p, w, x, c) ==> !hf_under(c, m), pool_eq(p, p, w)
{ hide(s_cb); hide(s_cr); hide(s_lb); hide(s_lr); hide(accrued); }
pub open spec fn any_risky(qs: Seq<Request>) -> bool { exists|i: int| 0 <= i < qs.len() && risky((#[trigger] qs[i]).request_type) }
pub proof fn lemma_sub_all(w0: World, v0: World, v: World, w1: World)
    requires v0 == signed(w0, v0), sub_frame(v0, v), w1 == (World { pers: w1.pers, calls: w1.calls, ..v }), only(v.pers, w1.pers, |k: SKey| sub_key2(k))
    ensures sub_all(w0, w1), v0 == signed(w0, w1)
{
    assert forall|k: SKey| !sub_key2(k) implies w1.pers.contains_key(k) == w0.pers.contains_key(k) && (w0.pers.contains_key(k) ==> w1.pers[k] == w0.pers[k]) by { assert(v.pers.contains_key(k) == v0.pers.contains_key(k)); assert(w1.pers.contains_key(k) == v.pers.contains_key(k)); }
}

// ---- bad debt
/// balance per index, of the first `k` entries only
pub open spec fn firstk(m: Map<u32, i128>, k: int, i: u32) -> int { if m.contains_key(i) && eidx(m, i) < k { m[i] as int } else { 0 } }
pub open spec fn bd_pos(b0: Positions, b: Positions, u0: Positions, u: Positions, k: int) -> bool {
    let m = u0.liabilities@;
    &&& b.collateral == b0.collateral && b.supply == b0.supply && u.collateral == u0.collateral && u.supply == u0.supply
    &&& forall|i: u32| #[trigger] lbal(b, i) == lbal(b0, i) + firstk(m, k, i)
    &&& forall|i: u32| #[trigger] lbal(u, i) == lbal(u0, i) - firstk(m, k, i)
}
/// C26: both users are settled with the balances from before
pub open spec fn bd_emis1(w0: World, w: World, p0: Pool, b0: User, u0: User, k: int, i: u32) -> bool {
    let m = u0.positions.liabilities@; let r = er(p0, w0, rlist(w0)[i as int]);
    if m.contains_key(i) && eidx(m, i) < k {
        i * 2 <= u32::MAX && i < rlist(w0).len() && (r.d_supply != 0 ==> settled(w0, w, b0.address, (i * 2) as u32, r.d_supply as int, r.scalar as int, lbal(b0.positions, i), false) && settled(w0, w, u0.address, (i * 2) as u32, r.d_supply as int, r.scalar as int, m[i] as int, false))
    } else { i * 2 <= u32::MAX ==> { let t = (i * 2) as u32; edat(w, t) == edat(w0, t) && uem(w, b0.address, t) == uem(w0, b0.address, t) && uem(w, u0.address, t) == uem(w0, u0.address, t) } }
}
pub open spec fn bd_emis(w0: World, w: World, p0: Pool, b0: User, u0: User, k: int) -> bool {
    &&& forall|i: u32| #[trigger] bd_emis1(w0, w, p0, b0, u0, k, i)
    &&& forall|t: u32| #![trigger edat(w, t)] #![trigger uem(w, u0.address, t)] #![trigger uem(w, b0.address, t)] t % 2 == 1 ==> edat(w, t) == edat(w0, t) && uem(w, b0.address, t) == uem(w0, b0.address, t) && uem(w, u0.address, t) == uem(w0, u0.address, t)
}
pub open spec fn bd_frame(w0: World, w: World, p0: Pool, p: Pool, b: Address, u: Address) -> bool {
    pool_wf(p, w) && pool_same(p0, p) && idx_ok(w) && w == (World { pers: w.pers, ..w0 }) && only(w0.pers, w.pers, |k: SKey| emis_key(k, b) || emis_key(k, u)) && ers_same(p0, w0, p, w)
}
pub proof fn lemma_emis2(w0: World, wm: World, w1: World, b: Address, u: Address, t: u32, supply: int, x: int, scalar: int, bb: int, bu: int)
    requires b != u, supply != 0, emis_step(w0, wm, b, t as int, supply, scalar, bb), emis_step(wm, w1, u, t as int, supply + x, scalar, bu)
    ensures settled(w0, w1, b, t, supply, scalar, bb, false), settled(w0, w1, u, t, supply, scalar, bu, false)
{
    assert(wm.pers.contains_key(k_uem(u, t)) == w0.pers.contains_key(k_uem(u, t))); assert(w1.pers.contains_key(k_uem(b, t)) == wm.pers.contains_key(k_uem(b, t)));
    assert(wm.pers.contains_key(k_ecfg(t)) == w0.pers.contains_key(k_ecfg(t))); assert(w1.pers.contains_key(k_ecfg(t)) == wm.pers.contains_key(k_ecfg(t)));
    assert(uem(w1, b, t) == uem(wm, b, t) && uem(wm, u, t) == uem(w0, u, t) && ecfg(wm, t) == ecfg(w0, t));
    if ecfg(w0, t) is Some { let d = edat_next(w0, t, supply, scalar); assert(edat(wm, t) == Some(d)); assert(edat_next(wm, t, supply + x, scalar) == d); }
}
pub proof fn lemma_bd_step(w0: World, v: World, vm: World, w: World, p0: Pool, p1: Pool, p2: Pool, b0: User, u0: User, b1: User, u1: User, b2: User, u2: User, k: int, a: Address, rm: Reserve)
    requires bd_frame(w0, v, p0, p1, b0.address, u0.address), bd_pos(b0.positions, b1.positions, u0.positions, u1.positions, k), bd_emis(w0, v, p0, b0, u0, k), b0.address != u0.address, b1.address == b0.address, u1.address == u0.address, idx_ok(w0),
        0 <= k < entries(u0.positions.liabilities@).len(), ({ let (i, x) = entries(u0.positions.liabilities@)[k]; let r = er(p1, v, a);
            i < rlist(w0).len() && a == rlist(w0)[i as int] && ex(p1, v, a) && res_static(v, a, r)
            && pos_move(b1, b2, r, rm, 0, x as int, true) && emis_move(v, vm, b1, r, 0) && pos_move(u1, u2, rm, p2.reserves@[a], 0, -x, false) && emis_move(vm, w, u1, rm, 0) && cached(p1, a, p2.reserves@[a], p2) })
    ensures bd_frame(w0, w, p0, p2, b0.address, u0.address), bd_pos(b0.positions, b2.positions, u0.positions, u2.positions, k + 1), bd_emis(w0, w, p0, b0, u0, k + 1), b2.address == b0.address, u2.address == u0.address
{
    hide(accrued); hide(pool_wf); hide(idx_ok); hide(edat_next); hide(accrued_at);
    let m = u0.positions.liabilities@; let (i, x) = entries(m)[k]; let r = er(p1, v, a); let t = (i * 2) as u32; let (b, u) = (b0.address, u0.address);
    assert(m.contains_key(i) && m[i] == x && eidx(m, i) == k);
    assert(idx(w0, a) == i && has_res(w0, a)) by { reveal(idx_ok); }
    assert(res_same(w0, v)) by {
        assert forall|y: Address| #![trigger rcfg(v, y)] rcfg(v, y) == rcfg(w0, y) by { assert(v.pers.contains_key(k_rcfg(y)) == w0.pers.contains_key(k_rcfg(y))); }
        assert forall|y: Address| #![trigger rdat(v, y)] rdat(v, y) == rdat(w0, y) by { assert(v.pers.contains_key(k_rdat(y)) == w0.pers.contains_key(k_rdat(y))); }
        assert(v.pers.contains_key(k_list()) == w0.pers.contains_key(k_list()));
    }
    lemma_same_wf(w0, v);
    assert(rcfg(v, a) == rcfg(w0, a) && rdat(v, a) == rdat(w0, a));
    assert(ex(p0, w0, a));
    assert(r == er(p0, w0, a));
    assert(r.index == i);
    assert(lbal(b1.positions, i) == lbal(b0.positions, i)); assert(lbal(u1.positions, i) == x);
    let r2 = p2.reserves@[a];
    assert(r2 == r);
    lemma_wf_put(p1, p2, v, a, r2);
    assert(only(v.pers, vm.pers, |q: SKey| emis_key(q, b))); assert(only(vm.pers, w.pers, |q: SKey| emis_key(q, u)));
    lemma_emis_frame(v, vm, b); lemma_emis_frame(vm, w, u); lemma_same_wf(v, vm); lemma_same_wf(vm, w);
    assert forall|q: SKey| !(emis_key(q, b) || emis_key(q, u)) implies w.pers.contains_key(q) == w0.pers.contains_key(q) && (w0.pers.contains_key(q) ==> w.pers[q] == w0.pers[q]) by {
        assert(v.pers.contains_key(q) == w0.pers.contains_key(q)); assert(vm.pers.contains_key(q) == v.pers.contains_key(q)); assert(w.pers.contains_key(q) == vm.pers.contains_key(q));
    }
    assert forall|y: Address| #![trigger er(p2, w, y)] #![trigger ex(p2, w, y)] ex(p0, w0, y) implies ex(p2, w, y) && er(p2, w, y) == er(p0, w0, y) by { assert(er(p1, v, y) == er(p0, w0, y)); assert(er(p2, v, y) == er(p1, v, y)); assert(ex(p2, v, y) == ex(p1, v, y)); }
    assert forall|j: u32| #[trigger] lbal(b2.positions, j) == lbal(b0.positions, j) + firstk(m, k + 1, j) by { assert(lbal(b1.positions, j) == lbal(b0.positions, j) + firstk(m, k, j)); if m.contains_key(j) && eidx(m, j) == k { assert(entries(m)[k] == (j, m[j])); } }
    assert forall|j: u32| #[trigger] lbal(u2.positions, j) == lbal(u0.positions, j) - firstk(m, k + 1, j) by { assert(lbal(u1.positions, j) == lbal(u0.positions, j) - firstk(m, k, j)); if m.contains_key(j) && eidx(m, j) == k { assert(entries(m)[k] == (j, m[j])); } }
    // emissions
    assert forall|q: u32| q != t implies #[trigger] edat(w, q) == edat(v, q) by { assert(vm.pers.contains_key(k_edat(q)) == v.pers.contains_key(k_edat(q))); assert(w.pers.contains_key(k_edat(q)) == vm.pers.contains_key(k_edat(q))); }
    assert forall|q: u32| #[trigger] ecfg(w, q) == ecfg(v, q) && ecfg(v, q) == ecfg(w0, q) by { assert(v.pers.contains_key(k_ecfg(q)) == w0.pers.contains_key(k_ecfg(q))); assert(vm.pers.contains_key(k_ecfg(q)) == v.pers.contains_key(k_ecfg(q))); assert(w.pers.contains_key(k_ecfg(q)) == vm.pers.contains_key(k_ecfg(q))); }
    assert forall|y: Address, q: u32| q != t implies #[trigger] uem(w, y, q) == uem(v, y, q) by { assert(vm.pers.contains_key(k_uem(y, q)) == v.pers.contains_key(k_uem(y, q))); assert(w.pers.contains_key(k_uem(y, q)) == vm.pers.contains_key(k_uem(y, q))); }
    if r.d_supply != 0 {
        lemma_emis2(v, vm, w, b, u, t, r.d_supply as int, x as int, r.scalar as int, lbal(b0.positions, i), x as int);
        assert(bd_emis1(w0, v, p0, b0, u0, k, i));
        assert(edat(v, t) == edat(w0, t) && uem(v, b, t) == uem(w0, b, t) && uem(v, u, t) == uem(w0, u, t));
        assert(ecfg(w, t) == ecfg(v, t) && ecfg(v, t) == ecfg(w0, t));
        assert(edat_next(v, t, r.d_supply as int, r.scalar as int) == edat_next(w0, t, r.d_supply as int, r.scalar as int)) by { reveal(edat_next); }
        assert(forall|n: int, y: int| accrued_at(v, b, t, n, y, r.scalar as int) == accrued_at(w0, b, t, n, y, r.scalar as int) && accrued_at(v, u, t, n, y, r.scalar as int) == accrued_at(w0, u, t, n, y, r.scalar as int)) by { reveal(accrued_at); }
    }
    assert forall|j: u32| #[trigger] bd_emis1(w0, w, p0, b0, u0, k + 1, j) by {
        assert(bd_emis1(w0, v, p0, b0, u0, k, j));
        if j != i { if m.contains_key(j) && eidx(m, j) == k { assert(entries(m)[k] == (j, m[j])); } let q = (j * 2) as u32; if j * 2 <= u32::MAX { assert(edat(w, q) == edat(v, q) && uem(w, b, q) == uem(v, b, q) && uem(w, u, q) == uem(v, u, q) && ecfg(w, q) == ecfg(w0, q)); } }
    }
}
pub open spec fn bd_fin(w0: World, w1: World, b: Address, u: Address) -> bool {
    let (b0, u0, b1, u1) = (posof(w0, b), posof(w0, u), posof(w1, b), posof(w1, u));
    &&& u1 == (Positions { liabilities: u1.liabilities, ..u0 }) && b1 == (Positions { liabilities: b1.liabilities, ..b0 })
    &&& forall|i: u32| #[trigger] lbal(b1, i) == lbal(b0, i) + lbal(u0, i)
    &&& forall|i: u32| #[trigger] lbal(u1, i) == 0
    &&& forall|v: Address| v != b && v != u ==> #[trigger] posof(w1, v) == posof(w0, v)
}
/// totals are what they were; interest may have been accrued
pub open spec fn bd_res(p0: Pool, w0: World, w1: World) -> bool { forall|a: Address| #![trigger rdat(w1, a)] if has_res(w0, a) { rdat(w1, a) is Some && (rdat(w1, a)->0).d_supply == (rdat(w0, a)->0).d_supply && (rdat(w1, a)->0).b_supply == (rdat(w0, a)->0).b_supply && (rdat(w1, a) == Some(data_of(loaded(p0.config, w0, a))) || rdat(w1, a) == rdat(w0, a)) } else { rdat(w1, a) == rdat(w0, a) } }
pub proof fn lemma_bd_fin(w0: World, v: World, vb: World, w1: World, p0: Pool, p: Pool, b0: User, u0: User, b: User, u: User)
    requires fresh_pool(p0, w0), bd_frame(w0, v, p0, p, b0.address, u0.address), b0 == usr(w0, b0.address), u0 == usr(w0, u0.address), b.address == b0.address, u.address == u0.address, b0.address != u0.address, idx_ok(w0),
        bd_pos(b0.positions, b.positions, u0.positions, u.positions, entries(u0.positions.liabilities@).len() as int), bd_emis(w0, v, p0, b0, u0, entries(u0.positions.liabilities@).len() as int),
        stored(p, v, vb), vb == (World { pers: vb.pers, ..v }), only(v.pers, vb.pers, |k: SKey| rdat_key(k)), w1 == with_pos(with_pos(vb, b.address, b.positions), u.address, u.positions)
    ensures bd_fin(w0, w1, b0.address, u0.address), bd_res(p0, w0, w1), bd_emis(w0, w1, p0, b0, u0, entries(u0.positions.liabilities@).len() as int), idx_ok(w1), w1 == (World { pers: w1.pers, ..w0 }), only(w0.pers, w1.pers, |k: SKey| sub_key2(k))
{
    hide(accrued); hide(settled);
    let m = u0.positions.liabilities@;
    lemma_stored(p, v, vb);
    let (ba, ua) = (b.address, u.address);
    lemma_with_pos(vb, ba, b.positions); lemma_with_pos(with_pos(vb, ba, b.positions), ua, u.positions);
    let wb = with_pos(vb, ba, b.positions);
    assert forall|k: SKey| !sub_key2(k) implies w1.pers.contains_key(k) == w0.pers.contains_key(k) && (w0.pers.contains_key(k) ==> w1.pers[k] == w0.pers[k]) by { assert(vb.pers.contains_key(k) == v.pers.contains_key(k)); assert(v.pers.contains_key(k) == w0.pers.contains_key(k)); }
    assert forall|x: Address| x != ba && x != ua implies #[trigger] posof(w1, x) == posof(w0, x) by { assert(posof(w1, x) == posof(wb, x)); assert(posof(wb, x) == posof(vb, x)); assert(vb.pers.contains_key(k_pos(x)) == v.pers.contains_key(k_pos(x))); assert(v.pers.contains_key(k_pos(x)) == w0.pers.contains_key(k_pos(x))); }
    assert(posof(w1, ba) == posof(wb, ba));
    assert forall|i: u32| firstk(m, entries(m).len() as int, i) == lbal(u0.positions, i) by { if m.contains_key(i) { assert(entries(m)[eidx(m, i)] == (i, m[i])); } }
    assert forall|i: u32| #[trigger] lbal(posof(w1, ba), i) == lbal(b0.positions, i) + lbal(u0.positions, i) by { assert(firstk(m, entries(m).len() as int, i) == lbal(u0.positions, i)); }
    assert forall|i: u32| #[trigger] lbal(posof(w1, ua), i) == 0 by { assert(firstk(m, entries(m).len() as int, i) == lbal(u0.positions, i)); assert(lbal(u.positions, i) == lbal(u0.positions, i) - firstk(m, entries(m).len() as int, i)); }
    assert forall|a: Address| #![trigger rcfg(v, a)] rcfg(v, a) == rcfg(w0, a) by { assert(v.pers.contains_key(k_rcfg(a)) == w0.pers.contains_key(k_rcfg(a))); }
    assert forall|a: Address| #![trigger rdat(v, a)] rdat(v, a) == rdat(w0, a) by { assert(v.pers.contains_key(k_rdat(a)) == w0.pers.contains_key(k_rdat(a))); }
    assert forall|a: Address| #![trigger rcfg(w1, a)] rcfg(w1, a) == rcfg(w0, a) by { assert(w1.pers.contains_key(k_rcfg(a)) == w0.pers.contains_key(k_rcfg(a))); }
    assert(rlist(w1) == rlist(w0)) by { assert(w1.pers.contains_key(k_list()) == w0.pers.contains_key(k_list())); }
    assert forall|a: Address| #![trigger rdat(w1, a)] (if has_res(w0, a) { rdat(w1, a) is Some && (rdat(w1, a)->0).d_supply == (rdat(w0, a)->0).d_supply && (rdat(w1, a)->0).b_supply == (rdat(w0, a)->0).b_supply && (rdat(w1, a) == Some(data_of(loaded(p0.config, w0, a))) || rdat(w1, a) == rdat(w0, a)) } else { rdat(w1, a) == rdat(w0, a) }) by {
        assert(rdat(w1, a) == rdat(vb, a)); assert(rdat(v, a) == rdat(w0, a)); assert(rcfg(v, a) == rcfg(w0, a));
        if has_res(w0, a) { assert(ex(p0, w0, a)); assert(er(p, v, a) == er(p0, w0, a)); assert(er(p0, w0, a) == loaded(p0.config, w0, a)); assert(ex(p, v, a)); lemma_loaded_supply(p0.config, w0, a); }
        else if p.reserves_to_store@.contains(a) { assert(p.reserves@.contains_key(a)); assert(res_static(v, a, p.reserves@[a])); }
    }
    assert forall|t: u32| #[trigger] edat(w1, t) == edat(v, t) by { assert(vb.pers.contains_key(k_edat(t)) == v.pers.contains_key(k_edat(t))); }
    assert forall|t: u32| #[trigger] ecfg(w1, t) == ecfg(v, t) by { assert(vb.pers.contains_key(k_ecfg(t)) == v.pers.contains_key(k_ecfg(t))); }
    assert forall|y: Address, t: u32| #[trigger] uem(w1, y, t) == uem(v, y, t) by { assert(vb.pers.contains_key(k_uem(y, t)) == v.pers.contains_key(k_uem(y, t))); }
    assert forall|i: u32| #[trigger] bd_emis1(w0, w1, p0, b0, u0, entries(m).len() as int, i) by { assert(bd_emis1(w0, v, p0, b0, u0, entries(m).len() as int, i)); reveal(settled); if i * 2 <= u32::MAX { let t = (i * 2) as u32; assert(edat(w1, t) == edat(v, t) && ecfg(w1, t) == ecfg(v, t) && uem(w1, ba, t) == uem(v, ba, t) && uem(w1, ua, t) == uem(v, ua, t)); } }
    assert forall|a: Address| (#[trigger] rcfg(w1, a)) is Some implies has_res(w1, a) && (rcfg(w1, a)->0).index < rlist(w1).len() && rlist(w1)[(rcfg(w1, a)->0).index as int] == a by { assert(rcfg(w0, a) is Some); assert(has_res(w0, a)); assert(rdat(w1, a) is Some); }
    assert forall|i: int| 0 <= i < rlist(w1).len() implies has_res(w1, #[trigger] rlist(w1)[i]) && (rcfg(w1, rlist(w1)[i])->0).index == i by { let a = rlist(w0)[i]; assert(has_res(w0, a)); assert(rdat(w1, a) is Some); }
}
pub proof fn lemma_loaded_supply(pc: PoolConfig, w: World, a: Address) ensures loaded(pc, w, a).d_supply == (rdat(w, a)->0).d_supply, loaded(pc, w, a).b_supply == (rdat(w, a)->0).b_supply {}
pub proof fn lemma_bd0(w: World, p: Pool, b: User, u: User)
    requires pool_wf(p, w), idx_ok(w)
    ensures bd_frame(w, w, p, p, b.address, u.address), bd_pos(b.positions, b.positions, u.positions, u.positions, 0), bd_emis(w, w, p, b, u, 0)
{
    hide(accrued); hide(settled); hide(pool_wf); hide(idx_ok);
    let m = u.positions.liabilities@;
    assert(m.len() == entries(m).len());
    assert(pool_same(p, p));
    assert(only(w.pers, w.pers, |k: SKey| emis_key(k, b.address) || emis_key(k, u.address)));
    assert(ers_same(p, w, p, w));
    assert(w == (World { pers: w.pers, ..w }));
    assert forall|i: u32| #[trigger] bd_emis1(w, w, p, b, u, 0, i) by { }
}
// ---- creating auctions
/// nothing but prices has been cached
pub open spec fn still_fresh(p: Pool, w: World) -> bool { p_config(w) is Some && p.config == p_config(w)->0 && p.reserves@ == Map::<Address, Reserve>::empty() && p.reserves_to_store@ == Seq::<Address>::empty() && prices_wf(p, w) }
pub proof fn lemma_still(p: Pool, w: World) requires still_fresh(p, w) ensures pool_wf(p, w), prices_wf(p, w), forall|a: Address| #[trigger] er(p, w, a) == now(w, a), forall|a: Address| #[trigger] ex(p, w, a) == has_res(w, a) { }
/// a reserve with interest accrued up to now
pub open spec fn now(w: World, a: Address) -> Reserve { loaded(p_config(w)->0, w, a) }
pub open spec fn priced_at(w: World, a: Address) -> bool { fresh_price(w, (p_config(w)->0).oracle, a) }
pub open spec fn price_now(w: World, a: Address) -> int { (oracle_last(w.ts, (p_config(w)->0).oracle, a)->0).price as int }
pub open spec fn odec(w: World) -> int { pow(10, oracle_dec((p_config(w)->0).oracle) as nat) }
pub open spec fn bs(w: World) -> Address { p_backstop(w)->0 }
pub open spec fn with_auct(w: World, u: Address, t: u32, d: AuctionData) -> World { World { temp: w.temp.insert(k_auct(u, t), enc(d)), ..w } }
/// value of one backstop token in the oracle's units: five times the USDC behind it
pub open spec fn bs_tok_value(w: World, d: PoolBackstopData) -> int { mul_floor(mul_floor(d.usdc as int, odec(w), S7()) * 5, S7(), d.tokens as int) }
/// backstop tokens worth 140% of `v`
pub open spec fn worth140(w: World, d: PoolBackstopData, v: int) -> int { mul_floor(mul_floor(v, 1_4000000, S7()), S7(), bs_tok_value(w, d)) }
/// `a` occurs among the first `k` listed assets
pub open spec fn listed(s: Seq<Address>, k: int, a: Address) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == a }
/// value of the credit of the first `k` listed assets, each counted once
pub open spec fn credit_value(w: World, s: Seq<Address>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { let a = s[k - 1]; credit_value(w, s, k - 1) + if now(w, a).backstop_credit > 0 && !listed(s, k - 1, a) { mul_floor(price_now(w, a), now(w, a).backstop_credit as int, now(w, a).scalar as int) } else { 0 } }
}
pub open spec fn credit_lot1(w: World, s: Seq<Address>, k: int, lot: Map<Address, i128>, a: Address) -> bool {
    &&& lot.contains_key(a) == (listed(s, k, a) && now(w, a).backstop_credit > 0)
    &&& lot.contains_key(a) ==> lot[a] == now(w, a).backstop_credit && has_res(w, a)
}
/// the lot: all the credit of every listed reserve that has any
pub open spec fn credit_lot(w: World, s: Seq<Address>, k: int, lot: Map<Address, i128>) -> bool { forall|a: Address| #![trigger lot.contains_key(a)] #![trigger credit_lot1(w, s, k, lot, a)] credit_lot1(w, s, k, lot, a) }
pub open spec fn credit_priced(w: World, s: Seq<Address>, k: int) -> bool { forall|i: int| 0 <= i < k && now(w, #[trigger] s[i]).backstop_credit > 0 ==> priced_at(w, s[i]) }
pub proof fn lemma_credit(w: World, s: Seq<Address>, k: int, l0: Map<Address, i128>, l1: Map<Address, i128>)
    ensures credit_lot(w, s, k, l0) && 0 <= k < s.len() && has_res(w, s[k]) ==> l0.contains_key(s[k]) == (now(w, s[k]).backstop_credit > 0 && listed(s, k, s[k])),
        credit_lot(w, s, k, l0) && 0 <= k < s.len() && has_res(w, s[k]) && l1 == (if now(w, s[k]).backstop_credit > 0 && !l0.contains_key(s[k]) { l0.insert(s[k], now(w, s[k]).backstop_credit) } else { l0 }) ==> credit_lot(w, s, k + 1, l1)
{
    hide(accrued);
    if !(credit_lot(w, s, k, l0) && 0 <= k < s.len() && has_res(w, s[k])) { return; }
    assert(credit_lot1(w, s, k, l0, s[k]));
    if l1 != (if now(w, s[k]).backstop_credit > 0 && !l0.contains_key(s[k]) { l0.insert(s[k], now(w, s[k]).backstop_credit) } else { l0 }) { return; }
    assert forall|a: Address| #![trigger l1.contains_key(a)] #![trigger credit_lot1(w, s, k + 1, l1, a)] credit_lot1(w, s, k + 1, l1, a) by {
        assert(credit_lot1(w, s, k, l0, a));
        if listed(s, k, a) { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == a; assert(0 <= i < k + 1 && s[i] == a); }
        if listed(s, k + 1, a) && a != s[k] { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s[i] == a; assert(i < k); assert(listed(s, k, a)); }
        assert(listed(s, k + 1, s[k]));
    }
}
/// value of the first `k` liabilities
pub open spec fn debt_value_n(w: World, m: Map<u32, i128>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { let (i, x) = entries(m)[k - 1]; let a = rlist(w)[i as int]; debt_value_n(w, m, k - 1) + if x > 0 { mul_floor(price_now(w, a), asset_d(now(w, a), x as int), now(w, a).scalar as int) } else { 0 } }
}
pub open spec fn debt_priced(w: World, m: Map<u32, i128>, k: int) -> bool { forall|j: int| 0 <= j < k && (#[trigger] entries(m)[j]).1 > 0 ==> entries(m)[j].0 < rlist(w).len() && priced_at(w, rlist(w)[entries(m)[j].0 as int]) && has_res(w, rlist(w)[entries(m)[j].0 as int]) }
/// the share of debt to be sold, in the oracle's decimals
pub open spec fn liq_share(d: PositionData, pct: int) -> int { tdiv(pct * d.scalar, 100) }
/// estimate of the collateral that pays for it
pub open spec fn liq_incentive(d: PositionData) -> int {
    let s = d.scalar as int;
    let avg_cf = mul_floor(d.collateral_base as int, s, d.collateral_raw as int); let avg_lf = mul_floor(d.liability_base as int, s, d.liability_raw as int);
    mul_ceil(s - mul_ceil(avg_cf, s, avg_lf), s, 2 * s) + s
}
pub open spec fn liq_est(d: PositionData, pct: int) -> int { let s = d.scalar as int; mul_floor(mul_floor(d.liability_raw as int, liq_share(d, pct), s), liq_incentive(d), s) }
pub open spec fn liq_cshare(d: PositionData, pct: int) -> int { imin(mul_ceil(liq_est(d, pct), d.scalar as int, d.collateral_raw as int), d.scalar as int) }
pub open spec fn liq_terms(w: World, x: Positions, d: PositionData, pct: int, a: AuctionData) -> bool {
    lst_all(w, x.liabilities@, a.bid@, 0, liq_share(d, pct), d.scalar as int) && lst_all(w, x.collateral@, a.lot@, 0, liq_cshare(d, pct), d.scalar as int)
}
/// the user would be back between 1.03 and 1.15 without the lot and the bid
pub open spec fn liq_after(w: World, p: Pool, p2: Pool, x: User, x2: User, v: World, d2: PositionData, a: AuctionData) -> bool {
    bulk_pos(w, p, p2, v, x, x2, a.lot@, a.bid@, false) && pdata_ok(p2, v, x2.positions, d2) && !hf_over(d2, 1_1500000) && !hf_under(d2, 1_0300000)
}
pub open spec fn liq_sized(w: World, p: Pool, u: Address, d: PositionData, pct: int, a: AuctionData, v: World) -> bool {
    if pct == 100 { liq_est(d, pct) >= d.collateral_raw } else { exists|p2: Pool, x2: User, d2: PositionData| #[trigger] liq_after(w, p, p2, usr(w, u), x2, v, d2, a) }
}
pub open spec fn i128fits(x: int) -> bool { i128::MIN <= x <= i128::MAX }
/// temporary storage as in `w0`
pub open spec fn untemp(w0: World, w1: World) -> World { World { temp: w0.temp, ..w1 } }
/// the cached prices and reserves do not change what the reserves are worth
pub proof fn lemma_liq(w: World, p0: Pool, p1: Pool, p2: Pool, x2: User, v: World, u: Address, lot: Map<Address, i128>, bid: Map<Address, i128>)
    ensures pool_eq(p0, p1, w) && bulk_pos(w, p1, p2, v, usr(w, u), x2, lot, bid, false) ==> bulk_pos(w, p0, p2, v, usr(w, u), x2, lot, bid, false),
        pool_eq(p0, p1, w) && bulk_emis(w, v, p1, usr(w, u), lot, bid) ==> bulk_emis(w, v, p0, usr(w, u), lot, bid)
{
    hide(accrued); hide(settled);
    if pool_eq(p0, p1, w) {
        assert forall|y: Address| #![trigger er(p1, w, y)] #![trigger er(p0, w, y)] #![trigger ex(p1, w, y)] #![trigger ex(p0, w, y)] er(p1, w, y) == er(p0, w, y) && ex(p1, w, y) == ex(p0, w, y) by { assert(er_eq(p0, p1, w, y)); }
        if bulk_pos(w, p1, p2, v, usr(w, u), x2, lot, bid, false) {
            assert forall|a: Address| #![trigger lot.contains_key(a)] lot.contains_key(a) implies ex(p0, w, a) && lot[a] != 0 by { assert(ex(p1, w, a)); }
            assert forall|a: Address| #![trigger bid.contains_key(a)] bid.contains_key(a) implies ex(p0, w, a) && bid[a] != 0 by { assert(ex(p1, w, a)); }
            assert forall|a: Address| #![trigger er(p2, v, a)] ex(p0, w, a) implies ex(p2, v, a) && ({ let (r0, r1) = (er(p0, w, a), er(p2, v, a)); r1 == (Reserve { b_supply: r1.b_supply, d_supply: r1.d_supply, ..r0 }) && r1.b_supply == r0.b_supply + sg(false, mga(lot, a)) && r1.d_supply == r0.d_supply + sg(false, mga(bid, a)) }) by { assert(ex(p1, w, a)); }
        }
    }
}

// ---- writing back, in whatever order the records are written
pub open spec fn but2(m0: Map<SKey, SVal>, m1: Map<SKey, SVal>, k1: SKey, k2: SKey) -> bool {
    forall|k: SKey| #![trigger m1.contains_key(k)] #![trigger m1[k]] k != k1 && k != k2 ==> m1.contains_key(k) == m0.contains_key(k) && m1[k] == m0[k]
}
pub open spec fn restore(m: Map<SKey, SVal>, m0: Map<SKey, SVal>, k: SKey) -> Map<SKey, SVal> { if m0.contains_key(k) { m.insert(k, m0[k]) } else { m.remove(k) } }
pub proof fn lemma_pre_store(v: World, p: Pool, va: World, b: Address, u: Address)
    requires va == (World { pers: va.pers, calls: va.calls, ..v }), but2(v.pers, va.pers, k_pos(b), k_pos(u))
    ensures pool_wf(p, v) ==> pool_wf(p, va)
{
    assert forall|x: Address| #![trigger rcfg(va, x)] rcfg(va, x) == rcfg(v, x) by { assert(va.pers.contains_key(k_rcfg(x)) == v.pers.contains_key(k_rcfg(x))); assert(va.pers[k_rcfg(x)] == v.pers[k_rcfg(x)]); }
    assert forall|x: Address| #![trigger rdat(va, x)] rdat(va, x) == rdat(v, x) by { assert(va.pers.contains_key(k_rdat(x)) == v.pers.contains_key(k_rdat(x))); assert(va.pers[k_rdat(x)] == v.pers[k_rdat(x)]); }
    assert(rlist(va) == rlist(v)) by { assert(va.pers.contains_key(k_list()) == v.pers.contains_key(k_list())); assert(va.pers[k_list()] == v.pers[k_list()]); }
    assert(res_same(v, va));
    lemma_same_wf(v, va);
}
pub proof fn lemma_keep_pos(va: World, vb: World, b: Address, u: Address)
    requires only(va.pers, vb.pers, |k: SKey| rdat_key(k))
    ensures forall|x: Address| x == b || x == u ==> #[trigger] vb.pers.contains_key(k_pos(x)) == va.pers.contains_key(k_pos(x)) && (va.pers.contains_key(k_pos(x)) ==> vb.pers[k_pos(x)] == va.pers[k_pos(x)])
{}
pub open spec fn canon(v: World, vb: World, b: Address, u: Address) -> World { World { pers: restore(restore(vb.pers, v.pers, k_pos(b)), v.pers, k_pos(u)), ..vb } }
pub open spec fn wrote(v: World, va: World, vb: World, w1: World, p: Pool, b: Address, u: Address) -> bool {
    &&& va == (World { pers: va.pers, calls: va.calls, ..v }) && but2(v.pers, va.pers, k_pos(b), k_pos(u))
    &&& stored(p, va, vb) && vb == (World { pers: vb.pers, ..va }) && only(va.pers, vb.pers, |k: SKey| rdat_key(k))
    &&& w1 == (World { pers: w1.pers, calls: w1.calls, ..vb }) && but2(vb.pers, w1.pers, k_pos(b), k_pos(u)) && w1.pers.contains_key(k_pos(b)) && w1.pers.contains_key(k_pos(u))
}
pub proof fn lemma_canon(v: World, va: World, vb: World, w1: World, p: Pool, b: Address, u: Address)
    requires wrote(v, va, vb, w1, p, b, u)
    ensures ({ let (vx, vc) = (World { calls: va.calls, ..v }, canon(v, vb, b, u));
        stored(p, vx, vc) && vc == (World { pers: vc.pers, ..vx }) && only(vx.pers, vc.pers, |k: SKey| rdat_key(k)) && w1.pers == vc.pers.insert(k_pos(b), w1.pers[k_pos(b)]).insert(k_pos(u), w1.pers[k_pos(u)]) })
{
    let (vx, vc) = (World { calls: va.calls, ..v }, canon(v, vb, b, u));
    assert forall|a: Address| #![trigger rdat(vc, a)] rdat(vc, a) == rdat(vb, a) && rdat(vx, a) == rdat(va, a) by { assert(va.pers.contains_key(k_rdat(a)) == v.pers.contains_key(k_rdat(a))); assert(va.pers[k_rdat(a)] == v.pers[k_rdat(a)]); }
    assert forall|a: Address| #![trigger rdat(vc, a)] rdat(vc, a) == (if p.reserves_to_store@.contains(a) { Some(data_of(p.reserves@[a])) } else { rdat(vx, a) }) by { assert(rdat(vb, a) == (if p.reserves_to_store@.contains(a) { Some(data_of(p.reserves@[a])) } else { rdat(va, a) })); }
    assert forall|k: SKey| #![trigger vc.pers.contains_key(k)] #![trigger vc.pers[k]] !rdat_key(k) implies vc.pers.contains_key(k) == vx.pers.contains_key(k) && (vx.pers.contains_key(k) ==> vc.pers[k] == vx.pers[k]) by {
        assert(vb.pers.contains_key(k) == va.pers.contains_key(k)); assert(va.pers.contains_key(k) ==> vb.pers[k] == va.pers[k]);
        assert(k != k_pos(b) && k != k_pos(u) ==> va.pers.contains_key(k) == v.pers.contains_key(k) && va.pers[k] == v.pers[k]);
        lemma_restore(vb.pers, v.pers, k_pos(b), k_pos(u), k);
    }
    let m = vc.pers.insert(k_pos(b), w1.pers[k_pos(b)]).insert(k_pos(u), w1.pers[k_pos(u)]);
    assert forall|k: SKey| m.contains_key(k) == w1.pers.contains_key(k) && (m.contains_key(k) ==> m[k] == w1.pers[k]) by { assert(k != k_pos(b) && k != k_pos(u) ==> w1.pers.contains_key(k) == vb.pers.contains_key(k) && w1.pers[k] == vb.pers[k]); }
    assert(w1.pers =~= m);
}
pub proof fn lemma_restore(m: Map<SKey, SVal>, m0: Map<SKey, SVal>, k1: SKey, k2: SKey, k: SKey)
    ensures ({ let r = restore(restore(m, m0, k1), m0, k2); if k == k1 || k == k2 { r.contains_key(k) == m0.contains_key(k) && (m0.contains_key(k) ==> r[k] == m0[k]) } else { r.contains_key(k) == m.contains_key(k) && r[k] == m[k] } })
{}
pub proof fn lemma_fin2(l: St, p: Pool, va: World, vb: World, w1: World)
    requires pool_eq(l.p, p, l.w), pool_wf(p, l.w), idx_ok(l.w), wrote(l.w, va, vb, w1, p, l.u.address, l.u.address), w1.pers[k_pos(l.u.address)] == enc(l.u.positions)
    ensures fin_pos(l, w1), idx_ok(w1), only(l.w.pers, w1.pers, |k: SKey| sub_key2(k))
{
    lemma_canon(l.w, va, vb, w1, p, l.u.address, l.u.address);
    let vc = canon(l.w, vb, l.u.address, l.u.address);
    assert(w1.pers =~= vc.pers.insert(k_pos(l.u.address), enc(l.u.positions)));
    lemma_fin(l, p, World { calls: va.calls, ..l.w }, vc, w1);
}
pub proof fn lemma_bd_fin2(w0: World, v: World, va: World, vb: World, w1: World, p0: Pool, p: Pool, b0: User, u0: User, b: User, u: User)
    requires fresh_pool(p0, w0), bd_frame(w0, v, p0, p, b0.address, u0.address), b0 == usr(w0, b0.address), u0 == usr(w0, u0.address), b.address == b0.address, u.address == u0.address, b0.address != u0.address, idx_ok(w0),
        bd_pos(b0.positions, b.positions, u0.positions, u.positions, entries(u0.positions.liabilities@).len() as int), bd_emis(w0, v, p0, b0, u0, entries(u0.positions.liabilities@).len() as int),
        wrote(v, va, vb, w1, p, b.address, u.address), va.calls == v.calls, w1.calls == v.calls, w1.pers[k_pos(b.address)] == enc(b.positions), w1.pers[k_pos(u.address)] == enc(u.positions)
    ensures bd_fin(w0, w1, b0.address, u0.address), bd_res(p0, w0, w1), bd_emis(w0, w1, p0, b0, u0, entries(u0.positions.liabilities@).len() as int), idx_ok(w1), w1 == (World { pers: w1.pers, ..w0 }), only(w0.pers, w1.pers, |k: SKey| sub_key2(k))
{
    lemma_canon(v, va, vb, w1, p, b.address, u.address);
    let vc = canon(v, vb, b.address, u.address);
    assert(k_pos(b.address) != k_pos(u.address));
    assert(with_pos(with_pos(vc, b.address, b.positions), u.address, u.positions) == w1);
    lemma_bd_fin(w0, v, vc, w1, p0, p, b0, u0, b, u);
}
