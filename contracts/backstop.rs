// ---- backstop: names for the stored state
pub open spec fn b_init(w: World) -> bool { w.inst.contains_key(SKey::Sym(sym!("IsInit"))) }
pub open spec fn b_token(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("BToken"))) }
pub open spec fn b_emitter(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("Emitter"))) }
pub open spec fn b_factory(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("PoolFact"))) }
pub open spec fn b_blnd(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("BLNDTkn"))) }
pub open spec fn b_usdc(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("USDCTkn"))) }
pub open spec fn b_drop(w: World) -> Option<SVec<(Address, i128)>> { mget::<SVec<(Address, i128)>>(w.temp, SKey::Sym(sym!("DropList"))) }
pub open spec fn k_pbal(p: Address) -> SKey { SKey::K_BackstopDataKey(BackstopDataKey::PoolBalance(p)) }
pub open spec fn k_ubal(p: Address, u: Address) -> SKey { SKey::K_BackstopDataKey(BackstopDataKey::UserBalance(PoolUserKey { pool: p, user: u })) }
pub open spec fn k_pemis(p: Address) -> SKey { SKey::K_BackstopDataKey(BackstopDataKey::PoolEmis(p)) }
pub open spec fn k_becfg(p: Address) -> SKey { SKey::K_BackstopDataKey(BackstopDataKey::BEmisCfg(p)) }
pub open spec fn k_bedat(p: Address) -> SKey { SKey::K_BackstopDataKey(BackstopDataKey::BEmisData(p)) }
pub open spec fn k_uedat(p: Address, u: Address) -> SKey { SKey::K_BackstopDataKey(BackstopDataKey::UEmisData(PoolUserKey { pool: p, user: u })) }
pub open spec fn k_lastdist() -> SKey { SKey::Sym(sym!("LastDist")) }
pub open spec fn k_rz() -> SKey { SKey::Sym(sym!("RZ")) }
pub open spec fn k_lpval() -> SKey { SKey::Sym(sym!("LPTknVal")) }
pub open spec fn pbal(w: World, p: Address) -> PoolBalance { match mget::<PoolBalance>(w.pers, k_pbal(p)) { Some(b) => b, None => PoolBalance { shares: 0, tokens: 0, q4w: 0 } } }
pub open spec fn ushares(w: World, p: Address, u: Address) -> i128 { match mget::<UserBalance>(w.pers, k_ubal(p, u)) { Some(b) => b.shares, None => 0 } }
pub open spec fn uq(w: World, p: Address, u: Address) -> Seq<Q4W> { match mget::<UserBalance>(w.pers, k_ubal(p, u)) { Some(b) => b.q4w@, None => Seq::empty() } }
pub open spec fn pemis(w: World, p: Address) -> i128 { match mget::<i128>(w.pers, k_pemis(p)) { Some(b) => b, None => 0 } }
pub open spec fn bec(w: World, p: Address) -> Option<BackstopEmissionConfig> { match mget::<Option<BackstopEmissionConfig>>(w.pers, k_becfg(p)) { Some(o) => o, None => None } }
pub open spec fn bed(w: World, p: Address) -> Option<BackstopEmissionsData> { match mget::<Option<BackstopEmissionsData>>(w.pers, k_bedat(p)) { Some(o) => o, None => None } }
pub open spec fn ued(w: World, p: Address, u: Address) -> Option<UserEmissionData> { match mget::<Option<UserEmissionData>>(w.pers, k_uedat(p, u)) { Some(o) => o, None => None } }
/// well-formed pool record
pub open spec fn pwf(b: PoolBalance) -> bool { 0 <= b.q4w && b.q4w <= b.shares && 0 <= b.tokens }
pub open spec fn to_shares(b: PoolBalance, t: int) -> int { if b.shares == 0 { t } else { mul_floor(t, b.shares as int, b.tokens as int) } }
pub open spec fn to_tokens(b: PoolBalance, s: int) -> int { if b.shares == 0 { s } else { mul_floor(s, b.tokens as int, b.shares as int) } }
pub open spec fn nq_tokens(b: PoolBalance) -> int { b.tokens - to_tokens(b, b.q4w as int) }
/// tokens per share did not fall (cross-multiplied)
pub open spec fn price_kept(b0: PoolBalance, b1: PoolBalance) -> bool { b0.shares > 0 && b1.shares > 0 ==> b1.tokens * b0.shares >= b0.tokens * b1.shares }
pub open spec fn sum_q(q: Seq<Q4W>) -> int decreases q.len() { if q.len() == 0 { 0 } else { q[0].amount + sum_q(q.subrange(1, q.len() as int)) } }
pub proof fn lemma_sum_q_push(q: Seq<Q4W>, x: Q4W) ensures sum_q(q.push(x)) == sum_q(q) + x.amount decreases q.len()
{
    let p = q.push(x);
    if q.len() == 0 {
        assert(p.subrange(1, 1) =~= Seq::<Q4W>::empty());
        assert(p[0] == x);
        assert(sum_q(p.subrange(1, p.len() as int)) == 0);
    } else {
        assert(p.subrange(1, p.len() as int) =~= q.subrange(1, q.len() as int).push(x));
        lemma_sum_q_push(q.subrange(1, q.len() as int), x);
    }
}
/// the queue after taking `n` shares from its front (oldest first)
pub open spec fn deq(q: Seq<Q4W>, n: int) -> Seq<Q4W> decreases q.len() {
    if q.len() == 0 { q }
    else if q[0].amount > n { q.update(0, Q4W { amount: (q[0].amount - n) as i128, exp: q[0].exp }) }
    else if q[0].amount == n { q.subrange(1, q.len() as int) }
    else { deq(q.subrange(1, q.len() as int), n - q[0].amount) }
}
/// every entry touched by taking `n` shares from the front has matured
pub open spec fn deq_mature(q: Seq<Q4W>, n: int, ts: u64) -> bool decreases q.len() {
    q.len() == 0 || (q[0].exp <= ts && (q[0].amount >= n || deq_mature(q.subrange(1, q.len() as int), n - q[0].amount, ts)))
}
/// nothing that changes a user's record
pub open spec fn user_same(w0: World, w1: World, p: Address, u: Address) -> bool { ushares(w1, p, u) == ushares(w0, p, u) && uq(w1, p, u) == uq(w0, p, u) }

// ---- emissions
pub open spec fn upd_active(w: World, p: Address, b: PoolBalance) -> bool {
    let d = bed(w, p)->0; let c = bec(w, p)->0;
    d.last_time < c.expiration && w.ts != d.last_time && c.eps != 0 && b.shares != b.q4w && b.shares != 0
}
/// the pool's emission data once accrued up to now: rate per non-queued share over the elapsed time, up to expiration
pub open spec fn upd_bed(w: World, p: Address, b: PoolBalance) -> BackstopEmissionsData {
    let d = bed(w, p)->0; let c = bec(w, p)->0;
    if upd_active(w, p, b) {
        BackstopEmissionsData { index: (d.index + mul_floor((imin(w.ts as int, c.expiration as int) - d.last_time) * c.eps, 1_0000000, b.shares - b.q4w)) as i128, last_time: w.ts }
    } else { d }
}
/// what the user has accrued once settled against index `idx` with `sh` shares
pub open spec fn accrued_at(w: World, p: Address, u: Address, idx: int, sh: int) -> int {
    match ued(w, p, u) {
        Some(d) => d.accrued + (if sh != 0 { mul_floor(sh, idx - d.index, 1_0000000) } else { 0 }),
        None => mul_floor(sh, idx, 1_0000000),
    }
}
/// emissions of (pool, user) are settled at the balances they had in w0
pub open spec fn settled(w0: World, w1: World, p: Address, u: Address, b: PoolBalance, sh: int, claimed: bool) -> bool {
    if bec(w0, p) is None { bed(w1, p) == bed(w0, p) && ued(w1, p, u) == ued(w0, p, u) }
    else {
        let d = upd_bed(w0, p, b);
        &&& bed(w0, p) is Some && bed(w1, p) == Some(d)
        &&& ued(w1, p, u) is Some && (ued(w1, p, u)->0).index == d.index
        &&& (ued(w1, p, u)->0).accrued == (if claimed { 0 } else { accrued_at(w0, p, u, d.index as int, sh) })
    }
}
pub open spec fn k4(p: Address, u: Address) -> spec_fn(SKey) -> bool { |k: SKey| k == k_pbal(p) || k == k_ubal(p, u) || k == k_bedat(p) || k == k_uedat(p, u) }
/// user and pool share totals moved together: (free shares, queued shares)
pub open spec fn shares_move(w0: World, w1: World, p: Address, u: Address) -> bool {
    let b0 = pbal(w0, p); let b1 = pbal(w1, p);
    &&& b1.shares - b0.shares == (ushares(w1, p, u) + sum_q(uq(w1, p, u))) - (ushares(w0, p, u) + sum_q(uq(w0, p, u)))
    &&& b1.q4w - b0.q4w == sum_q(uq(w1, p, u)) - sum_q(uq(w0, p, u))
}
pub proof fn lemma_deposit_price(b0: PoolBalance, a: int, m: int)
    requires pwf(b0), a >= 0, m == to_shares(b0, a), b0.shares > 0, b0.tokens > 0
    ensures (b0.tokens + a) * b0.shares >= b0.tokens * (b0.shares + m), m >= 0
{
    lemma_mul_div(a, b0.shares as int, b0.tokens as int);
    lemma_mul_nonneg(a, b0.shares as int, b0.tokens as int);
    let t = b0.tokens as int; let s = b0.shares as int;
    assert((t + a) * s >= t * (s + m)) by (nonlinear_arith) requires m * t <= a * s;
}
/// a part of the shares is worth no more than all the tokens
pub proof fn lemma_to_tokens_le(b0: PoolBalance, s: int)
    requires pwf(b0), 0 <= s <= b0.shares, b0.shares > 0
    ensures 0 <= to_tokens(b0, s) <= b0.tokens
{
    lemma_mul_div(s, b0.tokens as int, b0.shares as int);
    lemma_mul_nonneg(s, b0.tokens as int, b0.shares as int);
    let t = b0.tokens as int; let h = b0.shares as int; let r = to_tokens(b0, s);
    assert(r <= t) by (nonlinear_arith) requires r * h <= s * t, s <= h, t >= 0, h > 0;
}
pub proof fn lemma_withdraw_price(b0: PoolBalance, s: int, r: int)
    requires pwf(b0), s >= 0, r == to_tokens(b0, s), b0.shares > 0
    ensures (b0.tokens - r) * b0.shares >= b0.tokens * (b0.shares - s), r >= 0
{
    lemma_mul_div(s, b0.tokens as int, b0.shares as int);
    lemma_mul_nonneg(s, b0.tokens as int, b0.shares as int);
    let t = b0.tokens as int; let h = b0.shares as int;
    assert((t - r) * h >= t * (h - s)) by (nonlinear_arith) requires r * h <= s * t;
}
pub open spec fn lpval(w: World) -> Option<(i128, i128)> { mget::<(i128, i128)>(w.pers, k_lpval()) }
pub open spec fn lastdist(w: World) -> u64 { match mget::<u64>(w.pers, k_lastdist()) { Some(t) => t, None => 0 } }
pub open spec fn rz(w: World) -> Seq<Address> { match mget::<SVec<Address>>(w.pers, k_rz()) { Some(v) => v@, None => Seq::empty() } }
pub open spec fn rz_max(ts: u64) -> int { if ts < 1713139200 { 10 } else { 10 + (ts - 1713139200) / 8388608 } }
/// blnd^4 * usdc (whole tokens, saturating at the i128 range) is at least 200,000^5
pub open spec fn above(d: PoolBackstopData) -> bool {
    let b = tdiv(d.blnd as int, 1_0000000); let u = tdiv(d.usdc as int, 1_0000000);
    let m = i128::MAX as int; let l = i128::MIN as int;
    clamp(clamp(clamp(clamp(b * b, l, m) * b, l, m) * b, l, m) * u, l, m) >= 320_000_000_000_000_000_000_000_000
}
pub open spec fn pdata(w: World, p: Address) -> PoolBackstopData {
    let b = pbal(w, p);
    PoolBackstopData {
        tokens: b.tokens,
        q4w_pct: (if b.shares > 0 { mul_ceil(b.q4w as int, 1_0000000, b.shares as int) } else { 0 }) as i128,
        blnd: mul_floor(b.tokens as int, (lpval(w)->0).0 as int, 1_0000000) as i128,
        usdc: mul_floor(b.tokens as int, (lpval(w)->0).1 as int, 1_0000000) as i128,
    }
}
// ---- gulping emissions
pub open spec fn left_to_emit(w: World, p: Address, new: int) -> int {
    match bec(w, p) { Some(c) => new + (if c.expiration > w.ts { c.eps * (c.expiration - w.ts) } else { 0 }), None => new }
}
/// the pool's emission rate was reset: `new` tokens plus what was not yet paid, over seven days; the index was brought up to now first
pub open spec fn eps_set(w0: World, w1: World, p: Address, b: PoolBalance, new: int) -> bool {
    &&& w0.ts + 604800 <= u64::MAX && 0 <= tdiv(left_to_emit(w0, p, new), 604800) <= u64::MAX
    &&& bec(w1, p) == Some(BackstopEmissionConfig { expiration: (w0.ts + 604800) as u64, eps: tdiv(left_to_emit(w0, p, new), 604800) as u64 })
    &&& bed(w1, p) == Some(BackstopEmissionsData { index: if bec(w0, p) is Some { upd_bed(w0, p, b).index } else { 0 }, last_time: w0.ts })
}
pub open spec fn sum_nq(w: World, z: Seq<Address>) -> int decreases z.len() { if z.len() == 0 { 0 } else { sum_nq(w, z.drop_last()) + nq_tokens(pbal(w, z.last())) } }
pub open spec fn rz_share(w: World, z: Seq<Address>, i: int) -> int { mul_floor(nq_tokens(pbal(w, z[i])), 1_0000000, sum_nq(w, z)) }
pub open spec fn zone_ok(w: World) -> bool { no_dup(rz(w)) && forall|i: int| 0 <= i < rz(w).len() ==> pwf(pbal(w, #[trigger] rz(w)[i])) }
pub open spec fn gulped(w0: World, w1: World, z: Seq<Address>, i: int, tpe: int, tbe: int) -> bool {
    let s = rz_share(w0, z, i);
    pemis(w1, z[i]) == pemis(w0, z[i]) + mul_floor(s, tpe, 1_0000000) && eps_set(w0, w1, z[i], pbal(w0, z[i]), mul_floor(s, tbe, 1_0000000))
}
pub open spec fn zone_key(z: Seq<Address>, k: SKey) -> bool {
    match k { SKey::K_BackstopDataKey(d) => match d { BackstopDataKey::PoolEmis(p) => z.contains(p), BackstopDataKey::BEmisCfg(p) => z.contains(p), BackstopDataKey::BEmisData(p) => z.contains(p), _ => false }, _ => k == k_lastdist() }
}
/// sum of floor(share_j * t / 10^7) over the first n pools of the zone
pub open spec fn handed(w: World, z: Seq<Address>, n: int, t: int) -> int decreases n { if n <= 0 { 0 } else { handed(w, z, n - 1, t) + mul_floor(rz_share(w, z, n - 1), t, 1_0000000) } }
pub proof fn lemma_nq(b: PoolBalance) requires pwf(b) ensures nq_tokens(b) >= 0
{
    if b.shares > 0 {
        lemma_mul_div(b.q4w as int, b.tokens as int, b.shares as int);
        let r = mul_floor(b.q4w as int, b.tokens as int, b.shares as int);
        let (q, t, s) = (b.q4w as int, b.tokens as int, b.shares as int);
        assert(q * t <= s * t) by (nonlinear_arith) requires q <= s, t >= 0;
        assert(r <= t) by (nonlinear_arith) requires r * s <= s * t, s > 0;
    } else { assert(b.q4w == 0); }
}
pub open spec fn sum_share(w: World, z: Seq<Address>, n: int) -> int decreases n { if n <= 0 { 0 } else { sum_share(w, z, n - 1) + rz_share(w, z, n - 1) } }
pub proof fn lemma_sum_share(w: World, z: Seq<Address>, n: int)
    requires 0 <= n <= z.len(), sum_nq(w, z) > 0, forall|i: int| 0 <= i < z.len() ==> pwf(pbal(w, #[trigger] z[i]))
    ensures sum_share(w, z, n) * sum_nq(w, z) <= sum_nq(w, z.take(n)) * 1_0000000, sum_share(w, z, n) >= 0
    decreases n
{
    if n > 0 {
        lemma_sum_share(w, z, n - 1);
        let t = sum_nq(w, z);
        let x = nq_tokens(pbal(w, z[n - 1]));
        lemma_nq(pbal(w, z[n - 1]));
        lemma_mul_div(x, 1_0000000, t);
        lemma_mul_nonneg(x, 1_0000000, t);
        assert(z.take(n).drop_last() =~= z.take(n - 1));
        assert(z.take(n).last() == z[n - 1]);
        let (a, b) = (sum_share(w, z, n - 1), rz_share(w, z, n - 1));
        assert((a + b) * t == a * t + b * t) by (nonlinear_arith);
    } else {
        assert(z.take(0) =~= Seq::<Address>::empty());
        assert(0 * sum_nq(w, z) == 0) by (nonlinear_arith);
    }
}
pub proof fn lemma_handed(w: World, z: Seq<Address>, n: int, t: int)
    requires 0 <= n <= z.len(), t >= 0, sum_nq(w, z) > 0, forall|i: int| 0 <= i < z.len() ==> pwf(pbal(w, #[trigger] z[i]))
    ensures handed(w, z, n, t) * 1_0000000 <= sum_share(w, z, n) * t
    decreases n
{
    if n > 0 {
        lemma_handed(w, z, n - 1, t);
        let s = rz_share(w, z, n - 1);
        lemma_mul_div(s, t, 1_0000000);
        let a = sum_share(w, z, n - 1);
        assert((a + s) * t == a * t + s * t) by (nonlinear_arith);
    } else { assert(0 * t == 0) by (nonlinear_arith); }
}
pub proof fn lemma_handed_bound(w: World, z: Seq<Address>, t: int)
    requires t >= 0, sum_nq(w, z) > 0, forall|i: int| 0 <= i < z.len() ==> pwf(pbal(w, #[trigger] z[i]))
    ensures handed(w, z, z.len() as int, t) <= t
{
    let n = z.len() as int;
    lemma_handed(w, z, n, t); lemma_sum_share(w, z, n);
    assert(z.take(n) =~= z);
    let (h, s, q) = (handed(w, z, n, t), sum_share(w, z, n), sum_nq(w, z));
    assert(s <= 1_0000000) by (nonlinear_arith) requires s * q <= q * 1_0000000, q > 0;
    assert(s * t <= 1_0000000 * t) by (nonlinear_arith) requires s <= 1_0000000, t >= 0;
}
pub proof fn lemma_sum_nq(w: World, z: Seq<Address>)
    requires forall|i: int| 0 <= i < z.len() ==> pwf(pbal(w, #[trigger] z[i]))
    ensures sum_nq(w, z) >= 0
    decreases z.len()
{
    if z.len() > 0 {
        assert forall|i: int| 0 <= i < z.drop_last().len() implies pwf(pbal(w, #[trigger] z.drop_last()[i])) by { assert(z.drop_last()[i] == z[i]); }
        lemma_sum_nq(w, z.drop_last());
        lemma_nq(pbal(w, z.last()));
    }
}
// ---- claiming
pub open spec fn claim_acc(w: World, p: Address, u: Address) -> int {
    if bec(w, p) is None { 0 } else { accrued_at(w, p, u, upd_bed(w, p, pbal(w, p)).index as int, ushares(w, p, u) as int) }
}
pub open spec fn claim_map(w: World, z: Seq<Address>, u: Address) -> Map<Address, i128> { Map::new(z.to_set(), |p: Address| claim_acc(w, p, u) as i128) }
/// sum over the listed pools, each counted once
pub open spec fn claim_total(w: World, z: Seq<Address>, u: Address) -> int { msum(claim_map(w, z, u)) }
pub open spec fn claim_handed(w: World, z: Seq<Address>, u: Address, lp: int, r: int) -> int { msum_f(claim_map(w, z, u), lp, r) }
pub open spec fn claim_key(z: Seq<Address>, u: Address, k: SKey) -> bool {
    match k { SKey::K_BackstopDataKey(d) => match d { BackstopDataKey::BEmisData(p) => z.contains(p), BackstopDataKey::UEmisData(q) => z.contains(q.pool) && q.user == u, _ => false }, _ => false }
}
pub open spec fn claim_key2(z: Seq<Address>, u: Address, k: SKey) -> bool {
    match k { SKey::K_BackstopDataKey(d) => match d { BackstopDataKey::BEmisData(p) => z.contains(p), BackstopDataKey::UEmisData(q) => z.contains(q.pool) && q.user == u, BackstopDataKey::PoolBalance(p) => z.contains(p), BackstopDataKey::UserBalance(q) => z.contains(q.pool) && q.user == u, _ => false }, _ => false }
}
/// `dep` LP tokens went to pool p and the shares they buy went to u
pub open spec fn claim_credit(w0: World, w1: World, p: Address, u: Address, dep: int) -> bool {
    let b0 = pbal(w0, p); let b1 = pbal(w1, p);
    &&& b1.tokens == b0.tokens + dep && b1.q4w == b0.q4w
    &&& b1.shares - b0.shares == ushares(w1, p, u) - ushares(w0, p, u) && uq(w1, p, u) == uq(w0, p, u)
    &&& pwf(b0) && dep >= 0 ==> b1.shares == b0.shares + to_shares(b0, dep)
}
pub open spec fn msum(m: Map<Address, i128>) -> int decreases m.dom().len() via msum_dec {
    if m.dom().finite() && m.dom().len() > 0 { let k = m.dom().choose(); m[k] + msum(m.remove(k)) } else { 0 }
}
#[via_fn] proof fn msum_dec(m: Map<Address, i128>) { if m.dom().len() > 0 && m.dom().finite() { assert(m.dom().contains(m.dom().choose())); } }
pub proof fn lemma_msum_remove(m: Map<Address, i128>, k: Address)
    requires m.dom().finite(), m.contains_key(k)
    ensures msum(m) == m[k] + msum(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
    assert(m.dom().contains(c));
    if c != k {
        lemma_msum_remove(m.remove(c), k);
        lemma_msum_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn lemma_msum_insert(m: Map<Address, i128>, k: Address, v: i128)
    requires m.dom().finite(), !m.contains_key(k)
    ensures msum(m.insert(k, v)) == msum(m) + v
{
    lemma_msum_remove(m.insert(k, v), k);
    assert(m.insert(k, v).remove(k) =~= m);
}
/// sum of floor(lp * c / r) over the map
pub open spec fn msum_f(m: Map<Address, i128>, lp: int, r: int) -> int { msum_i(Map::new(m.dom(), |k: Address| mul_floor(lp, m[k] as int, r))) }
pub open spec fn msum_i(m: Map<Address, int>) -> int decreases m.dom().len() via msum_i_dec {
    if m.dom().finite() && m.dom().len() > 0 { let k = m.dom().choose(); m[k] + msum_i(m.remove(k)) } else { 0 }
}
#[via_fn] proof fn msum_i_dec(m: Map<Address, int>) { if m.dom().len() > 0 && m.dom().finite() { assert(m.dom().contains(m.dom().choose())); } }
pub proof fn lemma_msum_f(m: Map<Address, i128>, lp: int, r: int)
    requires m.dom().finite(), r > 0
    ensures msum_f(m, lp, r) * r <= lp * msum(m)
    decreases m.dom().len()
{
    let f = Map::new(m.dom(), |k: Address| mul_floor(lp, m[k] as int, r));
    assert(f.dom() =~= m.dom());
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        let m2 = m.remove(k);
        lemma_msum_f(m2, lp, r);
        assert(f.remove(k) =~= Map::new(m2.dom(), |k: Address| mul_floor(lp, m2[k] as int, r)));
        lemma_mul_div(lp, m[k] as int, r);
        let (a, b, c, d) = (mul_floor(lp, m[k] as int, r), msum_f(m2, lp, r), m[k] as int, msum(m2));
        assert((a + b) * r == a * r + b * r) by (nonlinear_arith);
        assert(lp * (c + d) == lp * c + lp * d) by (nonlinear_arith);
    } else { assert(0 * r == 0 && lp * 0 == 0) by (nonlinear_arith); }
}
pub proof fn lemma_take_to_set(z: Seq<Address>, i: int)
    requires 0 <= i < z.len()
    ensures z.take(i + 1).to_set() =~= z.take(i).to_set().insert(z[i]), z.take(i).to_set().finite()
    decreases i
{
    assert(z.take(i + 1) =~= z.take(i).push(z[i]));
    assert forall|p: Address| #[trigger] z.take(i + 1).to_set().contains(p) <==> z.take(i).to_set().insert(z[i]).contains(p) by {
        if z.take(i).contains(p) { let j = choose|j: int| 0 <= j < i && (#[trigger] z.take(i)[j]) == p; assert(z.take(i + 1)[j] == p); }
        if p == z[i] { assert(z.take(i + 1)[i] == p); }
        if z.take(i + 1).contains(p) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] z.take(i + 1)[j]) == p; if j < i { assert(z.take(i)[j] == p); } }
    }
    if i > 0 { lemma_take_to_set(z, i - 1); } else { assert(z.take(0) =~= Seq::<Address>::empty()); assert(z.take(0).to_set() =~= Set::<Address>::empty()); }
}
/// pool p has been claimed by `from` but nothing has been credited to `to` yet
pub open spec fn claim_same(w0: World, w: World, p: Address, from: Address, to: Address) -> bool {
    &&& pbal(w, p) == pbal(w0, p) && ushares(w, p, to) == ushares(w0, p, to) && uq(w, p, to) == uq(w0, p, to)
    &&& settled(w0, w, p, from, pbal(w0, p), ushares(w0, p, from) as int, true)
    &&& to == from || ued(w, p, to) == ued(w0, p, to)
}
pub proof fn lemma_seq_finite(z: Seq<Address>) ensures z.to_set().finite()
{
    assert(z.take(z.len() as int) =~= z);
    if z.len() > 0 { lemma_take_to_set(z, z.len() - 1); } else { assert(z.to_set() =~= Set::<Address>::empty()); }
}
