fn backstop::pool::PoolBalance::convert_to_shares(tokens) -> r
ensures
- [C05 C06 C07] self.tokens >= 0 && self.shares >= 0 ==> r as int == to_shares(*self, tokens as int)
- [C05 C06 C07] self.shares != 0 ==> self.tokens != 0
- [C05 C07] self.tokens >= 0 && self.shares >= 0 && tokens >= 0 ==> r >= 0
end
if self.shares > 0 && self.tokens > 0 && tokens >= 0 { lemma_mul_nonneg(tokens as int, self.shares as int, self.tokens as int); }

fn backstop::pool::PoolBalance::convert_to_tokens(shares) -> r
ensures
- [C05 C06 C10] self.shares >= 0 ==> r as int == to_tokens(*self, shares as int)
- [C05 C06] self.tokens >= 0 && self.shares >= 0 && shares >= 0 ==> r >= 0
end
if self.shares > 0 && self.tokens >= 0 && shares >= 0 { lemma_mul_nonneg(shares as int, self.tokens as int, self.shares as int); }

fn backstop::user::UserBalance::dequeue_shares_for_withdrawal(e, to_dequeue, require_expired)
panics [C08] *: to_dequeue >= 0 ==> to_dequeue > sum_q(old(self).q4w@) || (require_expired && !deq_mature(old(self).q4w@, to_dequeue as int, w0.ts))
attr #[verifier::loop_isolation(true)]
ensures
- [C07 C08] w1 == w0 && final(self).shares == old(self).shares
- [C07 C08] final(self).q4w@ == deq(old(self).q4w@, to_dequeue as int)
- [C07 C08] to_dequeue >= 0 ==> sum_q(final(self).q4w@) == sum_q(old(self).q4w@) - to_dequeue
- [C08] require_expired ==> deq_mature(old(self).q4w@, to_dequeue as int, w0.ts)
- [C08] final(self).q4w@.len() <= old(self).q4w@.len()
loop 0 invariant_except_break
- it_i0 <= it_hi0 && it_hi0 == old(self).q4w@.len() && w == w0 && self.shares == old(self).shares
- g0__require_expired == require_expired && g0__to_dequeue == to_dequeue && w0 == old(e)@
- self.q4w@.len() + it_i0 == it_hi0
- to_dequeue >= 0 ==> left_to_dequeue >= 0
- deq(old(self).q4w@, to_dequeue as int) == deq(self.q4w@, left_to_dequeue as int)
- to_dequeue >= 0 ==> sum_q(self.q4w@) - left_to_dequeue == sum_q(old(self).q4w@) - to_dequeue
- require_expired ==> (deq_mature(self.q4w@, left_to_dequeue as int, w0.ts) <==> deq_mature(old(self).q4w@, to_dequeue as int, w0.ts))
loop 0 ensures
- w == w0 && self.shares == old(self).shares && self.q4w@.len() <= old(self).q4w@.len()
- left_to_dequeue == 0 || self.q4w@.len() == 0
- self.q4w@ == deq(old(self).q4w@, to_dequeue as int)
- to_dequeue >= 0 ==> left_to_dequeue >= 0 && sum_q(self.q4w@) - left_to_dequeue == sum_q(old(self).q4w@) - to_dequeue
- require_expired ==> deq_mature(old(self).q4w@, to_dequeue as int, w0.ts)
loopstart 0
ghost qb = self.q4w@;
after push_front 0
assert(self.q4w@.subrange(1, self.q4w@.len() as int) =~= qb.subrange(1, qb.len() as int));
assert(self.q4w@ =~= qb.update(0, self.q4w@[0]));

fn emissions::distributor::update_emission_data_with_config(e, pool_id, pool_balance, emis_config) -> r
panics [C11] NegativeAmountError: pool_balance.shares < pool_balance.q4w
ensures
- [C10 C11] bed(w0, *pool_id) is Some
- [C10 C11] bec(w0, *pool_id) == Some(*emis_config) ==> r == upd_bed(w0, *pool_id, *pool_balance)
- [C10 C11] bed(w1, *pool_id) == Some(r)
- [C11] r.index >= (bed(w0, *pool_id)->0).index
- [C05 C06 C07 C10 C11] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_bedat(*pool_id))
nonzero C11

fn emissions::distributor::update_emissions(e, pool_id, pool_balance, user_id, user_balance)
panics [C11] NegativeAmountError: pool_balance.shares < pool_balance.q4w || upd_bed(w0, *pool_id, *pool_balance).index < (if ued(w0, *pool_id, *user_id) is Some { (ued(w0, *pool_id, *user_id)->0).index as int } else { 0 })
ensures
- [C11] settled(w0, w1, *pool_id, *user_id, *pool_balance, user_balance.shares as int, false)
- [C05 C06 C07 C10 C11] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_bedat(*pool_id) || k == k_uedat(*pool_id, *user_id))

fn emissions::distributor::claim_emissions(e, pool_id, pool_balance, user_id, user_balance) -> r
panics [C11] NegativeAmountError: pool_balance.shares < pool_balance.q4w || upd_bed(w0, *pool_id, *pool_balance).index < (if ued(w0, *pool_id, *user_id) is Some { (ued(w0, *pool_id, *user_id)->0).index as int } else { 0 })
ensures
- [C11] settled(w0, w1, *pool_id, *user_id, *pool_balance, user_balance.shares as int, true)
- [C11] r == (if bec(w0, *pool_id) is None { 0 } else { accrued_at(w0, *pool_id, *user_id, upd_bed(w0, *pool_id, *pool_balance).index as int, user_balance.shares as int) })
- [C05 C06 C07 C10 C11] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_bedat(*pool_id) || k == k_uedat(*pool_id, *user_id))
start
lemma_mul_zero();

fn backstop::pool::load_pool_backstop_data(e, address) -> r
ensures
- [C12 C13] lpval(w0) is Some && r == pdata(w0, *address)
- [C12 C13] w1 == w0

fn backstop::pool::require_pool_above_threshold(pool_backstop_data) -> r
ensures
- [C12 C13] r == above(*pool_backstop_data)

fn contract::BackstopContract::deposit(e, from, pool_address, amount) -> r
panics [C05 C09] *: pwf(pbal(w0, pool_address)) ==> amount < 0 || from == pool_address || from == w0.this || (pbal(w0, pool_address).shares == 0 && !(b_factory(w0) is Some && factory_is_pool(w0.calls, b_factory(w0)->0, pool_address))) || to_shares(pbal(w0, pool_address), amount as int) == 0
ensures
- [C09] w1.auths == w0.auths.insert(from) && from != pool_address && from != w0.this
- [C09] pbal(w0, pool_address).shares == 0 ==> b_factory(w0) is Some && factory_is_pool(w0.calls, b_factory(w0)->0, pool_address)
- [C05] amount >= 0 && r != 0
- [C05] pwf(pbal(w0, pool_address)) ==> r > 0 && r as int == to_shares(pbal(w0, pool_address), amount as int) && pwf(pbal(w1, pool_address)) && price_kept(pbal(w0, pool_address), pbal(w1, pool_address))
- [C06] b_token(w0) is Some && w1.calls == w0.calls.push(Call::Transfer { token: b_token(w0)->0, from, to: w0.this, amount })
- [C06] pbal(w1, pool_address).tokens == pbal(w0, pool_address).tokens + amount
- [C07] pbal(w1, pool_address).shares == pbal(w0, pool_address).shares + r && pbal(w1, pool_address).q4w == pbal(w0, pool_address).q4w
- [C07] ushares(w1, pool_address, from) == ushares(w0, pool_address, from) + r && uq(w1, pool_address, from) == uq(w0, pool_address, from) && shares_move(w0, w1, pool_address, from)
- [C11] settled(w0, w1, pool_address, from, pbal(w0, pool_address), ushares(w0, pool_address, from) as int, false)
- [C06 C07 C11] only(w0.pers, w1.pers, k4(pool_address, from)) && w1.temp == w0.temp
- [C30] w1.inst == w0.inst
end
if pwf(pbal(w0, pool_address)) && pbal(w0, pool_address).shares > 0 { lemma_deposit_price(pbal(w0, pool_address), amount as int, ret__ as int); }

fn contract::BackstopContract::queue_withdrawal(e, from, pool_address, amount) -> r
panics [C08] *: amount < 0 || amount > ushares(w0, pool_address, from) || uq(w0, pool_address, from).len() >= 21
ensures
- [C09] w1.auths == w0.auths.insert(from)
- [C08] amount >= 0 && amount <= ushares(w0, pool_address, from) && uq(w0, pool_address, from).len() < 21
- [C08] w0.ts + 21 * 24 * 60 * 60 <= u64::MAX && r == (Q4W { amount, exp: (w0.ts + 21 * 24 * 60 * 60) as u64 })
- [C08] uq(w1, pool_address, from) == uq(w0, pool_address, from).push(r)
- [C07 C08] ushares(w1, pool_address, from) == ushares(w0, pool_address, from) - amount
- [C05 C06 C07] pbal(w1, pool_address).shares == pbal(w0, pool_address).shares && pbal(w1, pool_address).tokens == pbal(w0, pool_address).tokens
- [C07] pbal(w1, pool_address).q4w == pbal(w0, pool_address).q4w + amount && shares_move(w0, w1, pool_address, from)
- [C11] settled(w0, w1, pool_address, from, pbal(w0, pool_address), ushares(w0, pool_address, from) as int, false)
- [C06 C07 C11] only(w0.pers, w1.pers, k4(pool_address, from)) && w1.temp == w0.temp
- [C06] w1.calls == w0.calls
- [C30] w1.inst == w0.inst
end
lemma_sum_q_push(uq(w0, pool_address, from), ret__);

fn contract::BackstopContract::dequeue_withdrawal(e, from, pool_address, amount)
panics [C08] *: amount < 0 || amount > pbal(w0, pool_address).q4w || amount > sum_q(uq(w0, pool_address, from))
ensures
- [C09] w1.auths == w0.auths.insert(from)
- [C08] amount >= 0 && uq(w1, pool_address, from) == deq(uq(w0, pool_address, from), amount as int)
- [C07 C08] ushares(w1, pool_address, from) == ushares(w0, pool_address, from) + amount
- [C05 C06 C07] pbal(w1, pool_address).shares == pbal(w0, pool_address).shares && pbal(w1, pool_address).tokens == pbal(w0, pool_address).tokens
- [C07] pbal(w1, pool_address).q4w == pbal(w0, pool_address).q4w - amount && pbal(w1, pool_address).q4w >= 0 && shares_move(w0, w1, pool_address, from)
- [C05] pwf(pbal(w0, pool_address)) ==> pwf(pbal(w1, pool_address))
- [C11] settled(w0, w1, pool_address, from, pbal(w0, pool_address), ushares(w0, pool_address, from) as int, false)
- [C06 C07 C11] only(w0.pers, w1.pers, k4(pool_address, from)) && w1.temp == w0.temp
- [C06] w1.calls == w0.calls
- [C30] w1.inst == w0.inst

fn contract::BackstopContract::withdraw(e, from, pool_address, amount) -> r
panics [C05 C08] *: pwf(pbal(w0, pool_address)) ==> amount < 0 || amount > pbal(w0, pool_address).q4w || !deq_mature(uq(w0, pool_address, from), amount as int, w0.ts) || amount > sum_q(uq(w0, pool_address, from)) || to_tokens(pbal(w0, pool_address), amount as int) == 0
ensures
- [C09] w1.auths == w0.auths.insert(from)
- [C08] amount >= 0 && uq(w1, pool_address, from) == deq(uq(w0, pool_address, from), amount as int)
- [C08] deq_mature(uq(w0, pool_address, from), amount as int, w0.ts)
- [C07 C08] ushares(w1, pool_address, from) == ushares(w0, pool_address, from)
- [C05] r != 0 && (pwf(pbal(w0, pool_address)) ==> r > 0 && r as int == to_tokens(pbal(w0, pool_address), amount as int) && pwf(pbal(w1, pool_address)) && price_kept(pbal(w0, pool_address), pbal(w1, pool_address)))
- [C06] r <= pbal(w0, pool_address).tokens && pbal(w1, pool_address).tokens == pbal(w0, pool_address).tokens - r
- [C06 C09] b_token(w0) is Some && w1.calls == w0.calls.push(Call::Transfer { token: b_token(w0)->0, from: w0.this, to: from, amount: r })
- [C07] amount <= pbal(w0, pool_address).q4w && pbal(w1, pool_address).shares == pbal(w0, pool_address).shares - amount && pbal(w1, pool_address).q4w == pbal(w0, pool_address).q4w - amount && shares_move(w0, w1, pool_address, from)
- [C06 C07 C11] only(w0.pers, w1.pers, |k: SKey| k == k_pbal(pool_address) || k == k_ubal(pool_address, from)) && w1.temp == w0.temp
- [C30] w1.inst == w0.inst
start
if pwf(pbal(w0, pool_address)) && pbal(w0, pool_address).shares > 0 && 0 <= amount <= pbal(w0, pool_address).q4w { lemma_to_tokens_le(pbal(w0, pool_address), amount as int); }
end
if pwf(pbal(w0, pool_address)) && pbal(w0, pool_address).shares > 0 { lemma_withdraw_price(pbal(w0, pool_address), amount as int, ret__ as int); }

fn contract::BackstopContract::user_balance(e, pool, user) -> r
ensures
- [C07] r.shares == ushares(w0, pool, user) && r.q4w@ == uq(w0, pool, user)
- [C07 C06 C30] w1 == w0

fn contract::BackstopContract::pool_data(e, pool) -> r
panics [C13] *: false
ensures
- [C13] lpval(w0) is Some && r == pdata(w0, pool)
- [C13 C30] w1 == w0

fn contract::BackstopContract::backstop_token(e) -> r
ensures
- [C06 C30] b_token(w0) == Some(r) && w1 == w0

fn contract::BackstopContract::draw(e, pool_address, amount, to)
panics [C06 C09] *: pwf(pbal(w0, pool_address)) ==> amount < 0 || amount > pbal(w0, pool_address).tokens || (pbal(w0, pool_address).shares == 0 && !(b_factory(w0) is Some && factory_is_pool(w0.calls, b_factory(w0)->0, pool_address)))
ensures
- [C09] w1.auths == w0.auths.insert(pool_address)
- [C06 C09] amount >= 0 && amount <= pbal(w0, pool_address).tokens
- [C06 C09] pbal(w1, pool_address) == (PoolBalance { tokens: (pbal(w0, pool_address).tokens - amount) as i128, ..pbal(w0, pool_address) })
- [C06 C09] b_token(w0) is Some && w1.calls == w0.calls.push(Call::Transfer { token: b_token(w0)->0, from: w0.this, to, amount })
- [C06 C07 C11] only(w0.pers, w1.pers, |k: SKey| k == k_pbal(pool_address)) && w1.temp == w0.temp
- [C30] w1.inst == w0.inst

fn contract::BackstopContract::donate(e, from, pool_address, amount)
panics [C06 C09] *: amount < 0 || from == pool_address || from == w0.this || (pbal(w0, pool_address).shares == 0 && !(b_factory(w0) is Some && factory_is_pool(w0.calls, b_factory(w0)->0, pool_address)))
ensures
- [C09] w1.auths.contains(from) && w1.auths.contains(pool_address) && from != pool_address && from != w0.this
- [C09] pbal(w0, pool_address).shares == 0 ==> b_factory(w0) is Some && factory_is_pool(w0.calls, b_factory(w0)->0, pool_address)
- [C06] amount >= 0 && pbal(w1, pool_address) == (PoolBalance { tokens: (pbal(w0, pool_address).tokens + amount) as i128, ..pbal(w0, pool_address) })
- [C06 C09] b_token(w0) is Some && w1.calls == w0.calls.push(Call::Transfer { token: b_token(w0)->0, from, to: w0.this, amount })
- [C06 C07 C11] only(w0.pers, w1.pers, |k: SKey| k == k_pbal(pool_address)) && w1.temp == w0.temp
- [C30] w1.inst == w0.inst

fn contract::BackstopContract::update_tkn_val(e) -> r
panics [C13] *: tok_supply(w0.calls, b_token(w0)->0) == 0
ensures
- [C13] b_token(w0) is Some && b_blnd(w0) is Some && b_usdc(w0) is Some
- [C13] tok_supply(w0.calls, b_token(w0)->0) > 0 ==> r.0 as int == mul_floor(tok_balance(w0.calls, b_blnd(w0)->0, b_token(w0)->0) as int, 1_0000000, tok_supply(w0.calls, b_token(w0)->0) as int)
- [C13] tok_supply(w0.calls, b_token(w0)->0) > 0 ==> r.1 as int == mul_floor(tok_balance(w0.calls, b_usdc(w0)->0, b_token(w0)->0) as int, 1_0000000, tok_supply(w0.calls, b_token(w0)->0) as int)
- [C13] tok_supply(w0.calls, b_token(w0)->0) != 0 && lpval(w1) == Some(r)
- [C06 C07 C11 C13 C30] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_lpval())

fn contract::BackstopContract::initialize(e, backstop_token, emitter, usdc_token, blnd_token, pool_factory, drop_list)
panics [C30] *: b_init(w0)
ensures
- [C30] !b_init(w0) && b_init(w1)
- [C30] b_token(w1) == Some(backstop_token) && b_emitter(w1) == Some(emitter) && b_usdc(w1) == Some(usdc_token) && b_blnd(w1) == Some(blnd_token) && b_factory(w1) == Some(pool_factory)
- [C03 C30] b_drop(w1) is Some && (b_drop(w1)->0)@ == drop_list@
- [C10] lastdist(w1) == emitter_last(w0.calls, emitter, w0.this)
- [C06 C07 C11 C30] only(w0.pers, w1.pers, |k: SKey| k == k_lastdist()) && w1.calls == w0.calls

fn contract::BackstopContract::drop(e)
panics [C03] *: false
ensures
- [C03 C30] b_emitter(w0) is Some && b_drop(w0) is Some && w1 == (World { calls: w0.calls.push(Call::EmitterDrop { emitter: b_emitter(w0)->0, list: (b_drop(w0)->0)@ }), ..w0 })

fn contract::BackstopContract::gulp_pool_emissions(e, pool_address) -> r
panics [C14] *: pemis(w0, pool_address) == 0
ensures
- [C14] w1.auths == w0.auths.insert(pool_address)
- [C14] r == pemis(w0, pool_address) && r != 0 && pemis(w1, pool_address) == 0
- [C14] b_blnd(w0) is Some && w0.seq + 120 * 17280 <= u32::MAX
- [C14] w1.calls == w0.calls.push(Call::Approve { token: b_blnd(w0)->0, from: w0.this, spender: pool_address, amount: (tok_allowance(w0.calls, b_blnd(w0)->0, w0.this, pool_address) + r) as i128, exp: (w0.seq + 120 * 17280) as u32 })
- [C14] i128::MIN <= tok_allowance(w0.calls, b_blnd(w0)->0, w0.this, pool_address) + r <= i128::MAX
- [C06 C07 C11 C14] only(w0.pers, w1.pers, |k: SKey| k == k_pemis(pool_address)) && w1.temp == w0.temp
- [C30] w1.inst == w0.inst

fn contract::BackstopContract::add_reward(e, to_add, to_remove)
panics [C12] *: rz(w0).contains(to_add) || !above(pdata(w0, to_add)) || (rz(w0).len() >= rz_max(w0.ts) && (lastdist(w0) + 24 * 60 * 60 < w0.ts || !rz(w0).contains(to_remove) || pbal(w0, to_add).tokens <= pbal(w0, to_remove).tokens))
ensures
- [C12] !rz(w0).contains(to_add)
- [C12] lpval(w0) is Some && above(pdata(w0, to_add))
- [C12] rz(w0).len() < rz_max(w0.ts) ==> rz(w1) == seq![to_add] + rz(w0)
- [C12] rz(w0).len() >= rz_max(w0.ts) ==> lastdist(w0) + 24 * 60 * 60 >= w0.ts && pbal(w0, to_add).tokens > pbal(w0, to_remove).tokens
- [C12] rz(w0).len() >= rz_max(w0.ts) ==> (exists|i: int| 0 <= i < rz(w0).len() && rz(w0)[i] == to_remove && #[trigger] rz(w0).update(i, to_add) == rz(w1))
- [C12] no_dup(rz(w0)) ==> no_dup(rz(w1))
- [C12] rz(w1).len() <= imax(rz(w0).len() as int, rz_max(w0.ts))
- [C06 C07 C11 C30] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_rz())
start
lemma2_to64();

fn emissions::manager::set_backstop_emission_config(e, pool_id, pool_balance, new_tokens)
ensures
- [C10 C11] eps_set(w0, w1, *pool_id, *pool_balance, new_tokens as int)
- [C06 C07 C10 C11] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_bedat(*pool_id) || k == k_becfg(*pool_id))

fn contract::BackstopContract::gulp_emissions(e)
panics [C10] *: rz(w0).len() == 0 || (b_emitter(w0) is Some && emitter_last(w0.calls, b_emitter(w0)->0, w0.this) <= lastdist(w0) + 60 * 60)
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)] #[verifier::loop_isolation(true)]
acc 0 total_non_queued_tokens
acc 0 rz_balance
ensures
- [C10] b_emitter(w0) is Some && rz(w0).len() > 0
- [C10] lastdist(w1) == emitter_last(w0.calls, b_emitter(w0)->0, w0.this) && lastdist(w1) > lastdist(w0) + 60 * 60
- [C10] zone_ok(w0) ==> (forall|i: int| 0 <= i < rz(w0).len() ==> gulped(w0, w1, rz(w0), i, mul_floor((lastdist(w1) - lastdist(w0)) * 1_0000000, 3000000, 1_0000000), mul_floor((lastdist(w1) - lastdist(w0)) * 1_0000000, 7000000, 1_0000000)) && #[trigger] rz(w0)[i] == rz(w0)[i])
- [C10] zone_ok(w0) ==> handed(w0, rz(w0), rz(w0).len() as int, mul_floor((lastdist(w1) - lastdist(w0)) * 1_0000000, 3000000, 1_0000000)) + handed(w0, rz(w0), rz(w0).len() as int, mul_floor((lastdist(w1) - lastdist(w0)) * 1_0000000, 7000000, 1_0000000)) <= (lastdist(w1) - lastdist(w0)) * 1_0000000
- [C10 C14] only(w0.pers, w1.pers, |k: SKey| zone_key(rz(w0), k))
- [C06 C07 C10 C11 C30] w1 == (World { pers: w1.pers, ..w0 })
loop 0
- it_i0 <= it_hi0 && it_hi0 == rz(w0).len() && reward_zone@ == rz(w0) && it_s0@ == rz(w0)
- rz_balance@.len() == it_i0 && forall|j: int| 0 <= j < it_i0 ==> #[trigger] rz_balance@[j] == pbal(w0, rz(w0)[j])
- zone_ok(w0) ==> total_non_queued_tokens as int == sum_nq(w0, rz(w0).take(it_i0 as int))
- e@ == (World { pers: w0.pers.insert(k_lastdist(), enc(emitter_last_distribution)), ..w0 })
loopend 0
assert(rz(w0).take(it_i0 as int).drop_last() =~= rz(w0).take(it_i0 - 1));
assert(zone_ok(w0) ==> pwf(pbal(w0, rz(w0)[it_i0 - 1])));
looppre 1
assert(rz(w0).take(rz(w0).len() as int) =~= rz(w0));
loop 1
- it_i1 <= it_hi1 && it_hi1 == rz(w0).len() && reward_zone@ == rz(w0)
-| it_s1@ == rz(w0)
-| it_z1@.len() == it_hi1 && forall|j: int| 0 <= j < it_hi1 ==> #[trigger] it_z1@[j] == pbal(w0, rz(w0)[j])
- zone_ok(w0) ==> total_non_queued_tokens as int == sum_nq(w0, rz(w0))
- rz_balance@.len() == it_hi1 - it_i1 && forall|j: int| 0 <= j < it_hi1 - it_i1 ==> #[trigger] rz_balance@[j] == pbal(w0, rz(w0)[j + it_i1])
-| rz_balance@.len() == it_hi1 && forall|j: int| 0 <= j < it_hi1 ==> #[trigger] rz_balance@[j] == pbal(w0, rz(w0)[j])
- e@ == (World { pers: e@.pers, ..w0 }) && only(w0.pers, e@.pers, |k: SKey| zone_key(rz(w0), k)) && lastdist(e@) == emitter_last_distribution
- zone_ok(w0) && it_i1 > 0 ==> total_non_queued_tokens > 0
- zone_ok(w0) ==> forall|j: int| 0 <= j < it_i1 ==> gulped(w0, e@, rz(w0), j, total_pool_emissions as int, total_backstop_emissions as int) && #[trigger] rz(w0)[j] == rz(w0)[j]
- zone_ok(w0) ==> forall|j: int| it_i1 <= j < it_hi1 ==> pemis(e@, rz(w0)[j]) == pemis(w0, rz(w0)[j]) && bec(e@, rz(w0)[j]) == bec(w0, rz(w0)[j]) && bed(e@, rz(w0)[j]) == bed(w0, #[trigger] rz(w0)[j])
loopstart 1
ghost pre = e@;
assert(rz(w0).take(rz(w0).len() as int) =~= rz(w0));
if zone_ok(w0) { lemma_sum_nq(w0, rz(w0)); }
loopend 1
let i = it_i1 - 1;
assert(rz_pool == rz(w0)[i]);
if zone_ok(w0) {
    assert(bec(pre, rz(w0)[i]) == bec(w0, rz(w0)[i]) && bed(pre, rz(w0)[i]) == bed(w0, rz(w0)[i]));
    assert(upd_bed(pre, rz_pool, cur_pool_balance) == upd_bed(w0, rz_pool, cur_pool_balance));
    assert(gulped(w0, e@, rz(w0), i, total_pool_emissions as int, total_backstop_emissions as int));
    assert forall|j: int| 0 <= j < it_i1 implies gulped(w0, e@, rz(w0), j, total_pool_emissions as int, total_backstop_emissions as int) && #[trigger] rz(w0)[j] == rz(w0)[j] by {
        if j < i { assert(rz(w0)[j] != rz(w0)[i]); assert(pemis(e@, rz(w0)[j]) == pemis(pre, rz(w0)[j])); assert(bec(e@, rz(w0)[j]) == bec(pre, rz(w0)[j])); assert(bed(e@, rz(w0)[j]) == bed(pre, rz(w0)[j])); }
    }
}
end
let n = (lastdist(w1) - lastdist(w0)) * 1_0000000;
let (a, b) = (mul_floor(n, 3000000, 1_0000000), mul_floor(n, 7000000, 1_0000000));
lemma_mul_div(n, 3000000, 1_0000000); lemma_mul_div(n, 7000000, 1_0000000);
lemma_mul_nonneg(n, 3000000, 1_0000000); lemma_mul_nonneg(n, 7000000, 1_0000000);
assert(rz(w0).take(rz(w0).len() as int) =~= rz(w0));
if zone_ok(w0) { lemma_handed_bound(w0, rz(w0), a); lemma_handed_bound(w0, rz(w0), b); }

fn contract::BackstopContract::claim(e, from, pool_addresses, to) -> r
panics [C11] BadRequest: pool_addresses@.len() == 0
attr #[verifier::loop_isolation(true)] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
ensures
- [C09] w1.auths == w0.auths.insert(from) && pool_addresses@.len() > 0
- [C11] r as int == claim_total(w0, pool_addresses@, from)
- [C11] forall|i: int| 0 <= i < pool_addresses@.len() ==> settled(w0, w1, #[trigger] pool_addresses@[i], from, pbal(w0, pool_addresses@[i]), ushares(w0, pool_addresses@[i], from) as int, true)
- [C11] r > 0 ==> forall|i: int| 0 <= i < pool_addresses@.len() ==> to == from || settled(w0, w1, #[trigger] pool_addresses@[i], to, pbal(w0, pool_addresses@[i]), ushares(w0, pool_addresses@[i], to) as int, false)
- [C06 C07 C11] r > 0 ==> b_token(w0) is Some && b_blnd(w0) is Some && forall|i: int| 0 <= i < pool_addresses@.len() ==> claim_credit(w0, w1, #[trigger] pool_addresses@[i], to, mul_floor(comet_out(w0.calls, b_token(w0)->0, b_blnd(w0)->0, r) as int, claim_acc(w0, pool_addresses@[i], from), r as int))
- [C06] r > 0 && (forall|i: int| 0 <= i < pool_addresses@.len() ==> claim_acc(w0, #[trigger] pool_addresses@[i], from) >= 0) ==> claim_handed(w0, pool_addresses@, from, comet_out(w0.calls, b_token(w0)->0, b_blnd(w0)->0, r) as int, r as int) <= comet_out(w0.calls, b_token(w0)->0, b_blnd(w0)->0, r)
- [C06] r > 0 ==> w1.calls == w0.calls.push(Call::CometDeposit { comet: b_token(w0)->0, token: b_blnd(w0)->0, amount: r, min_out: 0, user: w0.this })
- [C06 C07] r <= 0 ==> w1.calls == w0.calls && only(w0.pers, w1.pers, |k: SKey| claim_key(pool_addresses@, from, k))
- [C06 C07 C11] only(w0.pers, w1.pers, |k: SKey| claim_key(pool_addresses@, from, k) || claim_key2(pool_addresses@, to, k)) && w1.temp == w0.temp
- [C30] w1.inst == w0.inst
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == pool_addresses@
- e@ == (World { pers: e@.pers, auths: w0.auths.insert(*from), ..w0 })
- only(w0.pers, e@.pers, |k: SKey| claim_key(pool_addresses@, *from, k))
- claims@ == claim_map(w0, pool_addresses@.take(it_i0 as int), *from) && claims@.dom().finite()
- claimed as int == msum(claims@)
- forall|p: Address| #[trigger] claims@.contains_key(p) ==> claims@[p] as int == claim_acc(w0, p, *from)
- forall|p: Address| #[trigger] claims@.contains_key(p) ==> settled(w0, e@, p, *from, pbal(w0, p), ushares(w0, p, *from) as int, true)
- forall|p: Address| !(#[trigger] claims@.contains_key(p)) ==> bed(e@, p) == bed(w0, p) && ued(e@, p, *from) == ued(w0, p, *from)
loopstart 0
ghost pre = e@;
ghost m = claims@;
loopend 0
let p = it_s0@[it_i0 - 1];
lemma_mul_zero();
lemma_take_to_set(pool_addresses@, it_i0 - 1);
assert(upd_bed(pre, p, pbal(w0, p)) == upd_bed(w0, p, pbal(w0, p)));
if m.contains_key(p) { assert(claims@ =~= m); }
else { lemma_msum_insert(m, p, claim_acc(w0, p, *from) as i128); }
assert(claims@ =~= claim_map(w0, pool_addresses@.take(it_i0 as int), *from));
assert forall|q: Address| #[trigger] claims@.contains_key(q) implies settled(w0, e@, q, *from, pbal(w0, q), ushares(w0, q, *from) as int, true) by {
    if q != p { assert(m.contains_key(q)); assert(settled(w0, pre, q, *from, pbal(w0, q), ushares(w0, q, *from) as int, true)); }
}
assert forall|q: Address| !(#[trigger] claims@.contains_key(q)) implies bed(e@, q) == bed(w0, q) && ued(e@, q, *from) == ued(w0, q, *from) by { assert(!m.contains_key(q)); }
looppre 1
ghost wm = e@;
assert(pool_addresses@.take(pool_addresses@.len() as int) =~= pool_addresses@);
loop 1
- it_i1 <= it_s1@.len() && it_s1@ == entries(claims@) && claims@.dom().finite()
- claims@ == claim_map(w0, pool_addresses@, *from) && claimed > 0 && claimed as int == msum(claims@)
- forall|p: Address| #[trigger] claims@.contains_key(p) ==> claims@[p] as int == claim_acc(w0, p, *from)
- wm.ts == w0.ts && forall|p: Address| #[trigger] bec(wm, p) == bec(w0, p)
- e@ == (World { pers: e@.pers, ..wm })
- only(wm.pers, e@.pers, |k: SKey| claim_key2(pool_addresses@, *to, k))
- forall|j: int| 0 <= j < it_i1 ==> claim_credit(w0, e@, #[trigger] it_s1@[j].0, *to, mul_floor(lp_tokens_out as int, it_s1@[j].1 as int, claimed as int))
- forall|j: int| 0 <= j < it_i1 ==> settled(w0, e@, #[trigger] it_s1@[j].0, *from, pbal(w0, it_s1@[j].0), ushares(w0, it_s1@[j].0, *from) as int, true)
- forall|j: int| 0 <= j < it_i1 ==> *to == *from || settled(w0, e@, #[trigger] it_s1@[j].0, *to, pbal(w0, it_s1@[j].0), ushares(w0, it_s1@[j].0, *to) as int, false)
- forall|j: int| it_i1 <= j < it_s1@.len() ==> claim_same(w0, e@, #[trigger] it_s1@[j].0, *from, *to)
loopstart 1
ghost pre = e@;
loopend 1
let i = it_i1 - 1;
let p = it_s1@[i].0;
lemma_mul_zero();
assert(claim_same(w0, pre, p, *from, *to));
assert(pool_addresses@.contains(p)) by { assert(claims@.contains_key(p)); }
assert(bec(pre, p) == bec(wm, p) && bec(wm, p) == bec(w0, p) && pre.ts == w0.ts);
assert(bec(w0, p) is Some ==> upd_bed(pre, p, pbal(w0, p)) == upd_bed(w0, p, pbal(w0, p)));
assert forall|j: int| 0 <= j < it_i1 implies claim_credit(w0, e@, #[trigger] it_s1@[j].0, *to, mul_floor(lp_tokens_out as int, it_s1@[j].1 as int, claimed as int))
    && settled(w0, e@, it_s1@[j].0, *from, pbal(w0, it_s1@[j].0), ushares(w0, it_s1@[j].0, *from) as int, true)
    && (*to == *from || settled(w0, e@, it_s1@[j].0, *to, pbal(w0, it_s1@[j].0), ushares(w0, it_s1@[j].0, *to) as int, false)) by {
    if j < i { assert(it_s1@[j].0 != p) by { assert(eidx(claims@, it_s1@[j].0) == j && eidx(claims@, p) == i); } }
}
assert forall|j: int| it_i1 <= j < it_s1@.len() implies claim_same(w0, e@, #[trigger] it_s1@[j].0, *from, *to) by {
    assert(it_s1@[j].0 != p) by { assert(eidx(claims@, it_s1@[j].0) == j && eidx(claims@, p) == i); }
    assert(claim_same(w0, pre, it_s1@[j].0, *from, *to));
}
end
let m = claim_map(w0, pool_addresses@, from);
assert(pool_addresses@.take(pool_addresses@.len() as int) =~= pool_addresses@);
lemma_seq_finite(pool_addresses@);
assert(m.dom() =~= pool_addresses@.to_set());
if ret__ > 0 {
    lemma_msum_f(m, comet_out(w0.calls, b_token(w0)->0, b_blnd(w0)->0, ret__) as int, ret__ as int);
    let (h, lp, r) = (claim_handed(w0, pool_addresses@, from, comet_out(w0.calls, b_token(w0)->0, b_blnd(w0)->0, ret__) as int, ret__ as int), comet_out(w0.calls, b_token(w0)->0, b_blnd(w0)->0, ret__) as int, ret__ as int);
    assert(h <= lp) by (nonlinear_arith) requires h * r <= lp * r, r > 0;
}
assert forall|i: int| 0 <= i < pool_addresses@.len() implies m.contains_key(#[trigger] pool_addresses@[i]) by { }
