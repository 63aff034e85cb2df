fn pool::reserve::Reserve::utilization() -> r
ensures
- [C19] r as int == util(*self) && tot_s(*self) != 0

fn pool::reserve::Reserve::to_asset_from_d_token(d_tokens) -> r
ensures
- [C15] r as int == asset_d(*self, d_tokens as int)

fn pool::reserve::Reserve::to_asset_from_b_token(b_tokens) -> r
ensures
- [C15] r as int == asset_b(*self, b_tokens as int)

fn pool::reserve::Reserve::to_effective_asset_from_d_token(d_tokens) -> r
ensures
- [C32] r as int == eff_d(*self, d_tokens as int) && self.l_factor != 0

fn pool::reserve::Reserve::to_effective_asset_from_b_token(b_tokens) -> r
ensures
- [C32] r as int == eff_b(*self, b_tokens as int)

fn pool::reserve::Reserve::to_d_token_up(amount) -> r
ensures
- [C15] r as int == d_up(*self, amount as int) && self.d_rate != 0

fn pool::reserve::Reserve::to_d_token_down(amount) -> r
ensures
- [C15] r as int == d_down(*self, amount as int) && self.d_rate != 0

fn pool::reserve::Reserve::to_b_token_up(amount) -> r
ensures
- [C15] r as int == b_up(*self, amount as int) && self.b_rate != 0

fn pool::reserve::Reserve::to_b_token_down(amount) -> r
ensures
- [C15] r as int == b_down(*self, amount as int) && self.b_rate != 0

fn pool::interest::calc_accrual(e, config, cur_util, ir_mod, last_time) -> r
ensures
- [C21] last_time <= w0.ts
- [C21] r.0 as int == accr_of(*config, cur_util as int, ir_mod as int, w0.ts - last_time)
- [C21] r.1 as int == mod_of(*config, cur_util as int, ir_mod as int, w0.ts - last_time)
- [C21] cfg_ok(*config) && cur_util > 0 && 100_000_000 <= ir_mod && ir_mod <= 10 * S9() ==> r.0 >= S9() && 100_000_000 <= r.1 && r.1 <= 10 * S9()
- [C20 C21] w1 == w0
end
if cfg_ok(*config) && cur_util > 0 && 100_000_000 <= ir_mod && ir_mod <= 10 * S9() { lemma_accr(*config, cur_util as int, ir_mod as int, w0.ts - last_time); }

fn pool::reserve::Reserve::load(e, pool_config, asset) -> r
ensures
- [C20] has_res(w0, *asset) && r == loaded(*pool_config, w0, *asset) && r.last_time == w0.ts
- [C20] rwf(raw_res(w0, *asset)) && cfg_ok(rcfg(w0, *asset)->0) && pool_config.bstop_rate < 1_0000000 ==> rwf(r) && accrual_ok(raw_res(w0, *asset), r)
- [C20] r.scalar as int == pow(10, (rcfg(w0, *asset)->0).decimals as nat)
- [C20] w1 == w0
end
if raw_res(w0, *asset).last_time <= w0.ts && rwf(raw_res(w0, *asset)) && cfg_ok(rcfg(w0, *asset)->0) && pool_config.bstop_rate < 1_0000000 { lemma_accrued(*pool_config, rcfg(w0, *asset)->0, raw_res(w0, *asset), w0.ts); }

fn pool::pool::Pool::load_reserve(e, asset, store) -> r
requires
- pool_wf(*old(self), w0)
ensures
- [C20] ex(*old(self), w0, *asset) && r == er(*old(self), w0, *asset) && res_static(w0, *asset, r)
- [C20] !old(self).reserves@.contains_key(*asset) && rwf(raw_res(w0, *asset)) && cfg_ok(rcfg(w0, *asset)->0) && old(self).config.bstop_rate < 1_0000000 ==> rwf(r) && accrual_ok(raw_res(w0, *asset), r)
- [C20] final(self).reserves == old(self).reserves && final(self).config == old(self).config && final(self).prices == old(self).prices && final(self).price_decimals == old(self).price_decimals
- [C20] final(self).reserves_to_store@ == (if store && !old(self).reserves_to_store@.contains(*asset) { old(self).reserves_to_store@.push(*asset) } else { old(self).reserves_to_store@ })
- [C20] w1 == w0

fn pool::pool::Pool::load_price_decimals(e) -> r
requires
- prices_wf(*old(self), w0)
ensures
- [C32] r == oracle_dec(old(self).config.oracle)
- [C32] final(self).reserves == old(self).reserves && final(self).config == old(self).config && final(self).prices == old(self).prices && final(self).reserves_to_store == old(self).reserves_to_store && prices_wf(*final(self), w0)
- [C32] w1 == w0

fn pool::pool::Pool::load_price(e, asset) -> r
panics [C32] *: !fresh_price(w0, old(self).config.oracle, *asset)
requires
- prices_wf(*old(self), w0)
ensures
- [C32] fresh_price(w0, old(self).config.oracle, *asset) && r as int == price_of(*old(self), w0, *asset)
- [C32] final(self).reserves == old(self).reserves && final(self).config == old(self).config && final(self).price_decimals == old(self).price_decimals && final(self).reserves_to_store == old(self).reserves_to_store && prices_wf(*final(self), w0)
- [C32] w1 == w0

fn emissions::distributor::update_emission_data_with_config(e, res_token_id, supply, supply_scalar, emis_config) -> r
ensures
- [C26 C27] edat(w0, res_token_id) is Some
- [C26 C27] ecfg(w0, res_token_id) == Some(*emis_config) ==> r == edat_next(w0, res_token_id, supply as int, supply_scalar as int)
- [C26 C27] edat(w1, res_token_id) == Some(r)
- [C26] supply >= 0 && supply_scalar >= 0 ==> r.index >= (edat(w0, res_token_id)->0).index
- [C26] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_edat(res_token_id))

fn emissions::distributor::update_emissions(e, res_token_id, supply, supply_scalar, user, balance)
panics [C26] NegativeAmountError: edat_next(w0, res_token_id, supply as int, supply_scalar as int).index < (if uem(w0, *user, res_token_id) is Some { (uem(w0, *user, res_token_id)->0).index as int } else { 0 })
ensures
- [C26] settled(w0, w1, *user, res_token_id, supply as int, supply_scalar as int, balance as int, false)
- [C16 C20 C26] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_edat(res_token_id) || k == k_uem(*user, res_token_id))
start
lemma_mul_zero();

fn emissions::distributor::claim_emissions(e, res_token_id, supply, supply_scalar, user, balance) -> r
panics [C26] NegativeAmountError: edat_next(w0, res_token_id, supply as int, supply_scalar as int).index < (if uem(w0, *user, res_token_id) is Some { (uem(w0, *user, res_token_id)->0).index as int } else { 0 })
ensures
- [C26] settled(w0, w1, *user, res_token_id, supply as int, supply_scalar as int, balance as int, true)
- [C26] supply_scalar > 0 ==> r == (if ecfg(w0, res_token_id) is None { 0 } else { accrued_at(w0, *user, res_token_id, edat_next(w0, res_token_id, supply as int, supply_scalar as int).index as int, balance as int, supply_scalar as int) })
- [C16 C20 C26] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_edat(res_token_id) || k == k_uem(*user, res_token_id))
start
lemma_mul_zero();

fn pool::user::User::add_liabilities(e, reserve, amount)
panics [C15] *: amount == 0
ensures
- [C15 C16] amount != 0 && pos_move(*old(self), *final(self), *old(reserve), *final(reserve), 0, amount as int, true)
- [C26] emis_move(w0, w1, *old(self), *old(reserve), 0)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 })

fn pool::user::User::remove_liabilities(e, reserve, amount)
panics [C15] *: amount == 0
panics [C15] NegativeAmountError: true
ensures
- [C15 C16] amount != 0 && pos_move(*old(self), *final(self), *old(reserve), *final(reserve), 0, -amount, false)
- [C26] emis_move(w0, w1, *old(self), *old(reserve), 0)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 })

fn pool::user::User::add_collateral(e, reserve, amount)
panics [C15] *: amount == 0
ensures
- [C15 C16] amount != 0 && pos_move(*old(self), *final(self), *old(reserve), *final(reserve), 1, amount as int, true)
- [C26] emis_move(w0, w1, *old(self), *old(reserve), 1)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 })

fn pool::user::User::remove_collateral(e, reserve, amount)
panics [C15] *: amount == 0
panics [C15] NegativeAmountError: true
ensures
- [C15 C16] amount != 0 && pos_move(*old(self), *final(self), *old(reserve), *final(reserve), 1, -amount, false)
- [C26] emis_move(w0, w1, *old(self), *old(reserve), 1)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 })

fn pool::user::User::add_supply(e, reserve, amount)
panics [C15] *: amount == 0
ensures
- [C15 C16] amount != 0 && pos_move(*old(self), *final(self), *old(reserve), *final(reserve), 2, amount as int, true)
- [C26] emis_move(w0, w1, *old(self), *old(reserve), 2)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 })

fn pool::user::User::remove_supply(e, reserve, amount)
panics [C15] *: amount == 0
panics [C15] NegativeAmountError: true
ensures
- [C15 C16] amount != 0 && pos_move(*old(self), *final(self), *old(reserve), *final(reserve), 2, -amount, false)
- [C26] emis_move(w0, w1, *old(self), *old(reserve), 2)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 })

fn pool::user::User::rm_positions(e, pool, collateral_amounts, liability_amounts)
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
ensures
- [C15 C16 C22 C24] bulk_pos(w0, *old(pool), *final(pool), w1, *old(self), *final(self), collateral_amounts@, liability_amounts@, false)
- [C26] bulk_emis(w0, w1, *old(pool), *old(self), collateral_amounts@, liability_amounts@)
- [C16 C20] bulk_frame(w0, w1, *old(pool), *final(pool), old(self).address)
start
ghost (mc, ml) = (collateral_amounts@, liability_amounts@);
ghost mut nc: int = 0;
ghost mut nl: int = 0;
lemma_pre(mc); lemma_pre(ml);
over 0 \bcollateral_amounts
over 1 \bliability_amounts
loop 0
- it_s0@ == entries(mc) && it_i0 <= it_s0@.len() && nc == it_i0 && nl <= entries(ml).len()
- pool_wf(*pool, w)
- bulk_pos(w0, *old(pool), *pool, w, *old(self), *self, pre(mc, nc), pre(ml, nl), false)
- bulk_emis(w0, w, *old(pool), *old(self), pre(mc, nc), pre(ml, nl))
- bulk_frame(w0, w, *old(pool), *pool, old(self).address)
loopstart 0
ghost (u1, p1, v1, k) = (*self, *pool, e@, it_i0 as int);
loopend 0
lemma_bulk_step(w0, v1, w, *old(pool), p1, *pool, *old(self), u1, *self, pre(mc, k), pre(ml, nl), false, 1, asset, amount, pool.reserves@[asset]);
assert(pre(mc, k + 1) == pre(mc, k).insert(asset, amount));
nc = k + 1;
loop 1
- it_s1@ == entries(ml) && it_i1 <= it_s1@.len() && nl == it_i1 && nc <= entries(mc).len()
- pool_wf(*pool, w)
- bulk_pos(w0, *old(pool), *pool, w, *old(self), *self, pre(mc, nc), pre(ml, nl), false)
- bulk_emis(w0, w, *old(pool), *old(self), pre(mc, nc), pre(ml, nl))
- bulk_frame(w0, w, *old(pool), *pool, old(self).address)
loopstart 1
ghost (u1, p1, v1, k) = (*self, *pool, e@, it_i1 as int);
loopend 1
lemma_bulk_step(w0, v1, w, *old(pool), p1, *pool, *old(self), u1, *self, pre(mc, nc), pre(ml, k), false, 0, asset, amount, pool.reserves@[asset]);
assert(pre(ml, k + 1) == pre(ml, k).insert(asset, amount));
nl = k + 1;

fn pool::user::User::add_positions(e, pool, collateral_amounts, liability_amounts)
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
ensures
- [C15 C16 C22 C24] bulk_pos(w0, *old(pool), *final(pool), w1, *old(self), *final(self), collateral_amounts@, liability_amounts@, true)
- [C26] bulk_emis(w0, w1, *old(pool), *old(self), collateral_amounts@, liability_amounts@)
- [C16 C20] bulk_frame(w0, w1, *old(pool), *final(pool), old(self).address)
start
ghost (mc, ml) = (collateral_amounts@, liability_amounts@);
ghost mut nc: int = 0;
ghost mut nl: int = 0;
lemma_pre(mc); lemma_pre(ml);
over 0 \bcollateral_amounts
over 1 \bliability_amounts
loop 0
- it_s0@ == entries(mc) && it_i0 <= it_s0@.len() && nc == it_i0 && nl <= entries(ml).len()
- pool_wf(*pool, w)
- bulk_pos(w0, *old(pool), *pool, w, *old(self), *self, pre(mc, nc), pre(ml, nl), true)
- bulk_emis(w0, w, *old(pool), *old(self), pre(mc, nc), pre(ml, nl))
- bulk_frame(w0, w, *old(pool), *pool, old(self).address)
loopstart 0
ghost (u1, p1, v1, k) = (*self, *pool, e@, it_i0 as int);
loopend 0
lemma_bulk_step(w0, v1, w, *old(pool), p1, *pool, *old(self), u1, *self, pre(mc, k), pre(ml, nl), true, 1, asset, amount, pool.reserves@[asset]);
assert(pre(mc, k + 1) == pre(mc, k).insert(asset, amount));
nc = k + 1;
loop 1
- it_s1@ == entries(ml) && it_i1 <= it_s1@.len() && nl == it_i1 && nc <= entries(mc).len()
- pool_wf(*pool, w)
- bulk_pos(w0, *old(pool), *pool, w, *old(self), *self, pre(mc, nc), pre(ml, nl), true)
- bulk_emis(w0, w, *old(pool), *old(self), pre(mc, nc), pre(ml, nl))
- bulk_frame(w0, w, *old(pool), *pool, old(self).address)
loopstart 1
ghost (u1, p1, v1, k) = (*self, *pool, e@, it_i1 as int);
loopend 1
lemma_bulk_step(w0, v1, w, *old(pool), p1, *pool, *old(self), u1, *self, pre(mc, nc), pre(ml, k), true, 0, asset, amount, pool.reserves@[asset]);
assert(pre(ml, k + 1) == pre(ml, k).insert(asset, amount));
nl = k + 1;

# ---------------------------------------------------------------- configuration and status
fn contract::PoolContract::initialize(e, admin, name, oracle, bstop_rate, max_postions, backstop_id, blnd_id)
panics [C30] *: p_init(w0) || bstop_rate >= 1_0000000 || max_postions < 2
ensures
- [C30] !p_init(w0) && p_init(w1)
- [C30] bstop_rate < 1_0000000 && max_postions >= 2
- [C30] p_admin(w1) == Some(admin) && p_name(w1) == Some(name) && p_backstop(w1) == Some(backstop_id) && p_blnd(w1) == Some(blnd_id)
- [C18 C28 C30] p_config(w1) == Some(PoolConfig { oracle, bstop_rate, status: 6, max_positions: max_postions })
- [C29] w1.auths == w0.auths.insert(admin)
- [C30] w1 == (World { inst: w1.inst, auths: w1.auths, ..w0 })

fn contract::PoolContract::set_admin(e, new_admin)
panics [C29] *: false
ensures
- [C29] p_admin(w0) is Some && w1.auths.contains(p_admin(w0)->0) && w1.auths.contains(new_admin)
- [C29] p_admin(w1) == Some(new_admin)
- [C29 C30] w1 == (World { inst: w1.inst, auths: w1.auths, ..w0 }) && only(w0.inst, w1.inst, |k: SKey| k == k_sym(sym!("Admin")))
- [C30] fixed_same(w0, w1)

fn contract::PoolContract::update_pool(e, backstop_take_rate, max_positions)
panics [C30] *: backstop_take_rate >= 1_0000000
ensures
- [C29] p_admin(w0) is Some && w1.auths.contains(p_admin(w0)->0)
- [C20 C30] backstop_take_rate < 1_0000000
- [C29 C30] p_config(w0) is Some && w1 == with_config(by_admin(w0), PoolConfig { bstop_rate: backstop_take_rate, max_positions, ..(p_config(w0)->0) })
- [C30] fixed_same(w0, w1)

fn contract::PoolContract::queue_set_reserve(e, asset, metadata)
panics [C28] *: w0.temp.contains_key(k_rinit(asset)) || !cfg_ok(metadata)
ensures
- [C29] p_admin(w0) is Some && w1.auths.contains(p_admin(w0)->0)
- [C28] !w0.temp.contains_key(k_rinit(asset)) && cfg_ok(metadata)
- [C28] p_config(w0) is Some && queued(w1, asset) is Some && (queued(w1, asset)->0).new_config == metadata
- [C28] (queued(w1, asset)->0).unlock_time == w0.ts + (if (p_config(w0)->0).status == 6 { 0 } else { 604800int })
- [C28 C29 C30] w1 == (World { temp: w1.temp, ..by_admin(w0) }) && only(w0.temp, w1.temp, |k: SKey| k == k_rinit(asset))

fn contract::PoolContract::cancel_set_reserve(e, asset)
panics [C28] *: false
ensures
- [C29] p_admin(w0) is Some && w1.auths.contains(p_admin(w0)->0)
- [C28 C29 C30] w1 == (World { temp: w0.temp.remove(k_rinit(asset)), ..by_admin(w0) })

fn contract::PoolContract::set_reserve(e, asset) -> r
panics [C28] *: (queued(w0, asset)->0).unlock_time > w0.ts || (rcfg(w0, asset) is Some && (rcfg(w0, asset)->0).decimals != (queued(w0, asset)->0).new_config.decimals) || (rcfg(w0, asset) is None && rlist(w0).len() == 32)
attr #[verifier::rlimit(40)]
ensures
- [C28] queued(w0, asset) is Some && (queued(w0, asset)->0).unlock_time <= w0.ts
- [C28] w1.temp == w0.temp.remove(k_rinit(asset))
- [C28] rcfg(w1, asset) == Some(ReserveConfig { index: r, ..(queued(w0, asset)->0).new_config })
- [C28] rcfg(w0, asset) is Some ==> r == (rcfg(w0, asset)->0).index && (rcfg(w0, asset)->0).decimals == (queued(w0, asset)->0).new_config.decimals && rlist(w1) == rlist(w0)
- [C20 C28] rcfg(w0, asset) is Some ==> p_config(w0) is Some && rdat(w0, asset) is Some && ({ let l = loaded(p_config(w0)->0, w0, asset); rdat(w1, asset) == Some(data_of(Reserve { ir_mod: if same_curve(rcfg(w0, asset)->0, (queued(w0, asset)->0).new_config) { l.ir_mod } else { 1_000_000_000 }, ..l })) })
- [C28] rcfg(w0, asset) is None ==> rlist(w1) == rlist(w0).push(asset) && r == rlist(w0).len() && rlist(w0).len() != 32
- [C20 C28] rcfg(w0, asset) is None ==> rdat(w1, asset) == Some(ReserveData { d_rate: 1_000_000_000, b_rate: 1_000_000_000, ir_mod: 1_000_000_000, b_supply: 0, d_supply: 0, backstop_credit: 0, last_time: w0.ts })
- [C16 C28 C29 C30] w1 == (World { pers: w1.pers, temp: w1.temp, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_rcfg(asset) || k == k_rdat(asset) || k == k_list())
- [C16 C28] idx_ok(w0) ==> idx_ok(w1)
- [C20] forall|a: Address| #![trigger rdat(w1, a)] rdat(w0, a) is Some && rwf(raw_res(w0, a)) && cfg_ok(rcfg(w0, a)->0) && (p_config(w0)->0).bstop_rate < 1_0000000 ==> rwf(raw_res(w1, a))
end
assert forall|a: Address| a != asset implies #[trigger] rcfg(w, a) == rcfg(w0, a) && rdat(w, a) == rdat(w0, a) by { assert(w.pers.contains_key(k_rcfg(a)) == w0.pers.contains_key(k_rcfg(a))); assert(w.pers.contains_key(k_rdat(a)) == w0.pers.contains_key(k_rdat(a))); }

fn storage::get_user_positions(e, user) -> r
ensures
- [C16] r == posof(w0, *user)
- [C16] w1 == w0
end
if !w0.pers.contains_key(k_pos(*user)) { lemma_empty_pos(ret__); }

fn pool::status::calc_pool_backstop_threshold(pool_backstop_data) -> r
ensures
- [C24 C33] bs_sane(*pool_backstop_data) ==> r as int == thr(*pool_backstop_data)
end
if bs_sane(*pool_backstop_data) {
let b = pool_backstop_data.blnd as int / S7(); let u = pool_backstop_data.usdc as int / S7(); let m = i128::MAX as int;
lemma_sm(b, b, m); lemma_sm(b * b, b, m); lemma_sm(b * b * b, b, m); lemma_sm(b * b * b * b, u, m); lemma_sm(b * b * b * b * u, S7(), m);
}

fn contract::PoolContract::update_status(e) -> r
panics [C33] *: (p_config(w0)->0).status == 4 || (p_config(w0)->0).status == 6
ensures
- [C33] p_config(w0) is Some && p_backstop(w0) is Some && (p_config(w0)->0).status != 4 && (p_config(w0)->0).status != 6
- [C33] bs_sane(bs_data(w0)) ==> r == status_next((p_config(w0)->0).status, bs_data(w0))
- [C18 C29 C30 C33] w1 == with_config(w0, PoolConfig { status: r, ..(p_config(w0)->0) })
- [C30] fixed_same(w0, w1)

fn contract::PoolContract::set_status(e, pool_status)
panics [C33] *: bs_sane(bs_data(w0)) ==> !status_allowed(pool_status, bs_data(w0))
ensures
- [C29] p_admin(w0) is Some && w1.auths.contains(p_admin(w0)->0)
- [C33] p_backstop(w0) is Some && (bs_sane(bs_data(w0)) ==> status_allowed(pool_status, bs_data(w0)))
- [C33] pool_status == 0 || pool_status == 2 || pool_status == 3 || pool_status == 4
- [C18 C29 C30 C33] p_config(w0) is Some && w1 == with_config(by_admin(w0), PoolConfig { status: pool_status, ..(p_config(w0)->0) })
- [C30] fixed_same(w0, w1)

# ---------------------------------------------------------------- pool emissions
fn contract::PoolContract::set_emissions_config(e, res_emission_metadata)
panics [C27] BadRequest: !meta_ok(w0, res_emission_metadata@) || meta_sum(res_emission_metadata@.take(res_emission_metadata@.len() as int)) > 1_0000000
acc 0 total_share
acc 0 pool_emissions
ensures
- [C29] p_admin(w0) is Some && w1.auths.contains(p_admin(w0)->0)
- [C27] meta_ok(w0, res_emission_metadata@)
- [C27] meta_sum(res_emission_metadata@) <= 1_0000000
- [C27] pe(w1) == meta_map(res_emission_metadata@) && msum(pe(w1)) <= 1_0000000
- [C27 C29 C30] w1 == (World { pers: w1.pers, ..by_admin(w0) }) && only(w0.pers, w1.pers, |k: SKey| k == k_pemis())
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == res_emission_metadata@
- [C27] meta_ok(w0, res_emission_metadata@.take(it_i0 as int))
- [C27] total_share as int == meta_sum(res_emission_metadata@.take(it_i0 as int))
- [C27] pool_emissions@ == meta_map(res_emission_metadata@.take(it_i0 as int))
- w == by_admin(w0)
loopend 0
assert(res_emission_metadata@.take(it_i0 as int).drop_last() =~= res_emission_metadata@.take(it_i0 - 1));
end
assert(res_emission_metadata@.take(res_emission_metadata@.len() as int) =~= res_emission_metadata@);
lemma_meta_sum(res_emission_metadata@);

fn emissions::manager::update_reserve_emission_config(e, asset, res_token_id, new_reserve_emissions)
panics [C27] *: false
ensures
- [C27] new_period(w0, w1, *asset, res_token_id, new_reserve_emissions as int)
- [C26 C27 C30] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| k == k_edat(res_token_id) || k == k_ecfg(res_token_id))

fn contract::PoolContract::gulp_emissions(e) -> r
panics [C27] *: bs_gulped(w0.calls, p_backstop(w0)->0, w0.this) < 1_0000000
ensures
- [C27] p_backstop(w0) is Some && r == bs_gulped(w0.calls, p_backstop(w0)->0, w0.this) && r >= 1_0000000
- [C27] w1.calls == w0.calls.push(Call::BackstopGulpPool { backstop: p_backstop(w0)->0, pool: w0.this })
- [C27] forall|t: u32| #[trigger] pe(w0).contains_key(t) ==> gulped(w0, w1, t, r as int)
- [C27] msum(pe(w0)) <= 1_0000000 ==> gsum(pe(w0), r as int) <= r
- [C26 C27] forall|t: u32| #![trigger ecfg(w1, t)] #![trigger edat(w1, t)] !pe(w0).contains_key(t) ==> eunch(w0, w1, t)
- [C16 C20 C26 C27 C28 C29 C30] w1 == (World { pers: w1.pers, calls: w1.calls, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| ecfg_key(k))
start
assert(entries(pe(w0)).len() == pe(w0).len());
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(pe(w0))
- w == (World { pers: w.pers, ..logc(w0, Call::BackstopGulpPool { backstop: p_backstop(w0)->0, pool: w0.this }) })
- [C27] gulp_inv(w0, w, it_i0 as int, bs_gulped(w0.calls, p_backstop(w0)->0, w0.this) as int)
loopstart 0
ghost (v1, k) = (e@, it_i0 as int);
lemma_ecfg_frame(w0, w);
loopend 0
lemma_gulp_step(w0, v1, w, k, bs_gulped(w0.calls, p_backstop(w0)->0, w0.this) as int, entries(pe(w0))[k].0, entries(pe(w0))[k].1);
end
lemma_gsum(pe(w0), ret__ as int);
assert forall|t: u32| #[trigger] pe(w0).contains_key(t) implies gulped(w0, w, t, bs_gulped(w0.calls, p_backstop(w0)->0, w0.this) as int) by { assert(ecfg(w, t) == ecfg(w, t)); assert(eidx(pe(w0), t) < entries(pe(w0)).len()); }

fn contract::PoolContract::claim(e, from, reserve_token_ids, to) -> r
panics [C26] BadRequest: exists|i: int| 0 <= i < reserve_token_ids@.len() && (#[trigger] reserve_token_ids@[i]) / 2 >= rlist(w0).len()
acc 0 to_claim
ensures
- [C26 C29] w1.auths.contains(from)
- [C26] exists|t: Seq<World>| claim_trace(by(w0, from), from, reserve_token_ids@, t) && t.len() == reserve_token_ids@.len() + 1 && r as int == claim_sum(from, reserve_token_ids@, t, reserve_token_ids@.len() as int) && w1 == claim_paid(#[trigger] t.last(), to, r as int)
- [C16 C20 C28 C29 C30] w1 == (World { pers: w1.pers, calls: w1.calls, ..by(w0, from) }) && only(w0.pers, w1.pers, |k: SKey| emis_key(k, from))
start
ghost (u, ids) = (from, reserve_token_ids@);
ghost mut tr: Seq<World> = seq![by(e@, u)];
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == ids
- w == (World { pers: w.pers, ..by(w0, u) }) && only(w0.pers, w.pers, |k: SKey| emis_key(k, u))
- [C26] tr.len() == it_i0 + 1 && tr.last() == w && claim_trace(by(w0, u), u, ids, tr)
- [C26] to_claim as int == claim_sum(u, ids, tr, it_i0 as int)
loopstart 0
ghost (v1, k) = (e@, it_i0 as int);
lemma_emis_frame(by(w0, u), w, u);
assert(w.pers.contains_key(k_pos(u)) == w0.pers.contains_key(k_pos(u)));
assert forall|x: nat| pow(10, x) > 0 by { lemma_pow_positive(10, x); }
loopend 0
lemma_claim_sum(u, ids, tr, w, k);
assert(claim_step(by(w0, u), v1, w, u, ids[k]));
tr = tr.push(w);
end
assert(claim_trace(by(w0, u), u, ids, tr));
assert(w == claim_paid(tr.last(), to, ret__ as int));

# ---------------------------------------------------------------- reserves and health
fn pool::pool::Pool::store_cached_reserves(e)
panics [C16] *: exists|i: int| 0 <= i < self.reserves_to_store@.len() && !self.reserves@.contains_key(#[trigger] self.reserves_to_store@[i])
requires
- pool_wf(*self, w0)
ensures
- [C16 C20 C25] stored(*self, w0, w1)
- [C16 C20] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| rdat_key(k))
- [C16 C20] forall|a: Address| #![trigger rdat(w1, a)] ex(*self, w0, a) ==> rdat(w1, a) is Some && (rdat(w1, a)->0).b_supply == er(*self, w0, a).b_supply && (rdat(w1, a)->0).d_supply == er(*self, w0, a).d_supply
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == self.reserves_to_store@
- pool_wf(*self, w0)
- [C16 C20] w == (World { pers: w.pers, ..w0 }) && only(w0.pers, w.pers, |k: SKey| rdat_key(k))
- [C16 C20 C25] store_n(*self, w0, w, it_i0 as int)
loopstart 0
ghost (v1, k) = (e@, it_i0 as int);
loopend 0
lemma_store_step(*self, w0, v1, w, k);
end
lemma_store_all(*self, w0, w);
lemma_stored(*self, w0, w);

fn pool::health_factor::PositionData::calculate_from_positions(e, pool, positions) -> r
attr #[verifier::rlimit(40)]
requires
- pool_wf(*old(pool), w0)
- prices_wf(*old(pool), w0)
acc 0 collateral_base
acc 0 liability_base
acc 0 collateral_raw
acc 0 liability_raw
ensures
- [C17 C23 C24 C32] pdata_ok(*old(pool), w0, *positions, r)
- [C32] priced(*old(pool), w0, *positions, rlist(w0).len() as int)
- [C16 C17 C20 C32] pool_eq(*old(pool), *final(pool), w0) && pool_wf(*final(pool), w0) && prices_wf(*final(pool), w0)
- [C16 C17 C20 C32] w1 == w0
loop 0
- w == w0 && pool_wf(*pool, w0) && prices_wf(*pool, w0)
- it_i0 <= it_hi0 && it_hi0 == rlist(w0).len()
- [C16 C17 C20 C32] pool_eq(*old(pool), *pool, w0)
- [C17 C23 C32] collateral_base as int == s_cb(*old(pool), w0, *positions, it_i0 as int) && liability_base as int == s_lb(*old(pool), w0, *positions, it_i0 as int)
- [C23 C24 C32] collateral_raw as int == s_cr(*old(pool), w0, *positions, it_i0 as int) && liability_raw as int == s_lr(*old(pool), w0, *positions, it_i0 as int)
- [C32] priced(*old(pool), w0, *positions, it_i0 as int)
loopstart 0
ghost p1 = *pool;
loopend 0
assert forall|a: Address| #![trigger er_eq(*old(pool), *pool, w0, a)] er_eq(*old(pool), *pool, w0, a) by { assert(er_eq(*old(pool), p1, w0, a)); }

fn pool::health_factor::PositionData::is_hf_over(max) -> r
ensures
- [C17 C23] r == hf_over(*self, max as int)

fn pool::health_factor::PositionData::is_hf_under(min) -> r
ensures
- [C17 C23] r == hf_under(*self, min as int)

# ---------------------------------------------------------------- auctions
fn auctions::auction::scale_auction(e, auction_data, percent_filled) -> r
panics [C22] *: percent_filled > 100 || percent_filled == 0 || w0.seq < auction_data.block
attr #[verifier::rlimit(40)]
ensures
- [C22] 1 <= percent_filled <= 100 && w0.seq >= auction_data.block
- [C22 C23 C24 C25] r.0.bid@ == scaled(auction_data.bid@, 0, percent_filled as int, w0.seq - auction_data.block)
- [C22 C23 C24 C25] r.0.lot@ == scaled(auction_data.lot@, 2, percent_filled as int, w0.seq - auction_data.block)
- [C22] r.1 is Some ==> (r.1->0).bid@ == scaled(auction_data.bid@, 1, percent_filled as int, w0.seq - auction_data.block) && (r.1->0).lot@ == scaled(auction_data.lot@, 3, percent_filled as int, w0.seq - auction_data.block) && (r.1->0).block == auction_data.block
- [C22] r.1 is None ==> scaled(auction_data.bid@, 1, percent_filled as int, w0.seq - auction_data.block) == Map::<Address, i128>::empty() && scaled(auction_data.lot@, 3, percent_filled as int, w0.seq - auction_data.block) == Map::<Address, i128>::empty()
- [C22] w1 == w0
start
ghost (mb, ml, pf, dif) = (auction_data.bid@, auction_data.lot@, percent_filled as int, e@.seq - auction_data.block);
lemma_pre(mb); lemma_pre(ml);
lemma_scaled_empty(0, pf, dif); lemma_scaled_empty(1, pf, dif); lemma_scaled_empty(2, pf, dif); lemma_scaled_empty(3, pf, dif);
over 0 \.bid\b
over 1 \.lot\b
acc 0 to_fill_auction.bid
acc 0 remaining_auction.bid
acc 1 to_fill_auction.lot
acc 1 remaining_auction.lot
looppre 0
ghost (f0, r0) = (to_fill_auction.lot@, remaining_auction.lot@);
looppre 1
ghost (f1, r1) = (to_fill_auction.bid@, remaining_auction.bid@);
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(mb)
- [C22] to_fill_auction.bid@ == scaled(pre(mb, it_i0 as int), 0, pf, dif) && to_fill_auction.lot@ == f0
- [C22] remaining_auction.bid@ == scaled(pre(mb, it_i0 as int), 1, pf, dif) && remaining_auction.lot@ == r0 && remaining_auction.block == auction_data.block
loopstart 0
ghost k = it_i0 as int;
loopend 0
lemma_scaled_step(mb, k, 0, pf, dif); lemma_scaled_step(mb, k, 1, pf, dif);
loop 1
- it_i1 <= it_s1@.len() && it_s1@ == entries(ml)
- [C22] to_fill_auction.bid@ == f1 && to_fill_auction.lot@ == scaled(pre(ml, it_i1 as int), 2, pf, dif)
- [C22] remaining_auction.bid@ == r1 && remaining_auction.lot@ == scaled(pre(ml, it_i1 as int), 3, pf, dif) && remaining_auction.block == auction_data.block
loopstart 1
ghost k = it_i1 as int;
loopend 1
lemma_scaled_step(ml, k, 2, pf, dif); lemma_scaled_step(ml, k, 3, pf, dif);

fn auctions::user_liquidation_auction::fill_user_liq_auction(e, pool, auction_data, user, filler_state)
panics [C23] *: false
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide bulk_pos bulk_emis bulk_frame bals ers_same two_emis pool_wf idx_ok pool_same only settled accrued
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
ensures
- [C16 C23] bals(w0, posof(w0, *user), posof(w1, *user), auction_data.lot@, auction_data.bid@, false)
- [C16 C23] final(filler_state).address == old(filler_state).address && bals(w0, old(filler_state).positions, final(filler_state).positions, auction_data.lot@, auction_data.bid@, true)
- [C16 C23] ers_same(*old(pool), w0, *final(pool), w1)
- [C26] two_emis(w0, w1, *old(pool), usr(w0, *user), *old(filler_state), auction_data.lot@, auction_data.bid@)
- [C16 C20 C23 C30] pool_wf(*final(pool), w1) && pool_same(*old(pool), *final(pool)) && idx_ok(w1)
- [C16 C20 C23 C30] w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| two_key(k, *user, old(filler_state).address))
after rm_positions 0
ghost (wm, pm, um) = (e@, *pool, user_state);
lemma_frame_wf(w0, wm, *old(pool), pm, *user);
after add_positions 0
ghost wn = e@;
end
lemma_fill_user(w0, wm, wn, *old(pool), pm, *pool, usr(w0, *user), um, *old(filler_state), *filler_state, auction_data.lot@, auction_data.bid@);
alt
after rm_positions 0
ghost (wm, pm, um) = (e@, *pool, user_state);
lemma_frame_wf(w0, wm, *old(pool), pm, *user);
lemma_with_pos(wm, *user, um.positions);
before add_positions 0
ghost ws = e@;
lemma_bals(w0, wm, w0, *old(pool), pm, usr(w0, *user), um, auction_data.lot@, auction_data.bid@, false);
assert(ws.pers =~= with_pos(wm, *user, um.positions).pers);
assert(ws == with_pos(wm, *user, um.positions));
end
lemma_fill_user2(w0, wm, ws, w, *old(pool), pm, *pool, usr(w0, *user), um, *old(filler_state), *filler_state, auction_data.lot@, auction_data.bid@);

fn auctions::bad_debt_auction::fill_bad_debt_auction(e, pool, auction_data, filler_state)
panics [C24] *: old(filler_state).address == p_backstop(w0)->0
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide bulk_pos bulk_emis bulk_frame bals bad_fill bad_emis pool_wf idx_ok pool_same only settled accrued thr bs_sane
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
acc 0 rm_liabilities
ensures
- [C24] p_backstop(w0) is Some && old(filler_state).address != p_backstop(w0)->0
- [C24] auction_data.lot@.contains_key(bs_token(p_backstop(w0)->0))
- [C16 C24] bad_fill(w0, *old(pool), *final(pool), w1, p_backstop(w0)->0, auction_data.bid@)
- [C16 C24] final(filler_state).address == old(filler_state).address && bals(w0, old(filler_state).positions, final(filler_state).positions, Map::empty(), auction_data.bid@, true)
- [C26] bad_emis(w0, w1, *old(pool), usr(w0, p_backstop(w0)->0), *old(filler_state), auction_data.bid@)
- [C16 C20 C24 C30] pool_wf(*final(pool), w1) && pool_same(*old(pool), *final(pool)) && idx_ok(w1)
- [C16 C20 C24 C30] w1 == (World { pers: w1.pers, ..logc(w0, Call::BackstopDraw { backstop: p_backstop(w0)->0, pool: w0.this, amount: auction_data.lot@[bs_token(p_backstop(w0)->0)], to: old(filler_state).address }) }) && only(w0.pers, w1.pers, |k: SKey| two_key(k, p_backstop(w0)->0, old(filler_state).address))
start
ghost b = p_backstop(e@)->0;
ghost mut burned: bool = false;
ghost mut wr: World = e@;
ghost mut o: Map<Address, i128> = Map::empty();
after rm_positions 0
ghost (wm, pm, um) = (e@, *pool, backstop_state);
lemma_frame_wf(w0, wm, *old(pool), pm, b);
after add_positions 0
ghost (wn, pn) = (e@, *pool);
ghost c = Call::BackstopDraw { backstop: b, pool: w0.this, amount: auction_data.lot@[bs_token(b)], to: old(filler_state).address };
lemma_frame_wf(wm, wn, pm, pn, old(filler_state).address);
lemma_log_same(wn, c);
lemma_bals(wm, wn, wm, pm, pn, *old(filler_state), *filler_state, Map::empty(), auction_data.bid@, true);
lemma_res_trans(w0, wm, wn); lemma_res_trans(w0, wn, logc(wn, c));
wr = logc(wn, c);
after draw 0
assert(e@ == logc(wn, c));
assert(pool_wf(*pool, e@) && idx_ok(e@));
before rm_positions 1
burned = true; o = rm_liabilities@;
assert(um.positions.liabilities@.len() == entries(um.positions.liabilities@).len());
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(um.positions.liabilities@)
- [C16 C24] lst(w0, um.positions.liabilities@, rm_liabilities@, it_i0 as int, 1, 0, 0)
loopstart 0
ghost (k, o1) = (it_i0 as int, rm_liabilities@);
loopend 0
lemma_lst(w0, um.positions.liabilities@, o1, rm_liabilities@, k, 1, 0, 0, rlist(w0)[entries(um.positions.liabilities@)[k].0 as int], entries(um.positions.liabilities@)[k].1);
after rm_positions 1
wr = e@;
end
lemma_bad_fill(w0, wm, wn, logc(wn, c), wr, *old(pool), pm, pn, *pool, usr(w0, b), um, backstop_state, *old(filler_state), *filler_state, auction_data.bid@, o, burned, c);

fn auctions::backstop_interest_auction::fill_interest_auction(e, pool, auction_data, filler)
panics [C25] *: *filler == p_backstop(w0)->0
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide idx_ok accrued
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
ensures
- [C25] p_backstop(w0) is Some && *filler != p_backstop(w0)->0
- [C25] auction_data.bid@.contains_key(bs_token(p_backstop(w0)->0))
- [C25 C30] w1 == (World { calls: donated(w0, p_backstop(w0)->0, *filler, auction_data.bid@[bs_token(p_backstop(w0)->0)]).calls + pays(w0.this, *filler, entries(auction_data.lot@), entries(auction_data.lot@).len() as int), ..w0 })
- [C16 C20 C25] credit_taken(*old(pool), *final(pool), w0, auction_data.lot@)
- [C16 C20 C25 C30] pool_wf(*final(pool), w1) && pool_same(*old(pool), *final(pool)) && idx_ok(w1)
start
ghost (m, b, x) = (auction_data.lot@, p_backstop(e@)->0, auction_data.bid@[bs_token(p_backstop(e@)->0)]);
lemma_pre(m);
after donate 0
assert(e@ == donated(w0, b, *filler, x));
lemma_log_same(w0, Call::BackstopDonate { backstop: b, from: *filler, pool: w0.this, amount: x });
assert(pool_wf(*pool, e@));
assert(donated(w0, b, *filler, x).calls + pays(w0.this, *filler, entries(m), 0) =~= donated(w0, b, *filler, x).calls);
assert(int_inv(w0, e@, *old(pool), *pool, m, *filler, b, x, 0));
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(m)
- int_inv(w0, w, *old(pool), *pool, m, *filler, b, x, it_i0 as int)
loopstart 0
ghost (v1, p1, k) = (e@, *pool, it_i0 as int);
loopend 0
lemma_int_step(w0, v1, w, *old(pool), p1, *pool, m, *filler, b, x, k, pool.reserves@[entries(m)[k].0]);
end
assert(res_same(w0, w)) by { assert forall|x: Address| #![trigger rcfg(w, x)] rcfg(w, x) == rcfg(w0, x) by {} assert forall|x: Address| #![trigger rdat(w, x)] rdat(w, x) == rdat(w0, x) by {} }
lemma_same_wf(w0, w);

fn auctions::auction::fill(e, pool, auction_type, user, filler_state, percent_filled)
panics [C22] *: *user == old(filler_state).address || auction_type > 2
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide bals bad_fill bad_emis two_emis pool_wf idx_ok pool_same accrued scaled ers_same credit_taken donated pays
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
ensures
- [C22 C23] *user != old(filler_state).address && auction_type <= 2 && auct(w0, *user, auction_type) is Some
- [C22] 1 <= percent_filled <= 100 && w0.seq >= (auct(w0, *user, auction_type)->0).block
- [C22] left(w0, w1, *user, auction_type, percent_filled as int)
- [C24 C25] auction_type > 0 ==> p_backstop(w0) is Some && old(filler_state).address != p_backstop(w0)->0
- [C16 C22 C23 C24 C25] fill_pos(w0, w1, *old(pool), *final(pool), *old(filler_state), *final(filler_state), *user, auction_type, percent_filled as int)
- [C26] fill_emis(w0, w1, *old(pool), *old(filler_state), *user, auction_type, percent_filled as int)
- [C22 C24 C25 C31] w1.calls == fill_calls(w0, old(filler_state).address, *user, auction_type, percent_filled as int)
- [C24] auction_type == 1 ==> flot(w0, *user, auction_type, percent_filled as int).contains_key(bs_token(p_backstop(w0)->0))
- [C25] auction_type == 2 ==> fbid(w0, *user, auction_type, percent_filled as int).contains_key(bs_token(p_backstop(w0)->0))
- [C16 C20 C30] pool_wf(*final(pool), w1) && pool_same(*old(pool), *final(pool)) && idx_ok(w1)
- [C16 C20 C30] fill_only(w0, w1, old(filler_state).address, *user, auction_type)
end
ghost v = World { temp: w0.temp, ..w };
lemma_temp(v, w);
lemma_fill_temp(w0, v, w, *old(pool), *pool, *old(filler_state), *filler_state, *user, auction_type, percent_filled as int);
alt
after scale_auction 0
assert forall|x: World| #![trigger pool_wf(*old(pool), x)] #![trigger idx_ok(x)] temp_like(w0, x) implies pool_wf(*old(pool), x) && idx_ok(x) by { lemma_temp(w0, x); }
end
ghost v0 = World { temp: w.temp, ..w0 };
lemma_temp_from(w0, v0, w, *old(pool), *pool, *old(filler_state), *filler_state, *user, p_backstop(w0)->0, flot(w0, *user, auction_type, percent_filled as int), fbid(w0, *user, auction_type, percent_filled as int), auction_type);

# ---------------------------------------------------------------- submit
fn pool::actions::build_actions_from_request(e, pool, from, requests) -> r
panics [C18 C31] NegativeAmountError: qs[k].amount < 0 || qs[k].request_type == 5
panics [C18] InvalidPoolStatus: !gate(old(pool).config.status, qs[k].request_type)
panics [C18] BadRequest: qs[k].request_type >= 9
panics [C19] InvalidUtilRate: qs[k].request_type == 4
panics [C19] MaxPositionsExceeded: npos(from_state.positions) > pool.config.max_positions
panics [C18] *: false
attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
hide bals bad_fill bad_emis two_emis pool_wf idx_ok accrued scaled ers_same credit_taken donated pays fill_pos fill_emis fill_calls left settled util chain only sub_frame fill_only
requires
- pool_wf(*old(pool), w0)
- idx_ok(w0)
ensures
- [C15 C16 C19 C20 C22 C23 C24 C25 C26 C31] exists|tr: Seq<St>| #[trigger] batch(w0, *old(pool), *from, requests@, tr) && tr.last() == (mk(w1, *final(pool), r.1, r.0.spender_transfer@, r.0.pool_transfer@))
- [C18] forall|i: int| 0 <= i < requests@.len() ==> gate(old(pool).config.status, (#[trigger] requests@[i]).request_type)
- [C17] forall|i: int| 0 <= i < requests@.len() && risky((#[trigger] requests@[i]).request_type) ==> r.2
- [C19] npos(r.1.positions) <= npos(posof(w0, *from)) || npos(r.1.positions) <= old(pool).config.max_positions
- [C16 C20 C30] pool_wf(*final(pool), w1) && pool_same(*old(pool), *final(pool)) && idx_ok(w1) && sub_frame(w0, w1) && r.1.address == *from
start
ghost qs = requests@;
ghost mut tr: Seq<St> = seq![mk(e@, *pool, usr(e@, *from), nothing(), nothing())];
lemma_chain0(tr, qs); lemma_sub(e@, e@, e@);
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == qs
- tr.len() == it_i0 + 1 && tr.last() == (mk(w, *pool, from_state, actions.spender_transfer@, actions.pool_transfer@))
- tr[0] == (mk(w0, *old(pool), usr(w0, *from), nothing(), nothing()))
- [C16 C20 C30] pool_wf(*pool, w) && pool_same(*old(pool), *pool) && idx_ok(w) && sub_frame(w0, w) && from_state.address == *from
- [C18] forall|i: int| 0 <= i < it_i0 ==> gate(old(pool).config.status, (#[trigger] qs[i]).request_type)
- [C17] forall|i: int| 0 <= i < it_i0 && risky((#[trigger] qs[i]).request_type) ==> check_health
- [C16 C20 C30] chain(0, tr, qs, it_i0 as int)
- [C16] chain(1, tr, qs, it_i0 as int)
- [C15 C31] chain(2, tr, qs, it_i0 as int)
- [C15 C31] chain(3, tr, qs, it_i0 as int)
- [C19] chain(4, tr, qs, it_i0 as int)
- [C26] chain(5, tr, qs, it_i0 as int)
- [C22] chain(6, tr, qs, it_i0 as int)
- [C16 C23 C24 C25] chain(7, tr, qs, it_i0 as int)
- [C22 C24 C25 C31] chain(8, tr, qs, it_i0 as int)
- [C23] chain(9, tr, qs, it_i0 as int)
loopstart 0
ghost (k, s, v1) = (it_i0 as int, tr.last(), e@);
loopend 0
ghost t = mk(w, *pool, from_state, actions.spender_transfer@, actions.pool_transfer@);
lemma_req(s, t, qs[k]); lemma_fill_step(s, t, qs[k]); lemma_del(s, t, qs[k]); lemma_sub(w0, v1, w);
lemma_chain(tr, t, qs, k);
tr = tr.push(t);
end
assert(tr.last() == mk(w, *pool, ret__.1, ret__.0.spender_transfer@, ret__.0.pool_transfer@));
assert(batch(w0, *old(pool), *from, qs, tr));

fn contract::PoolContract::submit(e, from, spender, to, requests) -> r
panics [C18] BadRequest: from == w0.this || spender == w0.this || to == w0.this
panics [C17] InvalidHf: true
panics [C18] *: false
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide pool_wf idx_ok accrued settled batch st stored pool_eq fin_pos priced pdata_ok hf_under only
requires
- idx_ok(w0)
ensures
- [C29] w1.auths =~= w0.auths.insert(spender).insert(from)
- [C16 C29 C31] from != w0.this && spender != w0.this && to != w0.this
- [C15 C16 C19 C20 C22 C23 C24 C25 C26] exists|p: Pool, tr: Seq<St>| #[trigger] batch(signed(w0, w1), p, from, requests@, tr) && fresh_pool(p, w0) && fin_pos(tr.last(), w1) && r == tr.last().u.positions
- [C31] exists|p: Pool, tr: Seq<St>| #[trigger] batch(signed(w0, w1), p, from, requests@, tr) && fresh_pool(p, w0) && fin_pay(tr.last(), w1, spender, to)
- [C17 C32] exists|p: Pool, tr: Seq<St>| #[trigger] batch(signed(w0, w1), p, from, requests@, tr) && fresh_pool(p, w0) && fin_pos(tr.last(), w1) && (any_risky(requests@) && !no_debt(tr.last().u.positions) ==> healthy(tr.last(), 1_0000100))
- [C18] p_config(w0) is Some && forall|i: int| 0 <= i < requests@.len() ==> gate((p_config(w0)->0).status, (#[trigger] requests@[i]).request_type)
- [C19] npos(posof(w1, from)) <= npos(posof(w0, from)) || npos(posof(w1, from)) <= (p_config(w0)->0).max_positions
- [C16 C20 C29 C30] sub_all(w0, w1) && idx_ok(w1)
start
ghost qs = requests@;
ghost (f0, s0, t0) = (from, spender, to);
ghost mut v0: World = e@;
ghost mut v: World = e@;
ghost mut va: World = e@;
ghost mut vb: World = e@;
ghost mut wa: World = e@;
ghost mut wb: World = e@;
ghost mut tr: Seq<St> = Seq::empty();
ghost mut pe: Pool = arbitrary();
ghost mut p0: Pool = arbitrary();
before build_actions_from_request 0
p0 = pool;
v0 = e@;
pe = pool;
lemma_fresh(pool, e@); lemma_quiet(w0, e@);
after build_actions_from_request 0
v = e@;
tr = choose|tr: Seq<St>| #[trigger] batch(v0, p0, f0, qs, tr) && tr.last() == mk(v, pool, new_from_state, actions.spender_transfer@, actions.pool_transfer@);
lemma_pdata_uniq(tr.last().p, v, tr.last().u.positions, 1_0000100);
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(tr.last().at)
- w == (World { calls: w.calls, ..wa })
- [C31] w.calls == wa.calls + pays(s0, v.this, entries(tr.last().at), it_i0 as int)
- [C17 C32] any_risky(qs) && !no_debt(tr.last().u.positions) ==> healthy(tr.last(), 1_0000100)
looppre 0
wa = e@;
assert(wa.calls + pays(s0, v.this, entries(tr.last().at), 0) =~= wa.calls);
loopend 0
assert(wa.calls + pays(s0, v.this, entries(tr.last().at), it_i0 as int) =~= (wa.calls + pays(s0, v.this, entries(tr.last().at), it_i0 - 1)).push(Call::Transfer { token: address, from: s0, to: v.this, amount }));
before store_cached_reserves 0
va = e@; pe = pool;
lemma_pre_store(v, pe, va, f0, f0);
after store_cached_reserves 0
vb = e@;
lemma_keep_pos(va, vb, f0, f0);
loop 1
- it_i1 <= it_s1@.len() && it_s1@ == entries(tr.last().pt)
- w == (World { calls: w.calls, ..wb })
- [C31] w.calls == wb.calls + pays(v.this, t0, entries(tr.last().pt), it_i1 as int)
looppre 1
wb = e@;
assert(wb.calls + pays(v.this, t0, entries(tr.last().pt), 0) =~= wb.calls);
loopend 1
assert(wb.calls + pays(v.this, t0, entries(tr.last().pt), it_i1 as int) =~= (wb.calls + pays(v.this, t0, entries(tr.last().pt), it_i1 - 1)).push(Call::Transfer { token: address, from: v.this, to: t0, amount }));
end
assert(vb.pers.contains_key(k_pos(f0)) == va.pers.contains_key(k_pos(f0)));
assert(tr.last().u.address == f0);
assert(w.pers[k_pos(f0)] == enc(tr.last().u.positions));
lemma_fin2(tr.last(), pe, va, vb, w);
lemma_sub_all(w0, v0, v, w);
assert(batch(signed(w0, w), p0, f0, qs, tr));

# ---------------------------------------------------------------- bad debt
fn contract::PoolContract::bad_debt(e, user)
panics [C24] *: user == p_backstop(w0)->0 || posof(w0, user).collateral@ != Map::<u32, i128>::empty() || no_debt(posof(w0, user))
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide pool_wf idx_ok accrued settled stored bd_emis only ers_same
requires
- idx_ok(w0)
ensures
- [C24] p_backstop(w0) is Some && user != p_backstop(w0)->0 && posof(w0, user).collateral@ == Map::<u32, i128>::empty() && !no_debt(posof(w0, user))
- [C16 C24] bd_fin(w0, w1, p_backstop(w0)->0, user)
- [C16 C20 C24] exists|p: Pool| #[trigger] fresh_pool(p, w0) && bd_res(p, w0, w1)
- [C26] exists|p: Pool| #[trigger] fresh_pool(p, w0) && bd_emis(w0, w1, p, usr(w0, p_backstop(w0)->0), usr(w0, user), entries(posof(w0, user).liabilities@).len() as int)
- [C16 C20 C29 C30] idx_ok(w1) && w1 == (World { pers: w1.pers, ..w0 }) && only(w0.pers, w1.pers, |k: SKey| sub_key2(k))
start
ghost b = p_backstop(e@)->0;
ghost (b0, u0) = (usr(e@, b), usr(e@, user));
ghost u = user;
ghost mut p0: Pool = arbitrary();
ghost mut pe: Pool = arbitrary();
ghost mut be: User = arbitrary();
ghost mut ue: User = arbitrary();
ghost mut v: World = e@;
ghost mut va: World = e@;
ghost mut vb: World = e@;
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(u0.positions.liabilities@)
- v == w
- [C16 C20 C24] bd_frame(w0, w, p0, pool, b, u)
- [C16 C24] new_backstop_state.address == b && new_user_state.address == u && bd_pos(b0.positions, new_backstop_state.positions, u0.positions, new_user_state.positions, it_i0 as int)
- [C26] bd_emis(w0, w, p0, b0, u0, it_i0 as int)
looppre 0
p0 = pool; v = e@;
lemma_fresh(pool, e@);
lemma_bd0(e@, p0, b0, u0);
loopstart 0
ghost (k, v1, p1, b1, u1) = (it_i0 as int, e@, pool, new_backstop_state, new_user_state);
ghost mut vm: World = e@;
ghost mut rm: Reserve = arbitrary();
after add_liabilities 0
vm = e@; rm = reserve;
loopend 0
v = e@;
lemma_bd_step(w0, v1, vm, w, p0, p1, pool, b0, u0, b1, u1, new_backstop_state, new_user_state, k, asset, rm);
before store_cached_reserves 0
va = e@; pe = pool; be = new_backstop_state; ue = new_user_state;
lemma_pre_store(v, pe, va, b, u);
after store_cached_reserves 0
vb = e@;
lemma_keep_pos(va, vb, b, u);
end
lemma_bd_fin2(w0, v, va, vb, w, p0, pe, b0, u0, be, ue);
assert(fresh_pool(p0, w0) && bd_res(p0, w0, w));
assert(fresh_pool(p0, w0) && bd_emis(w0, w, p0, b0, u0, entries(u0.positions.liabilities@).len() as int));

# ---------------------------------------------------------------- creating auctions
fn contract::PoolContract::new_interest_auction(e, assets) -> r
panics [C25] BadRequest: true
panics [C25] *: auct(w0, bs(w0), 2) is Some || credit_value(w0, assets@, assets@.len() as int) <= 200 * odec(w0)
attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
hide accrued idx_ok loaded
acc 0 auction_data.lot
acc 0 interest_value
ensures
- [C25] p_backstop(w0) is Some && auct(w0, bs(w0), 2) is None && p_config(w0) is Some
- [C25] credit_lot(w0, assets@, assets@.len() as int, r.lot@)
- [C25] credit_value(w0, assets@, assets@.len() as int) > 200 * odec(w0)
- [C25] r.bid@ == nothing().insert(bs_token(bs(w0)), worth140(w0, bs_data(w0), credit_value(w0, assets@, assets@.len() as int)) as i128) && i128fits(worth140(w0, bs_data(w0), credit_value(w0, assets@, assets@.len() as int)))
- [C32] credit_priced(w0, assets@, assets@.len() as int)
- [C22 C25] r.block == w0.seq + 1
- [C16 C20 C25 C29 C30] w1 == with_auct(w0, bs(w0), 2, r)
start
ghost qs = assets@;
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == qs && w == w0 && still_fresh(pool, w0)
- [C25] credit_lot(w0, qs, it_i0 as int, auction_data.lot@)
- [C25] interest_value as int == credit_value(w0, qs, it_i0 as int)
- [C25] auction_data.bid@ == nothing() && auction_data.block == w0.seq + 1
- [C32] credit_priced(w0, qs, it_i0 as int)
loopstart 0
ghost (k, l0) = (it_i0 as int, auction_data.lot@);
lemma_still(pool, w0);
loopend 0
lemma_credit(w0, qs, k, l0, auction_data.lot@);

fn contract::PoolContract::new_bad_debt_auction(e) -> r
panics [C24] AuctionInProgress: auct(w0, bs(w0), 1) is Some
panics [C24] BadRequest: debt_value_n(w0, m, m.len() as int) == 0
attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
hide accrued loaded
requires
- idx_ok(w0)
acc 0 auction_data.bid
acc 0 debt_value
ensures
- [C24] p_backstop(w0) is Some && auct(w0, bs(w0), 1) is None && p_config(w0) is Some
- [C24] lst_all(w0, posof(w0, bs(w0)).liabilities@, r.bid@, 2, 0, 0) && r.bid@ != nothing()
- [C24] debt_value_n(w0, posof(w0, bs(w0)).liabilities@, posof(w0, bs(w0)).liabilities@.len() as int) != 0
- [C24] ({ let v = debt_value_n(w0, posof(w0, bs(w0)).liabilities@, posof(w0, bs(w0)).liabilities@.len() as int); let n = imin(bs_data(w0).tokens as int, worth140(w0, bs_data(w0), v)); r.lot@ == nothing().insert(bs_token(bs(w0)), n as i128) && i128fits(n) })
- [C32] debt_priced(w0, posof(w0, bs(w0)).liabilities@, posof(w0, bs(w0)).liabilities@.len() as int)
- [C22 C24] r.block == w0.seq + 1
- [C16 C20 C24 C29 C30] w1 == with_auct(w0, bs(w0), 1, r)
start
ghost m = posof(e@, bs(e@)).liabilities@;
assert(entries(m).len() == m.len());
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(m) && w == w0 && still_fresh(pool, w0)
- [C24] lst(w0, m, auction_data.bid@, it_i0 as int, 2, 0, 0)
- [C24] debt_value as int == debt_value_n(w0, m, it_i0 as int)
- [C24] auction_data.bid@ == nothing() ==> debt_value == 0
- [C24] auction_data.lot@ == nothing() && auction_data.block == w0.seq + 1
- [C32] debt_priced(w0, m, it_i0 as int)
loopstart 0
ghost (k, l0) = (it_i0 as int, auction_data.bid@);
lemma_still(pool, w0);
loopend 0
assert(entries(m)[k].1 > 0 ==> auction_data.bid@.contains_key(rlist(w0)[entries(m)[k].0 as int]));
assert(!nothing().contains_key(rlist(w0)[entries(m)[k].0 as int]));
lemma_lst(w0, m, l0, auction_data.bid@, k, 2, 0, 0, rlist(w0)[entries(m)[k].0 as int], entries(m)[k].1);

fn contract::PoolContract::new_liquidation_auction(e, user, percent_liquidated) -> r
panics [C23] AuctionInProgress: auct(w0, user, 0) is Some
panics [C23] InvalidLiquidation: user == w0.this || user == bs(w0) || percent_liquidated == 0 || percent_liquidated > 100 || (pdata_ok(p0, w0, x0, d) && fresh_pool(p0, w0) && d.liability_base < d.collateral_base)
panics [C23] InvalidLiqTooLarge: pdata_ok(p0, w0, x0, d) && fresh_pool(p0, w0) && (if percent_liquidated == 100 { liq_est(d, 100) < d.collateral_raw } else { hf_over(d2, 1_1500000) })
panics [C23] InvalidLiqTooSmall: percent_liquidated != 100 && hf_under(d2, 1_0300000)
attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
hide accrued loaded bulk_pos bulk_emis
requires
- idx_ok(w0)
ensures
- [C23] p_backstop(w0) is Some && user != w0.this && user != bs(w0) && auct(w0, user, 0) is None && 1 <= percent_liquidated <= 100
- [C23] exists|p: Pool, d: PositionData| #[trigger] pdata_ok(p, w0, posof(w0, user), d) && fresh_pool(p, w0) && d.liability_base >= d.collateral_base && liq_terms(w0, posof(w0, user), d, percent_liquidated as int, r) && liq_sized(w0, p, user, d, percent_liquidated as int, r, untemp(w0, w1))
- [C32] exists|p: Pool| #[trigger] fresh_pool(p, w0) && priced(p, w0, posof(w0, user), rlist(w0).len() as int)
- [C22 C23] r.block == w0.seq + 1
- [C26] percent_liquidated < 100 ==> exists|p: Pool| #[trigger] fresh_pool(p, w0) && bulk_emis(w0, untemp(w0, w1), p, usr(w0, user), r.lot@, r.bid@)
- [C16 C20 C23 C29 C30] percent_liquidated == 100 ==> w1 == with_auct(w0, user, 0, r)
- [C16 C20 C23 C29 C30] w1 == with_auct(World { pers: w1.pers, ..w0 }, user, 0, r) && only(w0.pers, w1.pers, |k: SKey| emis_key(k, user))
start
ghost u = user;
ghost (x0, mc, ml) = (posof(e@, user), posof(e@, user).collateral@, posof(e@, user).liabilities@);
ghost mut p0: Pool = arbitrary();
ghost mut p1: Pool = arbitrary();
ghost mut p2: Pool = arbitrary();
ghost mut d: PositionData = arbitrary();
ghost mut x2: User = arbitrary();
ghost mut d2: PositionData = arbitrary();
ghost mut v: World = e@;
assert(entries(mc).len() == mc.len()); assert(entries(ml).len() == ml.len());
before calculate_from_positions 0
p0 = pool; lemma_fresh(pool, e@);
after calculate_from_positions 0
p1 = pool; d = position_data;
over 0 \.collateral
over 1 \.liabilities
acc 0 liquidation_quote.lot
acc 1 liquidation_quote.bid
looppre 0
ghost b0 = liquidation_quote.bid@;
looppre 1
ghost l1 = liquidation_quote.lot@;
loop 0
- it_i0 <= it_s0@.len() && it_s0@ == entries(mc) && w == w0
- [C23] lst(w0, mc, liquidation_quote.lot@, it_i0 as int, 0, liq_cshare(d, percent_liquidated as int), d.scalar as int)
- [C23] liquidation_quote.bid@ == b0 && liquidation_quote.block == w0.seq + 1
loopstart 0
ghost (k, l0) = (it_i0 as int, liquidation_quote.lot@);
loopend 0
lemma_lst(w0, mc, l0, liquidation_quote.lot@, k, 0, liq_cshare(d, percent_liquidated as int), d.scalar as int, rlist(w0)[entries(mc)[k].0 as int], liquidation_quote.lot@[rlist(w0)[entries(mc)[k].0 as int]]);
loop 1
- it_i1 <= it_s1@.len() && it_s1@ == entries(ml) && w == w0
- [C23] liquidation_quote.lot@ == l1
- [C23] lst(w0, ml, liquidation_quote.bid@, it_i1 as int, 0, liq_share(d, percent_liquidated as int), d.scalar as int) && liquidation_quote.block == w0.seq + 1
loopstart 1
ghost (k, l0) = (it_i1 as int, liquidation_quote.bid@);
loopend 1
lemma_lst(w0, ml, l0, liquidation_quote.bid@, k, 0, liq_share(d, percent_liquidated as int), d.scalar as int, rlist(w0)[entries(ml)[k].0 as int], liquidation_quote.bid@[rlist(w0)[entries(ml)[k].0 as int]]);
before calculate_from_positions 1
p2 = pool; x2 = user_state; v = e@;
after calculate_from_positions 1
d2 = new_data;
lemma_liq(w0, p0, p1, p2, x2, v, u, liquidation_quote.lot@, liquidation_quote.bid@);
end
assert(untemp(w0, w) == v);
assert(fresh_pool(p0, w0) && pdata_ok(p0, w0, x0, d));
assert(percent_liquidated < 100 && liq_after(w0, p0, p2, usr(w0, u), x2, v, d2, ret__) ==> liq_sized(w0, p0, u, d, percent_liquidated as int, ret__, v));

fn contract::PoolContract::get_positions(e, address) -> r
panics [C16] *: false
ensures
- [C16] r == posof(w0, address)
- [C16 C29 C30] w1 == w0

fn contract::PoolContract::get_auction(e, auction_type, user) -> r
panics [C22] *: false
ensures
- [C22] auct(w0, user, auction_type) == Some(r)
- [C22 C29 C30] w1 == w0
