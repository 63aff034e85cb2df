fn emitter::execute_distribute(e, backstop) -> r
panics [C01] *: false
ensures
- [C01 C02] e_last(w0, *backstop) is Some && e_last(w0, *backstop)->0 <= w0.ts && e_blnd(w0) is Some
- [C01] r == (w0.ts - e_last(w0, *backstop)->0) * 10_000_000
- [C01 C02 C30] w1 == (World { pers: w0.pers.insert(k_last(*backstop), enc(w0.ts)), calls: w0.calls.push(Call::Mint { token: e_blnd(w0)->0, to: *backstop, amount: r }), ..w0 })

fn emitter::execute_drop(e, list)
panics [C03] *: e_dropped(w0, e_backstop(w0)->0) || sum_amt(list@.take(list@.len() as int)) > 50_000_000 * 10_000_000
acc 0 drop_amount
ensures
- [C03] e_backstop(w0) is Some && w1.auths.contains(e_backstop(w0)->0)
- [C03] !e_dropped(w0, e_backstop(w0)->0)
- [C03] sum_amt(list@) <= 50_000_000 * 10_000_000
- [C03 C01 C02 C30] w1 == (World { pers: w0.pers.insert(k_dropped(e_backstop(w0)->0), enc(true)), calls: w0.calls + mint_calls(e_blnd(w0)->0, list@), auths: w0.auths.insert(e_backstop(w0)->0), ..w0 })
start
ghost mut wa: World = e@;
loop 0
- it_i0 <= it_s0@.len()
- drop_amount as int == sum_amt(list@.take(it_i0 as int))
loopend 0
assert(list@.take(it_i0 as int).drop_last() =~= list@.take(it_i0 - 1));
looppre 1
wa = e@;
assert(wa.calls + mint_calls(e_blnd(w0)->0, list@.take(0)) =~= wa.calls);
loop 1
- it_i1 <= it_s1@.len()
- w == (World { calls: wa.calls + mint_calls(e_blnd(w0)->0, list@.take(it_i1 as int)), ..wa })
loopend 1
assert(w.calls =~= wa.calls + mint_calls(e_blnd(w0)->0, list@.take(it_i1 as int)));
end
assert(list@.take(list@.len() as int) =~= list@);

fn backstop_manager::execute_queue_swap_backstop(e, new_backstop, new_backstop_token) -> r
panics [C02] *: e_swap(w0) is Some || !e_larger(w0, *new_backstop)
ensures
- [C02] e_swap(w0) is None
- [C02] e_backstop(w0) is Some && e_btoken(w0) is Some && e_larger(w0, *new_backstop)
- [C02] r == (Swap { new_backstop: *new_backstop, new_backstop_token: *new_backstop_token, unlock_time: (w0.ts + 31 * 24 * 60 * 60) as u64 }) && w0.ts + 31 * 24 * 60 * 60 <= u64::MAX
- [C02 C01 C03 C30] w1 == (World { pers: w0.pers.insert(SKey::Sym(sym!("Swap")), enc(r)), ..w0 })

fn backstop_manager::execute_cancel_swap_backstop(e) -> r
panics [C02] *: e_swap(w0) is None || e_larger(w0, (e_swap(w0)->0).new_backstop)
ensures
- [C02] e_swap(w0) == Some(r)
- [C02] e_backstop(w0) is Some && e_btoken(w0) is Some && !e_larger(w0, r.new_backstop)
- [C02 C01 C03 C30] w1 == (World { pers: w0.pers.remove(SKey::Sym(sym!("Swap"))), ..w0 })

fn backstop_manager::execute_swap_backstop(e) -> r
panics [C01 C02] *: e_swap(w0) is None || (e_swap(w0)->0).unlock_time > w0.ts || !e_larger(w0, (e_swap(w0)->0).new_backstop)
ensures
- [C02] e_swap(w0) == Some(r) && r.unlock_time <= w0.ts
- [C02] e_backstop(w0) is Some && e_btoken(w0) is Some && e_larger(w0, r.new_backstop)
- [C02] e_swap(w1) is None && e_backstop(w1) == Some(r.new_backstop) && e_btoken(w1) == Some(r.new_backstop_token)
- [C01] e_last(w0, e_backstop(w0)->0) is Some && e_last(w0, e_backstop(w0)->0)->0 <= w0.ts
- [C01] w1.calls == w0.calls.push(Call::Mint { token: e_blnd(w0)->0, to: e_backstop(w0)->0, amount: ((w0.ts - e_last(w0, e_backstop(w0)->0)->0) * 10_000_000) as i128 })
- [C01] e_last(w1, e_backstop(w0)->0) == Some(w0.ts) && e_last(w1, r.new_backstop) == Some(w0.ts)
- [C01] forall|b: Address| b != e_backstop(w0)->0 && b != r.new_backstop ==> #[trigger] e_last(w1, b) == e_last(w0, b)
- [C03] e_drop_same(w0, w1) && w1.auths == w0.auths
- [C01 C02 C03 C30] e_token_same(w0, w1)

fn contract::EmitterContract::initialize(e, blnd_token, backstop, backstop_token)
panics [C30] *: e_init(w0)
ensures
- [C30] !e_init(w0)
- [C30] e_init(w1) && e_blnd(w1) == Some(blnd_token) && e_backstop(w1) == Some(backstop) && e_btoken(w1) == Some(backstop_token)
- [C01 C30] w1.calls == w0.calls && e_last(w1, backstop) == Some(w0.ts)
- [C01 C30] forall|b: Address| b != backstop ==> #[trigger] e_last(w1, b) == e_last(w0, b)
- [C02] e_swap(w1) == e_swap(w0)
- [C03] e_drop_same(w0, w1)

fn contract::EmitterContract::distribute(e) -> r
panics [C01] *: false
ensures
- [C01] e_backstop(w0) is Some && e_emit(w0, w1, e_backstop(w0)->0, r as int)
- [C01] forall|b: Address| b != e_backstop(w0)->0 ==> #[trigger] e_last(w1, b) == e_last(w0, b)
- [C02 C30] e_swap_same(w0, w1)
- [C03] e_drop_same(w0, w1)
- [C01 C02 C03 C30] e_token_same(w0, w1)

fn contract::EmitterContract::get_last_distro(e, backstop_id) -> r
ensures
- [C01] e_last(w0, backstop_id) == Some(r)
- [C01 C02 C03 C30] w1 == w0

fn contract::EmitterContract::get_backstop(e) -> r
ensures
- [C01 C02] e_backstop(w0) == Some(r)
- [C01 C02 C03 C30] w1 == w0

fn contract::EmitterContract::get_queued_swap(e) -> r
ensures
- [C02] r == e_swap(w0)
- [C01 C02 C03 C30] w1 == w0

fn contract::EmitterContract::queue_swap_backstop(e, new_backstop, new_backstop_token)
panics [C02] *: false
ensures
- [C02] e_swap(w0) is None && e_larger(w0, new_backstop)
- [C02] e_swap(w1) == Some(Swap { new_backstop, new_backstop_token, unlock_time: (w0.ts + 31 * 24 * 60 * 60) as u64 }) && w0.ts + 31 * 24 * 60 * 60 <= u64::MAX
- [C02 C30] e_backstop(w1) == e_backstop(w0) && e_btoken(w1) == e_btoken(w0)
- [C01] e_clock_same(w0, w1)
- [C01 C03] w1.calls == w0.calls
- [C03] e_drop_same(w0, w1)
- [C01 C02 C03 C30] e_token_same(w0, w1)

fn contract::EmitterContract::cancel_swap_backstop(e)
panics [C02] *: false
ensures
- [C02] e_swap(w0) is Some && !e_larger(w0, (e_swap(w0)->0).new_backstop)
- [C02] e_swap(w1) is None
- [C02 C30] e_backstop(w1) == e_backstop(w0) && e_btoken(w1) == e_btoken(w0)
- [C01] e_clock_same(w0, w1)
- [C01 C03] w1.calls == w0.calls
- [C03] e_drop_same(w0, w1)
- [C01 C02 C03 C30] e_token_same(w0, w1)

fn contract::EmitterContract::swap_backstop(e)
panics [C01 C02] *: false
ensures
- [C02] e_swap(w0) is Some && (e_swap(w0)->0).unlock_time <= w0.ts && e_larger(w0, (e_swap(w0)->0).new_backstop)
- [C02] e_swap(w1) is None && e_backstop(w1) == Some((e_swap(w0)->0).new_backstop) && e_btoken(w1) == Some((e_swap(w0)->0).new_backstop_token)
- [C01] e_emit(w0, w1, e_backstop(w0)->0, (w0.ts - e_last(w0, e_backstop(w0)->0)->0) * 10_000_000)
- [C01] e_last(w1, (e_swap(w0)->0).new_backstop) == Some(w0.ts)
- [C01] forall|b: Address| b != e_backstop(w0)->0 && b != (e_swap(w0)->0).new_backstop ==> #[trigger] e_last(w1, b) == e_last(w0, b)
- [C03] e_drop_same(w0, w1)
- [C01 C02 C03 C30] e_token_same(w0, w1)

fn contract::EmitterContract::drop(e, list)
panics [C03] *: false
ensures
- [C03] e_backstop(w0) is Some && w1.auths.contains(e_backstop(w0)->0)
- [C03] !e_dropped(w0, e_backstop(w0)->0) && e_dropped(w1, e_backstop(w0)->0)
- [C03] forall|b: Address| b != e_backstop(w0)->0 ==> #[trigger] e_dropped(w1, b) == e_dropped(w0, b)
- [C03] sum_amt(list@) <= 50_000_000 * 10_000_000
- [C03] w1.calls == w0.calls + mint_calls(e_blnd(w0)->0, list@)
- [C01] e_clock_same(w0, w1)
- [C02 C30] e_swap_same(w0, w1)
- [C01 C02 C03 C30] e_token_same(w0, w1)
