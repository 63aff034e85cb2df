// ---- emitter: names for the stored state
pub open spec fn e_init(w: World) -> bool { w.inst.contains_key(SKey::Sym(sym!("IsInit"))) }
pub open spec fn e_blnd(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("BLNDTkn"))) }
pub open spec fn e_backstop(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("Backstop"))) }
pub open spec fn e_btoken(w: World) -> Option<Address> { mget::<Address>(w.inst, SKey::Sym(sym!("BToken"))) }
pub open spec fn e_swap(w: World) -> Option<Swap> { mget::<Swap>(w.pers, SKey::Sym(sym!("Swap"))) }
pub open spec fn k_last(b: Address) -> SKey { SKey::K_EmitterDataKey(EmitterDataKey::LastDistro(b)) }
pub open spec fn k_dropped(b: Address) -> SKey { SKey::K_EmitterDataKey(EmitterDataKey::Dropped(b)) }
pub open spec fn e_last(w: World, b: Address) -> Option<u64> { mget::<u64>(w.pers, k_last(b)) }
pub open spec fn e_dropped(w: World, b: Address) -> bool { mget::<bool>(w.pers, k_dropped(b)) == Some(true) }
/// `new` holds strictly more of the current backstop token than the current backstop does
pub open spec fn e_larger(w: World, new: Address) -> bool {
    tok_balance(w.calls, e_btoken(w)->0, new) > tok_balance(w.calls, e_btoken(w)->0, e_backstop(w)->0)
}
pub open spec fn sum_amt(s: Seq<(Address, i128)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_amt(s.drop_last()) + s.last().1 } }
pub open spec fn mint_calls(tok: Address, s: Seq<(Address, i128)>) -> Seq<Call> { Seq::new(s.len(), |i: int| Call::Mint { token: tok, to: s[i].0, amount: s[i].1 }) }
/// emissions of one step: minted amount equals the time by which the active backstop's clock advanced
pub open spec fn e_emit(w0: World, w1: World, b: Address, amount: int) -> bool {
    &&& e_last(w0, b) is Some && e_last(w0, b)->0 <= w0.ts
    &&& amount == (w0.ts - e_last(w0, b)->0) * 10_000_000
    &&& w1.calls == w0.calls.push(Call::Mint { token: e_blnd(w0)->0, to: b, amount: amount as i128 })
    &&& e_last(w1, b) == Some(w0.ts)
}
/// nothing about the queued swap or the active backstop changed
pub open spec fn e_swap_same(w0: World, w1: World) -> bool {
    e_swap(w1) == e_swap(w0) && e_backstop(w1) == e_backstop(w0) && e_btoken(w1) == e_btoken(w0)
}
/// no emission clock changed
pub open spec fn e_clock_same(w0: World, w1: World) -> bool { forall|b: Address| #[trigger] e_last(w1, b) == e_last(w0, b) }
pub open spec fn e_drop_same(w0: World, w1: World) -> bool { forall|b: Address| #[trigger] e_dropped(w1, b) == e_dropped(w0, b) }
pub open spec fn e_token_same(w0: World, w1: World) -> bool { e_blnd(w1) == e_blnd(w0) && (e_init(w0) ==> e_init(w1)) }
