// ---- other contracts called by the backstop
pub uninterp spec fn emitter_last(calls: Seq<Call>, emitter: Address, who: Address) -> u64;
pub uninterp spec fn factory_is_pool(calls: Seq<Call>, factory: Address, a: Address) -> bool;
/// LP tokens an exchange hands out for a single-sided deposit
pub uninterp spec fn comet_out(calls: Seq<Call>, comet: Address, token: Address, amount: i128) -> i128;
pub struct EmitterClient { pub id: Address }
impl EmitterClient {
    pub fn new(a: &Address) -> (r: EmitterClient) ensures r.id == *a { EmitterClient { id: a.vclone() } }
    #[verifier::external_body] pub fn get_last_distro(&self, e: &mut Env, who: &Address) -> (r: u64) ensures final(e)@ == old(e)@, r == emitter_last(old(e)@.calls, self.id, *who) { unimplemented!() }
    #[verifier::external_body] pub fn drop(&self, e: &mut Env, list: &SVec<(Address, i128)>) ensures final(e)@ == logc(old(e)@, Call::EmitterDrop { emitter: self.id, list: list@ }) { unimplemented!() }
}
pub struct PoolFactoryClient { pub id: Address }
impl PoolFactoryClient {
    pub fn new(a: &Address) -> (r: PoolFactoryClient) ensures r.id == *a { PoolFactoryClient { id: a.vclone() } }
    #[verifier::external_body] pub fn is_pool(&self, e: &mut Env, a: &Address) -> (r: bool) ensures final(e)@ == old(e)@, r == factory_is_pool(old(e)@.calls, self.id, *a) { unimplemented!() }
}
pub struct CometClient { pub id: Address }
impl CometClient {
    pub fn new(a: &Address) -> (r: CometClient) ensures r.id == *a { CometClient { id: a.vclone() } }
    #[verifier::external_body] pub fn get_total_supply(&self, e: &mut Env) -> (r: i128) ensures final(e)@ == old(e)@, r == tok_supply(old(e)@.calls, self.id) { unimplemented!() }
    /// the exchange never hands out a negative amount
    #[verifier::external_body] pub fn dep_tokn_amt_in_get_lp_tokns_out(&self, e: &mut Env, token: &Address, amount: &i128, min_out: &i128, user: &Address) -> (r: i128)
        ensures r >= *min_out, r == comet_out(old(e)@.calls, self.id, *token, *amount), final(e)@ == logc(old(e)@, Call::CometDeposit { comet: self.id, token: *token, amount: *amount, min_out: *min_out, user: *user }) { unimplemented!() }
}
