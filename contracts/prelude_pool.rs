// ---- other contracts called by a pool
pub struct PoolBackstopData { pub blnd: i128, pub q4w_pct: i128, pub tokens: i128, pub usdc: i128 }
pub uninterp spec fn bs_pool_data(calls: Seq<Call>, backstop: Address, pool: Address) -> PoolBackstopData;
pub uninterp spec fn bs_token(backstop: Address) -> Address;
/// emissions the backstop hands to the pool on this gulp
pub uninterp spec fn bs_gulped(calls: Seq<Call>, backstop: Address, pool: Address) -> i128;
pub struct BackstopClient { pub id: Address }
impl BackstopClient {
    pub fn new(a: &Address) -> (r: BackstopClient) ensures r.id == *a { BackstopClient { id: a.vclone() } }
    #[verifier::external_body] pub fn pool_data(&self, e: &mut Env, p: &Address) -> (r: PoolBackstopData) ensures final(e)@ == old(e)@, r == bs_pool_data(old(e)@.calls, self.id, *p) { unimplemented!() }
    /// the backstop's token is fixed at its initialisation
    #[verifier::external_body] pub fn backstop_token(&self, e: &mut Env) -> (r: Address) ensures final(e)@ == old(e)@, r == bs_token(self.id) { unimplemented!() }
    #[verifier::external_body] pub fn draw(&self, e: &mut Env, pool: &Address, amount: &i128, to: &Address) ensures final(e)@ == logc(old(e)@, Call::BackstopDraw { backstop: self.id, pool: *pool, amount: *amount, to: *to }) { unimplemented!() }
    #[verifier::external_body] pub fn donate(&self, e: &mut Env, from: &Address, pool: &Address, amount: &i128) ensures final(e)@ == logc(old(e)@, Call::BackstopDonate { backstop: self.id, from: *from, pool: *pool, amount: *amount }) { unimplemented!() }
    #[verifier::external_body] pub fn gulp_pool_emissions(&self, e: &mut Env, pool: &Address) -> (r: i128) ensures r == bs_gulped(old(e)@.calls, self.id, *pool), final(e)@ == logc(old(e)@, Call::BackstopGulpPool { backstop: self.id, pool: *pool }) { unimplemented!() }
}
/// sep_40_oracle
pub enum Asset { Stellar(Address), Other(Symbol) }
pub struct PriceData { pub price: i128, pub timestamp: u64 }
/// an oracle answers the same throughout one invocation (one ledger time)
pub uninterp spec fn oracle_last(ts: u64, oracle: Address, a: Address) -> Option<PriceData>;
pub uninterp spec fn oracle_other(ts: u64, oracle: Address, a: Symbol) -> Option<PriceData>;
pub uninterp spec fn oracle_dec(oracle: Address) -> u32;
pub struct PriceFeedClient { pub id: Address }
impl PriceFeedClient {
    pub fn new(a: &Address) -> (r: PriceFeedClient) ensures r.id == *a { PriceFeedClient { id: a.vclone() } }
    #[verifier::external_body] pub fn decimals(&self, e: &mut Env) -> (r: u32) ensures final(e)@ == old(e)@, r == oracle_dec(self.id) { unimplemented!() }
    #[verifier::external_body] pub fn lastprice(&self, e: &mut Env, a: &Asset) -> (r: Option<PriceData>)
        ensures final(e)@ == old(e)@, r == (match *a { Asset::Stellar(x) => oracle_last(old(e)@.ts, self.id, x), Asset::Other(x) => oracle_other(old(e)@.ts, self.id, x) }) { unimplemented!() }
}
