//! minimal native token, oracle and LP contracts for the bounded replay

pub mod token {
use soroban_sdk::{contract, contractimpl, contracttype, Address, Env, Symbol};
#[contracttype]
pub enum TK { Bal(Address), Allow(Address, Address), Sup, Dec }

#[contract]
pub struct Token;
fn get(e: &Env, k: &TK) -> i128 { e.storage().persistent().get(k).unwrap_or(0) }
fn add(e: &Env, a: &Address, d: i128) {
    let k = TK::Bal(a.clone());
    let b = get(e, &k) + d;
    if b < 0 { panic!("balance"); }
    e.storage().persistent().set(&k, &b);
}
#[contractimpl]
impl Token {
    pub fn setup(e: Env, dec: u32) { e.storage().persistent().set(&TK::Dec, &dec); }
    pub fn decimals(e: Env) -> u32 { e.storage().persistent().get(&TK::Dec).unwrap_or(7) }
    pub fn balance(e: Env, id: Address) -> i128 { get(&e, &TK::Bal(id)) }
    pub fn get_total_supply(e: Env) -> i128 { get(&e, &TK::Sup) }
    pub fn total_supply(e: Env) -> i128 { get(&e, &TK::Sup) }
    pub fn mint(e: Env, to: Address, amount: i128) {
        if amount < 0 { panic!("negative"); }
        add(&e, &to, amount);
        let s = get(&e, &TK::Sup) + amount;
        e.storage().persistent().set(&TK::Sup, &s);
    }
    pub fn raw_move(e: Env, from: Address, to: Address, amount: i128) { add(&e, &from, -amount); add(&e, &to, amount); }
    pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        if amount < 0 { panic!("negative"); }
        add(&e, &from, -amount);
        add(&e, &to, amount);
    }
    pub fn approve(e: Env, from: Address, spender: Address, amount: i128, expiration_ledger: u32) {
        from.require_auth();
        if amount < 0 || (amount > 0 && expiration_ledger < e.ledger().sequence()) { panic!("approve"); }
        e.storage().persistent().set(&TK::Allow(from, spender), &(amount, expiration_ledger));
    }
    pub fn allowance(e: Env, from: Address, spender: Address) -> i128 {
        let (a, x): (i128, u32) = e.storage().persistent().get(&TK::Allow(from, spender)).unwrap_or((0, 0));
        if x < e.ledger().sequence() { 0 } else { a }
    }
    pub fn transfer_from(e: Env, spender: Address, from: Address, to: Address, amount: i128) {
        spender.require_auth();
        let k = TK::Allow(from.clone(), spender);
        let (a, x): (i128, u32) = e.storage().persistent().get(&k).unwrap_or((0, 0));
        if amount < 0 || x < e.ledger().sequence() || a < amount { panic!("allowance"); }
        e.storage().persistent().set(&k, &(a - amount, x));
        add(&e, &from, -amount);
        add(&e, &to, amount);
    }
    /// comet's single sided join (the LP token is its own pool)
    pub fn dep_tokn_amt_in_get_lp_tokns_out(e: Env, token_in: Address, token_amount_in: i128, min_pool_amount_out: i128, user: Address) -> i128 {
        let me = e.current_contract_address();
        let bal: i128 = e.invoke_contract(&token_in, &Symbol::new(&e, "balance"), soroban_sdk::vec![&e, soroban_sdk::IntoVal::into_val(&me, &e)]);
        let out = token_amount_in * get(&e, &TK::Sup) / (2 * bal.max(1));
        if token_amount_in <= 0 || out < min_pool_amount_out { panic!("limit"); }
        let args = soroban_sdk::vec![&e, soroban_sdk::IntoVal::into_val(&user, &e), soroban_sdk::IntoVal::into_val(&me, &e), soroban_sdk::IntoVal::into_val(&token_amount_in, &e)];
        e.invoke_contract::<()>(&token_in, &Symbol::new(&e, "raw_move"), args);
        Self::mint(e, user, out);
        out
    }
}

}
pub use token::Token;
pub mod oracle {
use soroban_sdk::{contract, contractimpl, contracttype, Address, Env, Symbol};
#[contracttype]
#[derive(Clone)]
pub enum Asset { Stellar(Address), Other(Symbol) }
#[contracttype]
#[derive(Clone)]
pub struct PriceData { pub price: i128, pub timestamp: u64 }

#[contract]
pub struct Oracle;
#[contractimpl]
impl Oracle {
    pub fn set(e: Env, a: Address, price: i128, timestamp: u64) { e.storage().persistent().set(&Asset::Stellar(a), &PriceData { price, timestamp }); }
    pub fn clear(e: Env, a: Address) { e.storage().persistent().remove(&Asset::Stellar(a)); }
    pub fn lastprice(e: Env, asset: Asset) -> Option<PriceData> { e.storage().persistent().get(&asset) }
    pub fn decimals(_e: Env) -> u32 { 7 }
}
}
pub use oracle::Oracle;
