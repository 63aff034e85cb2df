//! Bounded replay: random histories of the four contracts, run in lockstep on the current tree (`cur_*`) and on the
//! tree whose obligations were all discharged (`ref_*`), plus the conservation invariants evaluated on the current
//! tree alone. Prints every distinct divergence as one JSON line, with the history that leads to it.
mod mocks;
use soroban_sdk::testutils::{Address as _, AuthorizedFunction, AuthorizedInvocation, Ledger, LedgerInfo};
use soroban_sdk::xdr::{LedgerEntryData, LedgerKey, ScAddress, ScVal};
use soroban_sdk::{vec as svec, Address, BytesN, Env, IntoVal, String as SString, Symbol, TryFromVal, Val, Vec as SVec};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

// ------------------------------------------------------------------ randomness
pub struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    fn below(&mut self, k: u64) -> u64 { if k == 0 { 0 } else { self.n() % k } }
    fn one(&mut self, k: u64) -> bool { self.below(k) == 0 }
    fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    /// an amount near one of the given marks
    fn amt(&mut self, marks: &[i128]) -> i128 {
        let m = if marks.is_empty() { 1 } else { *self.pick(marks) };
        match self.below(20) {
            0 => m + 1, 1 => m - 1, 2..=5 => m,
            6 => 0, 7 => 1 + self.below(3) as i128,
            8 => if self.one(4) { -(1 + self.below(1000) as i128) } else { m / 2 },
            9 => 10i128.pow(self.below(14) as u32),
            10 => m.saturating_mul(2), 11 => m / 2,
            12 => m / 1000 + self.below(7) as i128,
            _ => if m > 0 { (m as u128 * (1 + self.below(1000)) as u128 / 1000) as i128 + self.below(3) as i128 } else { self.below(1_000_000) as i128 },
        }
    }
}

// ------------------------------------------------------------------ one ledger
#[derive(Clone, Copy, PartialEq)]
enum Side { Ref, Cur }
type State = BTreeMap<(ScAddress, u8, ScVal), ScVal>;
struct W { e: Env, em: Address, bs: Address, pf: Address, lp: Address, lp2: Address, b2: Address, blnd: Address, usdc: Address, oracle: Address, toks: Vec<Address>, pools: Vec<Address>, users: Vec<Address>, admin: Address }

impl W {
    fn new(side: Side) -> W {
        let e = Env::default();
        e.mock_all_auths_allowing_non_root_auth();
        let _ = e.host().set_diagnostic_level(Default::default());
        e.budget().reset_unlimited();
        e.ledger().set(LedgerInfo { timestamp: 1441065600, protocol_version: 20, sequence_number: 1500, network_id: Default::default(), base_reserve: 10, min_temp_entry_ttl: 9999999, min_persistent_entry_ttl: 9999999, max_entry_ttl: 99999999 });
        let mut a = || Address::generate(&e);
        let (em, bs, pf, lp, lp2, b2, blnd, usdc, oracle, admin) = (a(), a(), a(), a(), a(), a(), a(), a(), a(), a());
        let toks = vec![a(), a(), a()];
        let pools = vec![a(), a(), a()];
        let mut users: Vec<Address> = (0..4).map(|_| a()).collect();
        users.push(a());
        for t in [&lp, &lp2, &blnd, &usdc, &toks[0], &toks[1], &toks[2]] { e.register_contract(Some(t), mocks::Token {}); }
        e.register_contract(Some(&oracle), mocks::Oracle {});
        match side {
            Side::Ref => {
                e.register_contract(Some(&em), ref_emitter::EmitterContract {});
                e.register_contract(Some(&bs), ref_backstop::BackstopContract {});
                e.register_contract(Some(&pf), ref_pool_factory::PoolFactoryContract {});
                for p in &pools { e.register_contract(Some(p), ref_pool::PoolContract {}); }
            }
            Side::Cur => {
                e.register_contract(Some(&em), cur_emitter::EmitterContract {});
                e.register_contract(Some(&bs), cur_backstop::BackstopContract {});
                e.register_contract(Some(&pf), cur_pool_factory::PoolFactoryContract {});
                for p in &pools { e.register_contract(Some(p), cur_pool::PoolContract {}); }
            }
        }
        e.as_contract(&pf, || for p in &pools[..2] { e.storage().persistent().set(&(Symbol::new(&e, "Contracts"), p.clone()), &true); });
        W { e, em, bs, pf, lp, lp2, b2, blnd, usdc, oracle, toks, pools, users, admin }
    }
    fn jump(&self, secs: u64, blocks: u32) {
        let l = self.e.ledger().get();
        self.e.ledger().set(LedgerInfo { timestamp: l.timestamp + secs, sequence_number: l.sequence_number + blocks, ..l });
    }
    fn state(&self) -> State {
        let mut m = State::new();
        for (k, (v, _)) in self.e.to_ledger_snapshot().ledger_entries {
            if let (LedgerKey::ContractData(k), LedgerEntryData::ContractData(d)) = (*k, v.data) {
                match (&k.key, &d.val) {
                    (ScVal::LedgerKeyNonce(_), _) => {}
                    (ScVal::LedgerKeyContractInstance, ScVal::ContractInstance(i)) => if let Some(s) = &i.storage { for x in s.iter() { m.insert((k.contract.clone(), 2, x.key.clone()), x.val.clone()); } },
                    _ => { m.insert((k.contract.clone(), k.durability as u8, k.key.clone()), d.val.clone()); }
                }
            }
        }
        m
    }
    fn sc(&self, a: &Address) -> ScAddress { match sval(&self.e, a.into_val(&self.e)) { ScVal::Address(x) => x, _ => unreachable!() } }
    fn call(&self, to: &Address, f: &str, args: SVec<Val>) -> (Result<ScVal, String>, BTreeSet<String>) {
        self.e.budget().reset_unlimited();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.e.try_invoke_contract::<Val, soroban_sdk::Error>(to, &Symbol::new(&self.e, f), args)));
        let r = match r { Ok(Ok(Ok(v))) => Ok(sval(&self.e, v)), Ok(Ok(Err(_))) => Err("conversion".into()), Ok(Err(x)) => Err(format!("{x:?}")), Err(_) => Err("panic".into()) };
        let auths = if r.is_ok() { self.e.auths().iter().map(|(a, i)| auth(&self.e, &self.sc(a), i)).collect() } else { BTreeSet::new() };
        (r, auths)
    }
}
fn auth(e: &Env, a: &ScAddress, i: &AuthorizedInvocation) -> String {
    let f = match &i.function { AuthorizedFunction::Contract((c, f, x)) => format!("{:?}.{} {}", match sval(e, c.into_val(e)) { ScVal::Address(a) => a, _ => unreachable!() }, f.to_string(), brief(&sval(e, x.into_val(e)))), x => format!("{x:?}") };
    let mut sub: Vec<String> = i.sub_invocations.iter().map(|s| format!(" + {}", auth(e, a, s))).collect();
    sub.sort();
    format!("{a:?}: {f}{}", sub.concat())
}
fn sval(e: &Env, v: Val) -> ScVal { ScVal::try_from_val(e, &v).unwrap_or(ScVal::Void) }

// ------------------------------------------------------------------ reading the state
fn sym(v: &ScVal) -> String { match v { ScVal::Symbol(s) => s.to_utf8_string_lossy(), ScVal::Vec(Some(x)) => x.first().map(sym).unwrap_or_default(), ScVal::LedgerKeyContractInstance => "instance".into(), _ => "?".into() } }
fn int(v: &ScVal) -> i128 { match v { ScVal::U32(x) => *x as i128, ScVal::I32(x) => *x as i128, ScVal::U64(x) => *x as i128, ScVal::I64(x) => *x as i128, ScVal::I128(p) => ((p.hi as i128) << 64) | p.lo as i128, ScVal::U128(p) => ((p.hi as i128) << 64) | p.lo as i128, _ => 0 } }
fn fld<'a>(v: &'a ScVal, n: &str) -> Option<&'a ScVal> { match v { ScVal::Map(Some(m)) => m.iter().find(|x| sym(&x.key) == n).map(|x| &x.val), _ => None } }
fn fi(v: &ScVal, n: &str) -> i128 { fld(v, n).map(int).unwrap_or(0) }
fn items(v: &ScVal) -> Vec<ScVal> { match v { ScVal::Vec(Some(x)) => x.iter().cloned().collect(), _ => vec![] } }
fn pairs(v: Option<&ScVal>) -> Vec<(ScVal, ScVal)> { match v { Some(ScVal::Map(Some(m))) => m.iter().map(|x| (x.key.clone(), x.val.clone())).collect(), _ => vec![] } }
struct V<'a> { s: &'a State, w: &'a W }
impl<'a> V<'a> {
    fn all(&self, c: &Address, n: &str) -> Vec<(&'a ScVal, &'a ScVal)> { let c = self.w.sc(c); self.s.iter().filter(|(k, _)| k.0 == c && sym(&k.2) == n).map(|(k, v)| (&k.2, v)).collect() }
    fn one(&self, c: &Address, n: &str) -> Option<&'a ScVal> { self.all(c, n).first().map(|x| x.1) }
    fn by(&self, c: &Address, n: &str, a: &Address) -> Option<&'a ScVal> { let t = ScVal::Address(self.w.sc(a)); self.all(c, n).into_iter().find(|(k, _)| items(k).get(1) == Some(&t)).map(|x| x.1) }
    fn ubal(&self, p: &Address, u: &Address) -> Option<&'a ScVal> {
        let (p, u) = (ScVal::Address(self.w.sc(p)), ScVal::Address(self.w.sc(u)));
        self.all(&self.w.bs, "UserBalance").into_iter().find(|(k, _)| items(k).get(1).map(|x| fld(x, "pool") == Some(&p) && fld(x, "user") == Some(&u)).unwrap_or(false)).map(|x| x.1)
    }
    fn bal(&self, t: &Address, u: &Address) -> i128 { self.by(t, "Bal", u).map(int).unwrap_or(0) }
    fn auction(&self, p: &Address, u: &Address, ty: u32) -> Option<&'a ScVal> {
        let u = ScVal::Address(self.w.sc(u));
        self.all(p, "Auction").into_iter().find(|(k, _)| items(k).get(1).map(|x| fld(x, "user") == Some(&u) && fi(x, "auct_type") == ty as i128).unwrap_or(false)).map(|x| x.1)
    }
    fn index(&self, p: &Address, t: &Address) -> Option<u32> { self.by(p, "ResConfig", t).map(|c| fi(c, "index") as u32) }
    fn pos(&self, p: &Address, u: &Address, kind: &str, i: u32) -> i128 { self.by(p, "Positions", u).map(|x| pairs(fld(x, kind)).iter().find(|(k, _)| int(k) == i as i128).map(|(_, v)| int(v)).unwrap_or(0)).unwrap_or(0) }

    /// conservation laws, on one state
    fn invariants(&self) -> Vec<(&'static str, String)> {
        let mut out = vec![];
        let mut tokens = 0;
        for p in &self.w.pools {
            let pb = self.by(&self.w.bs, "PoolBalance", p);
            let (ps, pq, pt) = pb.map(|x| (fi(x, "shares"), fi(x, "q4w"), fi(x, "tokens"))).unwrap_or((0, 0, 0));
            tokens += pt;
            let (mut us, mut uq) = (0, 0);
            let psc = ScVal::Address(self.w.sc(p));
            for (k, v) in self.all(&self.w.bs, "UserBalance") {
                if items(k).get(1).map(|x| fld(x, "pool") == Some(&psc)).unwrap_or(false) {
                    let q: i128 = fld(v, "q4w").map(items).unwrap_or_default().iter().map(|x| fi(x, "amount")).sum();
                    us += fi(v, "shares") + q;
                    uq += q;
                }
            }
            if us != ps { out.push(("C07", format!("the users' backstop shares add up to {us}, the pool records {ps}"))); }
            if uq != pq { out.push(("C07", format!("the users' queued shares add up to {uq}, the pool records {pq}"))); }
            if pt < 0 || ps < 0 || pq < 0 || pq > ps { out.push(("C06", format!("pool balance out of range: tokens {pt} shares {ps} queued {pq}"))); }
            for t in self.w.toks.iter() {
                if let (Some(ix), Some(d)) = (self.index(p, t), self.by(p, "ResData", t)) {
                    let (mut b, mut l) = (0, 0);
                    for (_, v) in self.all(p, "Positions") {
                        for (n, acc) in [("collateral", 0), ("supply", 0), ("liabilities", 1)] {
                            for (k, x) in pairs(fld(v, n)) { if int(&k) == ix as i128 { if int(&x) <= 0 { out.push(("C16", format!("a {n} position of {} is stored", int(&x)))); } if acc == 0 { b += int(&x) } else { l += int(&x) } } }
                        }
                    }
                    if b != fi(d, "b_supply") { out.push(("C16", format!("supply positions add up to {b}, the reserve records {}", fi(d, "b_supply")))); }
                    if l != fi(d, "d_supply") { out.push(("C16", format!("debt positions add up to {l}, the reserve records {}", fi(d, "d_supply")))); }
                }
            }
        }
        if self.bal(&self.w.lp, &self.w.bs) < tokens { out.push(("C06", format!("the pools' recorded tokens add up to {tokens}, the backstop holds {}", self.bal(&self.w.lp, &self.w.bs)))); }
        if let Some(z) = self.one(&self.w.bs, "RZ") { let z = items(z); if (1..z.len()).any(|i| z[..i].contains(&z[i])) { out.push(("C12", "the reward zone holds a pool twice".into())); } }
        out
    }
}

/// b is a, except that records may have got further fields
fn same(a: &ScVal, b: &ScVal) -> bool {
    match (a, b) {
        (ScVal::Map(Some(x)), ScVal::Map(Some(y))) if !x.is_empty() && x.iter().all(|k| matches!(k.key, ScVal::Symbol(_))) => x.iter().all(|f| y.iter().find(|g| g.key == f.key).map(|g| same(&f.val, &g.val)).unwrap_or(false)),
        (ScVal::Map(Some(x)), ScVal::Map(Some(y))) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(f, g)| same(&f.key, &g.key) && same(&f.val, &g.val)),
        (ScVal::Vec(Some(x)), ScVal::Vec(Some(y))) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(f, g)| same(f, g)),
        _ => a == b,
    }
}
/// the names under which the reference keeps its state; what another tree keeps under further names is not compared
const KNOWN: &[&str] = &["ResConfig", "ResInit", "ResData", "EmisConfig", "EmisData", "Positions", "UserEmis", "Auction", "AuctData", "IsInit", "Admin", "Name", "Backstop", "BLNDTkn", "Config", "ResList", "PoolEmis", "UserBalance", "PoolBalance", "PoolUSDC", "BEmisCfg", "BEmisData", "UEmisData", "Emitter", "BToken", "PoolFact", "USDCTkn", "LastDist", "RZ", "DropList", "LPTknVal", "LastDistro", "Dropped", "Swap", "Contracts", "PoolMeta", "Bal", "Allow", "Sup", "Dec", "Stellar", "Other"];
fn differ(a: Option<&ScVal>, b: Option<&ScVal>, key: &ScVal) -> bool {
    match (a, b) { (Some(a), Some(b)) => !same(a, b), (None, Some(_)) => KNOWN.contains(&sym(key).as_str()), (Some(_), None) => true, (None, None) => false }
}

// ------------------------------------------------------------------ operations
type Args = Box<dyn Fn(&W) -> SVec<Val>>;
type Target = Box<dyn Fn(&W) -> Address>;
enum Op { Call(&'static str, &'static str, Target, Args, String), Jump(u64, u32) }
macro_rules! args { ($w:ident; $($x:expr),*) => {{ let e = &$w.e; let _ = e; soroban_sdk::vec![e, $( { let v: Val = IntoVal::<Env, Val>::into_val(&$x, e); v } ),*] }} }
fn pool(i: usize) -> Target { Box::new(move |w| w.pools[i].clone()) }

struct Run { why: BTreeMap<String, u64>, r: W, c: W, s: State, trace: Vec<String>, ops: u64, found: Vec<(String, String)>, stop: bool }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }

impl Run {
    fn new() -> Run { let (r, c) = (W::new(Side::Ref), W::new(Side::Cur)); let s = r.state(); Run { why: BTreeMap::new(), r, c, s, trace: vec![], ops: 0, found: vec![], stop: false } }
    fn names(&self, t: &str) -> String {
        let mut t = t.to_string();
        let w = &self.r;
        let mut n: Vec<(Address, String)> = vec![(w.em.clone(), "EMITTER".into()), (w.bs.clone(), "BACKSTOP".into()), (w.pf.clone(), "FACTORY".into()), (w.lp.clone(), "LP".into()), (w.b2.clone(), "BACKSTOP2".into()), (w.lp2.clone(), "LP2".into()), (w.blnd.clone(), "BLND".into()), (w.usdc.clone(), "USDC".into()), (w.oracle.clone(), "ORACLE".into()), (w.admin.clone(), "ADMIN".into())];
        for (i, x) in w.toks.iter().enumerate() { n.push((x.clone(), format!("TOKEN{i}"))) }
        for (i, x) in w.pools.iter().enumerate() { n.push((x.clone(), format!("POOL{i}"))) }
        for (i, x) in w.users.iter().enumerate() { n.push((x.clone(), format!("USER{i}"))) }
        for (a, s) in n { t = t.replace(&format!("{:?}", w.sc(&a)), &s); }
        t
    }
    fn role(&self, a: &ScAddress) -> &'static str {
        let w = &self.r;
        if *a == w.sc(&w.em) { "emitter" } else if *a == w.sc(&w.bs) { "backstop" } else if *a == w.sc(&w.pf) { "factory" } else if w.pools.iter().any(|p| *a == w.sc(p)) { "pool" } else { "token" }
    }
    fn diverge(&mut self, sig: String, detail: String) { self.found.push((sig, detail)); }
    fn exec(&mut self, op: Op) -> bool {
        if self.stop { return false; }
        let (who, f, target, args, note) = match op {
            Op::Jump(s, b) => { self.r.jump(s, b); self.c.jump(s, b); self.trace.push(format!("{s} seconds and {b} ledgers pass (now {})", self.r.e.ledger().timestamp())); return true; }
            Op::Call(a, b, c, d, n) => (a, b, c, d, n),
        };
        self.ops += 1;
        let (ra, rauth) = self.r.call(&target(&self.r), f, args(&self.r));
        let (ca, cauth) = self.c.call(&target(&self.c), f, args(&self.c));
        let shown = sval(&self.r.e, args(&self.r).into_val(&self.r.e));
        let line = self.names(&format!("{who}.{f} {note} args {}", brief(&shown)));
        self.trace.push(format!("{line} => {}", if ra.is_ok() { "ok".to_string() } else { format!("refused {}", ra.clone().unwrap_err()) }));
        let at = format!("{who}.{f}");
        if let Err(x) = &ra { *self.why.entry(format!("{at} {} {x}", if note.starts_with('#') { &note[..] } else { "" })).or_insert(0) += 1; }
        match (&ra, &ca) {
            (Ok(_), Err(x)) => { self.diverge(format!("refused {at}"), format!("refused with {x}")); self.stop = true; }
            (Err(x), Ok(_)) => { self.diverge(format!("accepted {at}"), format!("accepted; has to be refused ({x})")); self.stop = true; }
            (Ok(a), Ok(b)) => {
                if !same(a, b) { let d = self.names(&format!("returned {} instead of {}", brief(b), brief(a))); self.diverge(format!("ret {at}"), d); self.stop = true; }
                if rauth != cauth { let d = self.names(&format!("required authorisations {:?} instead of {:?}", cauth.difference(&rauth).collect::<Vec<_>>(), rauth.difference(&cauth).collect::<Vec<_>>())); self.diverge(format!("auth {at}"), d); self.stop = true; }
            }
            _ => {}
        }
        let (s0, s1) = (self.r.state(), self.c.state());
        let mut keys: BTreeSet<&(ScAddress, u8, ScVal)> = if s0 == s1 { BTreeSet::new() } else { s0.keys().collect() };
        if s0 != s1 { keys.extend(s1.keys()); }
        keys.retain(|k| differ(s0.get(k), s1.get(k), &k.2));
        if !keys.is_empty() {
            self.stop = true;
            let mut d = vec![];
            for k in keys {
                {
                    let fields: Vec<String> = match (s0.get(k), s1.get(k)) { (Some(ScVal::Map(Some(a))), Some(ScVal::Map(Some(b)))) => a.iter().filter(|x| b.iter().find(|y| y.key == x.key).map(|y| !same(&x.val, &y.val)).unwrap_or(true)).map(|x| sym(&x.key)).collect(), _ => vec![] };
                    d.push((format!("state {}.{}{} {at}", self.role(&k.0), sym(&k.2), fields.iter().map(|f| format!(".{f}")).collect::<String>()), format!("{:?} {}: {} instead of {}", k.0, brief(&k.2), s1.get(k).map(brief).unwrap_or("absent".into()), s0.get(k).map(brief).unwrap_or("absent".into()))));
                }
            }
            for (a, b) in d { let b = self.names(&b); self.diverge(a, b); }
            let bad = V { s: &s1, w: &self.c }.invariants();
            for (p, t) in bad { self.diverge(format!("invariant {p} {at}"), t); }
        }
        self.s = s0;
        ra.is_ok()
    }
    fn must(&mut self, op: Op) { if !self.exec(op) && !self.stop { panic!("the reference refused a set-up step: {:?}", self.trace.last()); } }
}
fn brief(v: &ScVal) -> String {
    match v {
        ScVal::Map(Some(m)) => format!("{{{}}}", m.iter().map(|x| format!("{}: {}", brief(&x.key), brief(&x.val))).collect::<Vec<_>>().join(", ")),
        ScVal::Vec(Some(m)) => format!("[{}]", m.iter().map(brief).collect::<Vec<_>>().join(", ")),
        ScVal::Address(a) => format!("{a:?}"),
        ScVal::Symbol(s) => s.to_utf8_string_lossy(),
        ScVal::Void => "()".into(),
        ScVal::U32(_) | ScVal::I32(_) | ScVal::U64(_) | ScVal::I64(_) | ScVal::I128(_) | ScVal::U128(_) => int(v).to_string(),
        _ => format!("{v:?}"),
    }
}

mod gen;

fn main() {
    std::panic::set_hook(Box::new(|i| if std::env::var("HARNESS_DEBUG").is_ok() { eprintln!("{i}") }));
    let a: Vec<String> = std::env::args().collect();
    let (seed, secs, focus): (u64, u64, String) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a.get(3).cloned().unwrap_or("all".into()));
    let t0 = Instant::now();
    let mut why: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let (mut episodes, mut ops, mut okops) = (0u64, 0u64, BTreeMap::<String, (u64, u64)>::new());
    while t0.elapsed().as_secs() < secs && seen.len() < 400 {
        let mut rng = Rng(seed.wrapping_mul(1_000_003).wrapping_add(episodes));
        let mut run = Run::new();
        gen::episode(&mut run, &mut rng, &focus, &mut okops);
        for (k, n) in &run.why { *why.entry(k.clone()).or_insert(0u64) += n; }
        episodes += 1;
        ops += run.ops;
        for (sig, d) in run.found.clone() {
            if seen.insert(sig.clone()) {
                let n = run.trace.len();
                println!("{{\"sig\":{},\"detail\":{},\"trace\":[{}]}}", js(&sig), js(&d), run.trace[n.saturating_sub(400)..].iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
            }
        }
    }
    if std::env::var("HARNESS_WHY").is_ok() { for (k, n) in &why { eprintln!("{n:6} {k}"); } }
    println!("{{\"episodes\":{episodes},\"ops\":{ops},\"divergences\":{},\"ok\":{{{}}}}}", seen.len(), okops.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
}
#[allow(dead_code)]
fn unused(e: &Env) { let _: (BytesN<32>, SString) = (BytesN::from_array(e, &[0; 32]), SString::from_str(e, "")); let _ = svec![e, 1]; }
