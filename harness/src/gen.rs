//! random histories
use super::*;

struct G<'a> { run: &'a mut Run, rng: &'a mut Rng, ok: &'a mut BTreeMap<String, (u64, u64)> }
const S7: i128 = 10_000_000;
const DEC: [u32; 3] = [7, 6, 9];
/// an amount of asset i worth about x dollars at the opening prices
fn usd(i: usize, x: i128) -> i128 { match i { 0 => x * one(0), 1 => 10 * x * one(1), _ => x * one(2) / 2000 } }
fn one(i: usize) -> i128 { 10i128.pow(DEC[i]) }

impl<'a> G<'a> {
    fn op(&mut self, who: &'static str, f: &'static str, target: Target, args: Args, note: &str) -> bool {
        let r = self.run.exec(Op::Call(who, f, target, args, note.to_string()));
        let x = self.ok.entry(format!("{who}.{f}{}", if note.starts_with('#') { note } else { "" })).or_insert((0, 0));
        if r { x.0 += 1 } else { x.1 += 1 }
        r
    }
    fn must(&mut self, who: &'static str, f: &'static str, target: Target, args: Args) { self.run.must(Op::Call(who, f, target, args, "(set-up)".into())); }
    fn v(&self) -> V<'_> { V { s: &self.run.s, w: &self.run.r } }
    fn now(&self) -> u64 { self.run.r.e.ledger().timestamp() }
    fn jump(&mut self, s: u64, b: u32) { self.run.exec(Op::Jump(s, b)); }
    fn user(&mut self) -> usize { self.rng.below(4) as usize }

    fn setup(&mut self, reserves: bool, admin: bool) {
        for (i, d) in DEC.iter().enumerate() { let d = *d; self.must("token", "setup", Box::new(move |w| w.toks[i].clone()), Box::new(move |w| args![w; d])); }
        self.must("token", "mint", Box::new(|w| w.blnd.clone()), Box::new(|w| args![w; w.lp, 110_000_000 * S7]));
        self.must("token", "mint", Box::new(|w| w.usdc.clone()), Box::new(|w| args![w; w.lp, 2_600_000 * S7]));
        for i in 0..4 {
            self.must("token", "mint", Box::new(|w| w.lp.clone()), Box::new(move |w| args![w; w.users[i], 250_000 * S7]));
            self.must("token", "mint", Box::new(|w| w.blnd.clone()), Box::new(move |w| args![w; w.users[i], 250_000 * S7]));
            for t in 0..3 { self.must("token", "mint", Box::new(move |w| w.toks[t].clone()), Box::new(move |w| args![w; w.users[i], 5_000_000 * one(t)])); }
        }
        self.must("token", "mint", Box::new(|w| w.lp.clone()), Box::new(|w| args![w; w.admin, 9_000_000 * S7]));
        self.must("emitter", "initialize", Box::new(|w| w.em.clone()), Box::new(|w| args![w; w.blnd, w.bs, w.lp]));
        let k = if self.rng.one(8) { 30 } else { 10 };
        self.must("backstop", "initialize", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.lp, w.em, w.usdc, w.blnd, w.pf, svec![&w.e, (w.admin.clone(), k * 1_000_000 * S7), (w.users[0].clone(), 25_000_000 * S7)]]));
        self.must("factory", "initialize", Box::new(|w| w.pf.clone()), Box::new(|w| args![w; ref_pool_factory::PoolInitMeta { backstop: w.bs.clone(), pool_hash: BytesN::from_array(&w.e, &[3; 32]), blnd_id: w.blnd.clone() }]));
        for p in 0..2usize {
            let (rate, mp) = (*self.rng.pick(&[0u32, 1000000, 2000000, 9999999]), *self.rng.pick(&[2u32, 3, 4, 6]));
            self.must("pool", "initialize", pool(p), Box::new(move |w| args![w; w.admin, SString::from_str(&w.e, "Teapot"), w.oracle, rate, mp, w.bs, w.blnd]));
        }
        for t in 0..3 { self.price(t, [1_0000000, 0_1000000, 2000_0000000][t], 0); }
        self.price(3, 1_0000000, 0);
        if reserves {
            for p in 0..2usize {
                for t in 0..(3 - p) {
                    let c = self.config(t, true);
                    self.must("pool", "queue_set_reserve", pool(p), Box::new({ let c = c.clone(); move |w| args![w; w.toks[t], c.clone()] }));
                    self.must("pool", "set_reserve", pool(p), Box::new(move |w| args![w; w.toks[t]]));
                }
                let (a, b) = (self.rng.below(6) as u32 * 1_000_000, self.rng.below(5) as u32 * 1_000_000);
                self.must("pool", "set_emissions_config", pool(p), Box::new(move |w| args![w; svec![&w.e, ref_pool::ReserveEmissionMetadata { res_index: 0, res_type: 0, share: a as u64 + 1 }, ref_pool::ReserveEmissionMetadata { res_index: 1, res_type: 1, share: b as u64 + 1 }, ref_pool::ReserveEmissionMetadata { res_index: 0, res_type: 1, share: 100_000 }]]));
            }
        }
        for p in 0..2usize { let amt = 50_000 * S7 + self.rng.below(50_000 * S7 as u64) as i128; self.must("backstop", "deposit", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.users[p], w.pools[p], amt])); }
        self.must("backstop", "update_tkn_val", Box::new(|w| w.bs.clone()), Box::new(|w| args![w;]));
        for p in 0..2usize {
            if !(admin && self.rng.one(3)) { self.must("backstop", "add_reward", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.pools[p], w.b2])); }
            if reserves && !(admin && self.rng.one(2)) {
                self.must("pool", "set_status", pool(p), Box::new(|w| args![w; 3u32]));
                self.must("pool", "update_status", pool(p), Box::new(|w| args![w;]));
            }
        }
        self.jump(7 * 86400, 10);
        for t in 0..4 { self.price(t, [1_0000000, 0_1000000, 2000_0000000, 1_0000000][t], 0); }
        self.must("emitter", "distribute", Box::new(|w| w.em.clone()), Box::new(|w| args![w;]));
        self.op("backstop", "gulp_emissions", Box::new(|w| w.bs.clone()), Box::new(|w| args![w;]), "");
        if reserves { for p in 0..2usize { self.op("pool", "gulp_emissions", pool(p), Box::new(|w| args![w;]), ""); } }
        if reserves && !admin {
            for p in 0..2usize { for t in 0..(3 - p) { let a = usd(t, [400_000, 90_000, 400_000][t]); self.must("pool", "submit", pool(p), Box::new(move |w| args![w; w.users[3], w.users[3], w.users[3], svec![&w.e, ref_pool::Request { request_type: 0, address: w.toks[t].clone(), amount: a }]])); } }
        }
    }
    fn config(&mut self, t: usize, valid: bool) -> ref_pool::ReserveConfig {
        let r = &mut *self.rng;
        let mut c = ref_pool::ReserveConfig { index: 0, decimals: DEC[t], c_factor: *r.pick(&[7500000, 9000000, 8000000, 5000000, 0]), l_factor: *r.pick(&[7500000, 9500000, 8000000, 10000000]), util: *r.pick(&[7500000, 5000000, 8500000]), max_util: *r.pick(&[9500000, 9000000, 10000000]),
            r_base: 100000, r_one: *r.pick(&[500000, 300000]), r_two: *r.pick(&[5000000, 4000000]), r_three: 15000000, reactivity: *r.pick(&[20u32, 500, 0]) };
        if !valid {
            match r.below(14) { 0 => c.decimals = 19, 1 => c.decimals = DEC[t] + 1, 2 => c.c_factor = 10000001, 3 => c.l_factor = 10000001, 4 => c.util = 9500000, 5 => c.util = 9500001, 6 => c.max_util = 10000001, 7 => c.r_one = c.r_two + 1, 8 => c.r_two = c.r_three + 1, 9 => c.reactivity = 501, 10 => c.r_base = 9999, 11 => c.r_base = 10000, 12 => c.index = 7, _ => {} }
        }
        c
    }
    fn price(&mut self, t: usize, p: i128, age: u64) {
        let ts = self.now() - age;
        self.run.exec(Op::Call("oracle", "set", Box::new(|w| w.oracle.clone()), Box::new(move |w| args![w; (if t == 3 { w.usdc.clone() } else { w.toks[t].clone() }), p, ts]), String::new()));
    }
    fn time(&mut self) {
        let s = *self.rng.pick(&[1u64, 5, 60, 600, 3599, 3600, 3601, 43200, 86399, 86400, 86401, 5 * 86400, 90 * 86400, 604799, 604800, 604801, 21 * 86400 - 1, 21 * 86400, 21 * 86400 + 1]);
        let b = *self.rng.pick(&[0u32, 1, 1, 10, 50, 100, 150, 199, 200, 201, 250, 300, 399, 400, 401]);
        self.jump(s, b);
        if !self.rng.one(12) { for t in 0..4 { if !self.rng.one(25) { let age = if self.rng.one(10) { *self.rng.pick(&[300u64, 86399, 86400, 86401, 86700]) } else { 0 }; let p = self.cur_price(t); self.price(t, p, age.min(self.now())); } } }
    }
    fn cur_price(&self, t: usize) -> i128 {
        let a = if t == 3 { self.run.r.usdc.clone() } else { self.run.r.toks[t].clone() };
        let k = ScVal::Address(self.run.r.sc(&a));
        self.v().all(&self.run.r.oracle, "Stellar").into_iter().find(|(x, _)| items(x).get(1) == Some(&k)).map(|x| fi(x.1, "price")).unwrap_or(S7)
    }

    // ---------------------------------------------------------------- emitter
    fn emitter(&mut self) {
        let em: Target = Box::new(|w| w.em.clone());
        match self.rng.below(14) {
            0..=2 => { self.op("emitter", "distribute", em, Box::new(|w| args![w;]), ""); }
            3..=4 => { let k = self.rng.below(2); self.op("emitter", "queue_swap_backstop", em, Box::new(move |w| args![w; (if k == 0 { w.b2.clone() } else { w.users[4].clone() }), w.lp2]), ""); }
            5 => { self.op("emitter", "cancel_swap_backstop", em, Box::new(|w| args![w;]), ""); }
            6..=7 => { self.op("emitter", "swap_backstop", em, Box::new(|w| args![w;]), ""); }
            8 => { let k = *self.rng.pick(&[50_000_000 * S7, 50_000_000 * S7 + 1, 1, 0, 25_000_000 * S7]); let d = self.rng.below(3); self.op("emitter", "drop", em, Box::new(move |w| { let mut l = svec![&w.e, (w.users[1].clone(), k)]; if d > 0 { l.push_back((w.users[if d == 1 { 1 } else { 2 }].clone(), 50_000_000 * S7 - k)); } args![w; l] }), ""); }
            9 => { self.op("backstop", "drop", Box::new(|w| w.bs.clone()), Box::new(|w| args![w;]), ""); }
            10..=12 => { // move the majority of the backstop token between the candidates
                let (tok2, to) = (self.rng.one(3), self.rng.below(3));
                let (a, b, c) = (self.v().bal(&self.run.r.lp, &self.run.r.bs), self.v().bal(&self.run.r.lp, &self.run.r.b2), self.v().bal(&self.run.r.lp, &self.run.r.users[4]));
                let n = match self.rng.below(4) { 0 => (a - b).max(0), 1 => (a - b).max(0) + 1, 2 => (b - a).max(0), _ => (a - c).max(0) + self.rng.below(2) as i128 };
                if n > 0 { self.op("token", "mint", Box::new(move |w| if tok2 { w.lp2.clone() } else { w.lp.clone() }), Box::new(move |w| args![w; (match to { 0 => w.bs.clone(), 1 => w.b2.clone(), _ => w.users[4].clone() }), n]), ""); }
            }
            _ => { self.op("emitter", "initialize", em, Box::new(|w| args![w; w.blnd, w.b2, w.lp2]), ""); }
        }
        if self.rng.one(3) { let s = *self.rng.pick(&[1u64, 3600, 86400, 31 * 86400 - 1, 31 * 86400, 31 * 86400 + 1, 7 * 86400, 45 * 86400]); self.jump(s, 1); }
    }
    // ---------------------------------------------------------------- factory
    fn factory(&mut self) {
        let pf: Target = Box::new(|w| w.pf.clone());
        match self.rng.below(4) {
            0 => { let (r, m, s) = (*self.rng.pick(&[0u32, 9999999, 10000000, 10000001, 2000000]), *self.rng.pick(&[0u32, 1, 2, 6]), self.rng.below(3) as u8); let u = self.user(); self.op("factory", "deploy", pf, Box::new(move |w| args![w; w.users[u], SString::from_str(&w.e, "x"), BytesN::<32>::from_array(&w.e, &[s; 32]), w.oracle, r, m]), ""); }
            1 => { self.op("factory", "initialize", pf, Box::new(|w| args![w; ref_pool_factory::PoolInitMeta { backstop: w.b2.clone(), pool_hash: BytesN::from_array(&w.e, &[9; 32]), blnd_id: w.usdc.clone() }]), ""); }
            _ => { let p = self.rng.below(4) as usize; self.op("factory", "is_pool", pf, Box::new(move |w| args![w; (if p == 3 { w.b2.clone() } else { w.pools[p].clone() })]), ""); }
        }
    }
    // ---------------------------------------------------------------- backstop
    fn backstop(&mut self) {
        let bs: Target = Box::new(|w| w.bs.clone());
        let u = self.user();
        let p = if self.rng.one(15) { 2 } else { self.rng.below(2) as usize };
        let (ua, pa) = (self.run.r.users[u].clone(), self.run.r.pools[p].clone());
        let v = self.v();
        let pb = v.by(&self.run.r.bs, "PoolBalance", &pa).map(|x| (fi(x, "shares"), fi(x, "tokens"), fi(x, "q4w"))).unwrap_or((0, 0, 0));
        let ub = v.ubal(&pa, &ua);
        let shares = ub.map(|x| fi(x, "shares")).unwrap_or(0);
        let q: Vec<i128> = ub.and_then(|x| fld(x, "q4w")).map(items).unwrap_or_default().iter().map(|x| fi(x, "amount")).collect();
        let mut qs: Vec<i128> = vec![]; let mut acc = 0; for x in &q { acc += x; qs.push(acc); qs.push(*x); }
        let lp = v.bal(&self.run.r.lp, &ua);
        let pemis = v.by(&self.run.r.bs, "PoolEmis", &pa).map(int).unwrap_or(0);
        let _ = pemis;
        match self.rng.below(40) {
            0..=5 => { let a = self.rng.amt(&[lp / 10, 1000 * S7, pb.1 / 7, S7]); self.op("backstop", "deposit", bs, Box::new(move |w| args![w; w.users[u], w.pools[p], a]), ""); }
            6..=12 => { let a = if self.rng.one(3) { (shares / 40).max(1) } else { self.rng.amt(&[shares, shares / 3, S7]) }; self.op("backstop", "queue_withdrawal", bs, Box::new(move |w| args![w; w.users[u], w.pools[p], a]), ""); }
            13..=16 => { let a = self.rng.amt(&qs); self.op("backstop", "dequeue_withdrawal", bs, Box::new(move |w| args![w; w.users[u], w.pools[p], a]), ""); }
            17..=21 => { let a = self.rng.amt(&qs); self.op("backstop", "withdraw", bs, Box::new(move |w| args![w; w.users[u], w.pools[p], a]), ""); }
            22..=23 => { let a = self.rng.amt(&[lp / 20, pb.1 / 3, S7]); self.op("backstop", "donate", bs, Box::new(move |w| args![w; w.users[u], w.pools[p], a]), ""); }
            24 => { let a = self.rng.amt(&[pb.1, pb.1 / 2, pb.1 / 10]); let a = if self.rng.one(4) { a } else { a.min(pb.1 / 5) }; self.op("backstop", "draw", bs, Box::new(move |w| args![w; w.pools[p], a, w.users[u]]), ""); }
            25..=27 => { let t = self.user(); let k = self.rng.below(4); self.op("backstop", "claim", bs, Box::new(move |w| { let l = match k { 0 => svec![&w.e, w.pools[p].clone()], 1 => svec![&w.e, w.pools[0].clone(), w.pools[1].clone()], 2 => svec![&w.e, w.pools[1].clone(), w.pools[0].clone(), w.pools[1].clone()], _ => if p == 2 { svec![&w.e] } else { svec![&w.e, w.pools[p].clone()] } }; args![w; w.users[u], l, w.users[t]] }), ""); }
            28..=31 => { self.op("emitter", "distribute", Box::new(|w| w.em.clone()), Box::new(|w| args![w;]), ""); self.op("backstop", "gulp_emissions", bs, Box::new(|w| args![w;]), ""); }
            32..=33 => { self.op("backstop", "gulp_pool_emissions", bs, Box::new(move |w| args![w; w.pools[p]]), ""); }
            34 => { let (a, b) = (self.rng.below(3) as usize, self.rng.below(3) as usize); self.op("backstop", "add_reward", bs, Box::new(move |w| args![w; w.pools[a], w.pools[b]]), ""); }
            35 => { self.op("backstop", "update_tkn_val", bs, Box::new(|w| args![w;]), ""); }
            36 => { self.op("backstop", "pool_data", bs, Box::new(move |w| args![w; w.pools[p]]), ""); }
            37 => { self.op("backstop", "user_balance", bs, Box::new(move |w| args![w; w.pools[p], w.users[u]]), ""); }
            38 => { self.op("backstop", "initialize", bs, Box::new(|w| args![w; w.lp2, w.em, w.usdc, w.blnd, w.pf, svec![&w.e, (w.admin.clone(), 1i128)]]), ""); }
            _ => { // the LP token's own holdings and supply move
                let (k, n) = (self.rng.below(3), self.rng.amt(&[1_000_000 * S7, 100_000 * S7]).max(1));
                self.op("token", "mint", Box::new(move |w| match k { 0 => w.blnd.clone(), 1 => w.usdc.clone(), _ => w.lp.clone() }), Box::new(move |w| args![w; (if k == 2 { w.admin.clone() } else { w.lp.clone() }), n]), "");
            }
        }
    }
    // ---------------------------------------------------------------- pool users
    fn request(&mut self, p: usize, u: usize) -> (u32, u8, usize, i128) {
        let kind = *self.rng.pick(&[0u32, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4, 5, 5, 5, 9, 6, 7, 8]);
        let mut t = self.rng.below(3 - p.min(1) as u64) as usize;
        if !self.rng.one(8) { // an asset the user holds
            let held: Vec<usize> = (0..3).filter(|i| { let (c, s, l) = self.held(p, u, *i); match kind { 1 => s > 0, 3 => c > 0, 5 => l > 0, _ => true } }).collect();
            if matches!(kind, 1 | 3 | 5) && !held.is_empty() { t = *self.rng.pick(&held); }
        }
        let (pa, ua, ta) = (self.run.r.pools[p].clone(), self.run.r.users[u].clone(), self.run.r.toks[t].clone());
        let (col, sup, lia) = self.held(p, u, t);
        let v = self.v();
        let rd = v.by(&pa, "ResData", &ta);
        let (br, dr) = (rd.map(|x| fi(x, "b_rate")).unwrap_or(1_000_000_000), rd.map(|x| fi(x, "d_rate")).unwrap_or(1_000_000_000));
        let avail = v.bal(&ta, &pa);
        let as_b = |x: i128| (x as f64 * br as f64 / 1e9) as i128;
        let as_d = |x: i128| (x as f64 * dr as f64 / 1e9) as i128;
        // what the user's other collateral is worth in this asset
        let worth: f64 = (0..3).map(|i| { let ix = v.index(&pa, &self.run.r.toks[i]).unwrap_or(9); v.pos(&pa, &ua, "collateral", ix) as f64 / one(i) as f64 * self.cur_price(i) as f64 - 1.3 * v.pos(&pa, &ua, "liabilities", ix) as f64 / one(i) as f64 * self.cur_price(i) as f64 }).sum();
        let room = (worth.max(0.0) * 0.6 / self.cur_price(t).max(1) as f64 * one(t) as f64) as i128;
        match kind {
            0 | 2 => (kind, 0, t, self.rng.amt(&[usd(t, 1000), usd(t, 100), usd(t, 20_000), one(t)])),
            1 => (kind, 0, t, self.rng.amt(&[as_b(sup), as_b(sup) / 2, one(t)])),
            3 => (kind, 0, t, self.rng.amt(&[as_b(col), as_b(col) / 2, as_b(col) / 4, as_b(col) / 9, one(t)])),
            4 => (kind, 0, t, self.rng.amt(&[avail, room, room / 2, room / 2, room / 3, as_b(col) / 2])),
            5 => (kind, 0, t, self.rng.amt(&[as_d(lia), as_d(lia) / 2, as_d(lia) * 2, one(t)])),
            6 => { let w = self.user(); (kind, 1, w, *self.rng.pick(&[100i128, 100, 50, 1, 99, 33, 101, 0, 75])) }
            7 | 8 => (kind, 2, 0, *self.rng.pick(&[100i128, 100, 50, 1, 99, 20])),
            _ => (9, if self.rng.one(2) { 1 } else { 3 }, u, 0),
        }
    }
    fn held(&self, p: usize, u: usize, t: usize) -> (i128, i128, i128) {
        let (pa, ua, ta) = (self.run.r.pools[p].clone(), self.run.r.users[u].clone(), self.run.r.toks[t].clone());
        let v = self.v();
        match v.index(&pa, &ta) { None => (0, 0, 0), Some(ix) => (v.pos(&pa, &ua, "collateral", ix), v.pos(&pa, &ua, "supply", ix), v.pos(&pa, &ua, "liabilities", ix)) }
    }
    /// a position close to its limit, a price move, a liquidation, bad debt and its auction; the steps are noisy
    fn crash(&mut self) {
        let p = if self.rng.one(4) { 1 } else { 0 };
        let u = self.rng.below(2) as usize;
        let nt = 3 - p as u64;
        let c = self.rng.below(nt) as usize;
        let d = { let mut d = self.rng.below(nt) as usize; if d == c { d = (d + 1) % nt as usize } d };
        let dust = self.rng.one(6); // positions of a few units
        for k in 0..(1 + self.rng.below(2)) {
            let n = if dust { 30 + self.rng.below(400) as i128 } else if k == 0 { usd(c, 10_000 + self.rng.below(30_000) as i128) } else { usd(c, 1000) };
            let worth = n as f64 / one(c) as f64 * self.cur_price(c) as f64 / self.cur_price(d).max(1) as f64 * one(d) as f64;
            for f in [70, 55, 40, 25, 15] { let b = (worth * (f as f64 + self.rng.below(8) as f64) / 100.0) as i128; if self.submit(p, u, vec![(2, 0, c, n), (4, 0, d, b)]) || self.run.stop { break; } }
        }
        if self.rng.one(4) { self.noise(p); }
        let x = self.cur_price(c);
        let m = *self.rng.pick(&[50i128, 200, 400, 600, 700, 800, 900]);
        self.price(c, (x * m / 1000).max(1), 0);
        let start = *self.rng.pick(&[100u64, 100, 60, 40, 20, 10]);
        for pc in [start, 100, 80, 60, 45, 35, 25, 15, 8, 4] { if self.op("pool", "new_liquidation_auction", pool(p), Box::new(move |w| args![w; w.users[u], pc]), "") || self.run.stop { break; } }
        if self.rng.one(4) { self.noise(p); }
        if self.rng.one(3) { // the user tries to get out of it
            if self.rng.one(2) { self.price(c, x, 0); }
            let mut r = vec![(9u32, 3u8, u, 0i128)];
            if self.rng.one(2) { r.insert(0, (2, 0, c, usd(c, 30_000))); }
            self.submit(p, u, r);
        }
        let f = *self.rng.pick(&[2usize, 3, 2, 3, u]);
        for _ in 0..(1 + self.rng.below(3)) {
            let b = *self.rng.pick(&[1u32, 20, 100, 150, 199, 200, 201, 250, 300, 380, 399, 400, 401, 450]);
            self.jump(5 * b as u64, b);
            let n = *self.rng.pick(&[100i128, 100, 100, 100, 50, 33, 99, 98, 1]);
            let mut r = vec![(6u32, 1u8, u, n)];
            if !self.rng.one(3) { let c2 = self.rng.below(nt) as usize; r.insert(0, (2, 0, c2, usd(c2, 30_000))); }
            if self.rng.one(3) { r.push((5, 0, d, usd(d, 1000))); }
            self.submit(p, f, r);
            if self.rng.one(3) { self.noise(p); }
        }
        if self.rng.one(2) { self.op("pool", "bad_debt", pool(p), Box::new(move |w| args![w; w.users[u]]), ""); }
        if self.rng.one(3) { let b = self.v().by(&self.run.r.bs, "PoolBalance", &self.run.r.pools[p]).map(|x| fi(x, "tokens")).unwrap_or(0); let left = if self.rng.one(2) { self.tokens_at_threshold().min(b) } else { b / (2 + self.rng.below(600) as i128) }; let a = b - left; self.op("backstop", "draw", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.pools[p], a, w.admin]), ""); }
        self.op("pool", "new_bad_debt_auction", pool(p), Box::new(|w| args![w;]), "");
        for _ in 0..(1 + self.rng.below(2)) {
            let b = *self.rng.pick(&[1u32, 100, 199, 200, 201, 300, 399, 400, 500]);
            self.jump(5 * b as u64, b);
            let n = *self.rng.pick(&[100i128, 100, 100, 50, 20, 99]);
            let r = vec![(2u32, 0u8, c, usd(c, 30_000)), (7, 2, 0, n)];
            self.submit(p, f, r);
        }
        if self.rng.one(2) { self.interest(p); }
    }
    /// backstop tokens that bring the pool close to a threshold of 1 to 6 (of 10^7), the range in which bad debt is burnt or not
    fn tokens_at_threshold(&mut self) -> i128 {
        let (b, u) = self.v().one(&self.run.r.bs, "LPTknVal").map(|x| { let i = items(x); (int(&i[0]), int(&i[1])) }).unwrap_or((S7, S7));
        let k = 1.0 + self.rng.below(500) as f64 / 100.0;
        let pc = k * 3.2e19;
        ((pc / ((b as f64 / 1e7).powi(4) * (u as f64 / 1e7)).max(1e-9)).powf(0.2) * 1e7) as i128
    }
    /// collateral and debt of a user, the price of the collateral set so that the health factor is at a mark
    fn edge(&mut self) {
        let p = if self.rng.one(4) { 1 } else { 0 };
        let u = self.rng.below(2) as usize;
        let nt = 3 - p as u64;
        let c = self.rng.below(nt) as usize;
        let d = { let mut d = self.rng.below(nt) as usize; if d == c { d = (d + 1) % nt as usize } d };
        let n = usd(c, 1000 + self.rng.below(30_000) as i128);
        let worth = n as f64 / one(c) as f64 * self.cur_price(c) as f64 / self.cur_price(d).max(1) as f64 * one(d) as f64;
        for f in [70, 55, 40, 25, 15] { let b = (worth * (f as f64 + self.rng.below(8) as f64) / 100.0) as i128; if self.submit(p, u, vec![(2, 0, c, n), (4, 0, d, b)]) || self.run.stop { break; } }
        let (mut col, mut lia, mut other) = (0f64, 0f64, 0f64);
        for t in 0..nt as usize {
            let (hc, _, hl) = self.held(p, u, t);
            let (pa, ta, pr) = (self.run.r.pools[p].clone(), self.run.r.toks[t].clone(), self.cur_price(t) as f64);
            let v = self.v();
            let (Some(cf), Some(rd)) = (v.by(&pa, "ResConfig", &ta), v.by(&pa, "ResData", &ta)) else { continue };
            let x = hc as f64 * fi(rd, "b_rate") as f64 / 1e9 / one(t) as f64 * pr * fi(cf, "c_factor") as f64 / 1e7;
            if t == c { col += x } else { other += x }
            lia += hl as f64 * fi(rd, "d_rate") as f64 / 1e9 / one(t) as f64 * pr / (fi(cf, "l_factor") as f64 / 1e7).max(1e-7);
            if t == c { lia -= hl as f64 * fi(rd, "d_rate") as f64 / 1e9 / one(t) as f64 * pr / (fi(cf, "l_factor") as f64 / 1e7).max(1e-7); }
        }
        if col > 0.0 && lia > other {
            let mark = *self.rng.pick(&[1.0f64, 1.0, 1.000001, 1.000005, 1.00001, 1.00002, 0.99999, 0.9999, 1.0001]);
            let x = ((self.cur_price(c) as f64) * (lia * mark - other) / col) as i128 + self.rng.below(3) as i128;
            self.price(c, x.max(1), 0);
        }
        match self.rng.below(3) {
            0 => { for pc in [100u64, 50, 20, 5, 1] { if self.op("pool", "new_liquidation_auction", pool(p), Box::new(move |w| args![w; w.users[u], pc]), "") || self.run.stop { break; } } }
            1 => self.gamble(p, u),
            _ => { let x = *self.rng.pick(&[1i128, 10, 1000]); let r = if self.rng.one(2) { (3, 0, c, x) } else { (4, 0, d, x) }; self.submit(p, u, vec![r]); if self.rng.one(2) { self.op("pool", "new_liquidation_auction", pool(p), Box::new(move |w| args![w; w.users[u], 10u64]), ""); } }
        }
    }
    /// a step that leaves the account unhealthy, hidden between harmless ones
    fn gamble(&mut self, p: usize, u: usize) {
        let nt = 3 - p;
        let held: Vec<(i128, i128, i128)> = (0..nt).map(|t| self.held(p, u, t)).collect();
        let mut r = vec![];
        let pick = |g: &mut Self, f: &dyn Fn(&(i128, i128, i128)) -> i128| -> Option<(usize, i128)> { let c: Vec<usize> = (0..nt).filter(|t| f(&held[*t]) > 0).collect(); if c.is_empty() { None } else { let t = *g.rng.pick(&c); Some((t, f(&held[t]))) } };
        let risky = if self.rng.one(3) { let t = self.rng.below(nt as u64) as usize; Some((4u32, 0u8, t, usd(t, 1000 + self.rng.below(20_000) as i128))) } else { pick(self, &|h| h.0).map(|(t, x)| { let n = *self.rng.pick(&[100i128, 95, 80, 60]); (3, 0, t, x * n / 100) }) };
        for _ in 0..(1 + self.rng.below(3)) {
            let t = self.rng.below(nt as u64) as usize;
            let q = match self.rng.below(6) {
                0 | 1 => pick(self, &|h| h.2).map(|(t, x)| { let n = *self.rng.pick(&[300i128, 200, 50, 1]); (5, 0, t, x * n / 100 + 1) }),
                2 => Some((0, 0, t, usd(t, 10))),
                3 => Some((2, 0, t, usd(t, 1))),
                4 => pick(self, &|h| h.1).map(|(t, x)| (1, 0, t, x)),
                _ => Some((4, 0, t, usd(t, 1))),
            };
            if let Some(q) = q { r.push(q); }
        }
        if let Some(x) = risky { let at = self.rng.below(r.len() as u64 + 1) as usize; r.insert(at, x); }
        self.submit(p, u, r);
    }
    fn noise(&mut self, p: usize) { let u = self.user(); match self.rng.below(5) { 0 => self.time(), 1 => { self.op("pool", "new_liquidation_auction", pool(p), Box::new(move |w| args![w; w.users[u], 50u64]), ""); } _ => { let r = self.request(p, u); self.submit(p, u, vec![r]); } } }
    fn interest(&mut self, p: usize) {
        if p == 0 && self.rng.one(3) { // a large loan over a long time
            let (u, d) = (self.user(), *self.rng.pick(&[2usize, 2, 0]));
            for f in [250_000, 150_000, 60_000] { let c = if d == 2 { 0 } else { 2 }; if self.submit(p, u, vec![(2, 0, c, usd(c, 500_000)), (4, 0, d, usd(d, f))]) { break; } }
            let s = *self.rng.pick(&[30u64, 90, 200]) * 86400; self.jump(s, 1000);
            for t in 0..4 { let x = self.cur_price(t); self.price(t, x, 0); }
            self.submit(p, 1, vec![(2, 0, d, usd(d, 50))]);
        }
        let k = self.rng.below(8);
        self.op("pool", "new_interest_auction", pool(p), Box::new(move |w| args![w; (match k { 0 => svec![&w.e, w.toks[0].clone()], 1 => svec![&w.e, w.toks[0].clone(), w.toks[1].clone()], 2 => svec![&w.e, w.toks[0].clone(), w.toks[0].clone()], 3 => svec![&w.e, w.toks[1].clone()], 4 | 5 => svec![&w.e, w.toks[2].clone()], 6 => svec![&w.e, w.toks[2].clone(), w.toks[0].clone()], _ => svec![&w.e, w.toks[0].clone(), w.toks[1].clone(), w.toks[2].clone()] })]), "");
        for _ in 0..self.rng.below(3) {
            let b = *self.rng.pick(&[1u32, 100, 199, 200, 201, 300, 399, 400, 500]);
            self.jump(5 * b as u64, b);
            let (n, f) = (*self.rng.pick(&[100i128, 100, 50, 20, 99]), self.user());
            let mut r = vec![(8, 2, 0, n)];
            if self.rng.one(2) { let x = self.request(p, f); r.insert(0, x); }
            if self.rng.one(4) { let x = self.request(p, f); r.push(x); }
            self.submit(p, f, r);
        }
    }
    fn submit(&mut self, p: usize, u: usize, reqs: Vec<(u32, u8, usize, i128)>) -> bool {
        let (s, t) = (if self.rng.one(6) { self.user() } else { u }, if self.rng.one(6) { self.user() } else { u });
        let note = match reqs.len() { 1 => format!("#{}", reqs[0].0), _ => "#batch".into() };
        self.op("pool", "submit", pool(p), Box::new(move |w| {
            let mut l: SVec<ref_pool::Request> = SVec::new(&w.e);
            for (k, a, i, n) in &reqs { l.push_back(ref_pool::Request { request_type: *k, address: match a { 0 => w.toks[*i].clone(), 1 => w.users[*i].clone(), 2 => w.bs.clone(), _ => w.users[u].clone() }, amount: *n }); }
            args![w; w.users[u], w.users[s], w.users[t], l]
        }), &note)
    }
    fn pool_user(&mut self) {
        let p = if self.rng.one(4) { 1 } else { 0 };
        let u = self.user();
        match self.rng.below(30) {
            0..=17 => { let n = if self.rng.one(3) { 2 + self.rng.below(2) } else { 1 }; let r = (0..n).map(|_| self.request(p, u)).collect(); self.submit(p, u, r); }
            18..=20 => { let k = self.rng.below(3); let t = self.user(); self.op("pool", "claim", pool(p), Box::new(move |w| args![w; w.users[u], (match k { 0 => svec![&w.e, 0u32, 3], 1 => svec![&w.e, 1u32, 0, 1], _ => svec![&w.e, 3u32] }), w.users[t]]), ""); }
            21 => { self.op("emitter", "distribute", Box::new(|w| w.em.clone()), Box::new(|w| args![w;]), ""); self.op("backstop", "gulp_emissions", Box::new(|w| w.bs.clone()), Box::new(|w| args![w;]), ""); self.op("pool", "gulp_emissions", pool(p), Box::new(|w| args![w;]), ""); }
            22 => { self.op("pool", "update_status", pool(p), Box::new(|w| args![w;]), ""); }
            23 => { self.op("pool", "get_positions", pool(p), Box::new(move |w| args![w; w.users[u]]), ""); }
            24 => { let s = *self.rng.pick(&[0u32, 2, 3, 3, 4]); self.op("pool", "set_status", pool(p), Box::new(move |w| args![w; s]), ""); if self.rng.one(2) { self.op("pool", "set_status", pool(p), Box::new(|w| args![w; 0u32]), ""); } }
            25 => { let (t, n) = (self.rng.below(3) as usize, self.rng.below(100) as i128); if n > 0 { self.op("token", "mint", Box::new(move |w| w.toks[t].clone()), Box::new(move |w| args![w; w.pools[p], n * 1000]), ""); } }
            _ => self.time(),
        }
    }
    // ---------------------------------------------------------------- auctions
    fn auctions(&mut self) {
        let p = if self.rng.one(4) { 1 } else { 0 };
        let u = self.user();
        match self.rng.below(30) {
            0..=2 => { // borrow close to the limit
                let (t, d) = (self.rng.below(2) as usize, self.rng.below(2) as usize);
                let n = usd(t, 1000 + self.rng.below(5000) as i128);
                let worth = n as f64 / one(t) as f64 * self.cur_price(t) as f64 / self.cur_price(d).max(1) as f64;
                let b = (worth * one(d) as f64 * (0.2 + self.rng.below(60) as f64 / 100.0)) as i128;
                self.submit(p, u, vec![(2, 0, t, n), (4, 0, d, b)]);
            }
            3..=4 => { let t = self.rng.below(3 - p as u64) as usize; let x = self.cur_price(t); let m = *self.rng.pick(&[500i128, 800, 900, 1100, 1250, 2000, 950]); self.price(t, (x * m / 1000).max(1), 0); }
            5..=9 => { let pc = *self.rng.pick(&[100u64, 50, 20, 10, 75, 30, 5, 1, 0, 101, 60, 90]); self.op("pool", "new_liquidation_auction", pool(p), Box::new(move |w| args![w; w.users[u], pc]), ""); }
            10..=14 => { let k = *self.rng.pick(&[6u32, 6, 6, 7, 8]); let who = if k == 6 { (k, 1u8, self.user(), *self.rng.pick(&[100i128, 100, 100, 50, 33, 99])) } else { (k, 2, 0, *self.rng.pick(&[100i128, 50, 100, 20])) }; let mut r = vec![who]; if self.rng.one(2) { r.insert(0, (2, 0, 0, usd(0, 20_000))); } if self.rng.one(3) { let x = self.request(p, u); r.push(x); } self.submit(p, u, r); }
            15..=16 => { self.op("pool", "bad_debt", pool(p), Box::new(move |w| args![w; w.users[u]]), ""); }
            17..=18 => { self.op("pool", "new_bad_debt_auction", pool(p), Box::new(|w| args![w;]), ""); }
            19..=21 => self.interest(p),
            22 => { let k = self.rng.below(3) as u32; self.op("pool", "get_auction", pool(p), Box::new(move |w| args![w; k, (if k == 0 { w.users[u].clone() } else { w.bs.clone() })]), ""); }
            23 => { let b = self.v().by(&self.run.r.bs, "PoolBalance", &self.run.r.pools[p]).map(|x| fi(x, "tokens")).unwrap_or(0); if self.rng.one(3) { let a = b - b / (2 + self.rng.below(60) as i128); self.op("backstop", "draw", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.pools[p], a, w.admin]), ""); } }
            24 => self.pool_user(),
            _ => self.time(),
        }
    }
    // ---------------------------------------------------------------- administration
    fn admin(&mut self) {
        let p = self.rng.below(2) as usize;
        let t = self.rng.below(3) as usize;
        match self.rng.below(20) {
            0..=4 => { let valid = !self.rng.one(3); let c = self.config(t, valid); self.op("pool", "queue_set_reserve", pool(p), Box::new(move |w| args![w; w.toks[t], c.clone()]), ""); }
            5..=8 => { self.op("pool", "set_reserve", pool(p), Box::new(move |w| args![w; w.toks[t]]), ""); }
            9 => { self.op("pool", "cancel_set_reserve", pool(p), Box::new(move |w| args![w; w.toks[t]]), ""); }
            10 => { let (r, m) = (*self.rng.pick(&[0u32, 9999999, 10000000, 1000000]), *self.rng.pick(&[2u32, 1, 6, 0])); self.op("pool", "update_pool", pool(p), Box::new(move |w| args![w; r, m]), ""); }
            11 => { let k = self.rng.below(3); self.op("pool", "set_admin", pool(p), Box::new(move |w| args![w; (if k == 0 { w.users[0].clone() } else { w.admin.clone() })]), ""); }
            12 => { self.op("pool", "initialize", pool(p), Box::new(|w| args![w; w.users[0], SString::from_str(&w.e, "y"), w.oracle, 1u32, 3u32, w.bs, w.blnd]), ""); }
            13..=14 => { let n = self.rng.below(4); let x: Vec<(u32, u32, u64)> = (0..n).map(|_| (self.rng.below(4) as u32, self.rng.below(3) as u32, *self.rng.pick(&[0u64, 1, 3_000_000, 5_000_000, 10_000_000, 4_000_000, 10_000_001]))).collect(); self.op("pool", "set_emissions_config", pool(p), Box::new(move |w| { let mut l = SVec::new(&w.e); for (a, b, c) in &x { l.push_back(ref_pool::ReserveEmissionMetadata { res_index: *a, res_type: *b, share: *c }); } args![w; l] }), ""); }
            15 => { let s = *self.rng.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7]); self.op("pool", "set_status", pool(p), Box::new(move |w| args![w; s]), ""); }
            16 => { self.op("pool", "update_status", pool(p), Box::new(|w| args![w;]), ""); }
            17 => { let (u, n) = (p, self.rng.below(10)); let sh = self.v().ubal(&self.run.r.pools[p], &self.run.r.users[u]).map(|x| fi(x, "shares")).unwrap_or(0); let a = sh * n as i128 / 10; self.op("backstop", "queue_withdrawal", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.users[u], w.pools[p], a]), ""); self.op("pool", "update_status", pool(p), Box::new(|w| args![w;]), ""); }
            _ => self.time(),
        }
    }
    /// the queued share of the pool's backstop is brought near a status threshold
    fn status(&mut self) {
        let p = self.rng.below(2) as usize;
        let pb = self.v().by(&self.run.r.bs, "PoolBalance", &self.run.r.pools[p]).map(|x| (fi(x, "shares"), fi(x, "q4w"), fi(x, "tokens"))).unwrap_or((0, 0, 0));
        let target = pb.0 * *self.rng.pick(&[25i128, 30, 50, 60, 75, 0]) / 100 + *self.rng.pick(&[0i128, 0, 1, -1, S7]);
        let d = target - pb.1;
        let bs: Target = Box::new(|w| w.bs.clone());
        if d > 0 { self.op("backstop", "queue_withdrawal", bs, Box::new(move |w| args![w; w.users[p], w.pools[p], d]), ""); } else if d < 0 { self.op("backstop", "dequeue_withdrawal", bs, Box::new(move |w| args![w; w.users[p], w.pools[p], -d]), ""); }
        if self.rng.one(6) { let a = pb.2 - pb.2 / (2 + self.rng.below(3) as i128); self.op("backstop", "draw", Box::new(|w| w.bs.clone()), Box::new(move |w| args![w; w.pools[p], a, w.admin]), ""); }
        let s = *self.rng.pick(&[0u32, 2, 3, 4, 1]);
        if self.rng.one(2) { self.op("pool", "set_status", pool(p), Box::new(move |w| args![w; s]), ""); }
        self.op("pool", "update_status", pool(p), Box::new(|w| args![w;]), "");
    }
}

pub fn episode(run: &mut Run, rng: &mut Rng, focus: &str, ok: &mut BTreeMap<String, (u64, u64)>) {
    let kinds: &[&str] = match focus { "emitter" => &["emitter"], "factory" => &["factory"], "backstop" => &["backstop"], "pool" => &["pool", "crash", "pool"], "auction" => &["auction", "crash", "crash"], "admin" => &["admin", "status"], _ => &["emitter", "factory", "backstop", "backstop", "pool", "auction", "crash", "admin", "status"] };
    let kind = *rng.pick(kinds);
    let n = match kind { "factory" => 12, "emitter" => 60, "crash" => 15 + rng.below(30), _ => 40 + rng.below(80) };
    let mut g = G { run, rng, ok };
    g.setup(!matches!(kind, "emitter" | "factory" | "backstop"), kind == "admin");
    for _ in 0..n {
        if g.run.stop { return; }
        match kind {
            "emitter" => g.emitter(),
            "factory" => g.factory(),
            "backstop" => { g.backstop(); if g.rng.one(4) { g.time(); } }
            "pool" => { if g.rng.one(12) { if g.rng.one(2) { g.edge() } else { let (p, u) = (g.rng.below(2) as usize, g.user()); g.gamble(p, u) } } else if g.rng.one(15) { g.auctions() } else if g.rng.one(20) { g.backstop() } else { g.pool_user() } }
            "auction" => { if g.rng.one(12) { g.edge() } else if g.rng.one(4) { g.pool_user() } else { g.auctions() } }
            "crash" => { if g.rng.one(8) { g.edge() } else if g.rng.one(3) { g.crash() } else if g.rng.one(3) { g.auctions() } else { g.pool_user() } }
            "status" => { if g.rng.one(4) { g.admin() } else { g.status() } }
            _ => { if g.rng.one(4) { g.pool_user() } else { g.admin() } }
        }
    }
}
