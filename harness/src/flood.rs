//! Two identical chains, one of which is flooded with other people's orders that nobody trades against. Whatever the
//! honest users then do must turn out the same on both, and must not take more work on the flooded one: storage entries
//! read and written, queries between contracts and messages sent are counted by the chain host.
use crate::chain::*;
use crate::common::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};

pub const PROPS: [Tag; 1] = ["X04"];
const NS: u64 = 1_000_000_000;
/// what an action may cost beyond its cost without the flood
const SLACK: u64 = 64;
const PER_BLOCK: usize = 4;

pub struct Flood {
    a: Chain,
    b: Chain,
    rng: Rng,
    k: Kind,
    m: String,
    colls: Vec<String>,
    /// honest users; number 0 administers
    u: Vec<String>,
    crowd: Vec<String>,
    seq: u128,
    /// strangers' orders standing on the flooded chain, about
    others: u64,
    next_token: usize,
    /// what an honest user's own heap of orders elsewhere took from (+) or brought to (-) the flooded chain's account
    spent: Vec<i128>,
    heaps: usize,
    dead: bool,
}

fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn cn(n: u128) -> Value {
    json!({"amount": n.to_string(), "denom": NATIVE})
}
fn det(n: u128) -> Value {
    json!({"price": cn(n), "recipient": null, "finder": null})
}
const TOKENS: usize = 8;
const CROWD: usize = 400;
/// how many orders a heap of an honest user's own has at most; his tokens for it are in the third collection
const HEAP: usize = 150;
const FIRST: usize = 1000; // tokens FIRST.. of the first collection belong to the crowd

impl Flood {
    pub fn new(seed: u64, idx: u64, ctx: &mut Ctx) -> Self {
        let mut rng = Rng::new(seed, idx, 0xF1);
        let k = [Kind::V2, Kind::V1, Kind::RA][(idx % 3) as usize];
        let t0 = 1_700_000_000 * NS + rng.next() % NS;
        let m = contract("market");
        let u: Vec<String> = (0..6).map(user).collect();
        let crowd: Vec<String> = (0..CROWD).map(|i| format!("stars1crowd{i:0>33}")).collect();
        let colls = vec![contract("alpha"), contract("beta"), contract("gamma")];
        let (reg, burn) = (contract("registry"), contract("fairburn"));
        let hook = rng.p(30).then(|| contract("hook"));
        let build = || -> (Chain, Result<(), String>) {
            let c = Chain::new(t0);
            c.add(&reg, Kind::Registry);
            c.add(&burn, Kind::FairBurn);
            c.add(&contract("hook"), Kind::Hook);
            for x in u.iter().chain(&crowd) {
                c.mint(x, NATIVE, 1_000_000_000_000_000);
            }
            for (n, cl) in colls.iter().enumerate() {
                c.add(cl, Kind::Nft);
                let mut st = NftState { creator: u[0].clone(), ..Default::default() };
                st.info = Some(CollInfo { start: None, royalty: if n == 0 { Some((u[0].clone(), "0.05".into())) } else { None } });
                let mut own = |t: usize, o: &String| {
                    st.owners.insert(t.to_string(), o.clone());
                    st.operators.insert((o.clone(), m.clone()));
                    st.approvals.insert((t.to_string(), m.clone()), None);
                };
                for t in 1..=TOKENS {
                    own(t, &u[1 + t % 5]);
                }
                if n == 2 {
                    for i in 0..5 * HEAP {
                        own(FIRST + i, &u[1 + i / HEAP]);
                    }
                }
                if n == 0 {
                    for (i, x) in crowd.iter().enumerate() {
                        own(FIRST + i, x);
                    }
                }
                for x in &u {
                    st.operators.insert((x.clone(), m.clone()));
                }
                c.w.borrow_mut().nfts.insert(cl.clone(), st);
            }
            let r = match k {
                Kind::V2 => c
                    .instantiate(&m, k, &u[0], &json!({"config": {"fee_manager": u[0], "royalty_registry": reg, "protocol_fee_bps": 200, "max_royalty_fee_bps": 1000,
                    "maker_reward_bps": 4000, "taker_reward_bps": 1000, "default_denom": NATIVE}}))
                    .and_then(|_| {
                        c.w.borrow_mut().admins.insert(m.clone(), Some(u[0].clone()));
                        c.tx(&m, &u[0], &json!({"set_listing_fee": {"fee": cn(3)}}), &[]).map(|_| ())
                    }),
                Kind::V1 => c
                    .instantiate(&m, k, &u[0], &json!({"trading_fee_bps": 200, "ask_expiry": {"min": 10, "max": 1_000_000_000}, "bid_expiry": {"min": 10, "max": 1_000_000_000},
                    "operators": [u[0]], "sale_hook": hook, "max_finders_fee_bps": 1000, "min_price": "5", "stale_bid_duration": {"time": 10}, "bid_removal_reward_bps": 500,
                    "listing_fee": "0"}))
                    .map(|_| ()),
                _ => c
                    .instantiate(&m, k, &u[0], &json!({"fair_burn": burn, "trading_fee_percent": "0.02", "min_bid_increment_percent": "0.02", "min_duration": 10,
                    "max_duration": 1_000_000_000, "extend_duration": 60, "create_auction_fee": cn(0), "max_auctions_to_settle_per_block": PER_BLOCK, "halt_duration_threshold": 600,
                    "halt_buffer_duration": 60, "halt_postpone_duration": 100, "min_reserve_prices": [cn(5)]}))
                    .map(|_| ()),
            };
            (c, r)
        };
        let ((a, ra), (b, rb)) = (build(), build());
        if let Err(e) = ra.and(rb) {
            ctx.div(&["X04"], "setup", format!("setting up failed: {e}"));
        }
        let mut e = Flood { a, b, rng, k, m, colls, u, crowd, seq: 0, others: 0, next_token: 0, spent: vec![0; 6], heaps: 0, dead: false };
        if e.rng.p(70) {
            e.flood(ctx);
        }
        e
    }
    fn now(&self) -> u64 {
        self.a.time.get()
    }
    fn advance(&mut self, secs: u64, ctx: &mut Ctx) {
        let t = self.now() + secs * NS + self.rng.next() % NS;
        self.a.time.set(t);
        self.b.time.set(t);
        for c in [&self.a, &self.b] {
            c.height.set(c.height.get() + 1);
        }
        if self.k == Kind::RA {
            for x in ["begin_block", "end_block"] {
                self.both(x, &Err(json!({ x: {} })), &Err(json!({ x: {} })), ctx);
            }
        }
    }
    /// strangers' orders, none of which anyone will trade against
    fn flood(&mut self, ctx: &mut Ctx) {
        let n = 100 + self.rng.below(100);
        let coll = self.colls[0].clone();
        let token = 1 + self.rng.below(TOKENS);
        let kind = self.rng.below(3);
        let far = (self.now() + 900_000_000 * NS).to_string();
        let soon = (self.now() + 20 * NS).to_string();
        let mut ok = 0;
        for i in 0..n {
            let who = self.crowd[(i * 7 + self.rng.below(7)) % CROWD].clone();
            let low = 5 + self.rng.below(6) as u128;
            let high = 1_000_000_000 + self.rng.below(1000) as u128;
            let ft = FIRST + self.next_token;
            let exp = if self.rng.p(85) { &far } else { &soon };
            let (who, msg, funds) = match (self.k, kind) {
                (Kind::V2, 0) => (who, json!({"set_bid": {"collection": coll, "token_id": token.to_string(), "details": det(low)}}), low),
                (Kind::V2, 1) => (who, json!({"set_collection_bid": {"collection": coll, "details": det(low)}}), low),
                (Kind::V1, 0) => (who, json!({"set_bid": {"collection": coll, "token_id": token, "expires": exp, "sale_type": "fixed_price", "finder": null, "finders_fee_bps": null}}), low),
                (Kind::V1, 1) => (who, json!({"set_collection_bid": {"collection": coll, "expires": exp, "finders_fee_bps": null}}), low),
                _ if self.next_token >= CROWD => break,
                (kind, _) => {
                    let who = self.crowd[self.next_token].clone();
                    self.next_token += 1;
                    match kind {
                        Kind::V2 => (who, json!({"set_ask": {"collection": coll, "token_id": ft.to_string(), "details": det(high)}}), 3),
                        Kind::V1 => (who, json!({"set_ask": {"sale_type": "fixed_price", "collection": coll, "token_id": ft, "price": cn(high), "funds_recipient": null,
                            "reserve_for": null, "finders_fee_bps": null, "expires": exp}}), 0),
                        _ => (who, json!({"create_auction": {"collection": coll, "token_id": ft.to_string(), "reserve_price": cn(5), "duration": 100_000_000, "seller_funds_recipient": null}}), 0),
                    }
                }
            };
            let f: Vec<Coin> = if funds == 0 { vec![] } else { vec![coin(funds, NATIVE)] };
            if self.b.tx(&self.m, &who, &msg, &f).is_ok() {
                ok += 1;
                if self.k == Kind::RA && self.rng.p(50) {
                    let bidder = self.crowd[(self.next_token + 5) % CROWD].clone();
                    let _ = self.b.tx(&self.m, &bidder, &json!({"place_bid": {"collection": coll, "token_id": ft.to_string()}}), &[coin(low, NATIVE)]);
                }
            }
        }
        self.others += ok;
        ctx.count("X04 floods");
        ctx.log.push(format!("{ok} strangers' orders of kind {kind} on the flooded chain (token {token})"));
    }
    /// an honest user's own orders, in the third collection, on the flooded chain only
    fn heap(&mut self, ctx: &mut Ctx) {
        let i = 1 + self.heaps;
        if i > 5 {
            return;
        }
        self.heaps += 1;
        let n = HEAP / 2 + self.rng.below(HEAP / 2);
        let (who, coll, kind) = (self.u[i].clone(), self.colls[2].clone(), self.rng.below(2));
        let far = (self.now() + 900_000_000 * NS).to_string();
        let k = (who.clone(), NATIVE.to_string());
        let has = |c: &Chain| c.w.borrow().bank.get(&k).map_or(0, |n| *n as i128);
        let before = has(&self.b);
        let mut ok = 0;
        for j in 0..n {
            let (his, other) = (FIRST + (i - 1) * HEAP + j, FIRST + (i % 5) * HEAP + j);
            let low = 5 + self.rng.below(6) as u128;
            let (msg, funds) = match (self.k, kind) {
                (Kind::V2, 0) => (json!({"set_bid": {"collection": coll, "token_id": other.to_string(), "details": det(low)}}), low),
                (Kind::V2, _) => (json!({"set_ask": {"collection": coll, "token_id": his.to_string(), "details": det(1_000_000_000)}}), 3),
                (Kind::V1, 0) => (json!({"set_bid": {"collection": coll, "token_id": other, "expires": far, "sale_type": "fixed_price", "finder": null, "finders_fee_bps": null}}), low),
                (Kind::V1, _) => (
                    json!({"set_ask": {"sale_type": "fixed_price", "collection": coll, "token_id": his, "price": cn(1_000_000_000), "funds_recipient": null, "reserve_for": null,
                    "finders_fee_bps": null, "expires": far}}),
                    0,
                ),
                _ => (json!({"create_auction": {"collection": coll, "token_id": his.to_string(), "reserve_price": cn(5), "duration": 100_000_000, "seller_funds_recipient": null}}), 0),
            };
            let f: Vec<Coin> = if funds == 0 { vec![] } else { vec![coin(funds, NATIVE)] };
            ok += self.b.tx(&self.m, &who, &msg, &f).is_ok() as u64;
        }
        self.spent[i] += before - has(&self.b);
        self.others += ok;
        ctx.count("X04 heaps");
        ctx.log.push(format!("{} has {ok} orders of kind {kind} elsewhere on the flooded chain", short(&who)));
    }
    fn cost(c: &Chain) -> u64 {
        c.n_work.get() + c.n_msgs.get() + c.n_queries.get()
    }
    /// the same action on both chains; Err: as the chain itself (sudo)
    fn both(&mut self, what: &str, ma: &Result<(String, Value, Vec<Coin>), Value>, mb: &Result<(String, Value, Vec<Coin>), Value>, ctx: &mut Ctx) {
        let m = self.m.clone();
        let run = |c: &Chain, x: &Result<(String, Value, Vec<Coin>), Value>| {
            let before = Self::cost(c);
            let r = match x {
                Ok((who, msg, f)) => c.tx(&m, who, msg, f),
                Err(msg) => c.sudo(&m, msg),
            };
            (r.map(|_| ()), Self::cost(c) - before)
        };
        let ((ra, ca), (rb, cb)) = (run(&self.a, ma), run(&self.b, mb));
        let text = match ma {
            Ok((who, msg, f)) => format!("{} {msg} funds {:?}", short(who), f.iter().map(|c| c.to_string()).collect::<Vec<_>>()),
            Err(msg) => msg.to_string(),
        };
        ctx.log.push(format!("{text} -> {} (work {ca}, flooded {cb})", if ra.is_ok() { "ok" } else { "refused" }));
        ctx.count(&format!("X04 {what} {}", if ra.is_ok() { "ok" } else { "refused" }));
        if self.others > 0 {
            ctx.eval("X04", &format!("{what} {}", if ra.is_ok() { "ok" } else { "refused" }), Some(fp(&(&text, self.others))));
        }
        if ra.is_ok() != rb.is_ok() {
            ctx.div(&["X04"], "other-outcome", format!("{text}: {ra:?} alone, {rb:?} among {} strangers' orders", self.others));
            self.dead = true;
        }
        if cb > ca + SLACK {
            ctx.div(&["X04"], "more-work", format!("{text}: work {ca} alone, {cb} among {} strangers' orders", self.others));
        }
        // everyone honest ends up with the same
        let (wa, wb) = (self.a.w.borrow(), self.b.w.borrow());
        let mut diff = vec![];
        for x in self.u.iter().skip(1) {
            let k = (x.clone(), NATIVE.to_string());
            let has = |w: &World| w.bank.get(&k).map_or(0, |n| *n as i128);
            let i = self.u.iter().position(|y| y == x).unwrap();
            if has(&wa) != has(&wb) + self.spent[i] {
                diff.push(format!("{} has {} alone, {} flooded (and {} in other orders)", short(x), has(&wa), has(&wb), self.spent[i]));
            }
        }
        for c in &self.colls {
            for t in 1..=TOKENS {
                let (x, y) = (wa.nfts[c].owners.get(&t.to_string()), wb.nfts[c].owners.get(&t.to_string()));
                if x != y {
                    diff.push(format!("{} {t} belongs to {x:?} alone, {y:?} flooded", short(c)));
                }
            }
        }
        if !diff.is_empty() {
            ctx.div(&["X04"], "other-effect", format!("{text}: {}", diff.join(", ")));
            self.dead = true;
        }
    }
    /// the open orders of one kind of all honest users: (order without its identifier, identifier on each chain)
    fn orders(&mut self, kind: &str, ctx: &mut Ctx) -> Vec<(Value, [Value; 2])> {
        let mut out = vec![];
        for who in self.u.clone().iter().skip(1) {
            let list = |c: &Chain| -> Vec<(String, Value, Value)> {
                let mut v = vec![];
                // one order, if it is this user's
                let mine = |r: Result<Value, String>, f: &str, by: &str| {
                    let r = r.unwrap_or(Value::Null);
                    let r = if f.is_empty() { r } else { r[f].clone() };
                    json!(if r[by] == json!(who) { vec![r] } else { vec![] })
                };
                // strangers' orders are all priced worse, so that the first page has the honest users' orders
                let own = |r: Result<Value, String>| {
                    let r = r.unwrap_or(Value::Null);
                    json!(r.as_array().into_iter().flatten().filter(|o| o["creator"] == json!(who) && s(&o["token_id"]).len() < 4).collect::<Vec<_>>())
                };
                let mut put = |r: Value| {
                    for x in r.as_array().into_iter().flatten() {
                        let mut y = x.clone();
                        let id = y.as_object_mut().and_then(|o| o.remove("id")).unwrap_or(Value::Null);
                        v.push((y.to_string(), y, id));
                    }
                };
                for cl in &self.colls {
                    let all = || (1..=TOKENS).map(|t| t.to_string());
                    match (self.k, kind) {
                        (Kind::V2, "ask") => put(own(c.query(&self.m, &json!({"asks_by_collection_denom": {"collection": cl, "denom": NATIVE, "query_options": {"limit": 100}}})))),
                        (Kind::V2, "bid") => all().for_each(|t| {
                            put(own(c.query(&self.m, &json!({"bids_by_token_price": {"collection": cl, "token_id": t, "denom": NATIVE, "query_options": {"limit": 100, "descending": true}}}))))
                        }),
                        (Kind::V2, _) => put(own(c.query(&self.m, &json!({"collection_bids_by_price": {"collection": cl, "denom": NATIVE, "query_options": {"limit": 100, "descending": true}}})))),
                        (Kind::V1, "ask") => all().for_each(|t| put(mine(c.query(&self.m, &json!({"ask": {"collection": cl, "token_id": t.parse::<u32>().unwrap()}})), "ask", "seller"))),
                        (Kind::V1, "bid") => all().for_each(|t| put(mine(c.query(&self.m, &json!({"bid": {"collection": cl, "token_id": t.parse::<u32>().unwrap(), "bidder": who}})), "bid", "bidder"))),
                        (Kind::V1, _) => put(mine(c.query(&self.m, &json!({"collection_bid": {"collection": cl, "bidder": who}})), "bid", "bidder")),
                        _ => all().for_each(|t| put(mine(c.query(&self.m, &json!({"auction": {"collection": cl, "token_id": t}})), "", "seller"))),
                    }
                }
                v.sort_by(|x, y| x.0.cmp(&y.0));
                v
            };
            let (x, y) = (list(&self.a), list(&self.b));
            if x.iter().map(|z| &z.0).ne(y.iter().map(|z| &z.0)) {
                ctx.div(&["X04"], "other-orders", format!("open {kind}s of {}: {:?} alone, {:?} flooded", short(who), x.iter().map(|z| &z.0).collect::<Vec<_>>(), y.iter().map(|z| &z.0).collect::<Vec<_>>()));
                self.dead = true;
            }
            out.extend(x.into_iter().zip(y).map(|(x, y)| (x.1, [x.2, y.2])));
        }
        out
    }
    fn price(&mut self) -> u128 {
        self.seq += 1;
        // no two orders have the same price, so that ties never decide
        (100 + self.rng.below(9) as u128 * 25) * 10_000 + self.seq
    }
    fn act(&mut self, ctx: &mut Ctx) {
        let coll = self.colls[self.rng.pickc(&[0, 0, 0, 0, 1, 2, 2])].clone();
        let t = 1 + self.rng.below(TOKENS);
        let who = self.u[1 + self.rng.below(5)].clone();
        let owner = self.a.w.borrow().nfts[&coll].owners.get(&t.to_string()).cloned().unwrap_or_default();
        let p = self.price();
        let pay = |n: u128| vec![coin(n, NATIVE)];
        let same = |s: &mut Self, what: &str, who: String, msg: Value, f: Vec<Coin>, ctx: &mut Ctx| {
            let x = Ok((who, msg, f));
            s.both(what, &x, &x, ctx)
        };
        let mine = self.u.contains(&owner);
        match self.k {
            Kind::V2 => match self.rng.below(14) {
                0 | 1 if mine => same(self, "set_ask", owner, json!({"set_ask": {"collection": coll, "token_id": t.to_string(), "details": det(p)}}), pay(3), ctx),
                2 if mine => same(self, "sell_nft", owner, json!({"sell_nft": {"collection": coll, "token_id": t.to_string(), "details": det(p / 2)}}), pay(3), ctx),
                3 | 4 => same(self, "set_bid", who, json!({"set_bid": {"collection": coll, "token_id": t.to_string(), "details": det(p)}}), pay(p), ctx),
                5 | 6 => same(self, "set_collection_bid", who, json!({"set_collection_bid": {"collection": coll, "details": det(p)}}), pay(p), ctx),
                7 => same(self, "buy", who, json!({"buy_specific_nft": {"collection": coll, "token_id": t.to_string(), "details": det(p * 2)}}), pay(p * 2), ctx),
                8 => same(self, "buy_from_collection", who, json!({"buy_collection_nft": {"collection": coll, "details": det(p * 2)}}), pay(p * 2), ctx),
                _ => {
                    let kind = self.rng.pickc(&["ask", "bid", "collection_bid"]);
                    let l = self.orders(kind, ctx);
                    if l.is_empty() {
                        return;
                    }
                    let (o, ids) = self.rng.pickc(&l);
                    let (cr, amt) = (s(&o["creator"]), s(&o["details"]["price"]["amount"]).parse::<u128>().unwrap_or(0));
                    let (what, who, body, f): (String, String, Value, Vec<Coin>) = match self.rng.below(4) {
                        0 => (format!("remove_{kind}"), cr, json!({}), vec![]),
                        1 => {
                            let f = if kind == "ask" { vec![] } else { pay(p) };
                            (format!("update_{kind}"), cr, json!({"details": det(p)}), f)
                        }
                        _ if kind == "ask" => ("accept_ask".into(), who, json!({"details": det(amt)}), pay(amt)),
                        _ if kind == "bid" => {
                            let tok = s(&o["token_id"]);
                            let ow = self.a.w.borrow().nfts[&s(&o["collection"])].owners.get(&tok).cloned().unwrap_or_default();
                            let seller = if ow == self.m { self.orders("ask", ctx).iter().find(|x| x.0["collection"] == o["collection"] && x.0["token_id"] == o["token_id"]).map_or(who, |x| s(&x.0["creator"])) } else { ow };
                            ("accept_bid".into(), seller, json!({"details": det(amt)}), vec![])
                        }
                        _ => {
                            let c = s(&o["collection"]);
                            let w = self.a.w.borrow();
                            let l: Vec<(String, String)> = (1..=TOKENS).filter_map(|t| w.nfts[&c].owners.get(&t.to_string()).filter(|x| self.u.contains(x)).map(|x| (t.to_string(), x.clone()))).collect();
                            drop(w);
                            if l.is_empty() {
                                return;
                            }
                            let (tok, ow) = self.rng.pickc(&l);
                            ("accept_collection_bid".into(), ow, json!({"token_id": tok, "details": det(amt)}), vec![])
                        }
                    };
                    let msg = |i: usize| {
                        let mut b = body.clone();
                        b["id"] = ids[i].clone();
                        json!({ &*what: b })
                    };
                    let (x, y) = (Ok((who.clone(), msg(0), f.clone())), Ok((who.clone(), msg(1), f.clone())));
                    self.both(&what, &x, &y, ctx);
                }
            },
            Kind::V1 => {
                let exp = (self.now() + (20 + self.rng.below(300) as u64) * NS).to_string();
                let st = if self.rng.p(70) { "fixed_price" } else { "auction" };
                match self.rng.below(16) {
                    0 | 1 => same(self, "set_ask", owner, json!({"set_ask": {"sale_type": st, "collection": coll, "token_id": t, "price": cn(p), "funds_recipient": null, "reserve_for": null,
                        "finders_fee_bps": null, "expires": exp}}), vec![], ctx),
                    2 => same(self, "remove_ask", owner, json!({"remove_ask": {"collection": coll, "token_id": t}}), vec![], ctx),
                    3 => same(self, "update_ask_price", owner, json!({"update_ask_price": {"collection": coll, "token_id": t, "price": cn(p)}}), vec![], ctx),
                    4..=6 => {
                        let ask = self.orders("ask", ctx).into_iter().find(|x| x.0["collection"] == json!(coll) && x.0["token_id"] == json!(t));
                        let (n, ty) = ask.map_or((p, st), |x| (s(&x.0["price"]).parse().unwrap_or(p), if x.0["sale_type"] == "auction" { "auction" } else { "fixed_price" }));
                        let n = if self.rng.p(60) { n } else { n - 1 };
                        let body = json!({"collection": coll, "token_id": t, "expires": exp, "finder": null, "finders_fee_bps": null});
                        if self.rng.p(60) {
                            let mut b = body;
                            b["sale_type"] = json!(ty);
                            same(self, "set_bid", who, json!({ "set_bid": b }), pay(n), ctx)
                        } else {
                            same(self, "buy_now", who, json!({ "buy_now": body }), pay(n), ctx)
                        }
                    }
                    7 | 8 => same(self, "set_collection_bid", who, json!({"set_collection_bid": {"collection": coll, "expires": exp, "finders_fee_bps": null}}), pay(p), ctx),
                    9..=12 => {
                        let l = self.orders("bid", ctx);
                        if l.is_empty() {
                            return;
                        }
                        let (o, _) = self.rng.pickc(&l);
                        let tok = o["token_id"].as_u64().unwrap_or(0);
                        let ow = self.a.w.borrow().nfts[&s(&o["collection"])].owners.get(&tok.to_string()).cloned().unwrap_or_default();
                        let (what, who, with) = match self.rng.below(4) {
                            0 => ("remove_bid", s(&o["bidder"]), false),
                            1 => ("reject_bid", ow, true),
                            2 => ("remove_stale_bid", self.u[0].clone(), true),
                            _ => ("accept_bid", ow, true),
                        };
                        let mut b = json!({"collection": o["collection"], "token_id": tok});
                        if with {
                            b["bidder"] = o["bidder"].clone();
                        }
                        same(self, what, who, json!({ what: b }), vec![], ctx)
                    }
                    13 | 14 => {
                        let l = self.orders("collection_bid", ctx);
                        if l.is_empty() {
                            return;
                        }
                        let (o, _) = self.rng.pickc(&l);
                        let c = s(&o["collection"]);
                        let ow = self.a.w.borrow().nfts[&c].owners.get(&t.to_string()).cloned().unwrap_or_default();
                        match self.rng.below(3) {
                            0 => same(self, "remove_collection_bid", s(&o["bidder"]), json!({"remove_collection_bid": {"collection": c}}), vec![], ctx),
                            1 => same(self, "remove_stale_collection_bid", self.u[0].clone(), json!({"remove_stale_collection_bid": {"collection": c, "bidder": o["bidder"]}}), vec![], ctx),
                            _ => same(self, "accept_collection_bid", ow, json!({"accept_collection_bid": {"collection": c, "token_id": t, "bidder": o["bidder"], "finder": null}}), vec![], ctx),
                        }
                    }
                    _ => {
                        let what = self.rng.pickc(&["sync_ask", "remove_stale_ask"]);
                        same(self, what, self.u[0].clone(), json!({ what: {"collection": coll, "token_id": t} }), vec![], ctx)
                    }
                }
            }
            _ => {
                let key = json!({"collection": coll, "token_id": t.to_string()});
                match self.rng.below(10) {
                    0..=2 if mine => {
                        let d = 10 + self.rng.below(200);
                        same(self, "create_auction", owner, json!({"create_auction": {"collection": coll, "token_id": t.to_string(), "reserve_price": cn(p), "duration": d, "seller_funds_recipient": null}}), vec![], ctx)
                    }
                    3 => {
                        let l = self.orders("auction", ctx);
                        if l.is_empty() {
                            return;
                        }
                        let (o, _) = self.rng.pickc(&l);
                        let k = json!({"collection": o["collection"], "token_id": o["token_id"]});
                        if self.rng.p(50) {
                            same(self, "cancel_auction", s(&o["seller"]), json!({ "cancel_auction": k }), vec![], ctx)
                        } else {
                            let mut k = k;
                            k["reserve_price"] = cn(p);
                            same(self, "update_reserve_price", s(&o["seller"]), json!({ "update_reserve_price": k }), vec![], ctx)
                        }
                    }
                    4 => same(self, "settle_auction", who, json!({ "settle_auction": key }), vec![], ctx),
                    _ => {
                        let l = self.orders("auction", ctx);
                        if l.is_empty() {
                            return;
                        }
                        let (o, _) = self.rng.pickc(&l);
                        let n = s(&o["high_bid"]["coin"]["amount"]).parse::<u128>().map_or(p, |x| x + x / 10);
                        same(self, "place_bid", who, json!({"place_bid": {"collection": o["collection"], "token_id": o["token_id"]}}), pay(n.max(p)), ctx)
                    }
                }
            }
        }
    }
    /// a backlog of ended auctions, short on one chain and long on the other: a block works off as much of either
    fn backlog(&mut self, ctx: &mut Ctx) {
        let coll = self.colls[0].clone();
        let n = 60 + self.rng.below(60);
        let first = self.next_token;
        let halted = self.rng.p(30);
        if first + n + PER_BLOCK > CROWD {
            return;
        }
        // none of the honest users' auctions is due in between
        self.advance(400, ctx);
        for _ in 0..6 {
            self.advance(1, ctx);
        }
        for i in 0..n {
            let (ft, who, bidder) = ((FIRST + first + i).to_string(), self.crowd[first + i].clone(), self.crowd[(first + i + 1) % CROWD].clone());
            for c in [&self.a, &self.b] {
                if i >= PER_BLOCK && std::ptr::eq(c, &self.a) {
                    continue;
                }
                let r = c
                    .tx(&self.m, &who, &json!({"create_auction": {"collection": coll, "token_id": ft, "reserve_price": cn(1000), "duration": 20, "seller_funds_recipient": null}}), &[])
                    .and_then(|_| c.tx(&self.m, &bidder, &json!({"place_bid": {"collection": coll, "token_id": ft}}), &[coin(1000, NATIVE)]));
                if let Err(e) = r {
                    ctx.div(&["X04"], "setup", format!("backlog auction refused: {e}"));
                }
            }
        }
        self.next_token += n;
        self.others += n as u64;
        ctx.log.push(format!("{n} of the strangers' auctions due on the flooded chain, {PER_BLOCK} on the other"));
        ctx.count("X04 backlogs");
        self.advance(if halted { 700 } else { 25 }, ctx);
        // work off what is left, unjudged
        for _ in 0..(n / PER_BLOCK + 2) * if halted { 2 } else { 1 } {
            for c in [&self.a, &self.b] {
                for x in ["begin_block", "end_block"] {
                    let _ = c.sudo(&self.m, &json!({ x: {} }));
                }
            }
            let t = self.now() + if halted { 101 } else { 1 } * NS;
            self.a.time.set(t);
            self.b.time.set(t);
        }
    }
}

impl Engine for Flood {
    fn step(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        if self.rng.p(40) {
            let d = self.rng.pickc(&[0, 1, 2, 5, 15, 40, 90]);
            self.advance(d, ctx);
        }
        if self.rng.p(3) {
            self.flood(ctx);
        }
        if self.rng.p(2) {
            self.heap(ctx);
        }
        if self.k == Kind::RA && self.rng.p(1) {
            self.backlog(ctx);
        }
        if !self.dead {
            self.act(ctx);
        }
    }
    fn finish(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        if self.k == Kind::RA {
            self.backlog(ctx);
        }
        for k in match self.k {
            Kind::RA => vec!["auction"],
            _ => vec!["ask", "bid", "collection_bid"],
        } {
            self.orders(k, ctx);
        }
    }
}
