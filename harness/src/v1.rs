//! V1 marketplace (sg-marketplace) engine: workload generator, reference model (oracle), monitors.
use crate::chain::*;
use crate::common::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const NS: u64 = 1_000_000_000;
const MAX_ASK: u128 = 100_000_000_000_000;
type Key = (String, u32);
type BKey = (String, u32, String);
type CKey = (String, String);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ask {
    fixed: bool,
    coll: String,
    token: u32,
    seller: String,
    price: u128,
    rcpt: Option<String>,
    reserve: Option<String>,
    ffee: Option<u64>,
    exp: u64,
    active: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Bid {
    coll: String,
    token: u32,
    bidder: String,
    price: u128,
    ffee: Option<u64>,
    exp: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct CBid {
    coll: String,
    bidder: String,
    price: u128,
    ffee: Option<u64>,
    exp: u64,
}
fn st(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
fn num(v: &Value) -> Option<u128> {
    v.as_str()?.parse().ok()
}
fn ts(v: &Value) -> Option<u64> {
    v.as_str()?.parse().ok()
}
impl Ask {
    fn parse(v: &Value) -> Option<Ask> {
        Some(Ask {
            fixed: match v["sale_type"].as_str()? {
                "fixed_price" => true,
                "auction" => false,
                _ => return None,
            },
            coll: st(&v["collection"])?,
            token: v["token_id"].as_u64()? as u32,
            seller: st(&v["seller"])?,
            price: num(&v["price"])?,
            rcpt: st(&v["funds_recipient"]),
            reserve: st(&v["reserve_for"]),
            ffee: v["finders_fee_bps"].as_u64(),
            exp: ts(&v["expires_at"])?,
            active: v["is_active"].as_bool()?,
        })
    }
    fn json(&self) -> Value {
        json!({"sale_type": if self.fixed {"fixed_price"} else {"auction"}, "collection": self.coll, "token_id": self.token, "seller": self.seller,
            "price": self.price.to_string(), "funds_recipient": self.rcpt, "reserve_for": self.reserve, "finders_fee_bps": self.ffee,
            "expires_at": self.exp.to_string(), "is_active": self.active})
    }
    fn key(&self) -> Key {
        (self.coll.clone(), self.token)
    }
    fn s(&self) -> String {
        format!(
            "ask[{} {}/{} by {} at {} rcpt {:?} for {:?} ffee {:?} exp {} {}]",
            if self.fixed { "fixed" } else { "auction" },
            short(&self.coll),
            self.token,
            short(&self.seller),
            self.price,
            self.rcpt.as_ref().map(|r| short(r)),
            self.reserve.as_ref().map(|r| short(r)),
            self.ffee,
            self.exp as f64 / 1e9,
            if self.active { "active" } else { "inactive" }
        )
    }
}
impl Bid {
    fn parse(v: &Value) -> Option<Bid> {
        Some(Bid {
            coll: st(&v["collection"])?,
            token: v["token_id"].as_u64()? as u32,
            bidder: st(&v["bidder"])?,
            price: num(&v["price"])?,
            ffee: v["finders_fee_bps"].as_u64(),
            exp: ts(&v["expires_at"])?,
        })
    }
    fn json(&self) -> Value {
        json!({"collection": self.coll, "token_id": self.token, "bidder": self.bidder, "price": self.price.to_string(), "finders_fee_bps": self.ffee, "expires_at": self.exp.to_string()})
    }
    fn key(&self) -> BKey {
        (self.coll.clone(), self.token, self.bidder.clone())
    }
    fn s(&self) -> String {
        format!("bid[{}/{} by {} at {} ffee {:?} exp {}]", short(&self.coll), self.token, short(&self.bidder), self.price, self.ffee, self.exp as f64 / 1e9)
    }
}
impl CBid {
    fn parse(v: &Value) -> Option<CBid> {
        Some(CBid { coll: st(&v["collection"])?, bidder: st(&v["bidder"])?, price: num(&v["price"])?, ffee: v["finders_fee_bps"].as_u64(), exp: ts(&v["expires_at"])? })
    }
    fn key(&self) -> CKey {
        (self.coll.clone(), self.bidder.clone())
    }
    fn s(&self) -> String {
        format!("collection bid[{} by {} at {} ffee {:?} exp {}]", short(&self.coll), short(&self.bidder), self.price, self.ffee, self.exp as f64 / 1e9)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Params {
    fee: u64, // bps
    ask: (u64, u64),
    bid: (u64, u64),
    ops: Vec<String>,
    max_ff: u64,
    min: u128,
    stale: u64,
    reward: u64,
    listing: u128,
}
/// the contract keeps `bps` as a percentage decimal: bps / 100
fn bps(s: &str) -> Option<u64> {
    let a = atomics(s);
    (a % (ONE / 100) == 0).then(|| (a / (ONE / 100)) as u64)
}
impl Params {
    fn parse(v: &Value) -> Option<Params> {
        let v = &v["params"];
        let r = |v: &Value| -> Option<(u64, u64)> { Some((v["min"].as_u64()?, v["max"].as_u64()?)) };
        Some(Params {
            fee: bps(v["trading_fee_percent"].as_str()?)?,
            ask: r(&v["ask_expiry"])?,
            bid: r(&v["bid_expiry"])?,
            ops: v["operators"].as_array()?.iter().filter_map(st).collect(),
            max_ff: bps(v["max_finders_fee_percent"].as_str()?)?,
            min: num(&v["min_price"])?,
            stale: v["stale_bid_duration"]["time"].as_u64()?,
            reward: bps(v["bid_removal_reward_percent"].as_str()?)?,
            listing: num(&v["listing_fee"])?,
        })
    }
    fn valid(&self) -> bool {
        self.fee <= 10_000 && self.max_ff <= 10_000 && self.reward <= 10_000 && self.ask.0 <= self.ask.1 && self.bid.0 <= self.bid.1
    }
    fn init_json(&self, hook: Option<&String>) -> Value {
        json!({"trading_fee_bps": self.fee, "ask_expiry": {"min": self.ask.0, "max": self.ask.1}, "bid_expiry": {"min": self.bid.0, "max": self.bid.1},
            "operators": self.ops, "sale_hook": hook, "max_finders_fee_bps": self.max_ff, "min_price": self.min.to_string(),
            "stale_bid_duration": {"time": self.stale}, "bid_removal_reward_bps": self.reward, "listing_fee": self.listing.to_string()})
    }
    fn update_json(&self, only: &BTreeSet<usize>) -> Value {
        let all: Vec<(&str, Value)> = vec![
            ("trading_fee_bps", json!(self.fee)),
            ("ask_expiry", json!({"min": self.ask.0, "max": self.ask.1})),
            ("bid_expiry", json!({"min": self.bid.0, "max": self.bid.1})),
            ("max_finders_fee_bps", json!(self.max_ff)),
            ("min_price", json!(self.min.to_string())),
            ("stale_bid_duration", json!(self.stale)),
            ("bid_removal_reward_bps", json!(self.reward)),
            ("listing_fee", json!(self.listing.to_string())),
        ];
        let mut m = serde_json::Map::new();
        for (i, (k, v)) in all.into_iter().enumerate() {
            if only.contains(&i) {
                m.insert(k.into(), v);
            }
        }
        Value::Object(m)
    }
}

#[derive(Clone, Debug)]
struct S {
    asks: BTreeMap<Key, Ask>,
    bids: BTreeMap<BKey, Bid>,
    cbids: BTreeMap<CKey, CBid>,
    bank: Bank,
    owners: BTreeMap<(String, String), String>,
    par: Params,
    hooks: [Vec<String>; 3], // ask, bid, sale
}
type Calls = Vec<(String, Value)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    SetAsk,
    RemoveAsk,
    Reprice,
    SetBid,
    BuyNow,
    BuyFor,
    RemoveBid,
    AcceptBid,
    RejectBid,
    SetCb,
    RemoveCb,
    AcceptCb,
    Sync,
    StaleAsk,
    StaleBid,
    StaleCb,
}
use K::*;

#[derive(Clone, Debug)]
enum A {
    Tx(Tx),
    Params { p: Params, only: BTreeSet<usize>, ops: bool },
    AddOp(String),
    RemOp(String),
    AddHook(usize, String),
    RemHook(usize, String),
}
#[derive(Clone, Debug)]
struct Tx {
    k: K,
    sender: String,
    coll: String,
    token: u32,
    bidder: String,
    denom: String,
    amt: u128,
    fixed: bool,
    rcpt: Option<String>, // funds recipient / asset recipient
    reserve: Option<String>,
    finder: Option<String>,
    ffee: Option<u64>,
    exp: u64,
    funds: Vec<Coin>,
}
impl Tx {
    fn msg(&self) -> Value {
        let t = self;
        let e = t.exp.to_string();
        let stp = if t.fixed { "fixed_price" } else { "auction" };
        match t.k {
            SetAsk => json!({"set_ask":{"sale_type":stp,"collection":t.coll,"token_id":t.token,"price":{"denom":t.denom,"amount":t.amt.to_string()},
                "funds_recipient":t.rcpt,"reserve_for":t.reserve,"finders_fee_bps":t.ffee,"expires":e}}),
            RemoveAsk => json!({"remove_ask":{"collection":t.coll,"token_id":t.token}}),
            Reprice => json!({"update_ask_price":{"collection":t.coll,"token_id":t.token,"price":{"denom":t.denom,"amount":t.amt.to_string()}}}),
            SetBid => json!({"set_bid":{"collection":t.coll,"token_id":t.token,"expires":e,"sale_type":stp,"finder":t.finder,"finders_fee_bps":t.ffee}}),
            BuyNow => json!({"buy_now":{"collection":t.coll,"token_id":t.token,"expires":e,"finder":t.finder,"finders_fee_bps":t.ffee}}),
            BuyFor => json!({"buy_for":{"collection":t.coll,"token_id":t.token,"expires":e,"finder":t.finder,"finders_fee_bps":t.ffee,"asset_recipient":t.rcpt.clone().unwrap()}}),
            RemoveBid => json!({"remove_bid":{"collection":t.coll,"token_id":t.token}}),
            AcceptBid => json!({"accept_bid":{"collection":t.coll,"token_id":t.token,"bidder":t.bidder,"finder":t.finder}}),
            RejectBid => json!({"reject_bid":{"collection":t.coll,"token_id":t.token,"bidder":t.bidder}}),
            SetCb => json!({"set_collection_bid":{"collection":t.coll,"expires":e,"finders_fee_bps":t.ffee}}),
            RemoveCb => json!({"remove_collection_bid":{"collection":t.coll}}),
            AcceptCb => json!({"accept_collection_bid":{"collection":t.coll,"token_id":t.token,"bidder":t.bidder,"finder":t.finder}}),
            Sync => json!({"sync_ask":{"collection":t.coll,"token_id":t.token}}),
            StaleAsk => json!({"remove_stale_ask":{"collection":t.coll,"token_id":t.token}}),
            StaleBid => json!({"remove_stale_bid":{"collection":t.coll,"token_id":t.token,"bidder":t.bidder}}),
            StaleCb => json!({"remove_stale_collection_bid":{"collection":t.coll,"bidder":t.bidder}}),
        }
    }
    fn tok(&self) -> (String, String) {
        (self.coll.clone(), self.token.to_string())
    }
}
impl A {
    fn name(&self) -> String {
        match self {
            A::Tx(t) => format!("{:?}", t.k),
            A::Params { .. } => "Params".into(),
            A::AddOp(_) => "AddOperator".into(),
            A::RemOp(_) => "RemoveOperator".into(),
            A::AddHook(..) => "AddHook".into(),
            A::RemHook(..) => "RemoveHook".into(),
        }
    }
    fn msg(&self) -> Value {
        let h = ["ask", "bid", "sale"];
        match self {
            A::Tx(t) => t.msg(),
            A::Params { p, only, ops } => {
                let mut v = p.update_json(only);
                if *ops {
                    v["operators"] = json!([user(7)]);
                }
                json!({ "update_params": v })
            }
            A::AddOp(o) => json!({"add_operator":{"operator":o}}),
            A::RemOp(o) => json!({"remove_operator":{"operator":o}}),
            A::AddHook(i, o) => json!({format!("add_{}_hook", h[*i]):{"hook":o}}),
            A::RemHook(i, o) => json!({format!("remove_{}_hook", h[*i]):{"hook":o}}),
        }
    }
    fn s(&self) -> String {
        match self {
            A::Tx(t) => {
                let f: Vec<String> = t.funds.iter().map(|c| c.to_string()).collect();
                let mut s = format!("{} {:?} {}/{}", short(&t.sender), t.k, short(&t.coll), t.token);
                match t.k {
                    SetAsk => s += &format!(" {} at {}{} rcpt {:?} reserve {:?} ffee {:?} exp {}", if t.fixed { "fixed" } else { "auction" }, t.amt, t.denom, t.rcpt.as_ref().map(|x| short(x)), t.reserve.as_ref().map(|x| short(x)), t.ffee, t.exp as f64 / 1e9),
                    Reprice => s += &format!(" to {}{}", t.amt, t.denom),
                    SetBid | BuyNow | BuyFor | SetCb => s += &format!(" finder {:?} ffee {:?} to {:?} exp {}", t.finder.as_ref().map(|x| short(x)), t.ffee, t.rcpt.as_ref().map(|x| short(x)), t.exp as f64 / 1e9),
                    AcceptBid | AcceptCb | RejectBid | StaleBid | StaleCb => s += &format!(" bidder {} finder {:?}", short(&t.bidder), t.finder.as_ref().map(|x| short(x))),
                    _ => {}
                }
                format!("{s} funds[{}]", f.join(","))
            }
            _ => self.msg().to_string(),
        }
    }
}

enum Exp {
    /// must be rejected; empty tags: unspecified
    Reject(Vec<Tag>),
    Accept(S, Calls, Vec<Tag>),
    /// may be rejected; if accepted it must have this effect
    Either(S, Calls),
    /// valid, but known not to go through
    Blocked(String, Vec<Tag>),
}
enum Why {
    Fees,
    NoInfo,
    FeeOne,
    Funds,
}

pub struct V1 {
    c: Chain,
    rng: Rng,
    profile: usize,
    m: String,
    users: Vec<String>,
    colls: Vec<String>,
    tokens: Vec<u32>,
    hookc: Vec<String>,
    s: S,
    dead: bool,
    bulk: bool,
    /// further bidders on the first token of the second collection
    crowd: Vec<String>,
    /// what the environment just changed: the next actions rather go there
    focus: Option<(String, u32, u32)>,
    last: Option<A>,
    /// the rest of the scenario being played
    plan: VecDeque<P>,
}
/// one move of a scenario
#[derive(Clone, Debug)]
enum P {
    Do(A),
    Move(String, u32, String, bool),
    Approve(String, u32, bool),
    At(u64),
}
pub const PROPS: [Tag; 16] = ["X06", "L13", "L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08", "L09", "L10", "L12", "X01", "X02", "X05"];
const NU: usize = 6;

impl V1 {
    pub fn new(seed: u64, idx: u64, ctx: &mut Ctx) -> Self {
        let mut rng = Rng::new(seed, idx, 0x10);
        let profile = (idx % 5) as usize;
        let c = Chain::new(epoch(idx) * NS + (rng.next() % NS));
        c.real_nft.set(real_nft(idx));
        let m = contract("market");
        let users: Vec<String> = (0..10).map(user).collect();
        let colls: Vec<String> = ["alpha", "beta", "gamma"].iter().take(if profile == 1 { 2 } else { 3 }).map(|n| contract(n)).collect();
        let tokens: Vec<u32> = rng.pickc(&[vec![0u32, 1, 258], vec![0, 2, 10], vec![1, 9, 4_294_967_295], vec![0, 255, 256]]);
        for u in &users {
            for d in [NATIVE, "uatom"] {
                c.mint(u, d, 2_000_000_000_000_000_000_000_000_000_000_000);
            }
        }
        for (i, a) in colls.iter().enumerate() {
            c.add(a, Kind::Nft);
            let mut n = NftState { creator: users[8].clone(), ..Default::default() };
            let share = rng.pickc(&["0.05", "0", "0.1", "0.000000000000000001", "0.95", "0.333333333333333333"]);
            n.info = match i {
                0 => Some(CollInfo { start: None, royalty: Some((users[8].clone(), share.into())) }),
                1 => Some(CollInfo { start: Some(c.time.get() - 5), royalty: None }),
                _ => if rng.p(85) { Some(CollInfo { start: None, royalty: Some((users[9].clone(), "0.07".into())) }) } else { None },
            };
            for t in &tokens {
                n.owners.insert(t.to_string(), users[rng.below(NU)].clone());
                if rng.p(85) {
                    n.approvals.insert((t.to_string(), m.clone()), None);
                }
            }
            c.w.borrow_mut().nfts.insert(a.clone(), n);
        }
        let hookc: Vec<String> = (0..7).map(|i| contract(&format!("hook{}", (b'a' + i) as char))).collect();
        for h in hookc.iter().take(6) {
            c.add(h, Kind::Hook); // the last one is not a contract at all
        }
        if rng.p(50) {
            c.w.borrow_mut().failing.insert(hookc[0].clone());
        }
        let amin = rng.pickc(&[0u64, 1, 5]);
        let bmin = rng.pickc(&[0u64, 1, 5]);
        let mut ops: Vec<String> = vec![users[5].clone(), users[4].clone()];
        if rng.p(30) {
            ops.push(users[5].clone());
        }
        let mut par = Params {
            fee: if rng.p(60) { 200 } else { Self::gen_bps(&mut rng) },
            ask: (amin, amin + rng.pickc(&[0u64, 1, 60, 300, 300, 3000, 20_000])),
            bid: (bmin, bmin + rng.pickc(&[0u64, 1, 40, 300, 300, 3000, 20_000])),
            ops,
            max_ff: rng.pickc(&[0u64, 100, 1000, 1000, 5000, 10_000]),
            min: rng.pickc(&[0u128, 1, 5, 100]),
            stale: rng.pickc(&[0u64, 1, 10, 30]),
            reward: if rng.p(60) { 500 } else { Self::gen_bps(&mut rng) },
            listing: rng.pickc(&[0u128, 0, 2, 3, 500, 500, 0, 2, 0, 0, 4, 1]),
        };
        if par.ask.0 == par.ask.1 && rng.p(80) {
            par.ask.1 += 50;
        }
        if par.bid.0 == par.bid.1 && rng.p(80) {
            par.bid.1 += 50;
        }
        let hook = if rng.p(40) { Some(hookc[rng.below(7)].clone()) } else { None };
        if let Err(e) = c.instantiate(&m, Kind::V1, &users[0], &par.init_json(hook.as_ref())) {
            ctx.div(&["L12"], "instantiate", e);
        }
        par.ops.sort();
        par.ops.dedup();
        let s = S { asks: BTreeMap::new(), bids: BTreeMap::new(), cbids: BTreeMap::new(), bank: Bank::new(), owners: BTreeMap::new(), par: par.clone(), hooks: [vec![], vec![], hook.clone().into_iter().collect()] };
        let mut e = V1 { c, rng, profile, m, users, colls, tokens, hookc, s, dead: false, bulk: bulk(idx).is_some(), crowd: vec![], focus: None, last: None, plan: VecDeque::new() };
        if e.rng.p(30) {
            let mut bad = par.clone();
            match e.rng.below(5) {
                0 => bad.fee = 10_001,
                1 => bad.max_ff = 10_001,
                2 => bad.reward = 20_000,
                3 => bad.ask = (10, 9),
                _ => bad.bid = (1, 0),
            }
            let r = e.c.instantiate(&contract("bad"), Kind::V1, &e.users[0], &bad.init_json(None));
            ctx.eval("L12", "bad-instantiate", Some(fp(&bad)));
            if r.is_ok() {
                ctx.div(&["L12"], "bad-instantiate", format!("invalid parameters accepted at instantiation: {bad:?}"));
            }
        }
        if let Some(v) = bulk(idx) {
            e.fill(v);
        }
        let o = e.observe(ctx);
        let sorted = |v: &Vec<String>| {
            let mut v = v.clone();
            v.sort();
            v
        };
        if o.par != par && (Params { ops: sorted(&o.par.ops), ..o.par.clone() }) != par || o.hooks != e.s.hooks {
            ctx.div(&["L12"], "instantiate-params", format!("parameters differ from the instantiation message: {:?} vs {:?}", o.par, par));
        }
        e.s = o;
        e
    }
    /// very many orders (0: many tokens and bidders, 1: many collections)
    fn fill(&mut self, variant: usize) {
        let p = self.s.par.clone();
        let fee: Vec<Coin> = if p.listing > 0 { vec![coin(p.listing, NATIVE)] } else { vec![] };
        let mut places: Vec<(String, u32)> = vec![];
        {
            let mut w = self.c.w.borrow_mut();
            if variant == 0 {
                for i in 0..125u32 {
                    self.tokens.push(300 + i * 3);
                    places.push((self.colls[0].clone(), 300 + i * 3));
                }
                for i in 0..125 {
                    self.crowd.push(format!("stars1crowd{i:0>33}"));
                }
            } else {
                let t = self.tokens[0];
                for i in 0..112 {
                    let a = contract(&format!("bulk{i}"));
                    self.colls.push(a.clone());
                    self.c.kinds.borrow_mut().insert(a.clone(), Kind::Nft);
                    w.stores.insert(a.clone(), Default::default());
                    w.nfts.insert(a.clone(), NftState { creator: user(8), info: Some(CollInfo { start: None, royalty: None }), ..Default::default() });
                    places.push((a, t));
                }
            }
            for (c, t) in &places {
                let n = w.nfts.get_mut(c).unwrap();
                n.owners.insert(t.to_string(), user(self.rng.below(10) / 9));
                n.approvals.insert((t.to_string(), self.m.clone()), None);
            }
        }
        for u in &self.crowd {
            self.c.mint(u, NATIVE, 1_000_000_000);
        }
        let lo = p.min.max(1) + 100;
        for (c, t) in &places {
            let o = self.c.w.borrow().nfts[c].owners[&t.to_string()].clone();
            let pr = lo + self.rng.below(30) as u128;
            let at = |r: (u64, u64), k: u64| (self.c.time.get() + (r.0 + 1 + k % (r.1 - r.0).max(1)) * NS).to_string();
            let m = json!({"set_ask":{"sale_type":"auction","collection":c,"token_id":t,"price":{"denom":NATIVE,"amount":pr.to_string()},"expires":at(p.ask, pr as u64)}});
            self.c.tx(&self.m, &o, &m, &fee).ok();
            let bp = pr + self.rng.below(40) as u128;
            let m = json!({"set_bid":{"collection":c,"token_id":t,"expires":at(p.bid, bp as u64),"sale_type":"auction"}});
            self.c.tx(&self.m, &user(3), &m, &[coin(bp, NATIVE)]).ok();
            let m = json!({"set_collection_bid":{"collection":c,"expires":at(p.bid, pr as u64)}});
            self.c.tx(&self.m, &user(4), &m, &[coin(pr, NATIVE)]).ok();
        }
        let cb = self.colls[1].clone();
        for (i, u) in self.crowd.clone().iter().enumerate() {
            let bp = lo + self.rng.below(40) as u128;
            let e = (self.c.time.get() + (p.bid.0 + 1 + i as u64 % (p.bid.1 - p.bid.0).max(1)) * NS).to_string();
            let m = json!({"set_bid":{"collection":cb,"token_id":self.tokens[0],"expires":e,"sale_type":"auction"}});
            self.c.tx(&self.m, u, &m, &[coin(bp, NATIVE)]).ok();
            let m = json!({"set_collection_bid":{"collection":cb,"expires":e}});
            self.c.tx(&self.m, u, &m, &[coin(bp, NATIVE)]).ok();
        }
    }
    fn gen_bps(r: &mut Rng) -> u64 {
        r.pickc(&[0u64, 1, 25, 33, 100, 250, 1000, 3333, 5000, 9000, 10_000])
    }
    fn q(&self, ctx: &mut Ctx, v: Value) -> Value {
        match self.c.query(&self.m, &v) {
            Ok(x) => {
                crate::schema::judge(ctx, "v1", &v, &x);
                x
            }
            Err(e) => {
                ctx.div(&["L10"], "query-error", format!("query {v} failed: {e}"));
                Value::Null
            }
        }
    }
    fn all_tokens(&self) -> Vec<Key> {
        let mut v = vec![];
        for c in &self.colls {
            for t in self.tokens.iter().chain([&77]) {
                v.push((c.clone(), *t));
            }
        }
        v
    }
    fn observe(&self, ctx: &mut Ctx) -> S {
        let mut asks = BTreeMap::new();
        let mut bids = BTreeMap::new();
        let mut cbids = BTreeMap::new();
        for k in self.all_tokens() {
            let v = self.q(ctx, json!({"ask":{"collection":k.0,"token_id":k.1}}));
            if !v["ask"].is_null() {
                match Ask::parse(&v["ask"]) {
                    Some(a) => {
                        if a.key() != k {
                            ctx.div(&["L10", "L08"], "wrong-ask", format!("ask query for {k:?} returned {v}"));
                        }
                        asks.insert(k.clone(), a);
                    }
                    None => ctx.div(&["L10"], "bad-json", format!("unparseable ask {v}")),
                }
            }
            let crowd: &[String] = if k.0 == self.colls[1] && k.1 == self.tokens[0] { &self.crowd } else { &[] };
            for u in self.users.iter().take(NU).chain(crowd) {
                let v = self.q(ctx, json!({"bid":{"collection":k.0,"token_id":k.1,"bidder":u}}));
                if !v["bid"].is_null() {
                    match Bid::parse(&v["bid"]) {
                        Some(b) => {
                            if b.key() != (k.0.clone(), k.1, u.clone()) {
                                ctx.div(&["L10", "L08"], "wrong-bid", format!("bid query for {k:?} {u} returned {v}"));
                            }
                            bids.insert((k.0.clone(), k.1, u.clone()), b);
                        }
                        None => ctx.div(&["L10"], "bad-json", format!("unparseable bid {v}")),
                    }
                }
            }
        }
        for c in &self.colls {
            let crowd: &[String] = if *c == self.colls[1] { &self.crowd } else { &[] };
            for u in self.users.iter().take(NU).chain(crowd) {
                let v = self.q(ctx, json!({"collection_bid":{"collection":c,"bidder":u}}));
                if !v["bid"].is_null() {
                    match CBid::parse(&v["bid"]) {
                        Some(b) => {
                            if b.key() != (c.clone(), u.clone()) {
                                ctx.div(&["L10", "L08"], "wrong-bid", format!("collection bid query for {c} {u} returned {v}"));
                            }
                            cbids.insert((c.clone(), u.clone()), b);
                        }
                        None => ctx.div(&["L10"], "bad-json", format!("unparseable collection bid {v}")),
                    }
                }
            }
        }
        let w = self.c.w.borrow();
        let mut owners = BTreeMap::new();
        for (c, n) in &w.nfts {
            for (t, o) in &n.owners {
                owners.insert((c.clone(), t.clone()), o.clone());
            }
        }
        let bank = w.bank.clone();
        drop(w);
        let par = Params::parse(&self.q(ctx, json!({"params":{}}))).unwrap_or_else(|| {
            ctx.div(&["L10", "L12"], "params", "unparseable params".into());
            self.s.par.clone()
        });
        let mut hooks: [Vec<String>; 3] = Default::default();
        for (i, n) in ["ask_hooks", "bid_hooks", "sale_hooks"].iter().enumerate() {
            let v = self.q(ctx, json!({ *n: {} }));
            hooks[i] = v["hooks"].as_array().map(|a| a.iter().filter_map(st).collect()).unwrap_or_default();
        }
        S { asks, bids, cbids, bank, owners, par, hooks }
    }

    // ------------------------------------------------------------ reference model
    fn now(&self) -> u64 {
        self.c.time.get()
    }
    fn tradable(&self, c: &str) -> bool {
        let w = self.c.w.borrow();
        match w.nfts.get(c).and_then(|n| n.info.as_ref()).and_then(|i| i.start) {
            Some(t) => t <= self.c.time.get(),
            None => true,
        }
    }
    fn fair_burn(&self, p: &mut S, n: u128) -> bool {
        if n > 0 {
            if !debit(&mut p.bank, &self.m, NATIVE, n) {
                return false;
            }
            credit(&mut p.bank, BURNED, NATIVE, n / 2);
            credit(&mut p.bank, POOL, NATIVE, n - n / 2);
        }
        true
    }
    fn pay(&self, p: &mut S, to: &str, n: u128) -> bool {
        if !debit(&mut p.bank, &self.m, NATIVE, n) {
            return false;
        }
        credit(&mut p.bank, to, NATIVE, n);
        true
    }
    /// distributes the sale price
    fn payout(&self, p: &mut S, coll: &str, price: u128, rcpt: &str, finder: Option<&String>, ffee: Option<u64>) -> Result<(), Why> {
        let fee = mul_floor(price, p.par.fee as u128, 10_000).unwrap();
        let ff = match (finder, ffee) {
            (Some(_), Some(b)) => mul_floor(price, b as u128, 10_000).unwrap(),
            _ => 0,
        };
        let w = self.c.w.borrow();
        let Some(info) = w.nfts.get(coll).and_then(|n| n.info.clone()) else { return Err(Why::NoInfo) };
        drop(w);
        let roy = info.royalty.map(|(to, sh)| (to, mul_floor(price, atomics(&sh), ONE).unwrap_or(u128::MAX)));
        let ra = roy.as_ref().map_or(0, |r| r.1);
        let Some(rest) = price.checked_sub(fee).and_then(|x| x.checked_sub(ff)).and_then(|x| x.checked_sub(ra)) else { return Err(Why::Fees) };
        if !self.fair_burn(p, fee) {
            return Err(Why::Funds);
        }
        if let Some(f) = finder {
            self.pay(p, f, ff);
        }
        if let Some((to, n)) = roy {
            self.pay(p, &to, n);
        }
        self.pay(p, rcpt, rest);
        if fee == 1 {
            return Err(Why::FeeOne);
        }
        Ok(())
    }
    fn hook_calls(&self, i: usize, v: Value) -> Calls {
        self.s.hooks[i].iter().map(|h| (h.clone(), v.clone())).collect()
    }
    fn ask_hook(&self, a: &Ask, what: &str) -> Calls {
        self.hook_calls(0, json!({format!("ask_{what}_hook"): {"ask": a.json()}}))
    }
    fn bid_hook(&self, b: &Bid, what: &str) -> Calls {
        self.hook_calls(1, json!({format!("bid_{what}_hook"): {"bid": b.json()}}))
    }
    fn sale_hook(&self, coll: &str, token: u32, price: u128, seller: &str, buyer: &str) -> Calls {
        self.hook_calls(2, json!({"sale_hook":{"collection":coll,"token_id":token,"price":{"denom":NATIVE,"amount":price.to_string()},"seller":seller,"buyer":buyer}}))
    }
    fn valid_price(&self, t: &Tx) -> bool {
        t.denom == NATIVE && t.amt > 0 && t.amt >= self.s.par.min && t.amt <= MAX_ASK
    }
    fn expiry_ok(&self, r: (u64, u64), e: u64) -> bool {
        e > self.now() + r.0 * NS && e <= self.now() + r.1 * NS
    }

    fn expect(&self, a: &A) -> Exp {
        let s = &self.s;
        let mut p = s.clone();
        let t = match a {
            A::Tx(t) => t,
            A::Params { p: np, .. } => {
                if !np.valid() {
                    return Exp::Reject(vec!["L12"]);
                }
                p.par = np.clone();
                return Exp::Accept(p, vec![], vec!["L12"]);
            }
            A::AddOp(o) => {
                if p.par.ops.contains(o) || !valid_addr(o) {
                    return Exp::Reject(vec!["L12"]);
                }
                p.par.ops.push(o.clone());
                return Exp::Accept(p, vec![], vec!["L12"]);
            }
            A::RemOp(o) => {
                if !p.par.ops.contains(o) {
                    return Exp::Reject(vec!["L12"]);
                }
                p.par.ops.retain(|x| x != o);
                return Exp::Accept(p, vec![], vec!["L12"]);
            }
            A::AddHook(i, h) => {
                if p.hooks[*i].contains(h) || !valid_addr(h) {
                    return Exp::Reject(vec!["L12"]);
                }
                if p.hooks[*i].len() >= 5 {
                    return Exp::Reject(vec![]);
                }
                p.hooks[*i].push(h.clone());
                return Exp::Accept(p, vec![], vec!["L12"]);
            }
            A::RemHook(i, h) => {
                if !p.hooks[*i].contains(h) {
                    return Exp::Reject(vec!["L12"]);
                }
                p.hooks[*i].retain(|x| x != h);
                return Exp::Accept(p, vec![], vec!["L12"]);
            }
        };
        let mut bad: Vec<Tag> = vec![];
        for c in &t.funds {
            if !debit(&mut p.bank, &t.sender, &c.denom, c.amount.u128()) {
                return Exp::Reject(vec![]);
            }
            credit(&mut p.bank, &self.m, &c.denom, c.amount.u128());
        }
        let key: Key = (t.coll.clone(), t.token);
        let bkey: BKey = (t.coll.clone(), t.token, if matches!(t.k, SetBid | BuyNow | BuyFor | RemoveBid) { t.sender.clone() } else { t.bidder.clone() });
        let ckey: CKey = (t.coll.clone(), if matches!(t.k, SetCb | RemoveCb) { t.sender.clone() } else { t.bidder.clone() });
        let owner = s.owners.get(&t.tok());
        let is_owner = owner == Some(&t.sender);
        let approved = owner.is_some() && self.c.approved(&t.coll, &t.token.to_string(), &self.m);
        let movable = self.c.can_transfer(&t.coll, &t.token.to_string(), &self.m);
        if !matches!(t.k, SetAsk | SetBid | BuyNow | BuyFor | SetCb) && !t.funds.is_empty() {
            bad.push("L01");
        }
        if matches!(t.k, SetAsk | RemoveAsk | Reprice | AcceptBid | RejectBid | AcceptCb) && !is_owner {
            bad.push("L07");
        }
        if matches!(t.k, Sync | StaleAsk | StaleBid | StaleCb) && !s.par.ops.contains(&t.sender) {
            bad.extend(["L07", "L06"]);
        }
        let named = match t.k {
            SetAsk => vec![],
            BuyFor => vec![&t.finder, &t.rcpt],
            SetBid | BuyNow | AcceptBid | AcceptCb => vec![&t.finder],
            _ => vec![],
        };
        if named.into_iter().flatten().any(|x| !valid_addr(x)) {
            // nothing of it is kept, and no transfer to it can succeed
            return Exp::Reject(vec![]);
        }
        match t.k {
            SetAsk => {
                if [&t.rcpt, &t.reserve].into_iter().flatten().any(|x| !valid_addr(x)) {
                    bad.push("L08");
                }
                if !self.valid_price(t) || !self.tradable(&t.coll) || !approved || !self.expiry_ok(s.par.ask, t.exp) || t.ffee.map_or(false, |f| f > s.par.max_ff) {
                    bad.push("L08");
                }
                if let Some(r) = &t.reserve {
                    if *r == t.sender || !t.fixed {
                        bad.push("L08");
                    }
                }
                let paid = match t.funds.len() {
                    0 => Some(0),
                    1 if t.funds[0].denom == NATIVE => Some(t.funds[0].amount.u128()),
                    _ => None,
                };
                if paid != Some(s.par.listing) {
                    bad.push("L08");
                    if !t.funds.is_empty() {
                        bad.push("L01");
                    }
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                self.fair_burn(&mut p, s.par.listing);
                let n = Ask {
                    fixed: t.fixed,
                    coll: t.coll.clone(),
                    token: t.token,
                    seller: t.sender.clone(),
                    price: t.amt,
                    rcpt: t.rcpt.clone(),
                    reserve: t.reserve.clone(),
                    ffee: t.ffee,
                    exp: t.exp,
                    active: true,
                };
                let calls = self.ask_hook(&n, "created");
                p.asks.insert(key, n);
                if s.par.listing == 1 {
                    return Exp::Blocked("listing-refused:listing-fee-of-one".into(), vec!["L08"]);
                }
                Exp::Accept(p, calls, vec!["L08"])
            }
            RemoveAsk => {
                let Some(old) = p.asks.remove(&key) else {
                    bad.push("L07");
                    return Exp::Reject(bad);
                };
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                Exp::Accept(p, self.ask_hook(&old, "deleted"), vec!["L07"])
            }
            Reprice => {
                if !self.valid_price(t) {
                    bad.push("L08");
                }
                let Some(x) = p.asks.get_mut(&key) else {
                    bad.push("L07");
                    return Exp::Reject(bad);
                };
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                // an expired or deactivated listing cannot be sold, whatever its price
                if !x.active || x.exp <= self.now() {
                    return Exp::Reject(vec!["L08"]);
                }
                x.price = t.amt;
                let x = x.clone();
                let calls = self.ask_hook(&x, "updated");
                if x.seller != t.sender {
                    return Exp::Either(p, calls);
                }
                Exp::Accept(p, calls, vec!["L08"])
            }
            SetBid | BuyNow | BuyFor => {
                if t.finder.as_ref() == Some(&t.sender) || t.ffee.map_or(false, |f| f > s.par.max_ff) || !self.expiry_ok(s.par.bid, t.exp) {
                    bad.push("L08");
                }
                let paid = match t.funds.len() {
                    1 if t.funds[0].denom == NATIVE => t.funds[0].amount.u128(),
                    _ => 0,
                };
                if paid == 0 {
                    bad.push("L08");
                    if !t.funds.is_empty() {
                        bad.push("L01");
                    }
                }
                if paid < s.par.min {
                    bad.push("L08");
                }
                let buy = t.k != SetBid;
                let ask = s.asks.get(&key);
                if ask.is_none() && buy {
                    bad.push("L03");
                }
                let mut murky = false;
                if let Some(x) = ask {
                    if x.exp <= self.now() || !x.active || x.reserve.as_ref().map_or(false, |r| *r != t.sender) {
                        if x.fixed && paid == x.price {
                            bad.push("L03");
                        } else {
                            murky = true;
                        }
                    }
                    if x.fixed && paid > x.price || !x.fixed && paid < x.price {
                        bad.push("L03");
                    }
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if murky {
                    return Exp::Reject(vec![]);
                }
                if let Some(old) = p.bids.remove(&bkey) {
                    if !self.pay(&mut p, &t.sender, old.price) {
                        return Exp::Reject(vec![]);
                    }
                }
                if let Some(x) = ask.filter(|x| x.fixed && x.price == paid) {
                    if owner != Some(&x.seller) || !movable {
                        return Exp::Reject(vec!["L03"]);
                    }
                    p.asks.remove(&key);
                    let rcpt = x.rcpt.clone().unwrap_or(x.seller.clone());
                    let r = self.payout(&mut p, &t.coll, paid, &rcpt, t.finder.as_ref(), x.ffee);
                    p.owners.insert(t.tok(), if t.k == BuyFor { t.rcpt.clone().unwrap() } else { t.sender.clone() });
                    let calls = self.sale_hook(&t.coll, t.token, paid, &x.seller, &t.sender);
                    return match r {
                        Err(Why::Fees) => Exp::Reject(vec!["L02"]),
                        Err(Why::NoInfo) => Exp::Reject(vec![]),
                        Err(Why::Funds) => Exp::Reject(vec!["L01"]),
                        Err(Why::FeeOne) => Exp::Blocked("sale-refused:trading-fee-of-one".into(), vec!["L03"]),
                        Ok(()) if !self.tradable(&t.coll) => Exp::Either(p, calls),
                        Ok(()) => Exp::Accept(p, calls, vec!["L03", "L02"]),
                    };
                }
                let b = Bid { coll: t.coll.clone(), token: t.token, bidder: t.sender.clone(), price: paid, ffee: t.ffee, exp: t.exp };
                let calls = self.bid_hook(&b, "created");
                p.bids.insert(bkey, b);
                if buy {
                    return Exp::Either(p, calls);
                }
                Exp::Accept(p, calls, vec!["L08", "L03"])
            }
            RemoveBid | RejectBid => {
                let Some(old) = p.bids.remove(&bkey) else {
                    bad.push("L05");
                    return Exp::Reject(bad);
                };
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if !self.pay(&mut p, &old.bidder, old.price) {
                    return Exp::Reject(vec!["L01"]);
                }
                Exp::Accept(p, self.bid_hook(&old, "deleted"), vec!["L05"])
            }
            SetCb => {
                if t.ffee.map_or(false, |f| f > s.par.max_ff) || !self.expiry_ok(s.par.bid, t.exp) {
                    bad.push("L08");
                }
                let paid = match t.funds.len() {
                    1 if t.funds[0].denom == NATIVE => t.funds[0].amount.u128(),
                    _ => 0,
                };
                if paid == 0 {
                    bad.push("L08");
                    if !t.funds.is_empty() {
                        bad.push("L01");
                    }
                }
                if paid < s.par.min {
                    bad.push("L08");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if let Some(old) = p.cbids.remove(&ckey) {
                    if !self.pay(&mut p, &t.sender, old.price) {
                        return Exp::Reject(vec![]);
                    }
                }
                p.cbids.insert(ckey, CBid { coll: t.coll.clone(), bidder: t.sender.clone(), price: paid, ffee: t.ffee, exp: t.exp });
                Exp::Accept(p, vec![], vec!["L08"])
            }
            RemoveCb => {
                let Some(old) = p.cbids.remove(&ckey) else {
                    bad.push("L05");
                    return Exp::Reject(bad);
                };
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if !self.pay(&mut p, &old.bidder, old.price) {
                    return Exp::Reject(vec!["L01"]);
                }
                Exp::Accept(p, vec![], vec!["L05"])
            }
            AcceptBid | AcceptCb => {
                if !is_owner || !self.tradable(&t.coll) {
                    bad.push("L04");
                }
                let b = if t.k == AcceptBid { p.bids.remove(&bkey).map(|b| (b.bidder, b.price, b.ffee, b.exp)) } else { p.cbids.remove(&ckey).map(|b| (b.bidder, b.price, b.ffee, b.exp)) };
                let Some((bidder, price, ffee, exp)) = b else {
                    bad.push("L04");
                    return Exp::Reject(bad);
                };
                if exp <= self.now() || !movable {
                    bad.push("L04");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                p.asks.remove(&key);
                let r = self.payout(&mut p, &t.coll, price, &t.sender, t.finder.as_ref(), ffee);
                p.owners.insert(t.tok(), bidder.clone());
                let calls = self.sale_hook(&t.coll, t.token, price, &t.sender, &bidder);
                match r {
                    Err(Why::Fees) => Exp::Reject(vec!["L02"]),
                    Err(Why::NoInfo) => Exp::Reject(vec![]),
                    Err(Why::Funds) => Exp::Reject(vec!["L01"]),
                    Err(Why::FeeOne) => Exp::Blocked("sale-refused:trading-fee-of-one".into(), vec!["L04"]),
                    Ok(()) => Exp::Accept(p, calls, vec!["L04", "L02"]),
                }
            }
            Sync => {
                let Some(x) = p.asks.get_mut(&key) else {
                    bad.push("L06");
                    return Exp::Reject(bad);
                };
                if x.active == approved {
                    bad.push("L06");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                x.active = approved;
                let x = x.clone();
                Exp::Accept(p, self.ask_hook(&x, "updated"), vec!["L06"])
            }
            StaleAsk => {
                let Some(x) = p.asks.remove(&key) else {
                    bad.push("L06");
                    return Exp::Reject(bad);
                };
                if x.exp > self.now() && approved {
                    bad.push("L06");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                Exp::Accept(p, self.ask_hook(&x, "deleted"), vec!["L06"])
            }
            StaleBid | StaleCb => {
                let mut calls = vec![];
                let b = if t.k == StaleBid {
                    p.bids.remove(&bkey).map(|b| {
                        calls = self.bid_hook(&b, "deleted");
                        (b.bidder, b.price, b.exp)
                    })
                } else {
                    p.cbids.remove(&ckey).map(|b| (b.bidder, b.price, b.exp))
                };
                let Some((bidder, price, exp)) = b else {
                    bad.push("L06");
                    return Exp::Reject(bad);
                };
                if self.now() < exp + s.par.stale * NS {
                    bad.push("L06");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                let reward = mul_floor(price, s.par.reward as u128, 10_000).unwrap();
                if !self.pay(&mut p, &t.sender, reward) || !self.pay(&mut p, &bidder, price - reward) {
                    return Exp::Reject(vec!["L01"]);
                }
                Exp::Accept(p, calls, vec!["L06"])
            }
        }
    }

    // ------------------------------------------------------------ judging
    fn compare(&self, a: &A, p: &S, got: &S, ctx: &mut Ctx, s0: &str) {
        let mut out: Vec<(Vec<Tag>, String)> = vec![];
        let tx = if let A::Tx(t) = a { Some(t) } else { None };
        let k = tx.map(|t| t.k);
        let sale = matches!(k, Some(SetBid | BuyNow | BuyFor)) && p.owners != self.s.owners || matches!(k, Some(AcceptBid | AcceptCb));
        let aspect: Vec<Tag> = match k {
            None => vec!["L12"],
            Some(SetAsk | Reprice) => vec!["L08"],
            Some(RemoveAsk) => vec!["L07"],
            Some(SetBid | BuyNow | BuyFor) => {
                if sale {
                    vec!["L03"]
                } else {
                    vec!["L08", "L03"]
                }
            }
            Some(SetCb) => vec!["L08"],
            Some(RemoveBid | RejectBid | RemoveCb) => vec!["L05"],
            Some(AcceptBid | AcceptCb) => vec!["L04"],
            Some(Sync | StaleAsk | StaleBid | StaleCb) => vec!["L06"],
        };
        let mine = |c: &str, t: u32| tx.map_or(false, |x| x.coll == c && x.token == t);
        let keys: BTreeSet<&Key> = p.asks.keys().chain(got.asks.keys()).collect();
        for key in keys {
            let (e, g) = (p.asks.get(key), got.asks.get(key));
            let idle = self.s.asks.get(key) == e;
            if e != g {
                let mut t = if mine(&key.0, key.1) { aspect.clone() } else { vec!["X02"] };
                if tx.is_none() {
                    t.push("L12");
                }
                if idle && !t.contains(&"X02") {
                    t.push("X02"); // nothing was to happen to it
                }
                out.push((t, format!("ask {}/{}: expected {:?} observed {:?}", short(&key.0), key.1, e.map(|x| x.s()), g.map(|x| x.s()))));
            }
        }
        let keys: BTreeSet<&BKey> = p.bids.keys().chain(got.bids.keys()).collect();
        for key in keys {
            let (e, g) = (p.bids.get(key), got.bids.get(key));
            let idle = self.s.bids.get(key) == e;
            if e != g {
                let who = tx.map_or(false, |t| if matches!(t.k, AcceptBid | RejectBid | StaleBid) { t.bidder == key.2 } else { t.sender == key.2 });
                let mut t = if mine(&key.0, key.1) && who { aspect.clone() } else { vec!["X02"] };
                if matches!(k, Some(SetBid | BuyNow | BuyFor)) || !t.contains(&aspect[0]) {
                    t.push("L05");
                }
                if matches!(k, Some(AcceptBid | AcceptCb)) {
                    t.push("L04");
                }
                if idle && !t.contains(&"X02") {
                    t.push("X02"); // nothing was to happen to it
                }
                out.push((t, format!("bid {}/{} of {}: expected {:?} observed {:?}", short(&key.0), key.1, short(&key.2), e.map(|x| x.s()), g.map(|x| x.s()))));
            }
        }
        let keys: BTreeSet<&CKey> = p.cbids.keys().chain(got.cbids.keys()).collect();
        for key in keys {
            let (e, g) = (p.cbids.get(key), got.cbids.get(key));
            let idle = self.s.cbids.get(key) == e;
            if e != g {
                let who = tx.map_or(false, |t| t.coll == key.0 && if matches!(t.k, AcceptCb | StaleCb) { t.bidder == key.1 } else { t.sender == key.1 });
                let mut t = if who { aspect.clone() } else { vec!["X02"] };
                if matches!(k, Some(SetCb)) || !t.contains(&aspect[0]) {
                    t.push("L05");
                }
                if matches!(k, Some(AcceptBid | AcceptCb)) {
                    t.push("L04");
                }
                if idle && !t.contains(&"X02") {
                    t.push("X02"); // nothing was to happen to it
                }
                out.push((t, format!("collection bid {} of {}: expected {:?} observed {:?}", short(&key.0), short(&key.1), e.map(|x| x.s()), g.map(|x| x.s()))));
            }
        }
        for (who, d, e, g) in bank_diff(&p.bank, &got.bank) {
            let mut t: Vec<Tag> = vec![];
            if who == self.m {
                t.push("L01");
            }
            if sale {
                t.extend(["L02"]);
            }
            t.extend(aspect.iter());
            if matches!(k, Some(SetBid | BuyNow | BuyFor | SetCb)) && tx.map_or(false, |t| t.sender == who) {
                t.push("L05");
            }
            if self.s.bank.get(&(who.clone(), d.clone())).copied().unwrap_or(0) == e {
                t.push("X02");
            }
            out.push((t, format!("balance of {} in {}: expected {} observed {}", short(&who), d, e, g)));
        }
        for (key, e) in &p.owners {
            let g = got.owners.get(key);
            if g != Some(e) {
                let mut t = aspect.clone();
                if self.s.owners.get(key) == Some(e) {
                    t.push("X02");
                }
                out.push((t, format!("owner of {}/{}: expected {} observed {:?}", short(&key.0), key.1, short(e), g.map(|x| short(x)))));
            }
        }
        let sorted = |v: &[String]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        if (Params { ops: sorted(&p.par.ops), ..p.par.clone() }) != (Params { ops: sorted(&got.par.ops), ..got.par.clone() }) {
            out.push((vec!["L12"], format!("parameters: expected {:?} observed {:?}", p.par, got.par)));
        }
        for i in 0..3 {
            if sorted(&p.hooks[i]) != sorted(&got.hooks[i]) {
                out.push((vec!["L12"], format!("hooks {i}: expected {:?} observed {:?}", p.hooks[i], got.hooks[i])));
            }
        }
        for (t, d) in out {
            ctx.div(&t, "wrong-effect", format!("{s0}: {d}"));
        }
    }

    fn judge_hooks(&self, want: &Calls, ctx: &mut Ctx, s0: &str, kind: &str) {
        let calls = self.c.calls.borrow();
        let mut got: Vec<(String, String)> = vec![];
        let mut failed = 0;
        for c in calls.iter() {
            if c.from == self.m && !self.colls.contains(&c.to) {
                if !c.funds.is_empty() {
                    ctx.div(&["L09", "L01"], "hook-funds", format!("{s0}: coins sent along with a hook call to {}", short(&c.to)));
                }
                if !c.ok {
                    failed += 1;
                }
                got.push((c.to.clone(), c.msg.to_string()));
            }
        }
        let mut w: Vec<(String, String)> = want.iter().map(|(h, v)| (h.clone(), v.to_string())).collect();
        w.sort();
        got.sort();
        ctx.eval("L09", &format!("{kind} hooks={} failing={}", w.len(), failed), if w.is_empty() { None } else { Some(fp(&w)) });
        if got != w {
            let f = |v: &Vec<(String, String)>| v.iter().map(|(h, m)| format!("{} <- {}", short(h), m)).collect::<Vec<_>>().join("; ");
            ctx.div(&["L09"], "hook-calls", format!("{s0}: expected hook calls [{}] observed [{}]", f(&w), f(&got)));
        }
    }

    fn same(&self, got: &S) -> bool {
        let g = &self.s;
        g.asks == got.asks && g.bids == got.bids && g.cbids == got.cbids && g.bank == got.bank && g.owners == got.owners && g.par == got.par && g.hooks == got.hooks
    }
    fn unchanged(&self, got: &S, ctx: &mut Ctx, s0: &str) {
        ctx.eval("X02", "v1 failed action", Some(fp(&s0)));
        if !self.same(got) {
            ctx.div(&["X02"], "failed-action-trace", format!("failed action left a trace: {s0}"));
        }
    }
    fn invariants(&self, s: &S, ctx: &mut Ctx, after: &str) {
        let owed: u128 = s.bids.values().map(|b| b.price).sum::<u128>() + s.cbids.values().map(|b| b.price).sum::<u128>();
        let held: BTreeMap<&str, u128> = s.bank.iter().filter(|((w, _), n)| *w == self.m && **n > 0).map(|((_, d), n)| (d.as_str(), *n)).collect();
        let native = held.get(NATIVE).copied().unwrap_or(0);
        ctx.eval("L01", "escrow", if owed > 0 { Some(fp(&owed)) } else { None });
        if native != owed || held.keys().any(|d| *d != NATIVE) {
            ctx.div(&["L01"], "escrow", format!("after {after}: contract holds {held:?}, open bids total {owed}"));
        }
    }

    fn do_act(&mut self, a: &A, ctx: &mut Ctx) {
        let exp = self.expect(a);
        let s0 = a.s();
        ctx.log.push(format!("t={}.{:09} {}", self.now() / NS, self.now() % NS, s0));
        let r = match a {
            A::Tx(t) => self.c.tx(&self.m, &t.sender, &t.msg(), &t.funds),
            _ => self.c.sudo(&self.m, &a.msg()),
        };
        let res = match &r {
            Ok(_) => "ok".to_string(),
            Err(e) => format!("ERR {}", e.chars().take(90).collect::<String>()),
        };
        ctx.log.last_mut().unwrap().push_str(&format!(" -> {res}"));
        if ctx.prop.is_none() && res.starts_with("ERR") && !s0.starts_with('{') {
            ctx.count(&format!("why {} {}", s0.split(" ").nth(1).unwrap_or(""), res.chars().take(60).filter(|c| !c.is_ascii_digit()).collect::<String>()));
        }
        ctx.count(&format!("v1 {} {}", a.name(), if r.is_ok() { "ok" } else { "rejected" }));
        let hook_failures = self.c.calls.borrow().iter().filter(|c| !c.ok && self.hookc.contains(&c.to)).count();
        // hook calls are read before the observing queries run
        match (&exp, &r) {
            (Exp::Accept(_, w, _), Ok(_)) | (Exp::Either(_, w), Ok(_)) => self.judge_hooks(w, ctx, &s0, &a.name()),
            _ => {}
        }
        // the host has undone a failed action to the last byte: one in four is looked at all the same
        let got = if r.is_err() && self.c.tx_index.get() % 4 != 0 { self.s.clone() } else { self.observe(ctx) };
        self.evals(a, &exp, r.is_ok(), ctx);
        match (&exp, &r) {
            (Exp::Reject(t), Ok(_)) => {
                if !t.is_empty() {
                    ctx.div(t, "accepted-invalid", format!("accepted although it must be rejected ({t:?}): {s0}"));
                }
            }
            (Exp::Reject(_), Err(_)) | (Exp::Either(..), Err(_)) => self.unchanged(&got, ctx, &s0),
            (Exp::Blocked(w, t), Err(e)) => {
                ctx.div(t, w, format!("{s0}: {e}"));
                self.unchanged(&got, ctx, &s0);
            }
            (Exp::Blocked(..), Ok(_)) => {}
            (Exp::Accept(_, w, t), Err(e)) => {
                let mut t = t.clone();
                if w.iter().any(|(h, _)| self.c.w.borrow().failing.contains(h) || !self.c.kinds.borrow().contains_key(h)) {
                    t.push("L09");
                }
                if !t.is_empty() {
                    ctx.div(&t, "rejected-valid", format!("rejected although valid: {s0}: {e}"));
                }
                self.unchanged(&got, ctx, &s0);
            }
            (Exp::Accept(p, _, _), Ok(_)) | (Exp::Either(p, _), Ok(_)) => self.compare(a, p, &got, ctx, &s0),
        }
        if let Ok(o) = &r {
            self.invariants(&got, ctx, &s0);
            self.replay_log(a, &o.events, &got, hook_failures, ctx, &s0);
        }
        // users can never change parameters, operators or hooks
        if matches!(a, A::Tx(_)) {
            ctx.eval("L12", "user action leaves parameters", None);
            if got.par != self.s.par || got.hooks != self.s.hooks {
                ctx.div(&["L12"], "user-changed-params", format!("{s0}: parameters, operators or hooks changed"));
            }
        }
        self.s = got;
    }

    /// Event-log checker: the state before the action plus the events it emitted must give the state after it.
    fn replay_log(&self, a: &A, evs: &[Ev], got: &S, hook_failures: usize, ctx: &mut Ctx, s0: &str) {
        let mut bad: Vec<String> = vec![];
        let mine: Vec<&Ev> = evs.iter().filter(|e| e.from == self.m).collect();
        type AskFacts = (bool, String, u128, Option<String>, u64, bool);
        let af = |a: &Ask| -> AskFacts { (a.fixed, a.seller.clone(), a.price, a.reserve.clone(), a.exp, a.active) };
        let mut asks: BTreeMap<Key, AskFacts> = self.s.asks.iter().map(|(k, a)| (k.clone(), af(a))).collect();
        let mut bids: BTreeMap<BKey, (u128, u64)> = self.s.bids.iter().map(|(k, b)| (k.clone(), (b.price, b.exp))).collect();
        let mut cbids: BTreeMap<CKey, (u128, u64)> = self.s.cbids.iter().map(|(k, b)| (k.clone(), (b.price, b.exp))).collect();
        let mut ops: BTreeSet<String> = self.s.par.ops.iter().cloned().collect();
        let mut hooks: Vec<BTreeSet<String>> = self.s.hooks.iter().map(|h| h.iter().cloned().collect()).collect();
        let when = |e: &Ev, k: &str| -> u64 {
            let v = e.s(k);
            let (s, n) = v.split_once('.').unwrap_or((v.as_str(), "0"));
            s.parse::<u64>().unwrap_or(0).saturating_mul(NS).saturating_add(n.parse().unwrap_or(0))
        };
        let sales: Vec<&&Ev> = mine.iter().filter(|e| e.ty == "finalize-sale").collect();
        let mut reported = 0;
        // the events of one action form a set: a bid that traded at once is announced by set-bid and finalize-sale
        for e in &mine {
            let k: Key = (e.s("collection"), e.s("token_id").parse().unwrap_or(u32::MAX));
            let bk: BKey = (k.0.clone(), k.1, e.s("bidder"));
            let ck: CKey = (k.0.clone(), e.s("bidder"));
            let miss = match e.ty.as_str() {
                "set-ask" => {
                    let price = e.coin("price").map_or(u128::MAX, |c| if c.1 == NATIVE { c.0 } else { u128::MAX - 1 });
                    asks.insert(k, (e.s("sale_type") == "fixed_price", e.s("seller"), price, e.get("reserve_for").map(|x| x.to_string()), when(e, "expires"), true));
                    false
                }
                "remove-ask" => asks.remove(&k).is_none(),
                "update-ask" => asks.get_mut(&k).map(|x| x.2 = e.coin("price").map_or(u128::MAX, |c| if c.1 == NATIVE { c.0 } else { u128::MAX - 1 })).is_none(),
                "update-ask-state" => asks.get_mut(&k).map(|x| x.5 = e.s("is_active") == "true").is_none(),
                "set-bid" => {
                    if sales.iter().any(|s| s.s("collection") == k.0 && s.s("token_id") == e.s("token_id") && s.s("buyer") == bk.2) {
                        bids.remove(&bk);
                    } else {
                        bids.insert(bk, (e.num("bid_price").unwrap_or(u128::MAX), when(e, "expires")));
                    }
                    false
                }
                "remove-bid" | "accept-bid" | "reject-bid" | "remove-stale-bid" => bids.remove(&bk).is_none(),
                "set-collection-bid" => {
                    cbids.insert(ck, (e.num("bid_price").unwrap_or(u128::MAX), when(e, "expires")));
                    false
                }
                "remove-collection-bid" | "accept-collection-bid" | "remove-stale-collection-bid" => cbids.remove(&ck).is_none(),
                "finalize-sale" => {
                    asks.remove(&k);
                    false
                }
                "wasm" => {
                    let act = e.s("action");
                    if act.ends_with("-hook-failed") {
                        reported += 1;
                    }
                    for (i, h) in ["ask", "bid", "sale"].iter().enumerate() {
                        if act == format!("add_{h}_hook") {
                            hooks[i].insert(e.s("hook"));
                        }
                        if act == format!("remove_{h}_hook") {
                            hooks[i].remove(&e.s("hook"));
                        }
                    }
                    if act == "add_operator" {
                        ops.insert(e.s("operator"));
                    }
                    if act == "remove_operator" {
                        ops.remove(&e.s("operator"));
                    }
                    false
                }
                _ => false,
            };
            if miss {
                bad.push(format!("{} of something that is not open", e.show()));
            }
        }
        fn diff<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(n: &str, l: &BTreeMap<K, V>, g: &BTreeMap<K, V>, bad: &mut Vec<String>) {
            let ks: BTreeSet<&K> = l.keys().chain(g.keys()).collect();
            for k in ks {
                if l.get(k) != g.get(k) {
                    bad.push(format!("{n} {k:?}: the log says {:?}, open is {:?}", l.get(k), g.get(k)));
                }
            }
        }
        diff("ask", &asks, &got.asks.iter().map(|(k, a)| (k.clone(), af(a))).collect(), &mut bad);
        diff("bid", &bids, &got.bids.iter().map(|(k, b)| (k.clone(), (b.price, b.exp))).collect(), &mut bad);
        diff("collection bid", &cbids, &got.cbids.iter().map(|(k, b)| (k.clone(), (b.price, b.exp))).collect(), &mut bad);
        if ops != got.par.ops.iter().cloned().collect() && !matches!(a, A::Params { .. }) {
            bad.push(format!("operators: the log says {ops:?}, they are {:?}", got.par.ops));
        }
        for i in 0..3 {
            if hooks[i] != got.hooks[i].iter().cloned().collect() {
                bad.push(format!("hooks {i}: the log says {:?}, they are {:?}", hooks[i], got.hooks[i]));
            }
        }
        if reported != hook_failures {
            bad.push(format!("{hook_failures} hook calls failed, {reported} are reported"));
        }
        let mut royalties: Vec<&&Ev> = mine.iter().filter(|e| e.ty == "royalty-payout").collect();
        royalties.retain(|e| e.coin("amount").map_or(true, |c| c.0 > 0));
        let mut n_sales = 0;
        let mut n_roy = 0;
        if let A::Tx(t) = a {
            let k = (t.coll.clone(), t.token);
            let ask = self.s.asks.get(&k);
            // seller, buyer, price, receiver
            let sale = match t.k {
                AcceptBid => self.s.bids.get(&(t.coll.clone(), t.token, t.bidder.clone())).map(|b| (t.sender.clone(), t.bidder.clone(), b.price, t.bidder.clone())),
                AcceptCb => self.s.cbids.get(&(t.coll.clone(), t.bidder.clone())).map(|b| (t.sender.clone(), t.bidder.clone(), b.price, t.bidder.clone())),
                SetBid | BuyNow | BuyFor if !got.asks.contains_key(&k) => {
                    ask.map(|x| (x.seller.clone(), t.sender.clone(), x.price, if t.k == BuyFor { t.rcpt.clone().unwrap_or_default() } else { t.sender.clone() }))
                }
                _ => None,
            };
            if let Some((seller, buyer, price, to)) = sale {
                n_sales = 1;
                let info = self.c.w.borrow().nfts.get(&t.coll).and_then(|n| n.info.as_ref()).and_then(|i| i.royalty.clone());
                let roy = info.map(|(to, share)| (mul_floor(price, atomics(&share), ONE).unwrap_or(u128::MAX), to));
                for e in &sales {
                    for (k, v) in [("collection", t.coll.clone()), ("token_id", t.token.to_string()), ("seller", seller.clone()), ("buyer", buyer.clone()), ("price", price.to_string()), ("asset_recipient", to.clone())] {
                        if e.s(k) != v {
                            bad.push(format!("sale event says {k}={}, it was {v}", e.s(k)));
                        }
                    }
                }
                if let Some((n, to)) = roy.filter(|r| r.0 > 0) {
                    n_roy = 1;
                    for e in &royalties {
                        if e.coin("amount") != Some((n, NATIVE.to_string())) || e.s("recipient") != to || e.s("collection") != t.coll {
                            bad.push(format!("{}, paid were {n} to {to}", e.show()));
                        }
                    }
                }
            }
            for e in mine.iter().filter(|e| e.ty.starts_with("remove-stale-") && t.bidder != t.sender) {
                let b = |s: &S| s.bank.get(&(t.sender.clone(), NATIVE.to_string())).copied().unwrap_or(0);
                let paid = b(got).wrapping_sub(b(&self.s));
                if e.num("reward") != Some(paid) || e.s("operator") != t.sender {
                    bad.push(format!("{}: operator {} was paid {paid}", e.show(), t.sender));
                }
            }
        }
        if sales.len() != n_sales || royalties.len() != n_roy {
            bad.push(format!("{n_sales} sales and {n_roy} royalty payments, announced are {} and {}", sales.len(), royalties.len()));
        }
        ctx.eval("L13", &format!("log {}{}{}", a.name(), if n_sales > 0 { " sale" } else { "" }, if hook_failures > 0 { " hook failed" } else { "" }), if mine.is_empty() { None } else { Some(fp(&mine.iter().map(|e| (&e.ty, &e.attrs)).collect::<Vec<_>>())) });
        if !bad.is_empty() {
            let l: Vec<String> = mine.iter().map(|e| e.show()).collect();
            ctx.div(&["L13"], "event-log", format!("{s0}: {}; events: {}", bad.join("; "), l.join(" ")));
        }
    }

    fn evals(&self, a: &A, exp: &Exp, ok: bool, ctx: &mut Ctx) {
        let kind = a.name();
        let h = match a {
            A::Tx(t) => {
                let fs: Vec<String> = t.funds.iter().map(|c| c.to_string()).collect();
                let own = self.s.owners.get(&t.tok()) == Some(&t.sender);
                let ask = self.s.asks.get(&(t.coll.clone(), t.token)).map(|x| (x.fixed, x.price, x.active, x.exp as i64 - self.now() as i64, x.seller == t.sender, x.reserve.is_some()));
                let b = if matches!(t.k, SetBid | BuyNow | BuyFor | RemoveBid) { &t.sender } else { &t.bidder };
                let bid = self.s.bids.get(&(t.coll.clone(), t.token, b.clone())).map(|x| (x.price, x.exp as i64 - self.now() as i64));
                let cb = if matches!(t.k, SetCb | RemoveCb | AcceptCb | StaleCb) { Some(self.s.cbids.get(&(t.coll.clone(), b.clone())).map(|x| (x.price, x.exp as i64 - self.now() as i64))) } else { None };
                fp(&(t.k, own, fs, (t.amt, &t.denom, t.ffee, t.exp as i64 - self.now() as i64), ask, bid, cb))
            }
            _ => fp(&(a.msg().to_string(), &self.s.par, &self.s.hooks)),
        };
        match exp {
            Exp::Reject(t) => {
                for x in t {
                    ctx.eval(x, &format!("{kind} must be rejected"), Some(h));
                }
            }
            Exp::Accept(p, _, t) => {
                let sale = p.owners != self.s.owners;
                for x in t {
                    let f = match *x {
                        "L02" => {
                            if let A::Tx(t) = a {
                                let w = self.c.w.borrow();
                                fp(&(&self.s.par.fee, w.nfts[&t.coll].info.as_ref().map(|i| i.royalty.clone()), t.funds.first().map(|c| c.amount.u128()), t.finder.is_some(), h))
                            } else {
                                h
                            }
                        }
                        _ => h,
                    };
                    ctx.eval(x, &format!("{kind}{}", if sale { " sale" } else { "" }), Some(f));
                }
                if let A::Tx(t) = a {
                    match t.k {
                        SetBid | BuyNow | BuyFor if self.s.bids.contains_key(&(t.coll.clone(), t.token, t.sender.clone())) => ctx.eval("L05", "replaced bid", Some(h)),
                        SetCb if self.s.cbids.contains_key(&(t.coll.clone(), t.sender.clone())) => ctx.eval("L05", "replaced collection bid", Some(h)),
                        _ => {}
                    }
                    if matches!(t.k, RemoveAsk | Reprice | AcceptBid | RejectBid | SetAsk | AcceptCb | Sync | StaleAsk | StaleBid | StaleCb) {
                        ctx.eval("L07", &format!("{kind} by entitled sender"), Some(h));
                    }
                }
            }
            _ => {}
        }
        if ok {
            ctx.eval("X02", &format!("v1 {kind}"), Some(fp(&(h, self.s.asks.len(), self.s.bids.len()))));
        }
    }

    // ------------------------------------------------------------ workload
    fn gen_price(&mut self) -> u128 {
        let m = self.s.par.min;
        match self.profile {
            3 => self.rng.pickc(&[1u128, 99, 1_000_000_007, MAX_ASK, MAX_ASK + 1, MAX_ASK - 1, 99_999_999_999_999, 33_333_333_333_333, 999_999_999_999_999_999_999, 1_000_000_000_000_000_000_000_000_000_000, 77]),
            _ => {
                if self.rng.p(20) {
                    self.rng.pickc(&[m, m.saturating_sub(1), m + 1])
                } else {
                    self.rng.pickc(&[0u128, 5, 49, 50, 51, 99, 100, 100, 101, 150, 200, 200, 333, 1000, 12_345, 1_000_001])
                }
            }
        }
    }
    fn gen_exp(&mut self, r: (u64, u64)) -> u64 {
        let n = self.now();
        match self.rng.below(20) {
            0 => n + r.0 * NS,
            1 => n + r.0 * NS + 1,
            2 => n + r.1 * NS + 1,
            3..=7 => n + r.1 * NS,
            9 => n + r.1 * NS - 1,
            8 => n.saturating_sub(self.rng.below(10) as u64 * NS),
            _ => n + r.0 * NS + 1 + self.rng.next() % ((r.1 - r.0) * NS).max(1),
        }
    }
    fn gen(&mut self) -> A {
        let wsudo = if self.profile == 2 { 18 } else { 5 };
        if self.rng.p(wsudo) {
            return self.gen_sudo();
        }
        //        SA  RA Rp SB  BN BF RB AB Rj SC RC AC Sy SA SB SC
        let w: [u32; 16] = match self.profile {
            1 => [24, 2, 3, 34, 6, 5, 3, 8, 2, 14, 2, 5, 3, 2, 3, 3],
            _ => [22, 4, 6, 24, 8, 7, 5, 11, 4, 10, 4, 7, 6, 5, 5, 4],
        };
        let ks = [SetAsk, RemoveAsk, Reprice, SetBid, BuyNow, BuyFor, RemoveBid, AcceptBid, RejectBid, SetCb, RemoveCb, AcceptCb, Sync, StaleAsk, StaleBid, StaleCb];
        let mut k = ks[self.rng.weighted(&w)];
        let at = self.now();
        if self.rng.p(80) {
            // something to act on first
            k = match k {
                RemoveAsk | Reprice | BuyNow | BuyFor | Sync | StaleAsk if self.s.asks.is_empty() => SetAsk,
                BuyNow | BuyFor | Reprice if !self.s.asks.values().any(|x| x.exp > at && x.active) => SetAsk,
                AcceptBid if !self.s.bids.values().any(|x| x.exp > at) => SetBid,
                AcceptCb if !self.s.cbids.values().any(|x| x.exp > at) => SetCb,
                RemoveBid | AcceptBid | RejectBid | StaleBid if self.s.bids.is_empty() => SetBid,
                RemoveCb | AcceptCb | StaleCb if self.s.cbids.is_empty() => SetCb,
                k => k,
            };
        }
        let loyal = self.rng.p(88);
        let clean = self.rng.p(55);
        let mut t = Tx {
            k,
            sender: user(self.rng.below(NU)),
            coll: self.rng.pickc(&self.colls.clone()),
            token: if self.rng.p(2) { 77 } else { self.rng.pickc(&self.tokens.clone()) },
            bidder: user(self.rng.below(NU)),
            denom: if self.rng.p(96) { NATIVE.into() } else { "uatom".into() },
            amt: self.gen_price(),
            fixed: self.rng.p(70),
            rcpt: None,
            reserve: None,
            finder: None,
            ffee: None,
            exp: 0,
            funds: vec![],
        };
        let now = self.now();
        if self.rng.p(45) {
            let m = self.s.par.max_ff;
            t.ffee = Some(self.rng.pickc(&[0, m, m, m / 2, m + 1, 1, 33, 100]));
        }
        if self.rng.p(40) {
            t.finder = Some(user(self.rng.below(10)));
            if t.finder.as_ref() == Some(&t.sender) && loyal {
                t.finder = Some(user(9));
            }
        }
        let mut asks: Vec<Ask> = self.s.asks.values().cloned().collect();
        let mut bids: Vec<Bid> = self.s.bids.values().cloned().collect();
        let mut cbids: Vec<CBid> = self.s.cbids.values().cloned().collect();
        if let Some((fc, ft, n)) = self.focus.take() {
            if self.rng.p(75) {
                t.coll = fc.clone();
                t.token = ft;
                let keep = |hit: Vec<bool>| hit.contains(&true);
                for one in [true, false] {
                    // the token if it has orders, else the collection
                    let f = |c: &str, k: u32| c == fc && (!one || k == ft);
                    if keep(asks.iter().map(|a| f(&a.coll, a.token)).collect()) {
                        asks.retain(|a| f(&a.coll, a.token));
                    }
                    if keep(bids.iter().map(|a| f(&a.coll, a.token)).collect()) {
                        bids.retain(|a| f(&a.coll, a.token));
                    }
                }
                if cbids.iter().any(|b| b.coll == fc) {
                    cbids.retain(|b| b.coll == fc);
                }
            }
            if n > 1 {
                self.focus = Some((fc, ft, n - 1));
            }
        }
        // aim at what exists
        match k {
            RemoveAsk | Reprice | BuyNow | BuyFor | Sync | StaleAsk | SetBid if !asks.is_empty() && self.rng.p(if k == SetBid { 60 } else { 93 }) => {
                let mut a = self.rng.pickc(&asks);
                if k == StaleAsk || k == Sync {
                    let good: Vec<&Ask> = asks
                        .iter()
                        .filter(|a| {
                            let ok_ = self.c.approved(&a.coll, &a.token.to_string(), &self.m);
                            if k == StaleAsk { a.exp <= now || !ok_ } else { a.active != ok_ }
                        })
                        .collect();
                    if !good.is_empty() && self.rng.p(75) {
                        a = (*self.rng.pickc(&good)).clone();
                    }
                }
                if matches!(k, BuyNow | BuyFor | SetBid | Reprice) && self.rng.p(80) {
                    // rather a listing that can still trade
                    let good: Vec<&Ask> = asks
                        .iter()
                        .filter(|a| a.exp > now && a.active && self.s.owners.get(&(a.coll.clone(), a.token.to_string())) == Some(&a.seller) && self.c.approved(&a.coll, &a.token.to_string(), &self.m))
                        .collect();
                    if !good.is_empty() {
                        a = (*self.rng.pickc(&good)).clone();
                    }
                }
                t.coll = a.coll;
                t.token = a.token;
                if matches!(k, BuyNow | BuyFor | SetBid) && self.rng.p(70) {
                    if let Some(r) = a.reserve {
                        t.sender = r;
                    }
                }
            }
            AcceptBid | RejectBid | RemoveBid | StaleBid if !bids.is_empty() && self.rng.p(94) => {
                let mut b = self.rng.pickc(&bids);
                if k == StaleBid || k == AcceptBid {
                    let good: Vec<&Bid> = bids.iter().filter(|b| if k == StaleBid { b.exp + self.s.par.stale * NS <= now } else { b.exp > now }).collect();
                    if !good.is_empty() && self.rng.p(75) {
                        b = (*self.rng.pickc(&good)).clone();
                    }
                }
                t.coll = b.coll;
                t.token = b.token;
                t.bidder = b.bidder;
            }
            AcceptCb | RemoveCb | StaleCb if !cbids.is_empty() && self.rng.p(94) => {
                let mut b = self.rng.pickc(&cbids);
                if k == StaleCb || k == AcceptCb {
                    let good: Vec<&CBid> = cbids.iter().filter(|b| if k == StaleCb { b.exp + self.s.par.stale * NS <= now } else { b.exp > now }).collect();
                    if !good.is_empty() && self.rng.p(75) {
                        b = (*self.rng.pickc(&good)).clone();
                    }
                }
                t.coll = b.coll;
                t.bidder = b.bidder;
            }
            _ => {}
        }
        // the entitled sender, mostly
        if loyal {
            match k {
                SetAsk | RemoveAsk | Reprice | AcceptBid | RejectBid | AcceptCb => {
                    if let Some(o) = self.s.owners.get(&t.tok()) {
                        t.sender = o.clone();
                    }
                }
                RemoveBid | RemoveCb => t.sender = t.bidder.clone(),
                Sync | StaleAsk | StaleBid | StaleCb => {
                    if !self.s.par.ops.is_empty() {
                        t.sender = self.rng.pickc(&self.s.par.ops.clone());
                    }
                }
                _ => {}
            }
            if matches!(k, SetAsk | AcceptBid | AcceptCb) && self.rng.p(75) && self.s.owners.contains_key(&t.tok()) {
                // the usual flow approves right before
                self.c.w.borrow_mut().nfts.get_mut(&t.coll).unwrap().approvals.insert((t.token.to_string(), self.m.clone()), None);
            }
        } else if !matches!(k, SetBid | SetCb | BuyNow | BuyFor) && self.rng.p(60) {
            // parties with an interest but no right
            let mut v = vec![t.bidder.clone()];
            if let Some(x) = self.s.asks.get(&(t.coll.clone(), t.token)) {
                v.extend([Some(x.seller.clone()), Some(x.seller.clone()), x.rcpt.clone(), x.reserve.clone()].into_iter().flatten());
            }
            v.extend(self.s.bids.values().filter(|b| b.coll == t.coll && b.token == t.token).map(|b| b.bidder.clone()));
            v.extend(self.s.par.ops.iter().cloned());
            v.extend(self.c.around(&t.coll, &t.token.to_string()));
            v.retain(|x| *x != self.m && self.users.contains(x));
            if !v.is_empty() {
                t.sender = self.rng.pickc(&v);
            }
        }
        match k {
            SetAsk => {
                t.exp = self.gen_exp(self.s.par.ask);
                let n = if self.rng.p(94) { self.s.par.listing } else { self.rng.pickc(&[0, 1, self.s.par.listing + 1, self.s.par.listing.saturating_sub(1), self.s.par.listing * 2]) };
                t.funds.push(coin(n, if self.rng.p(98) { NATIVE } else { "uatom" }));
                if self.rng.p(30) {
                    t.rcpt = Some(user(self.rng.below(10)));
                }
                if self.rng.p(20) {
                    t.reserve = Some(user(self.rng.below(NU)));
                    if self.rng.p(85) {
                        t.fixed = true;
                    }
                }
            }
            SetBid | BuyNow | BuyFor => {
                t.exp = self.gen_exp(self.s.par.bid);
                let mut n = t.amt;
                if let Some(a) = self.s.asks.get(&(t.coll.clone(), t.token)) {
                    let p = a.price;
                    let any = t.amt;
                    n = match (a.fixed, self.rng.below(10)) {
                        (true, 0..=6) => p,
                        (true, 7) => p.saturating_sub(1),
                        (true, 8) => p.saturating_add(1),
                        (false, 0..=2) => p,
                        (false, 3) => p.saturating_sub(1),
                        (false, 4..=7) => p + self.rng.below(50) as u128,
                        _ => any,
                    };
                }
                t.funds.push(coin(n, if self.rng.p(97) { NATIVE } else { "uatom" }));
                if k == BuyFor {
                    t.rcpt = Some(user(self.rng.below(10)));
                    // the other parties to the listing as the one bought for
                    if let Some(x) = self.s.asks.get(&(t.coll.clone(), t.token)).cloned().filter(|_| self.rng.p(40)) {
                        if let Some(r) = x.reserve {
                            t.rcpt = Some(r);
                            if self.rng.p(60) {
                                t.sender = user(self.rng.below(10));
                            }
                        } else {
                            t.rcpt = Some(x.seller);
                        }
                    }
                }
                if k == SetBid && self.rng.p(60) {
                    t.fixed = self.s.asks.get(&(t.coll.clone(), t.token)).map_or(t.fixed, |a| a.fixed);
                }
            }
            SetCb => {
                t.exp = self.gen_exp(self.s.par.bid);
                t.funds.push(coin(t.amt, if self.rng.p(97) { NATIVE } else { "uatom" }));
            }
            _ => {
                if self.rng.p(3) {
                    t.funds.push(coin(5, if self.rng.p(70) { NATIVE } else { "uatom" }));
                }
            }
        }
        if self.rng.p(2) {
            t.funds.push(coin(3, if self.rng.p(50) { NATIVE } else { "uatom" }));
        }
        if clean {
            // everything about the order in bounds
            let (lo, hi) = if k == SetAsk { self.s.par.ask } else { self.s.par.bid };
            let span = hi.saturating_sub(lo) * NS;
            if matches!(k, SetAsk | SetBid | BuyNow | BuyFor | SetCb) && span > 1 {
                t.exp = now + lo * NS + 1 + span / 3 + self.rng.next() % (span - 1 - span / 3).max(1);
            }
            t.ffee = t.ffee.map(|f| f.min(self.s.par.max_ff));
            if t.finder.as_ref() == Some(&t.sender) {
                t.finder = None;
            }
            t.denom = NATIVE.into();
            let lim = self.s.par.min.max(1);
            match k {
                SetAsk | Reprice => {
                    t.amt = t.amt.max(lim).min(MAX_ASK);
                    t.funds = if k == SetAsk { vec![coin(self.s.par.listing, NATIVE)] } else { vec![] };
                }
                SetCb => t.funds = vec![coin(t.amt.max(lim), NATIVE)],
                SetBid | BuyNow | BuyFor => {
                    if let Some(x) = self.s.asks.get(&(t.coll.clone(), t.token)) {
                        let over = if self.rng.p(50) { 0 } else { self.rng.below(60) as u128 };
                        t.funds = vec![coin(if x.fixed { x.price } else { x.price + over }.max(1), NATIVE)];
                    } else {
                        t.funds = vec![coin(t.amt.max(lim), NATIVE)];
                    }
                }
                _ => t.funds.clear(),
            }
        }
        if self.rng.p(2) {
            let b = Some(bad_addr(self.rng.below(5)));
            match k {
                SetAsk if self.rng.p(50) => t.rcpt = b,
                SetAsk => t.reserve = b,
                _ => t.finder = b,
            }
        }
        // a bid replaced by one that differs in one respect only, or in none
        let old = match k {
            SetBid => self.s.bids.get(&(t.coll.clone(), t.token, t.sender.clone())).map(|b| (b.price, b.exp)),
            SetCb => self.s.cbids.get(&(t.coll.clone(), t.sender.clone())).map(|b| (b.price, b.exp)),
            _ => None,
        };
        if let Some((p, e)) = old.filter(|_| self.rng.p(30)) {
            let w = self.rng.below(4);
            if w != 0 {
                t.funds = vec![coin(p, NATIVE)];
            }
            if w != 1 && e > self.now() {
                t.exp = e;
            }
        }
        let mut seen = BTreeSet::new();
        t.funds.retain(|c| !c.amount.is_zero() && seen.insert(c.denom.clone()));
        t.funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        A::Tx(t)
    }
    fn gen_sudo(&mut self) -> A {
        let r = &mut self.rng;
        match r.weighted(&[10, 4, 4, 9, 6]) {
            0 => {
                let mut p = self.s.par.clone();
                let mut only = BTreeSet::new();
                for _ in 0..1 + r.below(3) {
                    let i = r.below(8);
                    only.insert(i);
                    match i {
                        0 => p.fee = if r.p(90) { Self::gen_bps(r) } else { r.pickc(&[10_001, 20_000, u64::MAX / 1_000_000]) },
                        1 => p.ask = r.pickc(&[(0u64, 60u64), (1, 300), (5, 5), (0, 1), (0, 100), (2, 1), (0, 3000), (3, 1000)]),
                        2 => p.bid = r.pickc(&[(0u64, 60u64), (1, 300), (5, 5), (0, 1), (0, 100), (2, 1), (0, 3000), (3, 1000)]),
                        3 => p.max_ff = r.pickc(&[0u64, 100, 1000, 5000, 10_000, 10_001]),
                        4 => p.min = r.pickc(&[0u128, 1, 5, 100, 100]),
                        5 => p.stale = r.pickc(&[0u64, 1, 10, 30]),
                        6 => p.reward = if r.p(90) { Self::gen_bps(r) } else { 10_001 },
                        _ => p.listing = r.pickc(&[0u128, 2, 3, 500, 500, 0, 0, 2, 0, 4, 1]),
                    }
                }
                A::Params { p, only, ops: r.p(15) }
            }
            1 => A::AddOp(if r.p(5) { "bad!".into() } else { user(r.below(8)) }),
            2 => {
                let o = if self.s.par.ops.is_empty() || r.p(30) { user(r.below(8)) } else { r.pickc(&self.s.par.ops) };
                A::RemOp(o)
            }
            3 => A::AddHook(r.below(3), if r.p(4) { bad_addr(r.below(5)) } else { r.pickc(&self.hookc) }),
            _ => {
                let i = r.below(3);
                let h = if self.s.hooks[i].is_empty() || r.p(25) { r.pickc(&self.hookc) } else { r.pickc(&self.s.hooks[i]) };
                A::RemHook(i, h)
            }
        }
    }

    fn advance(&mut self) {
        let now = self.now();
        let mut dt = self.rng.pickc(&[1u64, NS / 2, NS, 2 * NS, 5 * NS, 6_123_456_789]);
        if self.rng.p(20) {
            let mut t: Vec<u64> = vec![];
            for e in self.s.asks.values().map(|a| a.exp).chain(self.s.bids.values().map(|b| b.exp)).chain(self.s.cbids.values().map(|b| b.exp)) {
                let g = e + self.s.par.stale * NS;
                t.extend([e, e - 1, e + 1, g, g - 1, g + 1]);
            }
            t.retain(|x| *x > now && *x - now < 120 * NS);
            if !t.is_empty() {
                t.sort();
                t.truncate(12);
                dt = self.rng.pickc(&t) - now;
            }
        }
        self.c.time.set(now + dt.max(1));
        self.c.height.set(self.c.height.get() + 1);
        self.c.tx_index.set(0);
    }

    fn external(&mut self, ctx: &mut Ctx) {
        let coll = self.rng.pickc(&self.colls.clone());
        let tid = self.rng.pickc(&self.tokens.clone());
        let token = tid.to_string();
        let what;
        let now = self.now();
        let hostile = self.profile == 4;
        if self.rng.p(60) {
            self.focus = Some((coll.clone(), tid, 4));
        }
        let mut w = self.c.w.borrow_mut();
        match self.rng.weighted(&[20, 20, 14, 14, if hostile { 14 } else { 1 }, 3, 12, 3]) {
            0 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                if !n.owners.contains_key(&token) {
                    n.owners.insert(token.clone(), user(self.rng.below(NU)));
                }
                let to = user(self.rng.below(NU));
                n.owners.insert(token.clone(), to.clone());
                n.approvals.retain(|(t, _), _| *t != token);
                if self.rng.p(40) {
                    n.approvals.insert((token.clone(), self.m.clone()), None);
                }
                what = format!("ext transfer {}/{token} to {}", short(&coll), short(&to));
            }
            1 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                let k = (token.clone(), self.m.clone());
                if self.rng.p(55) {
                    let e = if self.rng.p(60) { None } else { Some(now + self.rng.below(20) as u64 * NS) };
                    n.approvals.insert(k, e);
                    what = format!("ext approve {}/{token} until {e:?}", short(&coll));
                } else {
                    n.approvals.remove(&k);
                    if self.rng.p(30) {
                        if let Some(o) = n.owners.get(&token).cloned() {
                            n.operators.insert((o, self.m.clone()));
                        }
                    }
                    what = format!("ext revoke {}/{token}", short(&coll));
                }
            }
            2 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                let t = self.rng.pickc(&[now, now + 1, now.saturating_sub(1), now + NS / 2, now + 3 * NS, now + 10 * NS]);
                let Some(i) = n.info.as_mut() else { return };
                i.start = if self.rng.p(60) { Some(t) } else { None };
                what = format!("ext start time {} {:?}", short(&coll), i.start);
            }
            3 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                let share = self.rng.pickc(&["0", "0.01", "0.05", "0.1", "0.333333333333333333", "0.000000000000000001", "0.5", "0.05", "0.98", "1"]);
                let Some(i) = n.info.as_mut() else { return };
                i.royalty = if self.rng.p(80) { Some((user(if self.rng.p(25) { self.rng.below(NU) } else { 8 + self.rng.below(2) }), share.to_string())) } else { None };
                what = format!("ext royalty {} {:?}", short(&coll), i.royalty.as_ref().map(|r| r.1.clone()));
            }
            4 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                if self.rng.p(70) {
                    if !n.stuck.remove(&token) {
                        n.stuck.insert(token.clone());
                    }
                } else {
                    n.frozen = !n.frozen;
                }
                what = format!("ext {} frozen {} stuck {:?}", short(&coll), n.frozen, n.stuck);
            }
            5 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                n.info = if n.info.is_some() { None } else { Some(CollInfo { start: None, royalty: Some((user(8), "0.07".into())) }) };
                what = format!("ext collection_info {} supported={}", short(&coll), n.info.is_some());
            }
            6 => {
                let h = self.rng.pickc(&self.hookc);
                if !w.failing.remove(&h) {
                    w.failing.insert(h.clone());
                }
                what = format!("ext hook {} failing={}", short(&h), w.failing.contains(&h));
            }
            _ => {
                // burnt token
                let n = w.nfts.get_mut(&coll).unwrap();
                n.owners.remove(&token);
                n.approvals.retain(|(t, _), _| *t != token);
                self.s.owners.remove(&(coll.clone(), token.clone()));
                what = format!("ext burn {}/{token}", short(&coll));
            }
        }
        for (c, n) in &w.nfts {
            for (t, o) in &n.owners {
                self.s.owners.insert((c.clone(), t.clone()), o.clone());
            }
        }
        ctx.log.push(what);
    }

    /// A short story on one token, each part of it ordinary, that random choice would rarely tell in this order.
    fn new_plan(&mut self) {
        let coll = self.rng.pickc(&self.colls.clone());
        let token = self.rng.pickc(&self.tokens.clone());
        let Some(owner) = self.s.owners.get(&(coll.clone(), token.to_string())).cloned() else { return };
        let mut us: Vec<String> = (0..NU).map(user).filter(|u| *u != owner).collect();
        if us.len() == NU {
            return; // in the hands of someone who does not bid
        }
        for i in (1..us.len()).rev() {
            us.swap(i, self.rng.below(i + 1));
        }
        let (x, y, z) = (us[0].clone(), us[1].clone(), us[2].clone());
        let op = if self.s.par.ops.is_empty() { x.clone() } else { self.rng.pickc(&self.s.par.ops.clone()) };
        let now = self.now();
        let r = &mut self.rng;
        let par = self.s.par.clone();
        let mut life = |(lo, hi): (u64, u64)| {
            let span = hi.saturating_sub(lo) * NS;
            now + lo * NS + 1 + span / 2 + r.next() % (span / 2).max(1)
        };
        let (ea, eb) = (life(par.ask), life(par.bid));
        let price = par.min.max(1) + r.pickc(&[0u128, 0, 1, 37, 50, 100, 900, 12_345]);
        let ff = if r.p(50) { Some(r.pickc(&[0, par.max_ff, par.max_ff / 2])) } else { None };
        let fixed = !r.p(15);
        let tx = |k: K, sender: &String, bidder: &String, n: u128| Tx {
            k,
            sender: sender.clone(),
            coll: coll.clone(),
            token,
            bidder: bidder.clone(),
            denom: NATIVE.into(),
            amt: n,
            fixed,
            rcpt: None,
            reserve: None,
            finder: None,
            ffee: if matches!(k, SetAsk | SetBid | SetCb | BuyNow | BuyFor) { ff } else { None },
            exp: if k == SetAsk { ea } else { eb },
            funds: match k {
                SetAsk if par.listing > 0 => vec![coin(par.listing, NATIVE)],
                SetBid | SetCb | BuyNow | BuyFor if n > 0 => vec![coin(n, NATIVE)],
                _ => vec![],
            },
        };
        let act = |k, sender: &String, n: u128| P::Do(A::Tx(tx(k, sender, sender, n)));
        let on = |k, sender: &String, bidder: &String| P::Do(A::Tx(tx(k, sender, bidder, 0)));
        let with = |mut t: Tx, f: &dyn Fn(&mut Tx)| {
            f(&mut t);
            P::Do(A::Tx(t))
        };
        let ok = |b| P::Approve(coll.clone(), token, b);
        let mv = |to: &String, b| P::Move(coll.clone(), token, to.clone(), b);
        // ways of buying the token from its listing
        let buy = |r: &mut Rng, who: &String, n: u128| -> P {
            match r.below(4) {
                0 => act(SetBid, who, n),
                1 => with(tx(BuyFor, who, who, n), &|t| t.rcpt = Some(z.clone())),
                _ => act(BuyNow, who, n),
            }
        };
        let gap = r.pickc(&[1u64, 1, NS, 5 * NS]);
        let mut v: Vec<P> = vec![];
        match r.below(13) {
            0 => {
                // a listing without approval, approved again
                v.extend([ok(true), act(SetAsk, &owner, price)]);
                if r.p(50) {
                    v.push(act(SetBid, &y, price + 1));
                    if r.p(50) {
                        v.push(act(SetBid, &y, price.saturating_sub(1)));
                    }
                }
                v.extend([ok(false), act(Sync, &op, 0)]);
                if r.p(70) {
                    v.push(ok(true));
                }
                for _ in 0..2 {
                    v.push(match r.below(6) {
                        0 => act(Reprice, &owner, price + 3),
                        1 => act(Sync, &op, 0),
                        2 => act(StaleAsk, &op, 0),
                        3 => on(AcceptBid, &owner, &y),
                        _ => buy(r, &x, price),
                    });
                }
                v.extend([act(Sync, &op, 0), buy(r, &y, price)]);
            }
            1 => {
                // the token moves while listed and bid for
                v.extend([ok(true), act(SetAsk, &owner, price), act(SetBid, &y, price + 5), act(SetBid, &z, 1.max(price - 1)), mv(&x, r.p(70))]);
                for _ in 0..3 {
                    let who = if r.p(50) { owner.clone() } else { x.clone() };
                    v.push(match r.below(9) {
                        0 => act(Reprice, &who, price + 1),
                        1 => act(RemoveAsk, &who, 0),
                        2 => on(RejectBid, &who, &z),
                        3 => on(AcceptBid, &who, &z),
                        4 => act(SetAsk, &x, price + 2),
                        5 => act(StaleAsk, &op, 0),
                        6 => act(Sync, &op, 0),
                        7 => act(SetAsk, &owner, price),
                        _ => buy(r, &y, price),
                    });
                }
                v.extend([mv(&owner, true), buy(r, &y, price)]);
            }
            2 | 3 => {
                // a bid at the edges of its life and of its grace
                let cb = r.p(40);
                let (set, acc, stale, rem) = if cb { (SetCb, AcceptCb, StaleCb, RemoveCb) } else { (SetBid, AcceptBid, StaleBid, RemoveBid) };
                v.extend([ok(true), act(set, &y, price)]);
                let g = eb + par.stale * NS;
                let mut ts = vec![eb - 1, eb, eb + 1, g.saturating_sub(1).max(eb), g, g + 1];
                ts.retain(|_| r.p(50));
                ts.sort();
                for t in ts {
                    v.push(P::At(t));
                    let k = r.pickc(&[acc, stale, stale, rem]);
                    let who = match k {
                        AcceptBid | AcceptCb => owner.clone(),
                        StaleBid | StaleCb if r.p(80) => op.clone(),
                        StaleBid | StaleCb => r.pickc(&[x.clone(), y.clone(), owner.clone()]),
                        _ => y.clone(),
                    };
                    v.push(on(k, &who, &y));
                }
                v.push(on(stale, &op, &y));
                v.push(on(rem, &y, &y));
            }
            4 => {
                // bids replaced, withdrawn twice, refused twice
                let cb = r.p(40);
                let (set, rem) = if cb { (SetCb, RemoveCb) } else { (SetBid, RemoveBid) };
                v.push(act(set, &y, price));
                v.push(act(set, &y, price + r.pickc(&[0u128, 1, 7])));
                if r.p(50) {
                    v.push(act(set, &z, price + 1));
                }
                let ways = if cb { [RemoveCb, AcceptCb, StaleCb] } else { [RemoveBid, RejectBid, AcceptBid] };
                for _ in 0..3 {
                    let k = r.pickc(&ways);
                    let who = if k == rem { y.clone() } else if k == StaleCb { op.clone() } else { owner.clone() };
                    v.push(on(k, &who, &y));
                    if r.p(30) {
                        v.push(act(set, &y, price + 2));
                    }
                }
                v.push(on(rem, &y, &y));
            }
            5 => {
                // one collection bid, two tokens
                v.extend([act(SetCb, &y, price), act(SetCb, &z, price), ok(true)]);
                let other = r.pickc(&self.tokens.clone());
                let oo = self.s.owners.get(&(coll.clone(), other.to_string())).cloned().unwrap_or(owner.clone());
                v.push(on(AcceptCb, &owner, &y));
                v.push(P::Approve(coll.clone(), other, true));
                v.push(with(tx(AcceptCb, &oo, &y, 0), &|t| t.token = other));
                // the buyer sells on what it just bought
                v.push(ok(true));
                v.push(on(AcceptCb, &y, &z));
                v.push(on(RemoveCb, &y, &y));
                v.push(on(RemoveCb, &z, &z));
            }
            6 | 7 => {
                // the rules change while orders stand
                v.extend([ok(true), act(SetBid, &y, price), act(SetCb, &z, price)]);
                if r.p(60) {
                    v.push(act(SetAsk, &owner, price + 10));
                }
                let mut p = par.clone();
                let mut only = BTreeSet::new();
                for _ in 0..1 + r.below(2) {
                    let i = r.below(8);
                    only.insert(i);
                    match i {
                        0 => p.fee = r.pickc(&[0, 100, 1000, 5000]),
                        1 => p.ask = r.pickc(&[(0u64, 60u64), (5, 5), (2, 1), (3, 1000)]),
                        2 => p.bid = r.pickc(&[(0u64, 60u64), (5, 5), (2, 1), (3, 1000)]),
                        3 => p.max_ff = r.pickc(&[0u64, 100, 10_000]),
                        4 => p.min = price + r.pickc(&[0u128, 1, 1000]),
                        5 => p.stale = r.pickc(&[0u64, 1, 30]),
                        6 => p.reward = r.pickc(&[0u64, 1, 5000, 10_000]),
                        _ => p.listing = r.pickc(&[0u128, 2, 500]),
                    }
                }
                v.push(P::Do(A::Params { p, only, ops: r.p(20) }));
                if r.p(40) {
                    v.push(P::At(eb + r.pickc(&[0, par.stale * NS, 30 * NS])));
                }
                for _ in 0..4 {
                    v.push(match r.below(9) {
                        0 => on(AcceptBid, &owner, &y),
                        1 => on(AcceptCb, &owner, &z),
                        2 => on(StaleBid, &op, &y),
                        3 => on(StaleCb, &op, &z),
                        4 => on(RejectBid, &owner, &y),
                        5 => act(Reprice, &owner, price + 1),
                        6 => act(RemoveAsk, &owner, 0),
                        7 => act(SetAsk, &owner, price),
                        _ => buy(r, &x, price + 10),
                    });
                }
                v.push(on(RemoveBid, &y, &y));
                v.push(on(RemoveCb, &z, &z));
            }
            8 => {
                // a listing kept for someone
                v.push(ok(true));
                v.push(with(tx(SetAsk, &owner, &owner, price), &|t| {
                    t.fixed = true;
                    t.reserve = Some(y.clone());
                }));
                for _ in 0..3 {
                    let (who, to) = match r.below(5) {
                        0 => (&x, &y),
                        1 => (&owner, &y),
                        2 => (&z, &z),
                        3 => (&y, &x),
                        _ => (&x, &x),
                    };
                    v.push(match r.below(4) {
                        0 => act(BuyNow, who, price),
                        1 => act(SetBid, who, price),
                        2 => act(SetBid, who, price - 1),
                        _ => with(tx(BuyFor, who, who, price), &|t| t.rcpt = Some(to.clone())),
                    });
                }
                if r.p(40) {
                    // kept for someone else now
                    v.push(with(tx(SetAsk, &owner, &owner, price), &|t| {
                        t.fixed = true;
                        t.reserve = if price % 2 == 0 { Some(z.clone()) } else { None };
                    }));
                }
                v.push(buy(r, &y, price));
                v.push(buy(r, &z, price));
            }
            9 => {
                // finders' fees of listings, bids and the fee of neither
                let f = Some(user(r.below(10)));
                v.push(ok(true));
                let rc = if r.p(50) { Some(x.clone()) } else { None };
                v.push(with(tx(SetAsk, &owner, &owner, price * 100), &|t| {
                    t.ffee = Some(par.max_ff);
                    t.rcpt = rc.clone();
                }));
                let own = if r.p(50) { None } else { Some(par.max_ff / 3) };
                v.push(with(tx(SetBid, &y, &y, price * 50), &|t| {
                    t.ffee = own;
                    t.finder = f.clone();
                }));
                if r.p(50) {
                    let k = r.pickc(&[BuyNow, SetBid, BuyFor]);
                    v.push(with(tx(k, &z, &z, price * 100), &|t| {
                        t.ffee = own;
                        t.finder = f.clone();
                        t.rcpt = Some(x.clone());
                    }));
                    v.push(ok(true));
                    v.push(with(tx(AcceptBid, &z, &y, 0), &|t| t.finder = f.clone()));
                    v.push(with(tx(AcceptBid, &x, &y, 0), &|t| t.finder = f.clone()));
                } else {
                    v.push(with(tx(AcceptBid, &owner, &y, 0), &|t| t.finder = f.clone()));
                }
            }
            10 => {
                // sold, sold on, and what is left of the first listing and the other bids
                v.extend([ok(true), act(SetAsk, &owner, price), act(SetBid, &z, price + 3), buy(r, &y, price)]);
                v.push(act(r.pickc(&[RemoveAsk, Reprice, SetAsk]), &owner, price));
                v.push(ok(true));
                match r.below(3) {
                    0 => v.push(on(AcceptBid, &y, &z)),
                    1 => v.extend([act(SetAsk, &y, price + 9), buy(r, &x, price), buy(r, &x, price + 9)]),
                    _ => v.push(on(RejectBid, &y, &z)),
                }
                v.push(act(RemoveBid, &z, 0));
            }
            11 => {
                // dealing with oneself, equal bids
                v.extend([ok(true), act(SetBid, &owner, price), act(SetBid, &y, price), act(SetBid, &z, price), act(SetCb, &owner, price)]);
                for _ in 0..3 {
                    v.push(match r.below(6) {
                        0 => act(SetAsk, &owner, price),
                        1 => buy(r, &owner, price),
                        2 => on(AcceptCb, &owner, &owner),
                        3 => on(AcceptBid, &owner, &owner),
                        4 => on(RejectBid, &owner, &z),
                        _ => on(AcceptBid, &owner, &y),
                    });
                }
                v.extend([act(RemoveBid, &z, 0), act(RemoveBid, &owner, 0), act(RemoveBid, &y, 0)]);
            }
            _ => {
                // a listing at the edge of its life
                v.extend([ok(true), act(SetAsk, &owner, price), P::At(r.pickc(&[ea - 1, ea, ea + gap]))]);
                for _ in 0..3 {
                    v.push(match r.below(6) {
                        0 => act(Reprice, &owner, price + 1),
                        1 => act(StaleAsk, &op, 0),
                        2 => act(Sync, &op, 0),
                        3 => act(SetBid, &x, price.saturating_sub(1)),
                        4 => with(tx(SetAsk, &owner, &owner, price + 1), &|t| t.exp = ea + par.ask.1 * NS / 2),
                        _ => buy(r, &y, price),
                    });
                }
            }
        }
        // now and then a part is left out
        v.retain(|_| !r.p(5));
        self.plan = v.into();
    }
    /// a parameter change from earlier: only what the message names, the rest is as it is by now
    fn fresh(&self, a: &mut A) {
        if let A::Params { p, only, .. } = a {
            let mut q = self.s.par.clone();
            for i in only.iter() {
                match i {
                    0 => q.fee = p.fee,
                    1 => q.ask = p.ask,
                    2 => q.bid = p.bid,
                    3 => q.max_ff = p.max_ff,
                    4 => q.min = p.min,
                    5 => q.stale = p.stale,
                    6 => q.reward = p.reward,
                    _ => q.listing = p.listing,
                }
            }
            *p = q;
        }
    }
    fn play(&mut self, p: P, ctx: &mut Ctx) {
        match p {
            P::Do(mut a) => {
                self.fresh(&mut a);
                self.do_act(&a, ctx);
                self.last = Some(a);
            }
            P::Move(c, t, to, ok) => {
                let t = t.to_string();
                let mut w = self.c.w.borrow_mut();
                let n = w.nfts.get_mut(&c).unwrap();
                if n.owners.contains_key(&t) {
                    n.owners.insert(t.clone(), to.clone());
                    n.approvals.retain(|(k, _), _| *k != t);
                    if ok {
                        n.approvals.insert((t.clone(), self.m.clone()), None);
                    }
                    ctx.log.push(format!("ext transfer {}/{t} to {}", short(&c), short(&to)));
                    self.s.owners.insert((c, t), to);
                }
            }
            P::Approve(c, t, ok) => {
                let k = (t.to_string(), self.m.clone());
                let mut w = self.c.w.borrow_mut();
                let n = w.nfts.get_mut(&c).unwrap();
                if ok {
                    n.approvals.insert(k, None);
                } else {
                    n.approvals.remove(&k);
                    if let Some(o) = n.owners.get(&k.0).cloned() {
                        n.operators.remove(&(o, k.1));
                    }
                }
                ctx.log.push(format!("ext {} {}/{t}", if ok { "approve" } else { "revoke" }, short(&c)));
            }
            P::At(t) => {
                if t > self.now() {
                    self.c.time.set(t);
                    self.c.height.set(self.c.height.get() + 1);
                    self.c.tx_index.set(0);
                }
            }
        }
    }

    /// what the next steps do from here, on a fork of the world that is thrown away again
    fn probe(&mut self, k: u64) -> Vec<String> {
        let saved = (self.rng.clone(), self.s.clone(), self.dead, self.c.time.get(), self.c.height.get(), self.c.tx_index.get(), self.c.w.borrow().clone());
        // both runs start from the same leanings
        let leaning = (self.focus.take(), self.last.take(), std::mem::take(&mut self.plan));
        self.rng = Rng::new(k, 0, 0x77);
        let mut ctx = Ctx::new(None);
        let mut trace = vec![];
        for _ in 0..10 {
            self.step(&mut ctx);
            self.queries(&mut ctx);
            let last = ctx.log.last().cloned().unwrap_or_default();
            trace.push(format!("{last} | {:?} | {:?}", self.s, ctx.divs.drain(..).map(|d| (d.sig, d.detail)).collect::<Vec<_>>()));
        }
        self.rng = saved.0;
        self.s = saved.1;
        self.dead = saved.2;
        self.c.time.set(saved.3);
        self.c.height.set(saved.4);
        self.c.tx_index.set(saved.5);
        *self.c.w.borrow_mut() = saved.6;
        self.focus = leaning.0;
        self.last = leaning.1;
        self.plan = leaning.2;
        trace
    }
    fn judge_probe(&mut self, (k, before): (u64, Vec<String>), ctx: &mut Ctx) {
        let after = self.probe(k);
        ctx.eval("X01", "behaviour after migration", Some(fp(&after)));
        if let Some((b, a)) = before.iter().zip(&after).find(|(b, a)| b != a) {
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            ctx.div(&["X01"], "migrate-changed-behaviour", format!("later behaviour differs: without migration {} / with migration {}", cut(b), cut(a)));
        }
    }
    fn migrate(&mut self, ctx: &mut Ctx) {
        let k = self.rng.next();
        let before = if ctx.prop.as_deref() == Some("X01") { Some((k, self.probe(k))) } else { None };
        let key = b"contract_info".to_vec();
        let orig = self.c.w.borrow().stores[&self.m].get(&key).cloned();
        let set = |v: Option<Vec<u8>>| {
            let mut w = self.c.w.borrow_mut();
            let s = w.stores.get_mut(&self.m).unwrap();
            match v {
                Some(v) => s.insert(key.clone(), v),
                None => s.remove(&key),
            };
        };
        let name = "crates.io:sg-marketplace";
        // one patch release earlier or later than the running code
        let cur: Value = orig.as_ref().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_default();
        let near = |d: i64| -> String {
            let p: Vec<i64> = cur["version"].as_str().unwrap_or("1.0.0").split('.').map(|x| x.parse().unwrap_or(0)).collect();
            match p.as_slice() {
                [a, b, c] if d > 0 || *c > 0 => format!("{a}.{b}.{}", c + d),
                [a, b, _] if *b > 0 => format!("{a}.{}.99", b - 1),
                [a, _, _] if *a > 0 => format!("{}.99.99", a - 1),
                _ => "0.0.0".into(),
            }
        };
        let (up, down) = (near(1), near(-1));
        let (label, info, ok) = match self.rng.below(9) {
            7 => ("next patch", Some((name, up.as_str())), false),
            8 => ("previous release", Some((name, down.as_str())), true),
            5 => ("v2 contract", Some(("crates.io:stargaze-marketplace", "0.1.0")), false),
            6 => ("prefix contract", Some(("crates.io:sg-marketplace-v2", "0.1.0")), false),
            0 => ("older", Some((name, "0.9.1")), true),
            1 => ("newer", Some((name, "99.0.0")), false),
            2 => ("newer-digit", Some((name, "10.0.0")), false),
            3 => ("other contract", Some(("crates.io:other", "0.1.0")), false),
            _ => ("same", None, true),
        };
        ctx.log.push(format!("migrate from {label}"));
        if let Some((c, v)) = info {
            set(Some(serde_json::to_vec(&json!({"contract":c,"version":v})).unwrap()));
        }
        let r = self.c.migrate(&self.m);
        let got = self.observe(ctx);
        ctx.eval("X01", &format!("v1 migrate {label}"), Some(fp(&(label, &self.s.asks, &self.s.bids, &self.s.par))));
        if r.is_ok() != ok {
            ctx.div(&["X01"], "migrate-outcome", format!("migration from {label}: {}", r.map(|_| "succeeded".to_string()).unwrap_or_else(|e| e)));
        }
        if !self.same(&got) {
            ctx.div(&["X01"], "migrate-changed", format!("migration from {label} changed observable state"));
        }
        let now = self.c.w.borrow().stores[&self.m].get(&key).and_then(|b| serde_json::from_slice::<Value>(b).ok());
        if ok && now.as_ref() != Some(&cur) {
            ctx.div(&["X01"], "migrate-version", format!("after migrating from {label} the recorded version is {now:?}, the running code is {cur}"));
        }
        if !ok {
            set(orig);
        }
        self.s = got;
        if let Some(b) = before {
            self.judge_probe(b, ctx);
        }
    }

    // ------------------------------------------------------------ queries
    fn list<T: PartialEq + Clone + std::hash::Hash>(&self, ctx: &mut Ctx, q: Value, field: &str, parse: fn(&Value) -> Option<T>, show: fn(&T) -> String, want: Vec<T>) {
        let kind = q.as_object().unwrap().keys().next().unwrap().clone();
        let v = self.q(ctx, q.clone());
        let got: Option<Vec<T>> = v[field].as_array().map(|a| a.iter().filter_map(parse).collect());
        ctx.eval("L10", &kind, if want.is_empty() { None } else { Some(fp(&(q.to_string(), &want))) });
        if got.as_ref() != Some(&want) {
            let w: Vec<String> = want.iter().map(show).collect();
            let g: Vec<String> = got.unwrap_or_default().iter().map(show).collect();
            ctx.div(&["L10"], &format!("wrong-listing:{kind}"), format!("query {q}: expected {w:?} observed {g:?}"));
        }
    }
    fn cur<T: Clone>(&mut self, v: Vec<T>) -> Option<T> {
        if v.is_empty() || self.rng.p(40) {
            None
        } else {
            Some(self.rng.pickc(&v))
        }
    }
    fn queries(&mut self, ctx: &mut Ctx) {
        for _ in 0..4 {
            let limit = self.rng.pickc(&[None, Some(0u32), Some(1), Some(2), Some(3), Some(40), Some(99), Some(100), Some(101), Some(1000)]);
            let lim = limit.unwrap_or(10).min(100) as usize;
            let coll = self.rng.pickc(&self.colls.clone());
            let u = user(self.rng.below(NU));
            let inc = self.rng.pickc(&[None, Some(false), Some(true)]);
            let vis = |a: &Ask| inc == Some(true) || a.active;
            let casks: Vec<Ask> = self.s.asks.values().filter(|a| a.coll == coll).cloned().collect();
            let cb: Vec<Bid> = self.s.bids.values().filter(|b| b.coll == coll).cloned().collect();
            let ub: Vec<Bid> = self.s.bids.values().filter(|b| b.bidder == u).cloned().collect();
            let ccb: Vec<CBid> = self.s.cbids.values().filter(|b| b.coll == coll).cloned().collect();
            let ucb: Vec<CBid> = self.s.cbids.values().filter(|b| b.bidder == u).cloned().collect();
            let desc = self.rng.p(50);
            let dir = |name: &str| if desc { format!("reverse_{name}") } else { name.to_string() };
            let (sf, lo) = if desc { ("start_before", false) } else { ("start_after", true) };
            macro_rules! pg {
                ($items:expr, $cur:expr, $desc:expr) => {{
                    let b = $cur.map(|k| (k, false));
                    if $desc {
                        page(&$items, None, b, true, lim)
                    } else {
                        page(&$items, b, None, false, lim)
                    }
                }};
            }
            let _ = lo;
            match self.rng.below(13) {
                0 => {
                    let items: BTreeMap<String, String> = self.s.asks.values().map(|a| (a.coll.clone(), a.coll.clone())).collect();
                    let cur = self.cur(self.colls.clone());
                    let want = pg!(items, cur.clone(), false);
                    self.list(ctx, json!({"collections":{"start_after":cur,"limit":limit}}), "collections", st, |s| short(s), want);
                }
                1 | 2 => {
                    let mut ids = self.tokens.clone();
                    ids.push(0);
                    let cur = self.cur(ids);
                    let items: BTreeMap<u32, Ask> = casks.iter().filter(|a| vis(a)).map(|a| (a.token, a.clone())).collect();
                    let want = pg!(items, cur, desc);
                    self.list(ctx, json!({dir("asks"):{"collection":coll,"include_inactive":inc,sf:cur,"limit":limit}}), "asks", Ask::parse, Ask::s, want);
                }
                3 => {
                    let cur = self.cur(casks.iter().map(|a| (a.price, a.token)).chain([(100, 1)]).collect());
                    let items: BTreeMap<(u128, u32), Ask> = casks.iter().filter(|a| vis(a)).map(|a| ((a.price, a.token), a.clone())).collect();
                    let want = pg!(items, cur, desc);
                    let c = cur.map(|c| json!({"price":c.0.to_string(),"token_id":c.1}));
                    self.list(ctx, json!({dir("asks_sorted_by_price"):{"collection":coll,"include_inactive":inc,sf:c,"limit":limit}}), "asks", Ask::parse, Ask::s, want);
                }
                4 => {
                    let sel: Vec<String> = self.s.asks.values().map(|a| a.seller.clone()).collect();
                    let seller = if sel.is_empty() { u.clone() } else { self.rng.pickc(&sel) };
                    let items: BTreeMap<Key, Ask> = self.s.asks.values().filter(|a| a.seller == seller && vis(a)).map(|a| (a.key(), a.clone())).collect();
                    let cur = self.cur(self.s.asks.keys().cloned().collect());
                    let want = pg!(items, cur.clone(), false);
                    let c = cur.map(|c| json!({"collection":c.0,"token_id":c.1}));
                    self.list(ctx, json!({"asks_by_seller":{"seller":seller,"include_inactive":inc,"start_after":c,"limit":limit}}), "asks", Ask::parse, Ask::s, want);
                }
                5 => {
                    let v = self.q(ctx, json!({"ask_count":{"collection":coll}}));
                    ctx.eval("L10", "ask_count", Some(fp(&(casks.len(), casks.iter().filter(|a| a.active).count()))));
                    if v["count"].as_u64() != Some(casks.len() as u64) {
                        ctx.div(&["L10"], "ask-count", format!("ask count of {}: expected {} observed {v}", short(&coll), casks.len()));
                    }
                }
                6 => {
                    let tokens: Vec<u32> = cb.iter().map(|b| b.token).chain([self.tokens[0]]).collect();
                    let token = self.rng.pickc(&tokens);
                    let items: BTreeMap<String, Bid> = cb.iter().filter(|b| b.token == token).map(|b| (b.bidder.clone(), b.clone())).collect();
                    let cur = self.cur(items.keys().cloned().chain([u.clone()]).collect());
                    let want = pg!(items, cur.clone(), false);
                    self.list(ctx, json!({"bids":{"collection":coll,"token_id":token,"start_after":cur,"limit":limit}}), "bids", Bid::parse, Bid::s, want);
                }
                7 => {
                    let items: BTreeMap<Key, Bid> = ub.iter().map(|b| ((b.coll.clone(), b.token), b.clone())).collect();
                    let cur = self.cur(items.keys().cloned().chain([(coll.clone(), 5)]).collect());
                    let want = pg!(items, cur.clone(), false);
                    let c = cur.map(|c| json!({"collection":c.0,"token_id":c.1}));
                    self.list(ctx, json!({"bids_by_bidder":{"bidder":u,"start_after":c,"limit":limit}}), "bids", Bid::parse, Bid::s, want);
                }
                8 => {
                    let items: BTreeMap<(u128, u32, String), Bid> = cb.iter().map(|b| ((b.price, b.token, b.bidder.clone()), b.clone())).collect();
                    let cur = self.cur(items.keys().cloned().chain([(100, 1, u.clone())]).collect());
                    let want = pg!(items, cur.clone(), desc);
                    let c = cur.map(|c| json!({"price":c.0.to_string(),"token_id":c.1,"bidder":c.2}));
                    self.list(ctx, json!({dir("bids_sorted_by_price"):{"collection":coll,sf:c,"limit":limit}}), "bids", Bid::parse, Bid::s, want);
                }
                9 => {
                    let items: BTreeMap<(u64, Key), Bid> = ub.iter().map(|b| ((b.exp / NS, (b.coll.clone(), b.token)), b.clone())).collect();
                    let cur = self.cur(items.keys().cloned().collect());
                    let want = pg!(items, cur.clone(), false);
                    let c = cur.map(|c| json!({"collection":c.1 .0,"token_id":c.1 .1}));
                    self.list(ctx, json!({"bids_by_bidder_sorted_by_expiration":{"bidder":u,"start_after":c,"limit":limit}}), "bids", Bid::parse, Bid::s, want);
                }
                10 => {
                    let items: BTreeMap<(u128, String), CBid> = ccb.iter().map(|b| ((b.price, b.bidder.clone()), b.clone())).collect();
                    let cur = self.cur(items.keys().cloned().chain([(100, u.clone())]).collect());
                    let want = pg!(items, cur.clone(), desc);
                    let c = cur.map(|c| json!({"price":c.0.to_string(),"collection":coll,"bidder":c.1}));
                    self.list(ctx, json!({dir("collection_bids_sorted_by_price"):{"collection":coll,sf:c,"limit":limit}}), "bids", CBid::parse, CBid::s, want);
                }
                11 => {
                    let items: BTreeMap<String, CBid> = ucb.iter().map(|b| (b.coll.clone(), b.clone())).collect();
                    let cur = self.cur(self.colls.clone());
                    let want = pg!(items, cur.clone(), false);
                    let c = cur.map(|c| json!({"collection":c,"token_id":0}));
                    self.list(ctx, json!({"collection_bids_by_bidder":{"bidder":u,"start_after":c,"limit":limit}}), "bids", CBid::parse, CBid::s, want);
                }
                _ => {
                    let items: BTreeMap<(u64, String), CBid> = ucb.iter().map(|b| ((b.exp / NS, b.coll.clone()), b.clone())).collect();
                    let cur = self.cur(items.keys().cloned().collect());
                    let want = pg!(items, cur.clone(), false);
                    let c = cur.map(|c| json!({"price":"1","collection":c.1,"bidder":u}));
                    self.list(ctx, json!({"collection_bids_by_bidder_sorted_by_expiration":{"bidder":u,"start_after":c,"limit":limit}}), "bids", CBid::parse, CBid::s, want);
                }
            }
        }
        if self.rng.p(40) {
            self.walks(ctx);
        }
    }
    /// page through listings with the last returned item as the next cursor
    fn walks(&mut self, ctx: &mut Ctx) {
        let lim = if self.bulk { self.rng.pickc(&[7, 10, 33, 100]) } else { 1 + self.rng.below(2) };
        let coll = self.rng.pickc(&self.colls.clone());
        let which = self.rng.below(5);
        let mut seen: Vec<String> = vec![];
        let mut cur = Value::Null;
        let (name, mut want): (&str, Vec<String>) = match which {
            0 => ("asks", self.s.asks.values().filter(|a| a.coll == coll).map(|a| a.s()).collect()),
            1 => ("reverse_asks", self.s.asks.values().filter(|a| a.coll == coll).map(|a| a.s()).collect()),
            2 => ("collections", self.s.asks.values().map(|a| short(&a.coll)).collect::<BTreeSet<_>>().into_iter().collect()),
            3 => ("bids_sorted_by_price", self.s.bids.values().filter(|b| b.coll == coll).map(|b| b.s()).collect()),
            _ => ("bids", vec![]),
        };
        let token = self.rng.pickc(&self.s.bids.values().filter(|b| b.coll == coll).map(|b| b.token).chain([self.tokens[0]]).collect::<Vec<_>>());
        if which == 4 {
            want = self.s.bids.values().filter(|b| b.coll == coll && b.token == token).map(|b| b.s()).collect();
        }
        for _ in 0..want.len() + 2 {
            let q = match which {
                0 => json!({"asks":{"collection":coll,"include_inactive":true,"start_after":cur,"limit":lim}}),
                1 => json!({"reverse_asks":{"collection":coll,"include_inactive":true,"start_before":cur,"limit":lim}}),
                2 => json!({"collections":{"start_after":cur,"limit":lim}}),
                3 => json!({"bids_sorted_by_price":{"collection":coll,"start_after":cur,"limit":lim}}),
                _ => json!({"bids":{"collection":coll,"token_id":token,"start_after":cur,"limit":lim}}),
            };
            let v = self.q(ctx, q);
            let field = if which < 2 { "asks" } else if which == 2 { "collections" } else { "bids" };
            let Some(a) = v[field].as_array() else { break };
            let Some(l) = a.last() else { break };
            cur = match which {
                0 | 1 => l["token_id"].clone(),
                2 => l.clone(),
                3 => json!({"price":l["price"],"token_id":l["token_id"],"bidder":l["bidder"]}),
                _ => l["bidder"].clone(),
            };
            for x in a {
                seen.push(match which {
                    0 | 1 => Ask::parse(x).map(|a| a.s()).unwrap_or_default(),
                    2 => x.as_str().map(short).unwrap_or_default(),
                    _ => Bid::parse(x).map(|a| a.s()).unwrap_or_default(),
                });
            }
        }
        ctx.eval("L10", &format!("walk {name}"), if want.is_empty() { None } else { Some(fp(&(&want, lim))) });
        seen.sort();
        want.sort();
        if seen != want {
            ctx.div(&["L10"], &format!("walk:{name}"), format!("paging {name} of {} by {lim}: visited {seen:?}, open {want:?}", short(&coll)));
        }
    }
}

impl Engine for V1 {
    fn step(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        if self.plan.is_empty() && self.rng.p(4) {
            self.new_plan();
        }
        if !self.plan.is_empty() && self.rng.p(86) {
            let p = self.plan.pop_front().unwrap();
            self.play(p, ctx);
            return;
        }
        if self.rng.p(45) {
            self.advance();
        }
        if self.rng.p(if self.profile == 4 { 22 } else { 12 }) {
            self.external(ctx);
            return;
        }
        if self.rng.p(if ctx.prop.as_deref() == Some("X01") { 8 } else { 1 }) {
            self.migrate(ctx);
        }
        if self.bulk && (ctx.wants("L10") || ctx.wants("X05")) && self.rng.p(85) {
            self.queries(ctx);
            return;
        }
        let a = match self.last.clone().filter(|_| self.rng.p(4)) {
            // the same message over again, by the same sender or by someone else
            Some(mut a) => {
                self.fresh(&mut a);
                if let (A::Tx(t), true) = (&mut a, self.rng.p(30)) {
                    let u = user(self.rng.below(NU));
                    if t.bidder == t.sender && matches!(t.k, SetBid | BuyNow | BuyFor | SetCb) {
                        t.bidder = u.clone();
                    }
                    t.sender = u;
                }
                a
            }
            None => self.gen(),
        };
        self.do_act(&a, ctx);
        self.last = Some(a);
        let qp = if ctx.prop.as_deref() == Some("L10") { 70 } else { 10 };
        if (ctx.prop.is_none() || ctx.wants("L10") || ctx.wants("X05")) && self.rng.p(qp) {
            self.queries(ctx);
        }
    }
    fn finish(&mut self, ctx: &mut Ctx) {
        let mut todo: Vec<Tx> = vec![];
        let mk = |k, sender: &String, coll: &String, token| Tx {
            k,
            sender: sender.clone(),
            coll: coll.clone(),
            token,
            bidder: sender.clone(),
            denom: NATIVE.into(),
            amt: 0,
            fixed: true,
            rcpt: None,
            reserve: None,
            finder: None,
            ffee: None,
            exp: 0,
            funds: vec![],
        };
        todo.extend(self.s.bids.values().map(|b| mk(RemoveBid, &b.bidder, &b.coll, b.token)));
        todo.extend(self.s.cbids.values().map(|b| mk(RemoveCb, &b.bidder, &b.coll, 0)));
        for i in (1..todo.len()).rev() {
            let j = self.rng.below(i + 1);
            todo.swap(i, j);
        }
        for t in todo {
            self.do_act(&A::Tx(t), ctx);
        }
        let left: u128 = self.s.bank.iter().filter(|((w, _), _)| *w == self.m).map(|(_, n)| *n).sum();
        ctx.eval("L05", "drained", Some(fp(&ctx.log.len())));
        if left != 0 || !self.s.bids.is_empty() || !self.s.cbids.is_empty() {
            ctx.div(&["L05", "L01"], "drain", format!("after every bidder withdrew, the contract still holds {left}"));
        }
        let _ = self.dead;
    }
}
