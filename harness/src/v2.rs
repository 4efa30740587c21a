//! Order-book marketplace engine: workload generator, reference model (oracle) and monitors.
use crate::chain::*;
use crate::common::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Order {
    id: String,
    creator: String,
    coll: String,
    token: Option<String>,
    denom: String,
    amt: u128,
    rcpt: Option<String>,
    finder: Option<String>,
}
impl Order {
    fn asset_to(&self) -> String {
        self.rcpt.clone().unwrap_or(self.creator.clone())
    }
    fn same_terms(&self, o: &Order) -> bool {
        let mut a = self.clone();
        a.id = o.id.clone();
        a == *o
    }
    fn s(&self) -> String {
        format!(
            "{}..{}/{} {}{}{}{}",
            self.id.get(..6).unwrap_or("new"),
            short(&self.coll),
            self.token.as_deref().unwrap_or("*"),
            self.amt,
            self.denom,
            self.rcpt.as_ref().map(|r| format!(" rcpt={}", short(r))).unwrap_or_default(),
            self.finder.as_ref().map(|r| format!(" finder={}", short(r))).unwrap_or_default()
        ) + &format!(" by {}", short(&self.creator))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Cfg {
    fee_manager: String,
    registry: String,
    protocol: u64,
    max_royalty: u64,
    maker: u64,
    taker: u64,
    denom: String,
}
impl Cfg {
    fn json(&self) -> Value {
        json!({"fee_manager":self.fee_manager,"royalty_registry":self.registry,"protocol_fee_bps":self.protocol,
            "max_royalty_fee_bps":self.max_royalty,"maker_reward_bps":self.maker,"taker_reward_bps":self.taker,"default_denom":self.denom})
    }
    fn parse(v: &Value) -> Option<Cfg> {
        Some(Cfg {
            fee_manager: v["fee_manager"].as_str()?.into(),
            registry: v["royalty_registry"].as_str()?.into(),
            protocol: v["protocol_fee_bps"].as_u64()?,
            max_royalty: v["max_royalty_fee_bps"].as_u64()?,
            maker: v["maker_reward_bps"].as_u64()?,
            taker: v["taker_reward_bps"].as_u64()?,
            denom: v["default_denom"].as_str()?.into(),
        })
    }
    fn valid(&self) -> bool {
        valid_addr(&self.fee_manager) && valid_addr(&self.registry) && self.protocol < 10_000 && self.maker.checked_add(self.taker).map_or(false, |x| x < 10_000)
    }
}

type Book = BTreeMap<String, Order>;
#[derive(Clone, Debug)]
struct S {
    asks: Book,
    bids: Book,
    cbids: Book,
    bank: Bank,
    owners: BTreeMap<(String, String), String>,
    reg: RegistryState,
    cfg: Cfg,
    denoms: BTreeMap<String, String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum K {
    SetAsk,
    Sell,
    UpdAsk,
    RemAsk,
    AccAsk,
    SetBid,
    Buy,
    UpdBid,
    RemBid,
    AccBid,
    SetCb,
    BuyColl,
    UpdCb,
    RemCb,
    AccCb,
    Config,
    CollDenom,
    SetFee,
    RemFee,
}
use K::*;

#[derive(Clone, Debug)]
struct Act {
    k: K,
    sender: String,
    id: String,
    coll: String,
    token: String,
    denom: String,
    amt: u128,
    rcpt: Option<String>,
    finder: Option<String>,
    funds: Vec<Coin>,
    cfg: Option<Cfg>,
}
impl Act {
    fn details(&self) -> Value {
        json!({"price":{"denom":self.denom,"amount":self.amt.to_string()},"recipient":self.rcpt,"finder":self.finder})
    }
    fn msg(&self) -> Value {
        let d = self.details();
        let price = json!({"denom":self.denom,"amount":self.amt.to_string()});
        match self.k {
            SetAsk => json!({"set_ask":{"collection":self.coll,"token_id":self.token,"details":d}}),
            Sell => json!({"sell_nft":{"collection":self.coll,"token_id":self.token,"details":d}}),
            UpdAsk => json!({"update_ask":{"id":self.id,"details":d}}),
            RemAsk => json!({"remove_ask":{"id":self.id}}),
            AccAsk => json!({"accept_ask":{"id":self.id,"details":d}}),
            SetBid => json!({"set_bid":{"collection":self.coll,"token_id":self.token,"details":d}}),
            Buy => json!({"buy_specific_nft":{"collection":self.coll,"token_id":self.token,"details":d}}),
            UpdBid => json!({"update_bid":{"id":self.id,"details":d}}),
            RemBid => json!({"remove_bid":{"id":self.id}}),
            AccBid => json!({"accept_bid":{"id":self.id,"details":d}}),
            SetCb => json!({"set_collection_bid":{"collection":self.coll,"details":d}}),
            BuyColl => json!({"buy_collection_nft":{"collection":self.coll,"details":d}}),
            UpdCb => json!({"update_collection_bid":{"id":self.id,"details":d}}),
            RemCb => json!({"remove_collection_bid":{"id":self.id}}),
            AccCb => json!({"accept_collection_bid":{"id":self.id,"token_id":self.token,"details":d}}),
            Config => json!({"update_config":{"config":self.cfg.as_ref().unwrap().json()}}),
            CollDenom => json!({"update_collection_denom":{"collection":self.coll,"denom":self.denom}}),
            SetFee => json!({"set_listing_fee":{"fee":price}}),
            RemFee => json!({"remove_listing_fee":{"denom":self.denom}}),
        }
    }
    fn s(&self) -> String {
        let f: Vec<String> = self.funds.iter().map(|c| c.to_string()).collect();
        let f = f.join(",");
        let who = short(&self.sender);
        let det = format!(
            "{}{}{}{}",
            self.amt,
            self.denom,
            self.rcpt.as_ref().map(|r| format!(" rcpt={}", short(r))).unwrap_or_default(),
            self.finder.as_ref().map(|r| format!(" finder={}", short(r))).unwrap_or_default()
        );
        match self.k {
            SetAsk | Sell | SetBid | Buy => format!("{who} {:?} {}/{} {det} funds[{f}]", self.k, short(&self.coll), self.token),
            SetCb | BuyColl | CollDenom => format!("{who} {:?} {} {det} funds[{f}]", self.k, short(&self.coll)),
            Config => format!("{who} Config {:?} funds[{f}]", self.cfg.as_ref().map(|c| (c.protocol, c.max_royalty, c.maker, c.taker, c.denom.clone()))),
            SetFee | RemFee => format!("{who} {:?} {}{} funds[{f}]", self.k, self.amt, self.denom),
            AccCb => format!("{who} AccCb {} token {} {det} funds[{f}]", self.id.get(..6).unwrap_or(""), self.token),
            RemAsk | RemBid | RemCb => format!("{who} {:?} {} funds[{f}]", self.k, self.id.get(..6).unwrap_or("")),
            _ => format!("{who} {:?} {} {det} funds[{f}]", self.k, self.id.get(..6).unwrap_or("")),
        }
    }
}

#[derive(Clone, Debug)]
struct Sale {
    price: u128,
    payer: Option<String>,
    seller_to: String,
    fee_parties: BTreeSet<String>,
    royalty_to: Option<String>,
    royalty_src: &'static str,
    maker: bool,
    taker: bool,
    ask_first: bool,
    tie: bool,
    token: (String, String),
    denom: String,
    nft_to: String,
    ids: (String, char, String),
    parts: BTreeMap<&'static str, u128>,
}

#[derive(Clone, Debug)]
struct Post {
    s: S,
    sale: Option<Sale>,
    new_order: Option<(char, Order)>, // 'a','b','c'
}

enum Exp {
    Reject(Vec<Tag>),
    Accept(Vec<Post>, Vec<Tag>),
}

/// long names that differ at the very end, and one the other's beginning
const LONG: [&str; 2] = ["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa12"];

pub struct V2 {
    c: Chain,
    rng: Rng,
    profile: usize,
    m: String,
    users: Vec<String>,
    colls: Vec<String>,
    tokens: Vec<String>,
    denoms: Vec<String>,
    fees: BTreeMap<String, u128>,
    old_fees: BTreeMap<String, u128>,
    ever: BTreeSet<String>,
    burst: usize,
    s: S,
    dead: bool,
    bulk: bool,
    /// what the environment just changed: the next actions rather go there
    focus: Option<(String, String, u32)>,
    last: Option<Act>,
    aim: Option<(String, String)>,
    /// the rest of the scenario being played, and the orders it has seen: (kind, creator) to id
    plan: VecDeque<P>,
    named: BTreeMap<(char, String), String>,
}
/// one move of a scenario
#[derive(Clone, Debug)]
enum P {
    /// the action with the order it names left open: that of the given user
    Do(Act, String),
    Move(String, String, String),
    Royalty(String, Option<(String, String)>),
    Default(String, Option<(String, String)>),
    Tick(u64),
}

pub const PROPS: [Tag; 18] = ["X06", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "M10", "M11", "M12", "M13", "M14", "X01", "X02", "X05"];

fn parse_order(v: &Value) -> Option<Order> {
    let d = &v["details"];
    Some(Order {
        id: v["id"].as_str()?.into(),
        creator: v["creator"].as_str()?.into(),
        coll: v["collection"].as_str()?.into(),
        token: v.get("token_id").and_then(|t| t.as_str()).map(|s| s.to_string()),
        denom: d["price"]["denom"].as_str()?.into(),
        amt: d["price"]["amount"].as_str()?.parse().ok()?,
        rcpt: d["recipient"].as_str().map(|s| s.to_string()),
        finder: d["finder"].as_str().map(|s| s.to_string()),
    })
}

const NU: usize = 7; // trading users; user 7 fee manager, 8,9 royalty recipients

impl V2 {
    pub fn new(seed: u64, idx: u64, ctx: &mut Ctx) -> Self {
        let mut rng = Rng::new(seed, idx, 0xB2);
        let profile = (idx % 5) as usize;
        let c = Chain::new(epoch(idx) * 1_000_000_000 + (rng.next() % 1_000_000_000));
        c.real_nft.set(real_nft(idx));
        let m = contract("market");
        let reg = contract("registry");
        c.add(&reg, Kind::Registry);
        c.add(&contract("registry2"), Kind::Registry);
        let users: Vec<String> = (0..10).map(user).collect();
        let ncoll = if profile == 1 { 2 } else { 3 };
        let colls: Vec<String> = (0..ncoll).map(|i| contract(["alpha", "beta", "gamma"][i])).collect();
        let names = rng.pickc(&[["1", "2", "10"], ["0", "00", "01"], ["x", "x/1", "x/"], ["1", "2", "10"], ["1", "11", "111"], ["a", "A", " a"], ["\u{e9}", "e", "\u{1f600}"], [LONG[0], LONG[1], "-1"]]);
        let tokens: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        let denoms: Vec<String> = if profile == 1 {
            vec![NATIVE.into(), "uatom".into()]
        } else if profile == 3 {
            vec![NATIVE.into(), "uatom".into(), "uatomx".into()]
        } else {
            vec![NATIVE.into(), "uatom".into(), "ibc/C4CFF46FD6DE35CA4CF4CE031E643C8FDC9BA4B99AE598E9B0ED98FE3A2319F9".into()]
        };
        for u in &users {
            for d in &denoms {
                c.mint(u, d, 2_000_000_000_000_000_000_000_000_000_000_000); // 2e33
            }
        }
        for (i, a) in colls.iter().enumerate() {
            c.add(a, Kind::Nft);
            let mut n = NftState { creator: users[8].clone(), ..Default::default() };
            let share = ["0.05", "0", "0.1", "0.000000000000000001", "1", "0.333333333333333333"][rng.below(6)];
            n.info = match i {
                0 => Some(CollInfo { start: None, royalty: Some((users[8].clone(), share.into())) }),
                1 => Some(CollInfo { start: Some(c.time.get() - 5), royalty: None }),
                _ => None,
            };
            for t in &tokens {
                n.owners.insert(t.clone(), users[rng.below(NU)].clone());
            }
            for u in users.iter().take(NU) {
                if rng.p(92) {
                    n.operators.insert((u.clone(), m.clone()));
                }
            }
            c.w.borrow_mut().nfts.insert(a.clone(), n);
        }
        let mut cfg = Cfg {
            fee_manager: users[7].clone(),
            registry: reg.clone(),
            protocol: if rng.p(50) { 200 } else { Self::gen_bps(&mut rng) },
            max_royalty: if rng.p(50) { 500 } else { rng.pickc(&[0, 1, 1000, 9999, 10_000, 20_000]) },
            maker: rng.pickc(&[0, 4000, 4000, 5000, 1, 9998]),
            taker: rng.pickc(&[0, 1000, 1000, 4999, 1]),
            denom: denoms[0].clone(),
        };
        cfg.taker = cfg.taker.min(9_999 - cfg.maker);
        c.instantiate(&m, Kind::V2, &users[0], &json!({"config":cfg.json()})).map_err(|e| ctx.div(&["M10", "M14"], "instantiate", e)).ok();
        c.w.borrow_mut().admins.insert(m.clone(), Some(users[0].clone()));
        let s = S {
            asks: Book::new(),
            bids: Book::new(),
            cbids: Book::new(),
            bank: Bank::new(),
            owners: BTreeMap::new(),
            reg: RegistryState::default(),
            cfg,
            denoms: BTreeMap::new(),
        };
        let mut e = V2 { c, rng, profile, m, users, colls, tokens, denoms, fees: BTreeMap::new(), old_fees: BTreeMap::new(), ever: BTreeSet::new(), burst: match idx { 9 => 6_000, 3001 => 70_000, i if i % 32 == 9 => 300, _ => 0 }, s, dead: false, bulk: bulk(idx).is_some(), focus: None, last: None, aim: None, plan: VecDeque::new(), named: BTreeMap::new() };
        // listing fee so that listings are possible
        let d = e.denoms[0].clone();
        let fee = e.rng.pickc(&[1u128, 10, 500]);
        match e.c.tx(&e.m, &e.users[0], &json!({"set_listing_fee":{"fee":{"denom":d,"amount":fee.to_string()}}}), &[]) {
            Ok(_) => {
                e.fees.insert(d, fee);
            }
            Err(er) => ctx.div(&["M07", "M10", "M14"], "admin set fee", er),
        }
        // instantiation with an invalid configuration must fail
        if e.rng.p(30) {
            let mut bad = e.s.cfg.clone();
            if e.rng.p(50) {
                bad.protocol = e.rng.pickc(&[10_000, 10_001, u64::MAX]);
            } else {
                bad.maker = 5000;
                bad.taker = e.rng.pickc(&[5000, 5001, u64::MAX]);
            }
            let r = e.c.instantiate(&contract("bad"), Kind::V2, &e.users[0], &json!({"config":bad.json()}));
            ctx.eval("M10", "bad-instantiate", Some(fp(&(bad.protocol, bad.maker, bad.taker))));
            ctx.eval("M14", "bad-instantiate", Some(fp(&(bad.protocol, bad.maker, bad.taker))));
            if r.is_ok() {
                ctx.div(&["M10", "M14"], "bad-instantiate", format!("invalid config accepted at instantiation: {bad:?}"));
            }
        }
        if e.bulk {
            e.fill();
        }
        let o = e.observe(&[], ctx);
        e.s = o;
        for b in [&e.s.bids, &e.s.cbids] {
            e.ever.extend(b.keys().cloned());
        }
        e
    }
    /// a very full book
    fn fill(&mut self) {
        let d = self.s.cfg.denom.clone();
        let (ca, cb) = (self.colls[0].clone(), self.colls[1].clone());
        {
            let mut w = self.c.w.borrow_mut();
            for i in 0..125 {
                self.tokens.push(format!("{}", 100 + i * 7));
                let t = self.tokens.last().unwrap().clone();
                let o = user(self.rng.below(2));
                let n = w.nfts.get_mut(&ca).unwrap();
                n.owners.insert(t.clone(), o.clone());
                n.operators.insert((o, self.m.clone()));
                w.nfts.get_mut(&cb).unwrap().owners.insert(t, user(2));
            }
        }
        let (fd, fa) = self.fees.iter().next().map(|(d, n)| (d.clone(), *n)).unwrap();
        for t in self.tokens.clone().iter().skip(3) {
            let o = self.c.w.borrow().nfts[&ca].owners[t].clone();
            let p = 5000 + self.rng.below(40);
            let m = json!({"set_ask":{"collection":ca,"token_id":t,"details":{"price":{"denom":d,"amount":p.to_string()},"recipient":null,"finder":null}}});
            self.c.tx(&self.m, &o, &m, &[coin(fa, &fd)]).ok();
            let (p, q) = (100 + self.rng.below(40), 100 + self.rng.below(40));
            let u = user(self.rng.below(2) + 3);
            let m = json!({"set_collection_bid":{"collection":ca,"details":{"price":{"denom":d,"amount":p.to_string()},"recipient":null,"finder":null}}});
            self.c.tx(&self.m, &u, &m, &[coin(p as u128, &d)]).ok();
            let m = json!({"set_bid":{"collection":cb,"token_id":self.tokens[1],"details":{"price":{"denom":d,"amount":q.to_string()},"recipient":null,"finder":null}}});
            self.c.tx(&self.m, &u, &m, &[coin(q as u128, &d)]).ok();
        }
    }

    fn gen_bps(r: &mut Rng) -> u64 {
        r.pickc(&[0, 1, 50, 100, 200, 250, 1000, 3333, 5000, 9999])
    }

    // ------------------------------------------------------------ observation
    fn q(&self, ctx: &mut Ctx, v: Value) -> Value {
        match self.c.query(&self.m, &v) {
            Ok(x) => {
                crate::schema::judge(ctx, "v2", &v, &x);
                x
            }
            Err(e) => {
                ctx.div(&["M11"], "query-error", format!("query {v} failed: {e}"));
                Value::Null
            }
        }
    }

    fn observe(&self, hints: &[String], ctx: &mut Ctx) -> S {
        let mut ids: [BTreeSet<String>; 3] = [
            self.s.asks.keys().cloned().collect(),
            self.s.bids.keys().cloned().collect(),
            self.s.cbids.keys().cloned().collect(),
        ];
        for h in hints {
            for s in ids.iter_mut() {
                s.insert(h.clone());
            }
        }
        let mut listed: [BTreeSet<String>; 3] = Default::default();
        let add = |set: &mut BTreeSet<String>, v: &Value| {
            if let Some(a) = v.as_array() {
                for o in a {
                    if let Some(id) = o["id"].as_str() {
                        set.insert(id.to_string());
                    }
                }
            }
        };
        let all = |set: &mut BTreeSet<String>, ctx: &mut Ctx, mk: &dyn Fn(Value) -> Value| {
            let mut cur = Value::Null;
            for _ in 0..20 {
                let v = self.q(ctx, mk(json!({"limit":100,"min":cur})));
                add(set, &v);
                match v.as_array() {
                    Some(a) if a.len() >= 25 => {
                        let l = a.last().unwrap();
                        cur = json!({"exclusive":{"id":l["id"],"amount":l["details"]["price"]["amount"]}});
                    }
                    _ => break,
                }
            }
        };
        for c in &self.colls {
            for d in &self.denoms {
                all(&mut listed[0], ctx, &|o| json!({"asks_by_collection_denom":{"collection":c,"denom":d,"query_options":o}}));
                all(&mut listed[2], ctx, &|o| json!({"collection_bids_by_price":{"collection":c,"denom":d,"query_options":o}}));
                for t in self.tokens.iter().map(|s| s.as_str()).chain(["99"]) {
                    all(&mut listed[1], ctx, &|o| json!({"bids_by_token_price":{"collection":c,"token_id":t,"denom":d,"query_options":o}}));
                }
            }
        }
        for i in 0..3 {
            ids[i].extend(listed[i].iter().cloned());
        }
        let mut books: [Book; 3] = Default::default();
        for (i, name) in ["ask", "bid", "collection_bid"].iter().enumerate() {
            for id in &ids[i] {
                let v = self.q(ctx, json!({*name: id}));
                if v.is_null() {
                    if listed[i].contains(id) {
                        ctx.div(&["M11"], "listed-but-gone", format!("{name} {id} is listed but cannot be fetched by id"));
                    }
                    continue;
                }
                match parse_order(&v) {
                    Some(o) => {
                        if &o.id != id {
                            ctx.div(&["M11", "M08"], "wrong-id", format!("{name} query for {id} returned {}", o.id));
                        }
                        books[i].insert(id.clone(), o);
                    }
                    None => ctx.div(&["M11"], "bad-order-json", format!("unparseable order {v}")),
                }
            }
            // the book listings must show every open order
            let missing: Vec<_> = books[i].keys().filter(|k| !listed[i].contains(*k)).cloned().collect();
            if !missing.is_empty() {
                ctx.div(&["M11", "M05"], "open-but-unlisted", format!("{name} orders open but missing from listings: {missing:?}"));
            }
        }
        let [asks, bids, cbids] = books;
        let w = self.c.w.borrow();
        let mut owners = BTreeMap::new();
        for (c, n) in &w.nfts {
            for (t, o) in &n.owners {
                owners.insert((c.clone(), t.clone()), o.clone());
            }
        }
        let bank = w.bank.clone();
        let reg = w.registry.clone();
        drop(w);
        let cfg = Cfg::parse(&self.q(ctx, json!({"config":{}}))).unwrap_or_else(|| {
            ctx.div(&["M11"], "config", "unparseable config".into());
            self.s.cfg.clone()
        });
        let mut denoms = BTreeMap::new();
        for c in &self.colls {
            if let Some(d) = self.q(ctx, json!({"collection_denom":{"collection":c}})).as_str() {
                denoms.insert(c.clone(), d.to_string());
            }
        }
        S { asks, bids, cbids, bank, owners, reg, cfg, denoms }
    }

    // ------------------------------------------------------------ reference model
    fn coll_denom(&self, c: &str) -> String {
        self.s.denoms.get(c).cloned().unwrap_or(self.s.cfg.denom.clone())
    }
    fn tradable(&self, c: &str) -> bool {
        let w = self.c.w.borrow();
        match w.nfts.get(c).and_then(|n| n.info.as_ref()).and_then(|i| i.start) {
            Some(t) => t <= self.c.time.get(),
            None => true,
        }
    }
    fn ask_of(&self, c: &str, t: &str) -> Option<Order> {
        self.s.asks.values().find(|a| a.coll == c && a.token.as_deref() == Some(t)).cloned()
    }
    fn best_bids(&self, ask: &Order) -> (Vec<(char, Order)>, bool) {
        let tb: Vec<&Order> =
            self.s.bids.values().filter(|b| b.coll == ask.coll && b.token == ask.token && b.denom == ask.denom && b.amt >= ask.amt).collect();
        let cb: Vec<&Order> = self.s.cbids.values().filter(|b| b.coll == ask.coll && b.denom == ask.denom && b.amt >= ask.amt).collect();
        let mt = tb.iter().map(|b| b.amt).max();
        let mc = cb.iter().map(|b| b.amt).max();
        let r: Vec<(char, Order)> = match (mt, mc) {
            (None, None) => vec![],
            (t, c) if t >= c => tb.iter().filter(|b| Some(b.amt) == t).map(|b| ('b', (*b).clone())).collect(),
            (_, c) => cb.iter().filter(|b| Some(b.amt) == c).map(|b| ('c', (*b).clone())).collect(),
        };
        let tie = r.len() > 1 || (mt.is_some() && mt == mc);
        (r, tie)
    }
    fn cheapest_asks(&self, cb: &Order) -> Vec<Order> {
        let v: Vec<&Order> = self.s.asks.values().filter(|a| a.coll == cb.coll && a.denom == cb.denom && a.amt <= cb.amt).collect();
        let m = v.iter().map(|a| a.amt).min();
        v.into_iter().filter(|a| Some(a.amt) == m).cloned().collect()
    }
    /// Applies the sale of `ask` to `bid` ('b'/'c') on `p`. Err: tags of the rule that forbids it.
    fn sale(&self, p: &mut Post, ask: &Order, kind: char, bid: &Order, ask_first: bool, payer: Option<String>, tie: bool) -> Result<(), Vec<Tag>> {
        let cfg = &self.s.cfg;
        let (price, denom, maker, taker) = if ask_first {
            (ask.amt, ask.denom.clone(), &ask.finder, &bid.finder)
        } else {
            (bid.amt, bid.denom.clone(), &bid.finder, &ask.finder)
        };
        let bp = 100_000_000_000_000u128; // 1e14 = one basis point
        let mut pf = cfg.protocol as u128 * bp;
        let mut fees: Vec<(&'static str, String, u128)> = vec![];
        let mut parties = BTreeSet::new();
        if pf > 0 {
            for (l, f, bps) in [("maker", maker, cfg.maker), ("taker", taker, cfg.taker)] {
                if let Some(f) = f {
                    if bps > 0 {
                        let r = cfg.protocol as u128 * bps as u128 * (bp / 10_000);
                        pf -= r;
                        fees.push((l, f.clone(), r));
                    }
                }
            }
            fees.push(("protocol", cfg.fee_manager.clone(), pf));
        }
        // royalty
        let token = ask.token.clone().unwrap();
        let w = self.c.w.borrow();
        let mut src = "none";
        let mut royalty = None;
        let rk = reg_key(&cfg.registry, &ask.coll);
        let key = (rk.clone(), self.m.clone());
        let mut register = None;
        if let Some(e) = w.registry.protocol.get(&key) {
            src = "protocol";
            royalty = Some(e.clone());
        } else if let Some(e) = w.registry.default.get(&rk) {
            src = "default";
            royalty = Some(e.clone());
        } else if let Some(e) = w.nfts.get(&ask.coll).and_then(|n| n.info.as_ref()).and_then(|i| i.royalty.clone()) {
            src = "collection";
            register = Some(e.clone());
            royalty = Some(e);
        }
        drop(w);
        let mut royalty_to = None;
        if let Some((to, share)) = &royalty {
            let sh = atomics(share).min(cfg.max_royalty as u128 * bp);
            if sh > 0 {
                fees.push(("royalty", to.clone(), sh));
                royalty_to = Some(to.clone());
            }
        }
        let mut rest = price;
        let mut pays = vec![];
        let mut parts = BTreeMap::new();
        for (l, to, sh) in &fees {
            if *sh == 0 {
                continue;
            }
            let n = mul_ceil(price, *sh).ok_or(vec!["M03"])?;
            rest = rest.checked_sub(n).ok_or(vec!["M03"])?;
            pays.push((to.clone(), n));
            parts.insert(*l, n);
            parties.insert(to.clone());
        }
        let seller_to = ask.asset_to();
        pays.push((seller_to.clone(), rest));
        parts.insert("seller", rest);
        parts.retain(|_, n| *n > 0);
        if !debit(&mut p.s.bank, &self.m, &denom, price) {
            return Err(vec!["M01"]);
        }
        for (to, n) in pays {
            credit(&mut p.s.bank, &to, &denom, n);
        }
        if !self.c.can_transfer(&ask.coll, &token, &self.m) {
            return Err(vec!["M02"]);
        }
        p.s.owners.insert((ask.coll.clone(), token), bid.asset_to());
        if let Some(e) = register {
            p.s.reg.default.insert(rk, e);
        }
        p.s.asks.retain(|_, a| !(a.coll == ask.coll && a.token == ask.token));
        if kind == 'b' {
            p.s.bids.remove(&bid.id);
        } else {
            p.s.cbids.remove(&bid.id);
        }
        p.sale = Some(Sale {
            price,
            payer,
            seller_to,
            fee_parties: parties,
            royalty_to,
            royalty_src: src,
            maker: maker.is_some(),
            taker: taker.is_some(),
            ask_first,
            tie,
            token: (ask.coll.clone(), ask.token.clone().unwrap()),
            denom,
            nft_to: bid.asset_to(),
            ids: (ask.id.clone(), kind, bid.id.clone()),
            parts,
        });
        Ok(())
    }

    fn expect(&self, a: &Act) -> Exp {
        let s = &self.s;
        let mut bad: Vec<Tag> = vec![];
        let mut base = Post { s: s.clone(), sale: None, new_order: None };
        for c in &a.funds {
            if !debit(&mut base.s.bank, &a.sender, &c.denom, c.amount.u128()) {
                return Exp::Reject(vec![]);
            }
            credit(&mut base.s.bank, &self.m, &c.denom, c.amount.u128());
        }
        let nonpayable = |bad: &mut Vec<Tag>| {
            if !a.funds.is_empty() {
                bad.push("M01");
            }
        };
        if [&a.rcpt, &a.finder].into_iter().flatten().any(|x| !valid_addr(x)) && !matches!(a.k, RemAsk | RemBid | RemCb | Config | CollDenom | SetFee | RemFee) {
            // where it would be kept with the order
            return Exp::Reject(if matches!(a.k, SetAsk | UpdAsk | SetBid | UpdBid | SetCb | UpdCb) { vec!["M10"] } else { vec![] });
        }
        // admission of price/denom
        let price_ok = |coll: &str, bad: &mut Vec<Tag>| {
            if a.amt == 0 || a.denom != self.coll_denom(coll) {
                bad.push("M10");
            }
        };
        let order = |creator: &str, coll: &str, token: Option<String>, id: &str| Order {
            id: id.to_string(),
            creator: creator.to_string(),
            coll: coll.to_string(),
            token,
            denom: a.denom.clone(),
            amt: a.amt,
            rcpt: a.rcpt.clone(),
            finder: a.finder.clone(),
        };
        // charge `cost` from wallet = attached funds + held; refund the rest to the sender
        let charge = |p: &mut Post, held: Option<(&str, u128)>, denom: &str, cost: u128| -> Result<(), Vec<Tag>> {
            let mut wallet: BTreeMap<String, u128> = BTreeMap::new();
            for c in &a.funds {
                *wallet.entry(c.denom.clone()).or_default() += c.amount.u128();
            }
            if let Some((d, n)) = held {
                *wallet.entry(d.to_string()).or_default() += n;
            }
            let e = wallet.entry(denom.to_string()).or_default();
            *e = e.checked_sub(cost).ok_or(vec!["M04" as Tag])?;
            for (d, n) in wallet {
                if n > 0 {
                    if !debit(&mut p.s.bank, &self.m, &d, n) {
                        return Err(vec!["M01"]);
                    }
                    credit(&mut p.s.bank, &a.sender, &d, n);
                }
            }
            Ok(())
        };
        let mut posts: Vec<Post> = vec![];
        let mut sale_errs: Vec<Tag> = vec![];
        let mut acc: Vec<Tag> = vec![];
        match a.k {
            SetAsk | Sell => {
                if s.owners.get(&(a.coll.clone(), a.token.clone())) != Some(&a.sender) {
                    bad.push("M07");
                }
                if !self.tradable(&a.coll) {
                    bad.push("M10");
                }
                price_ok(&a.coll, &mut bad);
                let fee_ok = a.funds.len() == 1 && self.fees.get(&a.funds[0].denom).map_or(false, |f| *f == a.funds[0].amount.u128());
                if !fee_ok {
                    bad.push("M10");
                    if a.funds.len() == 1 && self.old_fees.contains_key(&a.funds[0].denom) {
                        bad.push("M14");
                    }
                    if !a.funds.is_empty() {
                        bad.push("M01");
                    }
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                debit(&mut base.s.bank, &self.m, &a.funds[0].denom, a.funds[0].amount.u128());
                credit(&mut base.s.bank, &s.cfg.fee_manager, &a.funds[0].denom, a.funds[0].amount.u128());
                let ask = order(&a.sender, &a.coll, Some(a.token.clone()), "");
                let (m, tie) = self.best_bids(&ask);
                if m.is_empty() {
                    if a.k == Sell {
                        return Exp::Reject(vec!["M06"]);
                    }
                    if !self.c.can_transfer(&a.coll, &a.token, &self.m) {
                        return Exp::Reject(vec!["M02"]);
                    }
                    base.s.owners.insert((a.coll.clone(), a.token.clone()), self.m.clone());
                    base.new_order = Some(('a', ask));
                    posts.push(base);
                    acc = vec!["M10", "M08", "M05"];
                    if self.old_fees.contains_key(&a.funds[0].denom) {
                        acc.push("M14");
                    }
                } else {
                    for (k, b) in m {
                        let mut p = base.clone();
                        match self.sale(&mut p, &ask, k, &b, false, None, tie) {
                            Ok(()) => posts.push(p),
                            Err(t) => sale_errs.extend(t),
                        }
                    }
                    acc = vec!["M05", "M03", "M12", "M10"];
                    if a.k == Sell {
                        acc.push("M06");
                    }
                }
            }
            UpdAsk => {
                nonpayable(&mut bad);
                let Some(old) = s.asks.get(&a.id).cloned() else { return Exp::Reject(vec!["M08", "X02"]) };
                if old.creator != a.sender {
                    bad.push("M07");
                }
                price_ok(&old.coll, &mut bad);
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                let ask = order(&old.creator, &old.coll, old.token.clone(), &old.id);
                let (m, tie) = self.best_bids(&ask);
                if m.is_empty() {
                    base.s.asks.insert(ask.id.clone(), ask);
                    posts.push(base);
                    acc = vec!["M07", "M08", "M10"];
                } else {
                    for (k, b) in m {
                        let mut p = base.clone();
                        match self.sale(&mut p, &ask, k, &b, false, None, tie) {
                            Ok(()) => posts.push(p),
                            Err(t) => sale_errs.extend(t),
                        }
                    }
                    acc = vec!["M05", "M03", "M12", "M07"];
                }
            }
            RemAsk => {
                nonpayable(&mut bad);
                let Some(old) = s.asks.get(&a.id).cloned() else { return Exp::Reject(vec!["M08", "X02"]) };
                if old.creator != a.sender {
                    bad.push("M07");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                let t = old.token.clone().unwrap();
                if !self.c.can_transfer(&old.coll, &t, &self.m) {
                    return Exp::Reject(vec!["M02"]);
                }
                base.s.asks.remove(&a.id);
                base.s.owners.insert((old.coll.clone(), t), old.asset_to());
                posts.push(base);
                acc = vec!["M09", "M07"];
            }
            RemBid | RemCb => {
                nonpayable(&mut bad);
                let book = if a.k == RemBid { &s.bids } else { &s.cbids };
                let Some(old) = book.get(&a.id).cloned() else { return Exp::Reject(vec!["M08", "X02"]) };
                if old.creator != a.sender {
                    bad.push("M07");
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if !debit(&mut base.s.bank, &self.m, &old.denom, old.amt) {
                    return Exp::Reject(vec!["M01"]);
                }
                credit(&mut base.s.bank, &old.creator, &old.denom, old.amt);
                if a.k == RemBid {
                    base.s.bids.remove(&a.id);
                } else {
                    base.s.cbids.remove(&a.id);
                }
                posts.push(base);
                acc = vec!["M09", "M07"];
            }
            AccAsk => {
                let Some(ask) = s.asks.get(&a.id).cloned() else { return Exp::Reject(vec!["M06"]) };
                if a.denom != ask.denom || a.amt < ask.amt {
                    return Exp::Reject(vec!["M06"]);
                }
                let bid = order(&a.sender, &ask.coll, ask.token.clone(), "");
                let mut p = base;
                if let Err(t) = charge(&mut p, None, &ask.denom, ask.amt) {
                    return Exp::Reject(t);
                }
                match self.sale(&mut p, &ask, 'b', &bid, true, Some(a.sender.clone()), false) {
                    Ok(()) => posts.push(p),
                    Err(t) => sale_errs.extend(t),
                }
                acc = vec!["M06", "M03", "M12", "M04"];
            }
            SetBid | Buy | UpdBid => {
                let (bid, held) = if a.k == UpdBid {
                    let Some(old) = s.bids.get(&a.id).cloned() else { return Exp::Reject(vec!["M08", "X02"]) };
                    if old.creator != a.sender {
                        bad.push("M07");
                    }
                    (order(&old.creator, &old.coll, old.token.clone(), &old.id), Some(old))
                } else {
                    if !self.tradable(&a.coll) {
                        bad.push("M10");
                    }
                    (order(&a.sender, &a.coll, Some(a.token.clone()), ""), None)
                };
                price_ok(&bid.coll, &mut bad);
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                let held_c = held.as_ref().map(|o| (o.denom.as_str(), o.amt));
                let m = self.ask_of(&bid.coll, bid.token.as_deref().unwrap()).filter(|k| k.denom == bid.denom && k.amt <= bid.amt);
                let mut p = base;
                if let Some(ask) = m {
                    if let Err(t) = charge(&mut p, held_c, &ask.denom, ask.amt) {
                        return Exp::Reject(t);
                    }
                    match self.sale(&mut p, &ask, 'b', &bid, true, Some(a.sender.clone()), false) {
                        Ok(()) => posts.push(p),
                        Err(t) => sale_errs.extend(t),
                    }
                    acc = vec!["M05", "M03", "M12", "M04"];
                    if a.k == Buy {
                        acc.push("M06");
                    }
                } else {
                    if a.k == Buy {
                        return Exp::Reject(vec!["M06"]);
                    }
                    if let Err(t) = charge(&mut p, held_c, &bid.denom, bid.amt) {
                        return Exp::Reject(t);
                    }
                    if a.k == UpdBid {
                        p.s.bids.insert(bid.id.clone(), bid);
                    } else {
                        p.new_order = Some(('b', bid));
                    }
                    posts.push(p);
                    acc = vec!["M10", "M08", "M04", "M05"];
                }
                if a.k == UpdBid {
                    acc.push("M07");
                }
            }
            SetCb | BuyColl | UpdCb => {
                let (bid, held) = if a.k == UpdCb {
                    let Some(old) = s.cbids.get(&a.id).cloned() else { return Exp::Reject(vec!["M08", "X02"]) };
                    if old.creator != a.sender {
                        bad.push("M07");
                    }
                    (order(&old.creator, &old.coll, None, &old.id), Some(old))
                } else {
                    if !self.tradable(&a.coll) {
                        bad.push("M10");
                    }
                    (order(&a.sender, &a.coll, None, ""), None)
                };
                price_ok(&bid.coll, &mut bad);
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                let held_c = held.as_ref().map(|o| (o.denom.as_str(), o.amt));
                let m = self.cheapest_asks(&bid);
                if m.is_empty() {
                    if a.k == BuyColl {
                        return Exp::Reject(vec!["M06"]);
                    }
                    let mut p = base;
                    if let Err(t) = charge(&mut p, held_c, &bid.denom, bid.amt) {
                        return Exp::Reject(t);
                    }
                    if a.k == UpdCb {
                        p.s.cbids.insert(bid.id.clone(), bid);
                    } else {
                        p.new_order = Some(('c', bid));
                    }
                    posts.push(p);
                    acc = vec!["M10", "M08", "M04", "M05"];
                } else {
                    let tie = m.len() > 1;
                    for ask in m {
                        let mut p = base.clone();
                        if let Err(t) = charge(&mut p, held_c, &ask.denom, ask.amt) {
                            return Exp::Reject(t);
                        }
                        match self.sale(&mut p, &ask, 'c', &bid, true, Some(a.sender.clone()), tie) {
                            Ok(()) => posts.push(p),
                            Err(t) => sale_errs.extend(t),
                        }
                    }
                    acc = vec!["M05", "M03", "M12", "M04"];
                    if a.k == BuyColl {
                        acc.push("M06");
                    }
                }
                if a.k == UpdCb {
                    acc.push("M07");
                }
            }
            AccBid | AccCb => {
                nonpayable(&mut bad);
                let book = if a.k == AccBid { &s.bids } else { &s.cbids };
                let Some(bid) = book.get(&a.id).cloned() else { return Exp::Reject(vec!["M06"]) };
                if a.denom != bid.denom || bid.amt < a.amt {
                    bad.push("M06");
                }
                let token = if a.k == AccBid { bid.token.clone().unwrap() } else { a.token.clone() };
                let ask = match self.ask_of(&bid.coll, &token) {
                    Some(k) => {
                        if k.creator != a.sender {
                            bad.push("M07");
                        }
                        k
                    }
                    None => {
                        if s.owners.get(&(bid.coll.clone(), token.clone())) != Some(&a.sender) {
                            bad.push("M07");
                        }
                        order(&a.sender, &bid.coll, Some(token), "")
                    }
                };
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                let mut p = base;
                match self.sale(&mut p, &ask, if a.k == AccBid { 'b' } else { 'c' }, &bid, false, None, false) {
                    Ok(()) => posts.push(p),
                    Err(t) => sale_errs.extend(t),
                }
                acc = vec!["M06", "M03", "M12", "M07"];
            }
            Config | CollDenom | SetFee | RemFee => {
                nonpayable(&mut bad);
                let admin = self.c.w.borrow().admins.get(&self.m).cloned().flatten();
                if admin.as_ref() != Some(&a.sender) {
                    bad.extend(["M07", "M14"]);
                }
                if a.k == Config && !a.cfg.as_ref().unwrap().valid() {
                    bad.extend(["M10", "M14"]);
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                match a.k {
                    Config => base.s.cfg = a.cfg.clone().unwrap(),
                    CollDenom => {
                        base.s.denoms.insert(a.coll.clone(), a.denom.clone());
                    }
                    _ => {}
                }
                posts.push(base);
                acc = vec!["M07", "M10", "M14"];
            }
        }
        if posts.is_empty() {
            return Exp::Reject(sale_errs);
        }
        if !sale_errs.is_empty() {
            // some tied candidate cannot settle: either outcome is fine
            acc.clear();
        }
        Exp::Accept(posts, acc)
    }

    /// A great many bids in one block, on one token or its collection, by one user and with the same terms, most of
    /// them taken back at once: no identifier ever comes a second time.
    fn one_block(&mut self, ctx: &mut Ctx) {
        self.c.time.set(self.c.time.get() + 1_000_000_000_000_000_000);
        let (coll, token, u) = (self.colls[0].clone(), self.tokens[0].clone(), self.users[1].clone());
        let denom = self.coll_denom(&coll);
        credit(&mut self.c.w.borrow_mut().bank, &u, &denom, 10_000);
        let d = json!({"price":{"denom":denom,"amount":"7"},"recipient":null,"finder":null});
        let mut open: [BTreeSet<String>; 2] = Default::default();
        let mut ids: BTreeSet<String> = self.ever.clone();
        for i in 0..self.burst {
            let k = usize::from(i % 5 == 3);
            let msg = [json!({"set_bid":{"collection":coll,"token_id":token,"details":d}}), json!({"set_collection_bid":{"collection":coll,"details":d}})][k].clone();
            if let Err(e) = self.c.tx(&self.m, &u, &msg, &[coin(7, &denom)]) {
                ctx.div(&["M08", "M10"], "one-block", format!("bid number {i} within one block is refused: {e}"));
                return;
            }
            let name = ["bids_by_creator_collection", "collection_bids_by_creator_collection"][k];
            let v = self.q(ctx, json!({name:{"creator":u,"collection":coll,"query_options":null}}));
            let now: BTreeSet<String> = v.as_array().map_or(vec![], |a| a.iter().filter_map(|o| o["id"].as_str().map(|x| x.to_string())).collect()).into_iter().collect();
            let new: Vec<String> = now.difference(&open[k]).cloned().collect();
            ctx.eval("M08", "many bids in one block", if i < 40 { Some(fp(&(&new, i))) } else { None });
            if new.len() != 1 || now.len() != open[k].len() + 1 || !ids.insert(new[0].clone()) {
                ctx.div(&["M08"], "one-block", format!("bid number {i} within one block: {} bids of that user were open, now {}; new identifiers {new:?}, used before: {}", open[k].len(), now.len(), new.iter().any(|n| ids.contains(n))));
                return;
            }
            if i % 64 < 4 && open[k].len() < 6 {
                open[k] = now;
                continue;
            }
            let r = self.c.tx(&self.m, &u, &[json!({"remove_bid":{"id":new[0]}}), json!({"remove_collection_bid":{"id":new[0]}})][k], &[]);
            if let Err(e) = r {
                ctx.div(&["M08", "M09"], "one-block", format!("bid number {i} within one block cannot be removed: {e}"));
                return;
            }
        }
    }

    // ------------------------------------------------------------ judging
    fn compare(&self, a: &Act, p: &Post, got: &S) -> Vec<(Vec<Tag>, String)> {
        let mut out: Vec<(Vec<Tag>, String)> = vec![];
        let instant = matches!(a.k, Sell | Buy | BuyColl);
        let accept = matches!(a.k, AccAsk | AccBid | AccCb);
        let removal = matches!(a.k, RemAsk | RemBid | RemCb);
        let update = matches!(a.k, UpdAsk | UpdBid | UpdCb);
        let books = [('a', &p.s.asks, &got.asks, &self.s.asks), ('b', &p.s.bids, &got.bids, &self.s.bids), ('c', &p.s.cbids, &got.cbids, &self.s.cbids)];
        for (k, exp, obs, pre) in books {
            let mut extra: Vec<&Order> = vec![];
            for (id, o) in obs {
                match exp.get(id) {
                    Some(e) if e == o => {}
                    Some(e) => {
                        let involved = *id == a.id;
                        let mut t: Vec<Tag> = if involved { vec!["M08"] } else { vec!["X02", "M08"] };
                        if p.sale.is_some() {
                            t.push("M05");
                        }
                        out.push((t, format!("order changed: expected {} observed {}", e.s(), o.s())));
                    }
                    None => extra.push(o),
                }
            }
            for (id, e) in exp {
                if !obs.contains_key(id) {
                    let mut t: Vec<Tag> = vec!["X02", "M08"];
                    if *id == a.id {
                        t = vec!["M08"];
                    }
                    if !removal {
                        t.push("M05");
                    }
                    if accept || instant {
                        t.push("M06");
                    }
                    if update {
                        t.push("M08");
                    }
                    out.push((t, format!("order vanished: {}", e.s())));
                }
            }
            let want = p.new_order.as_ref().filter(|(c, _)| *c == k).map(|(_, o)| o);
            if let Some(w) = want {
                // an ask on the same token may legitimately reuse its identifier
                let fresh: Vec<&&Order> = extra.iter().filter(|o| !pre.contains_key(&o.id)).collect();
                if fresh.len() != 1 {
                    out.push((vec!["M08", "M05", "M10"], format!("expected one new order {}, observed {}", w.s(), fresh.len())));
                } else if !w.same_terms(fresh[0]) {
                    out.push((vec!["M08"], format!("stored order differs: expected {} observed {}", w.s(), fresh[0].s())));
                } else if k != 'a' && self.ever.contains(&fresh[0].id) {
                    out.push((vec!["M08"], format!("identifier reused: {}", fresh[0].id)));
                }
                extra.retain(|o| pre.contains_key(&o.id));
            }
            for o in extra {
                let mut t: Vec<Tag> = vec!["M05"];
                if removal {
                    t = vec!["M09", "M08"];
                }
                if accept || instant {
                    t.push("M06");
                }
                if pre.contains_key(&o.id) {
                    t.push("M01");
                }
                out.push((t, format!("order unexpectedly open: {}", o.s())));
            }
        }
        // bank
        for (who, d, e, g) in bank_diff(&p.s.bank, &got.bank) {
            let mut t: Vec<Tag> = vec![];
            if let Some(s) = &p.sale {
                if who == self.m {
                    t.extend(["M01", "M03", "M04"]);
                }
                if s.payer.as_ref() == Some(&who) {
                    t.push("M04");
                }
                if who == s.seller_to {
                    t.extend(["M03", "M04"]);
                    if s.royalty_src != "none" {
                        t.push("M12");
                    }
                }
                if s.fee_parties.contains(&who) || who == self.s.cfg.fee_manager {
                    t.push("M03");
                }
                if s.royalty_to.as_ref() == Some(&who) {
                    t.push("M12");
                }
                if t.is_empty() {
                    t.extend(["M03", "M04", "X02"]);
                    if self.users[8..].contains(&who) {
                        t.push("M12");
                    }
                }
            } else {
                if who == self.m {
                    t.push("M01");
                }
                if who == a.sender {
                    t.push(if removal { "M09" } else { "M04" });
                }
                if matches!(a.k, SetAsk) {
                    t.push("M10");
                }
                if t.is_empty() {
                    t.push("X02");
                    if removal {
                        t.push("M09");
                    } else {
                        t.push("M04");
                    }
                }
            }
            if self.s.bank.get(&(who.clone(), d.clone())).copied().unwrap_or(0) == e && !t.contains(&"X02") {
                t.push("X02");
            }
            out.push((t, format!("balance of {} in {}: expected {} observed {}", short(&who), d, e, g)));
        }
        // tokens
        for (k, e) in &p.s.owners {
            let g = got.owners.get(k);
            if g != Some(e) {
                let mut t: Vec<Tag> = vec!["M02"];
                if self.s.owners.get(k) == Some(e) {
                    t.push("X02");
                }
                if p.sale.is_some() || instant || accept {
                    t.push("M05");
                }
                if instant || accept {
                    t.push("M06");
                }
                if removal {
                    t.push("M09");
                }
                out.push((t, format!("owner of {}/{}: expected {} observed {:?}", short(&k.0), k.1, short(e), g.map(|x| short(x)))));
            }
        }
        if p.s.reg.default != got.reg.default || p.s.reg.protocol != got.reg.protocol {
            out.push((vec!["M12"], format!("royalty registry: expected {:?} observed {:?}", p.s.reg.default, got.reg.default)));
        }
        if p.s.cfg != got.cfg {
            let (e, g) = (&p.s.cfg, &got.cfg);
            let mut t: Vec<Tag> = vec!["M14", "M07", "X02"];
            if e.registry != g.registry || e.max_royalty != g.max_royalty {
                t.push("M12");
            }
            if e.fee_manager != g.fee_manager || e.protocol != g.protocol || e.maker != g.maker || e.taker != g.taker {
                t.push("M03");
            }
            if e.denom != g.denom || e.fee_manager != g.fee_manager || a.k == Config {
                t.push("M10");
            }
            out.push((t, format!("config: expected {e:?} observed {g:?}")));
        }
        if p.s.denoms != got.denoms {
            out.push((vec!["M14", "M10", "M07", "X02"], format!("collection denoms: expected {:?} observed {:?}", p.s.denoms, got.denoms)));
        }
        out
    }

    fn invariants(&self, s: &S, ctx: &mut Ctx, after: &str) {
        // escrow
        let mut owed: BTreeMap<&str, u128> = BTreeMap::new();
        for b in s.bids.values().chain(s.cbids.values()) {
            let e = owed.entry(&b.denom).or_default();
            *e = e.saturating_add(b.amt);
        }
        let mut h: Vec<(String, u128)> = vec![];
        let mut bad = vec![];
        for ((who, d), n) in &s.bank {
            if *who == self.m {
                let o = owed.remove(d.as_str()).unwrap_or(0);
                if o != *n {
                    bad.push(format!("{d}: holds {n}, open bids total {o}"));
                }
                h.push((d.clone(), o));
            }
        }
        for (d, o) in owed {
            if o > 0 {
                bad.push(format!("{d}: holds nothing, open bids total {o}"));
            }
        }
        ctx.eval("M01", "escrow", if h.iter().any(|x| x.1 > 0) { Some(fp(&h)) } else { None });
        if !bad.is_empty() {
            ctx.div(&["M01"], "escrow", format!("after {after}: {}", bad.join("; ")));
        }
        // custody
        let mut cust = vec![];
        for (k, o) in &s.owners {
            let n = s.asks.values().filter(|a| a.coll == k.0 && a.token.as_deref() == Some(&k.1)).count();
            if (*o == self.m) != (n == 1) || n > 1 {
                ctx.div(&["M02"], "custody", format!("after {after}: token {}/{} owned by {} has {} asks", short(&k.0), k.1, short(o), n));
            }
            if n > 0 {
                cust.push(k);
            }
        }
        ctx.eval("M02", "custody", if cust.is_empty() { None } else { Some(fp(&(&s.owners, &cust))) });
        // uncrossed book
        let mut f = vec![];
        for a in s.asks.values() {
            for b in s.bids.values().filter(|b| b.coll == a.coll && b.token == a.token).chain(s.cbids.values().filter(|b| b.coll == a.coll)) {
                f.push((a.amt, b.amt, b.token.is_some()));
                if a.denom == b.denom && b.amt >= a.amt {
                    ctx.div(&["M05"], "crossed", format!("after {after}: ask {} crossed by {}", a.s(), b.s()));
                }
            }
        }
        ctx.eval("M05", "uncrossed", if f.is_empty() { None } else { Some(fp(&f)) });
    }

    fn do_act(&mut self, a: &Act, ctx: &mut Ctx) {
        let exp = self.expect(a);
        let s0 = a.s();
        ctx.log.push(format!("t={} {}", self.c.time.get() % 1_000_000_000_000, s0));
        let r = self.c.tx(&self.m, &a.sender, &a.msg(), &a.funds);
        let hints: Vec<String> = match &r {
            Ok(o) => o.attrs.iter().filter(|(_, v)| v.len() == 64 && v.bytes().all(|c| c.is_ascii_hexdigit())).map(|(_, v)| v.clone()).collect(),
            Err(_) => vec![],
        };
        let res = match &r {
            Ok(_) => "ok".to_string(),
            Err(e) => format!("ERR {}", e.get(..e.len().min(90)).unwrap_or("")),
        };
        ctx.log.last_mut().unwrap().push_str(&format!(" -> {res}"));
        if ctx.prop.is_none() && res.starts_with("ERR") && !s0.starts_with('{') {
            ctx.count(&format!("why {} {}", s0.split(" ").nth(1).unwrap_or(""), res.chars().take(60).filter(|c| !c.is_ascii_digit()).collect::<String>()));
        }
        ctx.count(&format!("v2 {:?} {}", a.k, if r.is_ok() { "ok" } else { "rejected" }));
        // the host has undone a failed action to the last byte: one in four is looked at all the same
        let got = if r.is_err() && self.c.tx_index.get() % 4 != 0 { self.s.clone() } else { self.observe(&hints, ctx) };
        self.evals(a, &exp, r.is_ok(), ctx);
        let mut fit: Option<Option<Sale>> = None; // the sale (or none) the model found to have happened
        match (&exp, &r) {
            (Exp::Reject(t), Ok(_)) => {
                if !t.is_empty() {
                    let mut t = t.clone();
                    t.dedup();
                    ctx.div(&t, "accepted-invalid", format!("accepted although it must be rejected ({t:?}): {s0}"));
                    // when a prohibited action went through, its effects belong to the same violation
                }
            }
            (Exp::Reject(_), Err(_)) => {
                self.unchanged(&got, ctx, &s0);
            }
            (Exp::Accept(_, t), Err(e)) => {
                if !t.is_empty() {
                    ctx.div(t, "rejected-valid", format!("rejected although valid: {s0}: {e}"));
                }
                self.unchanged(&got, ctx, &s0);
            }
            (Exp::Accept(ps, _), Ok(_)) => {
                let mut best: Option<Vec<(Vec<Tag>, String)>> = None;
                for p in ps {
                    let d = self.compare(a, p, &got);
                    if d.is_empty() {
                        fit = Some(p.sale.clone());
                    }
                    if best.as_ref().map_or(true, |b| d.len() < b.len()) {
                        best = Some(d);
                    }
                }
                for (t, d) in best.unwrap_or_default() {
                    ctx.div(&t, "wrong-effect", format!("{s0}: {d}"));
                }
            }
        }
        if r.is_ok() {
            if a.k == SetFee {
                if let Some(n) = self.fees.insert(a.denom.clone(), a.amt) {
                    self.old_fees.insert(a.denom.clone(), n);
                }
            }
            if a.k == RemFee {
                if let Some(n) = self.fees.remove(&a.denom) {
                    self.old_fees.insert(a.denom.clone(), n);
                }
            }
        }
        if let Ok(o) = &r {
            self.invariants(&got, ctx, &s0);
            self.replay_log(a, &o.events, &got, fit, ctx, &s0);
        }
        for b in [&got.bids, &got.cbids] {
            self.ever.extend(b.keys().cloned());
        }
        if let Ok(o) = &r {
            // bids that traded at once were never open, but their identifiers are public
            for e in o.events.iter().filter(|e| e.from == self.m && e.ty == "finalize-sale") {
                self.ever.extend([e.s("bid"), e.s("collection_bid")]);
            }
        }
        self.s = got;
    }

    /// Event-log checker: the state before the action plus the events it emitted must give the state after it.
    fn replay_log(&self, a: &Act, evs: &[Ev], got: &S, fit: Option<Option<Sale>>, ctx: &mut Ctx, s0: &str) {
        let mut bad: Vec<String> = vec![];
        let mut books = [self.s.asks.clone(), self.s.bids.clone(), self.s.cbids.clone()];
        let mut cfg = self.s.cfg.clone();
        let mut denoms = self.s.denoms.clone();
        let mut fee: Option<(String, Option<u128>)> = None;
        let mut sales: Vec<&Ev> = vec![];
        let mine: Vec<&Ev> = evs.iter().filter(|e| e.from == self.m).collect();
        for e in &mine {
            let (verb, i) = match e.ty.as_str() {
                "set-ask" => ("set", 0),
                "set-bid" => ("set", 1),
                "set-collection-bid" => ("set", 2),
                "update-ask" => ("update", 0),
                "update-bid" => ("update", 1),
                "update-collection-bid" => ("update", 2),
                "remove-ask" => ("remove", 0),
                "remove-bid" => ("remove", 1),
                "remove-collection-bid" => ("remove", 2),
                "finalize-sale" => ("sale", 0),
                "set-config" => {
                    let n = |k: &str| e.get(k).and_then(|v| v.parse().ok()).unwrap_or(u64::MAX - 7);
                    cfg = Cfg { fee_manager: e.s("fee_manager"), registry: e.s("royalty_registry"), protocol: n("protocol_fee_bps"), max_royalty: n("max_royalty_fee_bps"), maker: n("maker_reward_bps"), taker: n("taker_reward_bps"), denom: e.s("default_denom") };
                    continue;
                }
                "set-collection-denom" => {
                    denoms.insert(e.s("collection"), e.s("denom"));
                    continue;
                }
                "set-listing-fee" => {
                    fee = Some((e.s("denom"), e.num("fee")));
                    continue;
                }
                "remove-listing-fee" => {
                    fee = Some((e.s("denom"), None));
                    continue;
                }
                _ => continue,
            };
            match verb {
                "set" | "update" => {
                    let id = e.s("id");
                    let (amt, denom) = e.coin("price").unwrap_or((u128::MAX - 3, "?".into()));
                    let creator = if verb == "set" { e.s("creator") } else { books[i].get(&id).map_or("?".into(), |o| o.creator.clone()) };
                    let o = Order { id: id.clone(), creator, coll: e.s("collection"), token: e.get("token_id").map(|t| t.to_string()), denom, amt, rcpt: e.get("recipient").map(|t| t.to_string()), finder: e.get("finder").map(|t| t.to_string()) };
                    let old = books[i].insert(id, o);
                    if old.is_some() != (verb == "update") {
                        bad.push(format!("{} of an order that {}", e.show(), if verb == "set" { "is open already" } else { "is not open" }));
                    }
                }
                "remove" => {
                    if books[i].remove(&e.s("id")).is_none() {
                        bad.push(format!("{} of an order that is not open", e.show()));
                    }
                }
                _ => {
                    sales.push(e);
                    books[0].remove(&e.s("ask"));
                    books[1].remove(&e.s("bid"));
                    books[2].remove(&e.s("collection_bid"));
                }
            }
        }
        for (i, (name, g)) in [("asks", &got.asks), ("bids", &got.bids), ("collection bids", &got.cbids)].iter().enumerate() {
            if books[i] != **g {
                let ids: BTreeSet<&String> = books[i].keys().chain(g.keys()).collect();
                for id in ids {
                    if books[i].get(id) != g.get(id) {
                        let f = |o: Option<&Order>| o.map_or("nothing".to_string(), |o| o.s());
                        bad.push(format!("{name}: the log says {}, open is {}", f(books[i].get(id)), f(g.get(id))));
                    }
                }
            }
        }
        if cfg != got.cfg {
            bad.push(format!("configuration: the log says {cfg:?}, it is {:?}", got.cfg));
        }
        for c in &self.colls {
            let l = denoms.get(c).unwrap_or(&cfg.denom);
            let g = got.denoms.get(c).unwrap_or(&got.cfg.denom);
            if l != g {
                bad.push(format!("denom of {}: the log says {l}, it is {g}", short(c)));
            }
        }
        let want_fee = match a.k {
            SetFee => Some((a.denom.clone(), Some(a.amt))),
            RemFee => Some((a.denom.clone(), None)),
            _ => None,
        };
        if fee != want_fee {
            bad.push(format!("listing fee: the log says {fee:?}, it is {want_fee:?}"));
        }
        if let Some(sale) = &fit {
            if sales.len() != sale.is_some() as usize {
                bad.push(format!("{} sale events for {} sales", sales.len(), sale.is_some() as usize));
            }
            if let (Some(s), Some(e)) = (sale, sales.first()) {
                let mut ids = vec![("ask", &s.ids.0)];
                ids.push((if s.ids.1 == 'b' { "bid" } else { "collection_bid" }, &s.ids.2));
                for (k, id) in ids {
                    // an order that never rested has an id of its own
                    if id.len() == 64 && e.s(k) != *id {
                        bad.push(format!("sale event names {k} {} instead of {id}", e.s(k)));
                    }
                }
                for (k, v) in [("collection", s.token.0.clone()), ("token_id", s.token.1.clone()), ("denom", s.denom.clone()), ("price", s.price.to_string()), ("seller_recipient", s.seller_to.clone()), ("nft_recipient", s.nft_to.clone())] {
                    if e.s(k) != v {
                        bad.push(format!("sale event says {k}={}, it was {v}", e.s(k)));
                    }
                }
                for k in ["protocol", "maker", "taker", "royalty", "seller"] {
                    let n: u128 = e.attrs.iter().filter(|x| x.0 == k).map(|x| x.1.parse().unwrap_or(u128::MAX / 9)).fold(0, |a: u128, b| a.saturating_add(b));
                    let w = s.parts.get(k).copied().unwrap_or(0);
                    if n != w {
                        bad.push(format!("sale event says {k} was paid {n}, it was {w}"));
                    }
                }
            }
        }
        ctx.eval("M13", &format!("log {:?}{}", a.k, if sales.is_empty() { "" } else { " sale" }), if mine.is_empty() { None } else { Some(fp(&mine.iter().map(|e| (&e.ty, &e.attrs)).collect::<Vec<_>>())) });
        if !bad.is_empty() {
            let l: Vec<String> = mine.iter().map(|e| e.show()).collect();
            ctx.div(&["M13"], "event-log", format!("{s0}: {}; events: {}", bad.join("; "), l.join(" ")));
        }
    }

    fn unchanged(&self, got: &S, ctx: &mut Ctx, s0: &str) {
        let same = got.asks == self.s.asks
            && got.bids == self.s.bids
            && got.cbids == self.s.cbids
            && got.bank == self.s.bank
            && got.owners == self.s.owners
            && got.cfg == self.s.cfg
            && got.denoms == self.s.denoms
            && got.reg.default == self.s.reg.default;
        ctx.eval("X02", "v2 failed action", Some(fp(&s0)));
        if !same {
            ctx.div(&["X02"], "failed-action-trace", format!("failed action left a trace: {s0}"));
        }
    }

    fn evals(&self, a: &Act, exp: &Exp, ok: bool, ctx: &mut Ctx) {
        let kind = format!("{:?}", a.k);
        let sh = (self.s.asks.len(), self.s.bids.len(), self.s.cbids.len());
        match exp {
            Exp::Reject(t) => {
                for x in t.iter() {
                    ctx.eval(x, &format!("{kind} must be rejected"), Some(fp(&(&kind, a.amt, &a.denom, sh, a.funds.len()))));
                }
            }
            Exp::Accept(ps, tags) => {
                let p = &ps[0];
                if let Some(s) = &p.sale {
                    let base = fp(&(s.price, &self.s.cfg, s.maker, s.taker, s.royalty_src, a.rcpt.is_some()));
                    ctx.eval("M03", &format!("sale {kind} maker={} taker={} royalty={}", s.maker, s.taker, s.royalty_src), Some(base));
                    ctx.eval("M12", &format!("sale royalty={}", s.royalty_src), if s.royalty_src == "none" { None } else { Some(fp(&(s.price, self.s.cfg.max_royalty, s.royalty_src, &s.royalty_to))) });
                    ctx.eval("M05", &format!("match {kind} tie={}", s.tie), Some(fp(&(s.price, a.amt, sh, s.tie, s.ask_first))));
                    ctx.eval("M04", &format!("sale price {kind}"), Some(fp(&(s.price, a.amt, &a.funds.iter().map(|c| c.to_string()).collect::<Vec<_>>()))));
                    ctx.eval("M02", &format!("delivery {kind}"), Some(fp(&(a.rcpt.is_some(), sh, &a.token))));
                    if matches!(a.k, AccAsk | AccBid | AccCb | Sell | Buy | BuyColl) {
                        ctx.eval("M06", &format!("trade {kind}"), Some(fp(&(s.price, a.amt, sh))));
                    }
                } else {
                    if matches!(a.k, SetBid | UpdBid | SetCb | UpdCb) {
                        ctx.eval("M04", &format!("rest {kind}"), Some(fp(&(a.amt, &a.denom, &a.funds.iter().map(|c| c.to_string()).collect::<Vec<_>>()))));
                    }
                    if matches!(a.k, SetAsk | SetBid | UpdBid | SetCb | UpdCb | UpdAsk) {
                        ctx.eval("M05", &format!("rest {kind}"), Some(fp(&(a.amt, sh))));
                        ctx.eval("M08", &format!("record {kind}"), Some(fp(&(a.amt, &a.rcpt, &a.finder, &a.sender, sh))));
                    }
                    if matches!(a.k, RemAsk | RemBid | RemCb) {
                        ctx.eval("M09", &format!("withdraw {kind}"), Some(fp(&(sh, &a.id))));
                    }
                }
                if tags.contains(&"M14") {
                    ctx.eval("M14", &format!("setting {kind}"), Some(fp(&(&a.coll, &a.denom, a.amt, &self.fees, a.cfg.as_ref().map(fp)))));
                }
                if tags.contains(&"M10") {
                    ctx.eval("M10", &format!("admit {kind}"), Some(fp(&(a.amt, &a.denom, &self.fees, a.cfg.as_ref().map(fp)))));
                }
                if tags.contains(&"M07") {
                    ctx.eval("M07", &format!("entitled {kind}"), Some(fp(&(&a.sender, &kind, sh))));
                }
                if ok {
                    ctx.eval("X02", &format!("v2 {kind}"), Some(fp(&(&kind, a.amt, sh))));
                }
            }
        }
    }

    // ------------------------------------------------------------ workload
    fn gen_amt(&mut self, coll: &str, token: Option<&str>) -> u128 {
        let r = &mut self.rng;
        if r.p(40) {
            // near an existing order
            let v: Vec<u128> = self
                .s
                .asks
                .values()
                .chain(self.s.bids.values())
                .chain(self.s.cbids.values())
                .filter(|o| o.coll == coll && (token.is_none() || o.token.is_none() || o.token.as_deref() == token))
                .map(|o| o.amt)
                .collect();
            if !v.is_empty() {
                let x = r.pickc(&v);
                return match r.below(4) {
                    0 => x.saturating_add(1),
                    1 => x.saturating_sub(1),
                    _ => x,
                };
            }
        }
        match self.profile {
            1 => 95 + r.below(11) as u128,
            3 => r.pickc(&[
                1,
                2,
                3,
                9,
                10,
                11,
                19,
                99,
                100,
                101,
                9_999,
                10_001,
                1_000_000_007,
                999_999_999_999_999_999,
                1_000_000_000_000_000_001,
                1_000_000_000_000_000_000_000_000_000_000,
                123_456_789_012_345_678_901_234_567_891,
                u128::MAX,
                u128::MAX - 1,
                u64::MAX as u128,
            ]),
            _ => {
                if r.p(4) {
                    0
                } else {
                    r.pickc(&[1, 2, 5, 10, 50, 100, 101, 150, 151, 200, 333, 1000, 1001, 5000, 12345, 1_000_000, 7_777_777])
                }
            }
        }
    }

    fn gen_act(&mut self) -> Act {
        //           SA  Se UA RA AA  SB  Bu UB RB AB SC  BC UC RC AC Cf CD SF RF
        let w: [u32; 19] = match self.profile {
            1 => [16, 4, 8, 2, 5, 18, 4, 9, 3, 4, 16, 4, 9, 3, 4, 1, 1, 1, 0],
            2 => [14, 3, 5, 3, 5, 14, 3, 5, 3, 4, 10, 3, 4, 3, 4, 8, 6, 5, 2],
            _ => [15, 3, 6, 4, 6, 15, 4, 7, 4, 6, 11, 4, 6, 4, 6, 2, 2, 1, 1],
        };
        const KS: [K; 19] = [SetAsk, Sell, UpdAsk, RemAsk, AccAsk, SetBid, Buy, UpdBid, RemBid, AccBid, SetCb, BuyColl, UpdCb, RemCb, AccCb, Config, CollDenom, SetFee, RemFee];
        let mut k = KS[self.rng.weighted(&w)];
        if self.rng.p(80) {
            // nothing to act on: place something first
            k = match k {
                UpdAsk | RemAsk | AccAsk | Buy | BuyColl if self.s.asks.is_empty() => SetAsk,
                UpdBid | RemBid | AccBid if self.s.bids.is_empty() => SetBid,
                UpdCb | RemCb | AccCb if self.s.cbids.is_empty() => SetCb,
                Sell if self.s.bids.is_empty() && self.s.cbids.is_empty() => SetBid,
                _ => k,
            };
        }
        if matches!(k, SetAsk | Sell) && self.fees.is_empty() && self.rng.p(70) {
            k = SetFee;
        }
        self.aim = None;
        if let Some((fc, ft, n)) = self.focus.take() {
            if self.rng.p(75) {
                self.aim = Some((fc.clone(), ft.clone()));
            }
            if n > 1 {
                self.focus = Some((fc, ft, n - 1));
            }
        }
        let mut coll = self.rng.pickc(&self.colls.clone());
        let mut token = if self.rng.p(2) { "99".to_string() } else { self.rng.pickc(&self.tokens.clone()) };
        if let Some((fc, ft)) = self.aim.clone() {
            coll = fc;
            if self.rng.p(70) {
                token = ft;
            }
        }
        let mut id = String::new();
        let sender_any = user(self.rng.below(NU));
        let mut sender = sender_any.clone();
        let mut target: Option<Order> = None;
        match k {
            UpdAsk | RemAsk | AccAsk => target = self.pick_order(0),
            UpdBid | RemBid | AccBid => target = self.pick_order(1),
            UpdCb | RemCb | AccCb => target = self.pick_order(2),
            _ => {}
        }
        let mut aim: Option<Order> = None;
        if self.rng.p(75) {
            // instant orders: look for a live counter-order
            aim = match k {
                Buy | BuyColl => self.pick_order(0),
                Sell if self.rng.p(60) => self.pick_order(1),
                Sell => self.pick_order(2),
                _ => None,
            };
            if let Some(o) = &aim {
                coll = o.coll.clone();
                token = o.token.clone().unwrap_or(token);
            }
        }
        if let Some(o) = &target {
            coll = o.coll.clone();
            if let Some(t) = &o.token {
                token = t.clone();
            }
            id = o.id.clone();
        } else if matches!(k, UpdAsk | RemAsk | AccAsk | UpdBid | RemBid | AccBid | UpdCb | RemCb | AccCb) {
            id = if self.rng.p(50) { "".into() } else { format!("{:064x}", self.rng.next()) };
        }
        // tokens for accepting collection bids: prefer owned tokens
        if k == AccCb && self.rng.p(80) {
            let v: Vec<String> = self.tokens.clone();
            token = self.rng.pickc(&v);
        }
        if matches!(k, AccBid | AccCb) && self.rng.p(30) {
            // prefer tokens that are listed
            let v: Vec<String> = self.s.asks.values().filter(|a| a.coll == coll && (k == AccCb || target.is_none())).filter_map(|a| a.token.clone()).collect();
            if !v.is_empty() {
                token = self.rng.pickc(&v);
            }
        }
        let owner = self.s.owners.get(&(coll.clone(), token.clone())).cloned();
        let asker = self.ask_of(&coll, &token).map(|a| a.creator);
        let loyal = self.rng.p(if matches!(k, AccBid | AccCb) && asker.is_some() { 70 } else { 88 });
        if loyal {
            match k {
                SetAsk | Sell => {
                    if let Some(o) = owner.filter(|o| *o != self.m) {
                        sender = o;
                    } else if let Some((ck, o)) = {
                        let v: Vec<_> = self.s.owners.iter().filter(|(_, o)| **o != self.m).map(|(k, o)| (k.clone(), o.clone())).collect();
                        if v.is_empty() { None } else { Some(self.rng.pickc(&v)) }
                    } {
                        coll = ck.0;
                        token = ck.1;
                        sender = o;
                    }
                }
                AccBid | AccCb => sender = asker.or(owner).filter(|o| *o != self.m).unwrap_or(sender),
                UpdAsk | RemAsk | UpdBid | RemBid | UpdCb | RemCb => {
                    if let Some(o) = &target {
                        sender = o.creator.clone();
                    }
                }
                Config | CollDenom | SetFee | RemFee => {
                    if let Some(Some(x)) = self.c.w.borrow().admins.get(&self.m) {
                        sender = x.clone();
                    }
                }
                _ => {}
            }
        } else if self.rng.p(40) {
            // tempting wrong senders
            let mut v = vec![self.users[7].clone(), self.users[0].clone(), self.m.clone()];
            if let Some(o) = &target {
                v.extend(o.rcpt.clone());
                v.extend(o.finder.clone());
                v.extend(self.s.bids.values().filter(|b| b.coll == o.coll && b.token == o.token).map(|b| b.creator.clone()));
            }
            v.extend(self.c.around(&coll, &token));
            v.retain(|x| self.users.contains(x));
            if let Some(o) = self.ask_of(&coll, &token).filter(|_| matches!(k, AccBid | AccCb)) {
                let w = [o.rcpt.clone(), o.finder.clone()].into_iter().flatten();
                v.extend(w.clone());
                v.extend(w);
            }
            let x = self.rng.pickc(&v);
            if x != self.m {
                sender = x;
            }
        }
        let tok_opt = if matches!(k, SetCb | BuyColl | UpdCb | AccCb) { None } else { Some(token.clone()) };
        let mut denom = if self.rng.p(93) { self.coll_denom(&coll) } else { self.rng.pickc(&self.denoms.clone()) };
        let mut amt = self.gen_amt(&coll, tok_opt.as_deref());
        if matches!(k, AccAsk | AccBid | AccCb) {
            if let Some(o) = &target {
                if self.rng.p(92) {
                    denom = o.denom.clone();
                }
                if self.rng.p(70) {
                    amt = match self.rng.below(5) {
                        0 => o.amt.saturating_add(1),
                        1 => o.amt.saturating_sub(1),
                        _ => o.amt,
                    };
                }
            }
        }
        if let Some(o) = &aim {
            if self.rng.p(92) {
                denom = o.denom.clone();
            }
        }
        if matches!(k, Buy | BuyColl | Sell) && self.rng.p(70) {
            // aim at a live counter-order
            let v: Vec<u128> = match k {
                Sell => self.s.bids.values().filter(|b| b.coll == coll && b.token.as_deref() == Some(&token)).chain(self.s.cbids.values().filter(|b| b.coll == coll)).map(|b| b.amt).collect(),
                Buy => self.ask_of(&coll, &token).iter().map(|a| a.amt).collect(),
                _ => self.s.asks.values().filter(|a| a.coll == coll).map(|a| a.amt).collect(),
            };
            if !v.is_empty() {
                let x = self.rng.pickc(&v);
                amt = match self.rng.below(4) {
                    0 => x.saturating_add(if k == Sell { 0 } else { 7 }),
                    1 => x.saturating_sub(if k == Sell { 3 } else { 0 }).max(1),
                    _ => x,
                };
            }
        }
        if matches!(k, SetAsk | Sell | AccBid | AccCb) && self.rng.p(75) {
            // the owner approves right before
            let mut w = self.c.w.borrow_mut();
            w.nfts.get_mut(&coll).unwrap().operators.insert((sender.clone(), self.m.clone()));
        }
        let mut rcpt = if self.rng.p(25) { Some(user(self.rng.below(10))) } else { None };
        let mut finder = if self.rng.p(40) { Some(user(self.rng.below(10))) } else { None };
        if self.rng.p(2) {
            let b = Some(bad_addr(self.rng.below(5)));
            if self.rng.p(50) {
                rcpt = b;
            } else {
                finder = b;
            }
        }
        let mut cfg = None;
        match k {
            Config => {
                let mut c = self.s.cfg.clone();
                for _ in 0..1 + self.rng.below(3) {
                    match self.rng.below(8) {
                        6 => c.registry = contract(self.rng.pickc(&["registry", "registry2"])),
                        7 if self.rng.p(70) => {}
                        7 if self.rng.p(50) => c.registry = bad_addr(self.rng.below(5)),
                        7 => c.fee_manager = bad_addr(self.rng.below(5)),
                        0 => c.protocol = if self.rng.p(15) { self.rng.pickc(&[10_000, 10_001, u64::MAX]) } else { Self::gen_bps(&mut self.rng) },
                        1 => c.max_royalty = self.rng.pickc(&[0, 1, 500, 1000, 9999, 10_000, u64::MAX]),
                        2 => c.maker = self.rng.pickc(&[0, 1, 3333, 5000, 9999, 10_000]),
                        3 => c.taker = self.rng.pickc(&[0, 1, 3333, 4999, 5000, 9999, u64::MAX]),
                        4 => c.denom = self.rng.pickc(&self.denoms.clone()),
                        _ => c.fee_manager = self.rng.pickc(&[self.users[7].clone(), self.users[7].clone(), self.users[1].clone(), self.users[9].clone()]),
                    }
                }
                cfg = Some(c);
            }
            CollDenom | RemFee => denom = self.rng.pickc(&self.denoms.clone()),
            SetFee => {
                denom = self.rng.pickc(&self.denoms.clone());
                amt = self.rng.pickc(&[1, 2, 10, 500, 1_000_000, 0]);
            }
            _ => {}
        }
        // funds
        let mut funds: Vec<Coin> = vec![];
        match k {
            SetAsk | Sell => {
                let mut v: Vec<(String, u128)> = self.fees.iter().map(|(d, n)| (d.clone(), *n)).collect();
                let can: Vec<_> = v.iter().filter(|(d, n)| *n > 0 && self.c.bal(&sender, d) >= *n).cloned().collect();
                if !can.is_empty() && self.rng.p(90) {
                    v = can;
                }
                if !v.is_empty() {
                    let (d, n) = self.rng.pickc(&v);
                    let n = if self.rng.p(90) { n } else { self.rng.pickc(&[n.saturating_add(1), n.saturating_sub(1), 0, n.saturating_mul(2)]) };
                    funds.push(coin(n, &d));
                }
                if !self.old_fees.is_empty() && self.rng.p(12) {
                    // what used to be a listing fee
                    let v: Vec<(String, u128)> = self.old_fees.iter().map(|(d, n)| (d.clone(), *n)).collect();
                    let (d, n) = self.rng.pickc(&v);
                    funds = vec![coin(n, &d)];
                }
                let free: Vec<String> = self.denoms.iter().filter(|d| !self.fees.contains_key(*d)).cloned().collect();
                if !free.is_empty() && self.rng.p(5) {
                    // a denom without a listing fee
                    let d = self.rng.pickc(&free);
                    funds = vec![coin(self.rng.pickc(&[1, 10, 500]), &d)];
                }
                if self.rng.p(3) {
                    let d = self.rng.pickc(&self.denoms.clone());
                    funds.push(coin(1, &d));
                }
                if self.rng.p(2) {
                    funds.clear();
                }
            }
            AccAsk | SetBid | Buy | UpdBid | SetCb | BuyColl | UpdCb => {
                let mut need = match k {
                    AccAsk => target.as_ref().map_or(amt, |o| o.amt),
                    Buy => self.ask_of(&coll, &token).map_or(amt, |o| if o.amt <= amt { o.amt } else { amt }),
                    BuyColl => self.s.asks.values().filter(|a| a.coll == coll && a.denom == denom).map(|a| a.amt).min().unwrap_or(amt),
                    _ => amt,
                };
                if matches!(k, SetBid | SetCb) && self.rng.p(30) {
                    let m = if k == SetBid { self.ask_of(&coll, &token).map(|a| a.amt) } else { self.s.asks.values().filter(|a| a.coll == coll && a.denom == denom).map(|a| a.amt).min() };
                    if let Some(x) = m {
                        need = x;
                    }
                }
                if let (true, Some(o)) = (matches!(k, UpdBid | UpdCb), &target) {
                    if o.denom == denom {
                        need = need.saturating_sub(o.amt);
                    }
                }
                let pay = match self.rng.below(20) {
                    0..=12 => need,
                    13 => need.saturating_sub(1),
                    14 => need.saturating_add(1),
                    15 => need.saturating_add(977),
                    16 => need.saturating_mul(2),
                    17 => amt,
                    18 => 0,
                    _ => need.saturating_add(5),
                };
                // the money may follow the ask where the message does not
                let paid = target.as_ref().filter(|o| k == AccAsk && o.denom != denom && self.rng.p(60)).map_or(denom.clone(), |o| o.denom.clone());
                funds.push(coin(pay, &paid));
                if self.rng.p(8) {
                    let d = self.rng.pickc(&self.denoms.clone());
                    funds.push(coin(1 + self.rng.below(50) as u128, &d));
                }
            }
            _ => {
                if self.rng.p(6) {
                    let d = self.rng.pickc(&self.denoms.clone());
                    funds.push(coin(1 + self.rng.below(50) as u128, &d));
                }
            }
        }
        // unique, positive coins the sender can afford
        let mut seen = BTreeSet::new();
        funds.retain(|c| !c.amount.is_zero() && seen.insert(c.denom.clone()));
        for c in funds.iter_mut() {
            let b = self.c.bal(&sender, &c.denom);
            if c.amount.u128() > b {
                c.amount = b.into();
            }
        }
        funds.retain(|c| !c.amount.is_zero());
        Act { k, sender, id, coll, token, denom, amt, rcpt, finder, funds, cfg }
    }

    fn pick_order(&mut self, i: usize) -> Option<Order> {
        let b = match i {
            0 => &self.s.asks,
            1 => &self.s.bids,
            _ => &self.s.cbids,
        };
        let mut v: Vec<Order> = b.values().cloned().collect();
        if let Some((fc, ft)) = &self.aim {
            for one in [true, false] {
                let f = |o: &Order| o.coll == *fc && (!one || o.token.as_ref().map_or(true, |t| t == ft));
                if v.iter().any(f) {
                    v.retain(f);
                }
            }
        }
        if i == 1 && self.rng.p(30) {
            // bids on tokens that are listed
            let f = |o: &Order| self.ask_of(&o.coll, o.token.as_deref().unwrap_or("")).is_some();
            if v.iter().any(f) {
                v.retain(f);
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(self.rng.pickc(&v))
        }
    }

    fn external(&mut self, ctx: &mut Ctx) {
        let coll = self.rng.pickc(&self.colls.clone());
        let token = self.rng.pickc(&self.tokens.clone());
        let u = user(self.rng.below(NU));
        let hostile = self.profile == 4;
        let now = self.c.time.get();
        if self.rng.p(60) {
            self.focus = Some((coll.clone(), token.clone(), 4));
        }
        let mut w = self.c.w.borrow_mut();
        let what;
        let w2 = [14, 10, 12, 8, 8, if self.profile == 2 { 6 } else { 2 }, if hostile { 10 } else { 0 }, if hostile { 6 } else { 0 }];
        match self.rng.weighted(&w2) {
            0 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                let Some(o) = n.owners.get(&token).cloned() else { return };
                if o == self.m {
                    return;
                }
                n.owners.insert(token.clone(), u.clone());
                n.approvals.retain(|(t, _), _| *t != token);
                what = format!("ext transfer {}/{} {} -> {}", short(&coll), token, short(&o), short(&u));
            }
            1 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                let k = (u.clone(), self.m.clone());
                if self.rng.p(75) {
                    n.operators.insert(k);
                    what = format!("ext approve_all {} by {}", short(&coll), short(&u));
                } else {
                    n.operators.remove(&k);
                    what = format!("ext revoke_all {} by {}", short(&coll), short(&u));
                }
            }
            2 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                if let Some(i) = n.info.as_mut() {
                    i.start = match self.rng.below(6) {
                        0 => Some(now),
                        1 => Some(now + 1),
                        2 => Some(now + 10_000_000_000),
                        3 => Some(now.saturating_sub(1)),
                        _ => None,
                    };
                    what = format!("ext start_trading {} {:?}", short(&coll), i.start);
                } else {
                    return;
                }
            }
            3 => {
                let share = self.rng.pickc(&["0", "0.01", "0.05", "0.1", "0.333333333333333333", "0.000000000000000001", "0.999999999999999999", "1"]);
                let n = w.nfts.get_mut(&coll).unwrap();
                if let Some(i) = n.info.as_mut() {
                    i.royalty = if self.rng.p(80) { Some((user(if self.rng.p(25) { self.rng.below(NU) } else { 8 + self.rng.below(2) }), share.to_string())) } else { None };
                    what = format!("ext royalty_info {} {:?}", short(&coll), i.royalty.as_ref().map(|r| r.1.clone()));
                } else {
                    return;
                }
            }
            4 => {
                let share = self.rng.pickc(&["0", "0.01", "0.05", "0.1", "0.25", "0.5", "1"]);
                let e = (user(if self.rng.p(25) { self.rng.below(NU) } else { 7 + self.rng.below(3) }), share.to_string());
                let rk = if self.rng.p(80) { reg_key(&self.s.cfg.registry, &coll) } else { reg_key(&contract(self.rng.pickc(&["registry", "registry2"])), &coll) };
                match self.rng.below(4) {
                    0 => {
                        w.registry.default.insert(rk, e);
                        what = format!("ext registry default {} {share}", short(&coll));
                    }
                    1 => {
                        let other = if self.rng.p(70) { self.m.clone() } else { contract("other") };
                        w.registry.protocol.insert((rk, other.clone()), e);
                        what = format!("ext registry protocol {} {} {share}", short(&coll), short(&other));
                    }
                    2 => {
                        w.registry.default.remove(&rk);
                        what = format!("ext registry default {} removed", short(&coll));
                    }
                    _ => {
                        w.registry.protocol.remove(&(rk, self.m.clone()));
                        what = format!("ext registry protocol {} removed", short(&coll));
                    }
                }
            }
            5 => {
                let a = if self.rng.p(10) { None } else { Some(user(self.rng.below(3))) };
                what = format!("ext chain admin {:?}", a.as_ref().map(|x| short(x)));
                w.admins.insert(self.m.clone(), a);
            }
            6 => {
                let n = w.nfts.get_mut(&coll).unwrap();
                if self.rng.p(60) {
                    if !n.stuck.remove(&token) {
                        n.stuck.insert(token.clone());
                    }
                    what = format!("ext stuck tokens {} {:?}", short(&coll), n.stuck);
                } else {
                    n.frozen = !n.frozen && self.rng.p(60);
                    what = format!("ext frozen {} {}", short(&coll), n.frozen);
                }
            }
            _ => {
                let n = w.nfts.get_mut(&coll).unwrap();
                n.info = if n.info.is_some() {
                    None
                } else {
                    Some(CollInfo { start: None, royalty: Some((user(8), "0.07".into())) })
                };
                what = format!("ext collection_info {} supported={}", short(&coll), n.info.is_some());
            }
        }
        for (c, n) in &w.nfts {
            for (t, o) in &n.owners {
                self.s.owners.insert((c.clone(), t.clone()), o.clone());
            }
        }
        self.s.reg = w.registry.clone();
        ctx.log.push(what);
    }

    /// A short story on one token, each part of it ordinary, that random choice would rarely tell in this order.
    fn new_plan(&mut self) {
        let coll = self.rng.pickc(&self.colls.clone());
        let token = self.rng.pickc(&self.tokens.clone());
        let other = self.rng.pickc(&self.tokens.clone());
        let Some(owner) = self.s.owners.get(&(coll.clone(), token.clone())).cloned() else { return };
        let mut us: Vec<String> = (0..NU).map(user).filter(|u| *u != owner).collect();
        if us.len() == NU {
            return; // in escrow, or in the hands of someone who does not trade
        }
        for i in (1..us.len()).rev() {
            us.swap(i, self.rng.below(i + 1));
        }
        let (x, y, z) = (us[0].clone(), us[1].clone(), us[2].clone());
        let other_owner = self.s.owners.get(&(coll.clone(), other.clone())).cloned().filter(|o| us.contains(o)).unwrap_or(owner.clone());
        let d = self.coll_denom(&coll);
        let admin = self.c.w.borrow().admins.get(&self.m).cloned().flatten().unwrap_or(user(0));
        let cfg = self.s.cfg.clone();
        self.named.clear();
        for u in [&owner, &x, &y, &z] {
            // the usual flow approves
            self.c.w.borrow_mut().nfts.get_mut(&coll).unwrap().operators.insert((u.clone(), self.m.clone()));
        }
        let r = &mut self.rng;
        let d2 = r.pickc(&self.denoms);
        let n = r.pickc(&[1u128, 2, 99, 100, 101, 1000, 12_345, 1_000_000_007]);
        let fin = if r.p(30) { Some(user(r.below(10))) } else { None };
        let rcp = if r.p(30) { Some(user(r.below(10))) } else { None };
        let act = |k: K, sender: &String, amt: u128| Act {
            k,
            sender: sender.clone(),
            id: String::new(),
            coll: coll.clone(),
            token: token.clone(),
            denom: d.clone(),
            amt,
            rcpt: rcp.clone(),
            finder: fin.clone(),
            funds: vec![],
            cfg: None,
        };
        let go = |k: K, sender: &String, amt: u128| P::Do(act(k, sender, amt), sender.clone());
        let on = |k: K, sender: &String, of: &String, amt: u128| P::Do(act(k, sender, amt), of.clone());
        let with = |k: K, sender: &String, of: &String, amt: u128, f: &dyn Fn(&mut Act)| {
            let mut a = act(k, sender, amt);
            f(&mut a);
            P::Do(a, of.clone())
        };
        let den = |k: K, sender: &String, of: &String, amt: u128, dd: &String| with(k, sender, of, amt, &|a| a.denom = dd.clone());
        let mut v: Vec<P> = vec![];
        match r.below(11) {
            0 | 1 => {
                // the collection's denomination changes under its orders
                let early = [go(SetAsk, &owner, n + 50), go(SetBid, &y, n), go(SetCb, &z, n + 1)];
                v.extend(early.into_iter().filter(|_| r.p(80)));
                v.push(den(CollDenom, &admin, &admin, 0, &d2));
                for _ in 0..4 {
                    let dd = if r.p(50) { d.clone() } else { d2.clone() };
                    let m = n + r.pickc(&[0u128, 1, 49, 50, 60]);
                    v.push(match r.below(10) {
                        0 => den(UpdBid, &y, &y, m, &dd),
                        1 => den(UpdCb, &z, &z, m, &dd),
                        2 => den(UpdAsk, &owner, &owner, m, &dd),
                        3 => den(AccAsk, &x, &owner, m, &dd),
                        4 => den(AccBid, &owner, &y, n, &dd),
                        5 => den(AccCb, &owner, &z, n, &dd),
                        6 => den(SetAsk, &owner, &owner, m, &dd),
                        7 => den(SetBid, &x, &x, m, &dd),
                        8 => den(Buy, &x, &x, m, &dd),
                        _ => den(BuyColl, &x, &x, m, &dd),
                    });
                }
                if r.p(60) {
                    v.push(den(CollDenom, &admin, &admin, 0, &d));
                    v.push(go(UpdAsk, &owner, n));
                }
                v.extend([go(RemBid, &y, 0), go(RemCb, &z, 0), go(RemAsk, &owner, 0)]);
            }
            2 => {
                // equal bids, of both kinds, of different age
                v.extend([go(SetBid, &y, n), P::Tick(r.below(2) as u64), go(SetBid, &z, n), P::Tick(r.below(2) as u64), go(SetCb, &x, n + r.below(2) as u128)]);
                if r.p(40) {
                    v.push(go(SetCb, &y, n));
                }
                let m = n - r.below(2).min(n as usize - 1) as u128;
                v.push(go(if r.p(50) { SetAsk } else { Sell }, &owner, m));
                v.extend([go(RemBid, &y, 0), go(RemBid, &z, 0), go(RemCb, &x, 0), go(RemCb, &y, 0)]);
            }
            3 => {
                // dealing with oneself
                v.extend([go(SetBid, &owner, n), go(SetCb, &owner, n + 1), go(SetAsk, &owner, n + 5)]);
                for _ in 0..3 {
                    v.push(match r.below(7) {
                        0 => go(AccAsk, &owner, n + 5),
                        1 => go(AccBid, &owner, n),
                        2 => go(AccCb, &owner, n + 1),
                        3 => go(UpdAsk, &owner, n),
                        4 => go(UpdBid, &owner, n + 5),
                        5 => go(UpdCb, &owner, n + 6),
                        _ => go(Buy, &owner, n + 7),
                    });
                }
                v.extend([go(RemBid, &owner, 0), go(RemCb, &owner, 0), go(RemAsk, &owner, 0)]);
            }
            4 => {
                // sold, listed again by the buyer; the first seller's order is no longer there
                v.push(go(SetAsk, &owner, n));
                v.push(if r.p(50) { on(AccAsk, &y, &owner, n) } else { go(r.pickc(&[SetBid, Buy, SetCb, BuyColl]), &y, n) });
                v.push(go(r.pickc(&[RemAsk, UpdAsk]), &owner, n));
                v.push(go(SetAsk, &y, n + 7));
                v.push(go(r.pickc(&[RemAsk, UpdAsk]), &owner, n));
                v.push(on(r.pickc(&[AccAsk, RemAsk, UpdAsk]), &x, &y, n + 7));
                v.push(on(AccAsk, &z, &y, n + 7));
                v.push(on(AccAsk, &z, &owner, n + 7));
            }
            5 => {
                // a bid taken while the token is listed for more
                v.extend([go(SetAsk, &owner, n * 2), go(SetBid, &y, n), go(SetCb, &z, n), go(SetBid, &x, n + 1)]);
                for _ in 0..3 {
                    let who = if r.p(70) { owner.clone() } else { r.pickc(&[x.clone(), y.clone(), z.clone()]) };
                    v.push(match r.below(5) {
                        0 => on(AccBid, &who, &y, n),
                        1 => on(AccCb, &who, &z, n),
                        2 => on(AccBid, &who, &x, n + 1),
                        3 => on(AccBid, &who, &x, n + 2),
                        _ => on(AccAsk, &who, &owner, n * 2),
                    });
                }
                v.extend([go(RemAsk, &owner, 0), go(RemBid, &y, 0), go(RemBid, &x, 0), go(RemCb, &z, 0)]);
            }
            6 => {
                // a collection bid against two listings
                let second = |k: K, who: &String, m: u128| with(k, who, who, m, &|a| a.token = other.clone());
                v.extend([go(SetAsk, &owner, n + 3), second(SetAsk, &other_owner, n + r.pickc(&[0u128, 3, 5])), go(SetCb, &y, n.saturating_sub(1).max(1))]);
                for _ in 0..2 {
                    v.push(match r.below(5) {
                        0 => go(UpdCb, &y, n + 3),
                        1 => go(UpdCb, &y, n + 9),
                        2 => go(BuyColl, &z, n + 3),
                        3 => go(SetCb, &z, n + 4),
                        _ => go(UpdAsk, &owner, n.saturating_sub(1).max(1)),
                    });
                }
                v.extend([go(RemAsk, &owner, 0), second(RemAsk, &other_owner, 0), go(RemCb, &y, 0), go(RemCb, &z, 0)]);
            }
            7 => {
                // fees, recipients and royalties change between two sales
                v.push(P::Default(coll.clone(), None));
                v.push(P::Royalty(coll.clone(), Some((user(8 + r.below(2)), r.pickc(&["0.05", "0.1", "0.01"]).into()))));
                v.extend([go(SetAsk, &owner, n * 100), go(SetBid, &y, n * 100)]);
                if r.p(70) {
                    v.push(P::Royalty(coll.clone(), if r.p(60) { Some((user(9), "0.02".into())) } else { None }));
                }
                if r.p(30) {
                    v.push(P::Default(coll.clone(), if r.p(50) { Some((user(9), "0.03".into())) } else { None }));
                }
                let mut c = cfg.clone();
                match r.below(7) {
                    5 | 6 => c.registry = contract(if c.registry == contract("registry") { "registry2" } else { "registry" }),
                    0 => c.protocol = r.pickc(&[0, 1, 1000, 5000]),
                    1 => c.max_royalty = r.pickc(&[0, 1, 100, 10_000]),
                    2 => c.fee_manager = user(9),
                    3 => (c.maker, c.taker) = (c.taker, c.maker),
                    _ => c.denom = d2.clone(),
                }
                v.push(with(Config, &admin, &admin, 0, &|a| a.cfg = Some(c.clone())));
                let buyer = rcp.clone().filter(|u| us.contains(u)).unwrap_or(y.clone());
                v.extend([go(SetBid, &z, n * 90), on(AccBid, &buyer, &z, n * 90), go(RemBid, &z, 0)]);
            }
            8 => {
                // withdrawn twice, changed after it is gone
                let (set, upd, rem, acc) = r.pickc(&[(SetBid, UpdBid, RemBid, AccBid), (SetCb, UpdCb, RemCb, AccCb), (SetAsk, UpdAsk, RemAsk, AccAsk)]);
                let who = if set == SetAsk { owner.clone() } else { y.clone() };
                let by = if set == SetAsk { x.clone() } else { owner.clone() };
                v.push(go(set, &who, n));
                for _ in 0..4 {
                    v.push(match r.below(5) {
                        0 => go(rem, &who, 0),
                        1 => on(rem, &x, &who, 0),
                        2 => go(upd, &who, n + r.pickc(&[0u128, 1, 5])),
                        3 => on(upd, &z, &who, n + 1),
                        _ => on(acc, &by, &who, n),
                    });
                }
                v.extend([go(rem, &who, 0), go(rem, &who, 0)]);
            }
            9 => {
                // raised, lowered, raised across a listing
                let (set, upd, rem) = if r.p(50) { (SetBid, UpdBid, RemBid) } else { (SetCb, UpdCb, RemCb) };
                v.extend([go(SetAsk, &owner, n + 20), go(set, &y, n)]);
                for _ in 0..4 {
                    v.push(go(upd, &y, n + r.pickc(&[0u128, 1, 10, 19, 20, 21, 50])));
                }
                v.extend([go(rem, &y, 0), go(UpdAsk, &owner, n), go(RemAsk, &owner, 0)]);
            }
            _ => {
                // bids of someone who no longer, or not yet, holds the token; a token that moves
                v.extend([go(SetBid, &y, n), go(SetBid, &z, n + 1), P::Move(coll.clone(), token.clone(), x.clone())]);
                for _ in 0..3 {
                    let who = if r.p(50) { owner.clone() } else { x.clone() };
                    v.push(match r.below(4) {
                        0 => on(AccBid, &who, &y, n),
                        1 => on(AccBid, &who, &z, n + 1),
                        2 => go(Sell, &who, n),
                        _ => go(SetAsk, &who, n + 2),
                    });
                }
                v.extend([go(RemBid, &y, 0), go(RemBid, &z, 0), go(RemAsk, &x, 0)]);
            }
        }
        // now and then a part is left out
        v.retain(|_| !r.p(5));
        self.plan = v.into();
    }
    fn play(&mut self, p: P, ctx: &mut Ctx) {
        match p {
            P::Do(mut a, of) => {
                let kind = match a.k {
                    UpdAsk | RemAsk | AccAsk => 'a',
                    UpdBid | RemBid | AccBid => 'b',
                    UpdCb | RemCb | AccCb => 'c',
                    _ => ' ',
                };
                let target = match kind {
                    'a' => self.s.asks.values().find(|o| o.creator == of && o.coll == a.coll && o.token.as_ref() == Some(&a.token)),
                    'b' => self.s.bids.values().find(|o| o.creator == of && o.coll == a.coll && o.token.as_ref() == Some(&a.token)),
                    'c' => self.s.cbids.values().find(|o| o.creator == of && o.coll == a.coll),
                    _ => None,
                }
                .cloned();
                if kind != ' ' {
                    let known = self.named.get(&(kind, of)).cloned();
                    // rather the order this story is about, also when it is gone
                    a.id = match (&target, known) {
                        (_, Some(id)) if self.rng.p(80) => id,
                        (Some(o), _) => o.id.clone(),
                        (None, Some(id)) => id,
                        (None, None) => format!("{:064x}", self.rng.next()),
                    };
                }
                let need = match a.k {
                    SetAsk | Sell => {
                        let v: Vec<(String, u128)> = self.fees.iter().map(|(d, n)| (d.clone(), *n)).collect();
                        if !v.is_empty() {
                            let (d, n) = self.rng.pickc(&v);
                            a.funds = vec![coin(n, &d)];
                        }
                        None
                    }
                    AccAsk => Some(self.s.asks.get(&a.id).map_or(a.amt, |o| o.amt)),
                    SetBid | Buy | UpdBid => Some(self.ask_of(&a.coll, &a.token).filter(|o| o.denom == a.denom && o.amt <= a.amt).map_or(a.amt, |o| o.amt)),
                    SetCb | BuyColl | UpdCb => Some(self.s.asks.values().filter(|o| o.coll == a.coll && o.denom == a.denom && o.amt <= a.amt).map(|o| o.amt).min().unwrap_or(a.amt)),
                    _ => None,
                };
                if let Some(mut n) = need {
                    let held = match a.k {
                        UpdBid => self.s.bids.get(&a.id),
                        UpdCb => self.s.cbids.get(&a.id),
                        _ => None,
                    };
                    if let Some(o) = held.filter(|o| o.denom == a.denom) {
                        n = n.saturating_sub(o.amt);
                    }
                    if self.rng.p(10) {
                        n = self.rng.pickc(&[n.saturating_sub(1), n.saturating_add(1), n.saturating_add(977)]);
                    }
                    a.funds = vec![coin(n, &a.denom)];
                }
                let mut seen = BTreeSet::new();
                a.funds.retain(|c| !c.amount.is_zero() && c.amount.u128() <= self.c.bal(&a.sender, &c.denom) && seen.insert(c.denom.clone()));
                self.do_act(&a, ctx);
                for (k, b) in [('a', &self.s.asks), ('b', &self.s.bids), ('c', &self.s.cbids)] {
                    for o in b.values().filter(|o| o.coll == a.coll && o.token.as_ref().map_or(true, |t| *t == a.token)) {
                        self.named.insert((k, o.creator.clone()), o.id.clone());
                    }
                }
                self.last = Some(a);
            }
            P::Move(c, t, to) => {
                let mut w = self.c.w.borrow_mut();
                let n = w.nfts.get_mut(&c).unwrap();
                if n.owners.get(&t).map_or(false, |o| *o != self.m) {
                    n.owners.insert(t.clone(), to.clone());
                    n.approvals.retain(|(k, _), _| *k != t);
                    ctx.log.push(format!("ext transfer {}/{t} to {}", short(&c), short(&to)));
                    self.s.owners.insert((c, t), to);
                }
            }
            P::Royalty(c, to) => {
                if let Some(i) = self.c.w.borrow_mut().nfts.get_mut(&c).and_then(|n| n.info.as_mut()) {
                    ctx.log.push(format!("ext royalty_info {} {:?}", short(&c), to.as_ref().map(|r| r.1.clone())));
                    i.royalty = to;
                }
            }
            P::Default(c, to) => {
                let mut w = self.c.w.borrow_mut();
                ctx.log.push(format!("ext registry default {} {:?}", short(&c), to.as_ref().map(|r| r.1.clone())));
                let rk = reg_key(&self.s.cfg.registry, &c);
                match to {
                    Some(e) => w.registry.default.insert(rk, e),
                    None => w.registry.default.remove(&rk),
                };
                self.s.reg = w.registry.clone();
            }
            P::Tick(n) => {
                if n > 0 {
                    self.c.time.set(self.c.time.get() + n * 1_000_000_000);
                    self.c.height.set(self.c.height.get() + 1);
                    self.c.tx_index.set(0);
                }
            }
        }
    }

    /// what the next steps do from here, on a fork of the world that is thrown away again
    fn probe(&mut self, k: u64) -> Vec<String> {
        let saved = (self.rng.clone(), self.s.clone(), self.dead, self.c.time.get(), self.c.height.get(), self.c.tx_index.get(), self.c.w.borrow().clone(), (self.ever.clone(), self.fees.clone(), self.old_fees.clone()));
        // both runs start from the same leanings
        let leaning = (self.focus.take(), self.last.take(), self.aim.take(), std::mem::take(&mut self.plan), std::mem::take(&mut self.named));
        self.rng = Rng::new(k, 0, 0x77);
        let mut ctx = Ctx::new(None);
        let mut trace = vec![];
        for _ in 0..10 {
            self.step(&mut ctx);
            self.queries(&mut ctx);
            let last = ctx.log.last().cloned().unwrap_or_default();
            trace.push(format!("{last} | {:?} | {:?}", self.s, ctx.divs.drain(..).map(|d| (d.sig, d.detail)).collect::<Vec<_>>()));
        }
        self.rng = saved.0;
        self.s = saved.1;
        self.dead = saved.2;
        self.c.time.set(saved.3);
        self.c.height.set(saved.4);
        self.c.tx_index.set(saved.5);
        *self.c.w.borrow_mut() = saved.6;
        (self.ever, self.fees, self.old_fees) = saved.7;
        (self.focus, self.last, self.aim, self.plan, self.named) = leaning;
        trace
    }
    fn judge_probe(&mut self, (k, before): (u64, Vec<String>), ctx: &mut Ctx) {
        let after = self.probe(k);
        ctx.eval("X01", "behaviour after migration", Some(fp(&after)));
        if let Some((b, a)) = before.iter().zip(&after).find(|(b, a)| b != a) {
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            ctx.div(&["X01"], "migrate-changed-behaviour", format!("later behaviour differs: without migration {} / with migration {}", cut(b), cut(a)));
        }
    }
    fn migrate(&mut self, ctx: &mut Ctx) {
        let k = self.rng.next();
        let before = if ctx.prop.as_deref() == Some("X01") { Some((k, self.probe(k))) } else { None };
        ctx.log.push("migrate".into());
        // sometimes from an earlier release
        let key = b"contract_info".to_vec();
        let cur: Option<Value> = self.c.w.borrow().stores[&self.m].get(&key).and_then(|b| serde_json::from_slice(b).ok());
        if let (Some(v), 1) = (&cur, k % 2) {
            let mut v = v.clone();
            v["version"] = json!("0.0.1");
            self.c.w.borrow_mut().stores.get_mut(&self.m).unwrap().insert(key.clone(), serde_json::to_vec(&v).unwrap());
        }
        let r = self.c.migrate(&self.m);
        let now: Option<Value> = self.c.w.borrow().stores[&self.m].get(&key).and_then(|b| serde_json::from_slice(b).ok());
        if r.is_ok() && now != cur {
            ctx.div(&["X01"], "migrate-version", format!("after the migration the recorded version is {now:?}, the running code is {cur:?}"));
        }
        let got = self.observe(&[], ctx);
        ctx.eval("X01", "v2 migrate", Some(fp(&(self.s.asks.len(), self.s.bids.len(), self.s.cbids.len(), &self.s.cfg))));
        if let Err(e) = r {
            ctx.div(&["X01"], "migrate-failed", format!("migration failed: {e}"));
        }
        let same = got.asks == self.s.asks && got.bids == self.s.bids && got.cbids == self.s.cbids && got.bank == self.s.bank && got.owners == self.s.owners && got.cfg == self.s.cfg && got.denoms == self.s.denoms;
        if !same {
            ctx.div(&["X01"], "migrate-changed", "migration changed observable state".into());
        }
        self.s = got;
        if let Some(b) = before {
            self.judge_probe(b, ctx);
        }
    }

    // ------------------------------------------------------------ query monitor
    fn q_compare(&self, ctx: &mut Ctx, q: Value, want: Vec<Order>, kind: &str) {
        let got = self.q(ctx, q.clone());
        let g: Option<Vec<Order>> = got.as_array().map(|a| a.iter().filter_map(parse_order).collect());
        ctx.eval("M11", kind, if want.is_empty() { None } else { Some(fp(&(q.to_string(), &want))) });
        if g.as_ref() != Some(&want) {
            let w: Vec<String> = want.iter().map(|o| o.s()).collect();
            let g: Vec<String> = g.unwrap_or_default().iter().map(|o| o.s()).collect();
            ctx.div(&["M11"], "wrong-listing", format!("query {q}: expected {w:?} observed {g:?}"));
        }
    }
    fn queries(&mut self, ctx: &mut Ctx) {
        for _ in 0..3 {
            let coll = self.rng.pickc(&self.colls.clone());
            let token = self.rng.pickc(&self.tokens.clone());
            let creator = user(self.rng.below(NU));
            let denom = if self.rng.p(75) { self.coll_denom(&coll) } else { self.rng.pickc(&self.denoms.clone()) };
            let which = self.rng.below(9);
            if which < 3 {
                // price-ordered listings
                let items: BTreeMap<(u128, String), Order> = match which {
                    0 => self.s.asks.values().filter(|o| o.coll == coll && o.denom == denom).map(|o| ((o.amt, o.id.clone()), o.clone())).collect(),
                    1 => self.s.bids.values().filter(|o| o.coll == coll && o.denom == denom && o.token.as_deref() == Some(&token)).map(|o| ((o.amt, o.id.clone()), o.clone())).collect(),
                    _ => self.s.cbids.values().filter(|o| o.coll == coll && o.denom == denom).map(|o| ((o.amt, o.id.clone()), o.clone())).collect(),
                };
                let mk = |opts: Value| match which {
                    0 => json!({"asks_by_collection_denom":{"collection":coll,"denom":denom,"query_options":opts}}),
                    1 => json!({"bids_by_token_price":{"collection":coll,"token_id":token,"denom":denom,"query_options":opts}}),
                    _ => json!({"collection_bids_by_price":{"collection":coll,"denom":denom,"query_options":opts}}),
                };
                let name = ["asks_by_collection_denom", "bids_by_token_price", "collection_bids_by_price"][which];
                let keys: Vec<(u128, String)> = items.keys().cloned().collect();
                let bound = |r: &mut Rng| -> Option<((u128, String), bool)> {
                    if r.p(50) {
                        return None;
                    }
                    let k = if !keys.is_empty() && r.p(75) { r.pickc(&keys) } else { (r.below(300) as u128, if r.p(50) { String::new() } else { format!("{:064x}", r.next()) }) };
                    let k = if r.p(20) { (k.0, String::new()) } else { k };
                    Some((k, r.p(50)))
                };
                let min = bound(&mut self.rng);
                let max = bound(&mut self.rng);
                let desc = self.rng.pickc(&[None, Some(false), Some(true)]);
                let limit = self.rng.pickc(&[None, Some(0u32), Some(1), Some(2), Some(3), Some(5), Some(40), Some(99), Some(100), Some(101), Some(1000)]);
                let bj = |b: &Option<((u128, String), bool)>| b.as_ref().map(|(k, inc)| json!({if *inc {"inclusive"} else {"exclusive"}: {"id":k.1,"amount":k.0.to_string()}}));
                let opts = if self.rng.p(10) { Value::Null } else { json!({"limit":limit,"descending":desc,"min":bj(&min),"max":bj(&max)}) };
                let (min, max, desc, limit) = if opts.is_null() { (None, None, None, None) } else { (min, max, desc, limit) };
                let want = page(&items, min, max, desc.unwrap_or(false), limit.unwrap_or(10).min(100) as usize);
                self.q_compare(ctx, mk(opts), want, name);
                // full walk
                if self.rng.p(25) && !items.is_empty() {
                    let lim = if items.len() > 20 { self.rng.pickc(&[7usize, 10, 33, 100]) } else { 1 + self.rng.below(3) };
                    let d = self.rng.p(50);
                    let mut cur: Option<(u128, String)> = None;
                    let mut seen: Vec<Order> = vec![];
                    for _ in 0..items.len() + 2 {
                        let b = cur.as_ref().map(|k| json!({"exclusive":{"id":k.1,"amount":k.0.to_string()}}));
                        let o = if d { json!({"limit":lim,"descending":true,"max":b}) } else { json!({"limit":lim,"min":b}) };
                        let v = self.q(ctx, mk(o));
                        let pg: Vec<Order> = v.as_array().map(|a| a.iter().filter_map(parse_order).collect()).unwrap_or_default();
                        if pg.is_empty() {
                            break;
                        }
                        cur = pg.last().map(|o| (o.amt, o.id.clone()));
                        seen.extend(pg);
                    }
                    let want = page(&items, None, None, d, usize::MAX);
                    ctx.eval("M11", &format!("walk {name}"), Some(fp(&(&want, lim, d))));
                    if seen != want {
                        ctx.div(&["M11"], "walk", format!("paging {name} by {lim} desc={d}: visited {} of {}", seen.len(), want.len()));
                    }
                }
            } else if which < 6 {
                let i = which - 3;
                let book = [&self.s.asks, &self.s.bids, &self.s.cbids][i];
                let creator = if self.rng.p(70) {
                    let v: Vec<String> = book.values().filter(|o| o.coll == coll).map(|o| o.creator.clone()).collect();
                    if v.is_empty() { creator } else { self.rng.pickc(&v) }
                } else {
                    creator
                };
                let book = [&self.s.asks, &self.s.bids, &self.s.cbids][i];
                let items: BTreeMap<String, Order> = book.values().filter(|o| o.coll == coll && o.creator == creator).map(|o| (o.id.clone(), o.clone())).collect();
                let name = ["asks_by_creator_collection", "bids_by_creator_collection", "collection_bids_by_creator_collection"][i];
                let keys: Vec<String> = items.keys().cloned().collect();
                let bound = |r: &mut Rng| -> Option<(String, bool)> {
                    if keys.is_empty() || r.p(50) {
                        return None;
                    }
                    Some((r.pickc(&keys), r.p(50)))
                };
                let min = bound(&mut self.rng);
                let max = bound(&mut self.rng);
                let desc = self.rng.pickc(&[None, Some(false), Some(true)]);
                let limit = self.rng.pickc(&[None, Some(0u32), Some(1), Some(2), Some(5), Some(40), Some(99), Some(100), Some(101)]);
                let bj = |b: &Option<(String, bool)>| b.as_ref().map(|(k, inc)| json!({if *inc {"inclusive"} else {"exclusive"}: k}));
                let opts = json!({"limit":limit,"descending":desc,"min":bj(&min),"max":bj(&max)});
                let want = page(&items, min, max, desc.unwrap_or(false), limit.unwrap_or(10).min(100) as usize);
                self.q_compare(ctx, json!({name:{"creator":creator,"collection":coll,"query_options":opts}}), want, name);
            } else {
                // by ids
                let i = which - 6;
                let book = [&self.s.asks, &self.s.bids, &self.s.cbids][i];
                let mut ids: Vec<String> = vec![];
                let all: Vec<&String> = [&self.s.asks, &self.s.bids, &self.s.cbids].iter().flat_map(|b| b.keys()).collect();
                for _ in 0..self.rng.below(4) {
                    if all.is_empty() || self.rng.p(15) {
                        ids.push(format!("{:064x}", self.rng.next()));
                    } else {
                        ids.push((*self.rng.pick(&all)).clone());
                    }
                }
                let want: Vec<Order> = ids.iter().filter_map(|i| book.get(i)).cloned().collect();
                let name = ["asks", "bids", "collection_bids"][i];
                self.q_compare(ctx, json!({name: ids}), want, name);
            }
        }
    }
}

impl Engine for V2 {
    fn step(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        if self.plan.is_empty() && self.rng.p(4) {
            self.new_plan();
        }
        if !self.plan.is_empty() && self.rng.p(86) {
            let p = self.plan.pop_front().unwrap();
            self.play(p, ctx);
            return;
        }
        // some actions share a block
        if self.rng.p(60) {
            let dt = self.rng.pickc(&[1u64, 1_000_000_000, 5_000_000_000, 6_123_456_789, 60_000_000_000]);
            self.c.time.set(self.c.time.get() + dt);
            self.c.height.set(self.c.height.get() + 1);
            self.c.tx_index.set(0);
        }
        let ext = if self.profile == 4 { 25 } else { 14 };
        if self.rng.p(ext) {
            self.external(ctx);
            return;
        }
        if self.rng.p(if ctx.prop.as_deref() == Some("X01") { 8 } else { 1 }) {
            self.migrate(ctx);
        }
        if self.bulk && (ctx.wants("M11") || ctx.wants("X05")) && self.rng.p(85) {
            self.queries(ctx);
            return;
        }
        let a = match self.last.clone().filter(|_| self.rng.p(4)) {
            // the same message over again, by the same sender or by someone else
            Some(mut a) => {
                if !a.sender.is_empty() && self.rng.p(30) {
                    a.sender = self.rng.pickc(&self.users.clone());
                }
                a
            }
            None => self.gen_act(),
        };
        self.do_act(&a, ctx);
        self.last = Some(a);
        let qp = if ctx.prop.as_deref() == Some("M11") { 70 } else { 10 };
        if (ctx.prop.is_none() || ctx.wants("M11") || ctx.wants("X05")) && self.rng.p(qp) {
            self.queries(ctx);
        }
    }
    fn finish(&mut self, ctx: &mut Ctx) {
        // unfreeze, then every creator withdraws everything
        {
            let mut w = self.c.w.borrow_mut();
            for n in w.nfts.values_mut() {
                n.frozen = false;
                n.stuck.clear();
            }
        }
        let mk = |k: K, o: &Order| Act {
            k,
            sender: o.creator.clone(),
            id: o.id.clone(),
            coll: o.coll.clone(),
            token: o.token.clone().unwrap_or_default(),
            denom: o.denom.clone(),
            amt: o.amt,
            rcpt: None,
            finder: None,
            funds: vec![],
            cfg: None,
        };
        let mut todo: Vec<Act> = vec![];
        todo.extend(self.s.asks.values().map(|o| mk(RemAsk, o)));
        todo.extend(self.s.bids.values().map(|o| mk(RemBid, o)));
        todo.extend(self.s.cbids.values().map(|o| mk(RemCb, o)));
        for i in (1..todo.len()).rev() {
            let j = self.rng.below(i + 1);
            todo.swap(i, j);
        }
        for a in todo {
            self.do_act(&a, ctx);
        }
        let left: u128 = self.s.bank.iter().filter(|((w, _), _)| *w == self.m).map(|(_, n)| *n).sum();
        let toks = self.s.owners.values().filter(|o| **o == self.m).count();
        ctx.eval("M09", "drained", Some(fp(&ctx.log.len())));
        if left != 0 || toks != 0 {
            ctx.div(&["M09", "M01", "M02"], "drain", format!("after all orders are withdrawn the marketplace still holds {left} coins and {toks} tokens"));
        }
        if self.burst > 0 && ctx.wants("M08") && left == 0 && !self.dead {
            self.one_block(ctx);
        }
    }
}
