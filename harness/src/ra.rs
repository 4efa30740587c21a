//! Reserve auction engine: workload generator, reference model (oracle) and monitors.
use crate::chain::*;
use crate::common::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const NS: u64 = 1_000_000_000;
type Key = (String, String);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Auc {
    coll: String,
    token: String,
    seller: String,
    denom: String,
    reserve: u128,
    duration: u64,
    end: Option<u64>,
    rcpt: Option<String>,
    bid: Option<(String, String, u128)>, // bidder, denom, amount
    first: Option<u64>,
}
impl Auc {
    fn parse(v: &Value) -> Option<Auc> {
        let ts = |v: &Value| -> Option<Option<u64>> {
            if v.is_null() {
                Some(None)
            } else {
                v.as_str()?.parse().ok().map(Some)
            }
        };
        Some(Auc {
            coll: v["collection"].as_str()?.into(),
            token: v["token_id"].as_str()?.into(),
            seller: v["seller"].as_str()?.into(),
            denom: v["reserve_price"]["denom"].as_str()?.into(),
            reserve: v["reserve_price"]["amount"].as_str()?.parse().ok()?,
            duration: v["duration"].as_u64()?,
            end: ts(&v["end_time"])?,
            rcpt: v["seller_funds_recipient"].as_str().map(|s| s.to_string()),
            bid: if v["high_bid"].is_null() {
                None
            } else {
                Some((
                    v["high_bid"]["bidder"].as_str()?.into(),
                    v["high_bid"]["coin"]["denom"].as_str()?.into(),
                    v["high_bid"]["coin"]["amount"].as_str()?.parse().ok()?,
                ))
            },
            first: ts(&v["first_bid_time"])?,
        })
    }
    fn key(&self) -> Key {
        (self.coll.clone(), self.token.clone())
    }
    fn s(&self) -> String {
        format!(
            "{}/{} by {} reserve {}{} dur {} end {:?} high {:?} rcpt {:?}",
            short(&self.coll),
            self.token,
            short(&self.seller),
            self.reserve,
            self.denom,
            self.duration,
            self.end.map(|e| e as f64 / 1e9),
            self.bid.as_ref().map(|b| (short(&b.0), b.2, b.1.clone())),
            self.rcpt.as_ref().map(|r| short(r))
        )
    }
    fn min_bid(&self, inc: u128) -> Option<u128> {
        match &self.bid {
            None => Some(self.reserve),
            Some(b) => mul_ceil(b.2, ONE + inc),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Cfg {
    fair_burn: String,
    fee: u128,
    inc: u128,
    min_d: u64,
    max_d: u64,
    ext: u64,
    create: (String, u128),
    max_settle: u64,
    thr: u64,
    buf: u64,
    post: u64,
}
impl Cfg {
    fn parse(v: &Value) -> Option<Cfg> {
        Some(Cfg {
            fair_burn: v["fair_burn"].as_str()?.into(),
            fee: atomics(v["trading_fee_percent"].as_str()?),
            inc: atomics(v["min_bid_increment_percent"].as_str()?),
            min_d: v["min_duration"].as_u64()?,
            max_d: v["max_duration"].as_u64()?,
            ext: v["extend_duration"].as_u64()?,
            create: (v["create_auction_fee"]["denom"].as_str()?.into(), v["create_auction_fee"]["amount"].as_str()?.parse().ok()?),
            max_settle: v["max_auctions_to_settle_per_block"].as_u64()?,
            thr: v["halt_duration_threshold"].as_u64()?,
            buf: v["halt_buffer_duration"].as_u64()?,
            post: v["halt_postpone_duration"].as_u64()?,
        })
    }
    fn valid(&self) -> bool {
        self.inc > 0 && self.inc < ONE && self.min_d > 0 && self.ext > 0 && valid_addr(&self.fair_burn)
    }
    fn init_json(&self, mins: &[(String, u128)]) -> Value {
        let mut v = self.json(None);
        v["max_duration"] = json!(self.max_d);
        v["min_reserve_prices"] = mins.iter().map(|(d, n)| json!({"denom":d,"amount":n.to_string()})).collect();
        v
    }
    /// full json, or only the fields in `only`
    fn json(&self, only: Option<&BTreeSet<usize>>) -> Value {
        let all: Vec<(&str, Value)> = vec![
            ("fair_burn", json!(self.fair_burn)),
            ("trading_fee_percent", json!(dec_str(self.fee))),
            ("min_bid_increment_percent", json!(dec_str(self.inc))),
            ("min_duration", json!(self.min_d)),
            ("extend_duration", json!(self.ext)),
            ("create_auction_fee", json!({"denom":self.create.0,"amount":self.create.1.to_string()})),
            ("max_auctions_to_settle_per_block", json!(self.max_settle)),
            ("halt_duration_threshold", json!(self.thr)),
            ("halt_buffer_duration", json!(self.buf)),
            ("halt_postpone_duration", json!(self.post)),
        ];
        let mut m = serde_json::Map::new();
        for (i, (k, v)) in all.into_iter().enumerate() {
            if only.map_or(true, |o| o.contains(&i)) {
                m.insert(k.into(), v);
            }
        }
        Value::Object(m)
    }
}

#[derive(Clone, Debug)]
struct S {
    auc: BTreeMap<Key, Auc>,
    bank: Bank,
    owners: BTreeMap<Key, String>,
    cfg: Cfg,
    prev: u64,
    halts: Vec<(u64, u64)>,
    mins: BTreeMap<String, u128>,
}

#[derive(Clone, Debug)]
enum A {
    Create { coll: String, token: String, denom: String, amt: u128, dur: u64, rcpt: Option<String> },
    Update { coll: String, token: String, denom: String, amt: u128 },
    Cancel { coll: String, token: String },
    Bid { coll: String, token: String },
    Settle { coll: String, token: String },
    Begin,
    End,
    Params { cfg: Cfg, only: BTreeSet<usize> },
    SetMin { v: Vec<(String, u128)> },
    UnsetMin { v: Vec<String> },
}
impl A {
    fn name(&self) -> &'static str {
        match self {
            A::Create { .. } => "Create",
            A::Update { .. } => "UpdateReserve",
            A::Cancel { .. } => "Cancel",
            A::Bid { .. } => "Bid",
            A::Settle { .. } => "Settle",
            A::Begin => "BeginBlock",
            A::End => "EndBlock",
            A::Params { .. } => "Params",
            A::SetMin { .. } => "SetMin",
            A::UnsetMin { .. } => "UnsetMin",
        }
    }
    fn target(&self) -> Option<Key> {
        match self {
            A::Create { coll, token, .. } | A::Update { coll, token, .. } | A::Cancel { coll, token } | A::Bid { coll, token } | A::Settle { coll, token } => Some((coll.clone(), token.clone())),
            _ => None,
        }
    }
    fn msg(&self) -> Value {
        match self {
            A::Create { coll, token, denom, amt, dur, rcpt } => {
                json!({"create_auction":{"collection":coll,"token_id":token,"reserve_price":{"denom":denom,"amount":amt.to_string()},"duration":dur,"seller_funds_recipient":rcpt}})
            }
            A::Update { coll, token, denom, amt } => {
                json!({"update_reserve_price":{"collection":coll,"token_id":token,"reserve_price":{"denom":denom,"amount":amt.to_string()}}})
            }
            A::Cancel { coll, token } => json!({"cancel_auction":{"collection":coll,"token_id":token}}),
            A::Bid { coll, token } => json!({"place_bid":{"collection":coll,"token_id":token}}),
            A::Settle { coll, token } => json!({"settle_auction":{"collection":coll,"token_id":token}}),
            A::Begin => json!({"begin_block":{}}),
            A::End => json!({"end_block":{}}),
            A::Params { cfg, only } => json!({"update_params": cfg.json(Some(only))}),
            A::SetMin { v } => {
                let l: Vec<Value> = v.iter().map(|(d, n)| json!({"denom":d,"amount":n.to_string()})).collect();
                json!({"set_min_reserve_prices":{"min_reserve_prices":l}})
            }
            A::UnsetMin { v } => json!({"unset_min_reserve_prices":{"denoms":v}}),
        }
    }
    fn s(&self) -> String {
        match self {
            A::Create { coll, token, denom, amt, dur, rcpt } => {
                format!("Create {}/{token} reserve {amt}{denom} dur {dur} rcpt {:?}", short(coll), rcpt.as_ref().map(|r| short(r)))
            }
            A::Update { coll, token, denom, amt } => format!("UpdateReserve {}/{token} {amt}{denom}", short(coll)),
            A::Cancel { coll, token } => format!("Cancel {}/{token}", short(coll)),
            A::Bid { coll, token } => format!("Bid {}/{token}", short(coll)),
            A::Settle { coll, token } => format!("Settle {}/{token}", short(coll)),
            A::Begin => "BeginBlock".into(),
            A::End => "EndBlock".into(),
            A::Params { .. } | A::SetMin { .. } | A::UnsetMin { .. } => format!("{} {}", self.name(), self.msg()),
        }
    }
}

enum Exp {
    Reject(Vec<Tag>),
    Accept(S, Vec<Tag>),
    /// an ended auction that has no way to settle: (signature, tags)
    Blocked(String, Vec<Tag>),
    EndBlock,
}

enum Out {
    Settled(S),
    Postponed(S),
    Blocked(&'static str),
    Collection,
}

pub struct Ra {
    c: Chain,
    rng: Rng,
    profile: usize,
    m: String,
    users: Vec<String>,
    colls: Vec<String>,
    tokens: Vec<String>,
    denoms: Vec<String>,
    fb: [String; 2],
    s: S,
    dead: bool,
    bulk: bool,
    /// the last end block was held up
    idle: std::cell::Cell<u32>,
    stuck: std::cell::Cell<bool>,
    /// what the environment just changed: the next actions rather go there
    focus: Option<(Key, u32)>,
    last: Option<(A, String, Vec<Coin>)>,
    /// the rest of the scenario being played
    plan: VecDeque<P>,
}
/// one move of a scenario
#[derive(Clone, Debug)]
enum P {
    Do(A, String),
    /// so much more or less than the least bid there is room for
    Bid(Key, String, i64),
    /// the block ends, time passes until so long before or after the auction's end, another begins (0), or one of the two is left out
    End(Key, i64, u8),
    /// time passes by itself
    Wait(u64, u8),
    Halt(u64),
    Royalty(String, Option<(String, String)>),
    Approve(Key),
}
pub const PROPS: [Tag; 15] = ["X06", "R11", "R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09", "R10", "X01", "X02", "X05"];
const NU: usize = 6;

impl Ra {
    pub fn new(seed: u64, idx: u64, ctx: &mut Ctx) -> Self {
        let mut rng = Rng::new(seed, idx, 0xA0);
        let profile = (idx % 5) as usize;
        let c = Chain::new(epoch(idx) * NS + (rng.next() % NS));
        c.real_nft.set(real_nft(idx));
        let m = contract("reserve");
        let fb = [contract("fairburna"), contract("fairburnb")];
        for f in &fb {
            c.add(f, Kind::FairBurn);
        }
        let users: Vec<String> = (0..10).map(user).collect();
        let colls: Vec<String> = ["alpha", "beta", "gamma"].iter().map(|n| contract(n)).collect();
        let names = rng.pickc(&[["1", "2", "10", "3", "20", "100"], ["0", "00", "01", "1", "10", "010"], ["x", "x/1", "x/", "/x", "X", "-1"], ["a", "\u{e9}", " a", "A", "\u{1f600}", "e"], ["1", "2", "10", "3", "20", "100"]]);
        let tokens: Vec<String> = names.iter().take(if profile == 1 { 6 } else { 3 }).map(|s| s.to_string()).collect();
        let denoms: Vec<String> = vec![NATIVE.into(), "uatom".into(), "ibc/C4CFF46FD6DE35CA4CF4CE031E643C8FDC9BA4B99AE598E9B0ED98FE3A2319F9".into()];
        for u in &users {
            for d in &denoms {
                c.mint(u, d, 2_000_000_000_000_000_000_000_000_000_000_000);
            }
        }
        for (i, a) in colls.iter().enumerate() {
            c.add(a, Kind::Nft);
            let mut n = NftState { creator: users[8].clone(), ..Default::default() };
            let share = ["0.05", "0", "0.1", "0.000000000000000001", "0.95", "0.333333333333333333"][rng.below(6)];
            n.info = match i {
                0 => Some(CollInfo { start: None, royalty: Some((users[8].clone(), share.into())) }),
                1 => Some(CollInfo { start: Some(c.time.get() - 5), royalty: None }),
                _ => None,
            };
            for t in &tokens {
                n.owners.insert(t.clone(), users[rng.below(NU)].clone());
                if rng.p(85) {
                    n.approvals.insert((t.clone(), m.clone()), None);
                }
            }
            c.w.borrow_mut().nfts.insert(a.clone(), n);
        }
        let min_d = rng.pickc(&[1u64, 5, 10, 30]);
        let cfg = Cfg {
            fair_burn: fb[0].clone(),
            fee: if rng.p(55) { ONE / 50 } else { Self::gen_fee(&mut rng) },
            inc: Self::gen_inc(&mut rng),
            min_d,
            max_d: min_d + rng.pickc(&[0u64, 1, 20, 100]),
            ext: rng.pickc(&[1u64, 2, 5, 10, 60]),
            create: (rng.pickc(&denoms), rng.pickc(&[0u128, 1, 10, 500])),
            max_settle: rng.pickc(if profile == 1 { &[1u64, 1, 2, 3] } else { &[1u64, 3, 10, 200] }),
            thr: rng.pickc(&[10u64, 20, 60, 0]),
            buf: rng.pickc(&[0u64, 1, 15, 60]),
            post: rng.pickc(&[0u64, 1, 30, 120]),
        };
        let cfg = if cfg.thr == 0 && rng.p(85) { Cfg { thr: 30, ..cfg } } else { cfg };
        let mut mins: Vec<(String, u128)> = vec![(denoms[0].clone(), rng.pickc(&[0u128, 1, 50, 100]))];
        if rng.p(70) {
            mins.push((denoms[1].clone(), rng.pickc(&[1u128, 7])));
        }
        if let Err(e) = c.instantiate(&m, Kind::RA, &users[0], &cfg.init_json(&mins)) {
            ctx.div(&["R10"], "instantiate", e);
        }
        let s = S { auc: BTreeMap::new(), bank: Bank::new(), owners: BTreeMap::new(), cfg: cfg.clone(), prev: 0, halts: vec![], mins: mins.iter().cloned().collect() };
        let mut e = Ra { c, rng, profile, m, users, colls, tokens, denoms, fb, s, dead: false, bulk: bulk(idx).is_some(), idle: Default::default(), stuck: Default::default(), focus: None, last: None, plan: VecDeque::new() };
        if e.rng.p(30) {
            let mut bad = cfg.clone();
            let mut bm = mins.clone();
            match e.rng.below(5) {
                0 => bad.inc = 0,
                1 => bad.inc = e.rng.pickc(&[ONE, ONE + 1, 5 * ONE]),
                2 => bad.min_d = 0,
                3 => bad.ext = 0,
                _ => bm.push(bm[0].clone()),
            }
            let r = e.c.instantiate(&contract("bad"), Kind::RA, &e.users[0], &bad.init_json(&bm));
            ctx.eval("R10", "bad-instantiate", Some(fp(&(&bad, &bm))));
            if r.is_ok() {
                ctx.div(&["R10"], "bad-instantiate", format!("invalid configuration accepted at instantiation: {bad:?} {bm:?}"));
            }
        }
        if e.bulk {
            e.fill();
        }
        let o = e.observe(ctx);
        if o.cfg != e.s.cfg || o.mins != e.s.mins {
            ctx.div(&["R10"], "instantiate-config", format!("configuration differs from the instantiation message: {:?} vs {:?}", o.cfg, e.s.cfg));
        }
        e.s = o;
        e
    }
    /// very many auctions (and minimum prices)
    fn fill(&mut self) {
        let (ca, d) = (self.colls[0].clone(), self.s.mins.iter().next().map(|(d, n)| (d.clone(), *n)).unwrap());
        {
            let mut w = self.c.w.borrow_mut();
            for i in 0..125 {
                self.tokens.push(format!("{}", 100 + i * 7));
                let t = self.tokens.last().unwrap().clone();
                let n = w.nfts.get_mut(&ca).unwrap();
                n.owners.insert(t.clone(), user(self.rng.below(10) / 9));
                n.approvals.insert((t, self.m.clone()), None);
            }
        }
        let price = d.1.max(1) + 100;
        let cf: Vec<Coin> = if self.s.cfg.create.1 > 0 { vec![coin(self.s.cfg.create.1, &self.s.cfg.create.0)] } else { vec![] };
        for t in self.tokens.clone().iter().skip(3) {
            let o = self.c.w.borrow().nfts[&ca].owners.get(t).cloned().unwrap_or_default();
            let m = json!({"create_auction":{"collection":ca,"token_id":t,"reserve_price":{"denom":d.0,"amount":price.to_string()},"duration":self.s.cfg.min_d + self.rng.below(3) as u64,"seller_funds_recipient":null}});
            self.c.tx(&self.m, &o, &m, &cf).ok();
            if self.rng.p(92) {
                let m = json!({"place_bid":{"collection":ca,"token_id":t}});
                self.c.tx(&self.m, &user(3), &m, &[coin(price, &d.0)]).ok();
            }
        }
        let l: Vec<Value> = (0..118).map(|i| json!({"denom":format!("factory{i}"),"amount":(i + 1).to_string()})).collect();
        if self.c.sudo(&self.m, &json!({"set_min_reserve_prices":{"min_reserve_prices":l}})).is_ok() {
            for i in 0..118 {
                self.s.mins.insert(format!("factory{i}"), i + 1);
            }
        }
    }
    fn gen_fee(r: &mut Rng) -> u128 {
        match r.below(16) {
            0 => r.pickc(&[0, ONE, ONE * 9 / 10]),
            1 => 1,
            2..=3 => ONE / 3,
            4..=5 => 123_456_789_012_345_678,
            6..=8 => ONE / 10,
            9 => ONE / 100 + 1,
            _ => ONE / 100,
        }
    }
    fn gen_inc(r: &mut Rng) -> u128 {
        r.pickc(&[ONE / 100, ONE / 20, ONE / 10, ONE / 3, 1, ONE - 1, ONE / 2])
    }

    fn q(&self, ctx: &mut Ctx, v: Value) -> Value {
        match self.c.query(&self.m, &v) {
            Ok(x) => {
                crate::schema::judge(ctx, "ra", &v, &x);
                x
            }
            Err(e) => {
                ctx.div(&["R09"], "query-error", format!("query {v} failed: {e}"));
                Value::Null
            }
        }
    }
    fn toks(&self) -> Vec<Key> {
        let mut v = vec![];
        for c in &self.colls {
            for t in self.tokens.iter().map(|s| s.as_str()).chain(["99"]) {
                v.push((c.clone(), t.to_string()));
            }
        }
        v
    }
    fn observe(&self, ctx: &mut Ctx) -> S {
        let mut auc = BTreeMap::new();
        for k in self.toks() {
            let v = self.q(ctx, json!({"auction":{"collection":k.0,"token_id":k.1}}));
            if v.is_null() {
                continue;
            }
            match Auc::parse(&v) {
                Some(a) => {
                    if a.key() != k {
                        ctx.div(&["R09"], "wrong-auction", format!("auction query for {k:?} returned {v}"));
                    }
                    auc.insert(k, a);
                }
                None => ctx.div(&["R09"], "bad-json", format!("unparseable auction {v}")),
            }
        }
        let w = self.c.w.borrow();
        let mut owners = BTreeMap::new();
        for (c, n) in &w.nfts {
            for (t, o) in &n.owners {
                owners.insert((c.clone(), t.clone()), o.clone());
            }
        }
        let bank = w.bank.clone();
        drop(w);
        let cfg = Cfg::parse(&self.q(ctx, json!({"config":{}}))).unwrap_or_else(|| {
            ctx.div(&["R09", "R10"], "config", "unparseable config".into());
            self.s.cfg.clone()
        });
        let h = self.q(ctx, json!({"halt_manager":{}}));
        let halts = h["halt_windows"].as_array().map(|a| a.iter().map(|w| (w["start_time"].as_u64().unwrap_or(0), w["end_time"].as_u64().unwrap_or(0))).collect()).unwrap_or_default();
        let mut mins: BTreeMap<String, u128> = BTreeMap::new();
        let mut cur: Option<String> = None;
        for _ in 0..20 {
            let mv = self.q(ctx, json!({"min_reserve_prices":{"query_options":{"limit":100,"start_after":cur.as_ref().map(|c|json!({"denom":c}))}}}));
            let a = mv.as_array().cloned().unwrap_or_default();
            for c in &a {
                mins.insert(c["denom"].as_str().unwrap_or("").to_string(), c["amount"].as_str().and_then(|x| x.parse().ok()).unwrap_or(u128::MAX));
            }
            if a.len() < 25 {
                break;
            }
            cur = a.last().and_then(|c| c["denom"].as_str().map(|s| s.to_string()));
        }
        S { auc, bank, owners, cfg, prev: h["prev_block_time"].as_u64().unwrap_or(0), halts, mins }
    }

    // ------------------------------------------------------------ reference model
    fn now(&self) -> u64 {
        self.c.time.get()
    }
    fn secs(&self) -> u64 {
        self.now() / NS
    }
    fn tradable(&self, c: &str) -> bool {
        let w = self.c.w.borrow();
        match w.nfts.get(c).and_then(|n| n.info.as_ref()).and_then(|i| i.start) {
            Some(t) => t <= self.c.time.get(),
            None => true,
        }
    }
    /// settles an ended auction on `s`
    fn settle(&self, s: &S, k: &Key) -> Out {
        let mut s = s.clone();
        let a = s.auc[k].clone();
        let end = a.end.unwrap();
        let es = end / NS;
        if s.halts.iter().any(|(st, en)| es > *st && es < *en) {
            s.auc.get_mut(k).unwrap().end = Some(self.now() + s.cfg.post * NS);
            return Out::Postponed(s);
        }
        let (bidder, denom, price) = a.bid.clone().unwrap();
        s.auc.remove(k);
        let w = self.c.w.borrow();
        let roy = w.nfts.get(&k.0).and_then(|n| n.info.as_ref()).and_then(|i| i.royalty.clone());
        drop(w);
        let fee = match mul_ceil(price, s.cfg.fee) {
            Some(x) => x,
            None => return Out::Blocked("fees-exceed-bid"),
        };
        let r = roy.map(|(to, sh)| (to, mul_ceil(price, atomics(&sh)).unwrap_or(u128::MAX)));
        let ra = r.as_ref().map_or(0, |x| x.1);
        let Some(rest) = price.checked_sub(fee).and_then(|x| x.checked_sub(ra)) else { return Out::Blocked("fees-exceed-bid") };
        if !debit(&mut s.bank, &self.m, &denom, price) {
            return Out::Blocked("underfunded");
        }
        credit(&mut s.bank, &s.cfg.fair_burn.clone(), &denom, fee);
        if let Some((to, n)) = r {
            credit(&mut s.bank, &to, &denom, n);
        }
        credit(&mut s.bank, &a.rcpt.clone().unwrap_or(a.seller.clone()), &denom, rest);
        if !self.c.can_transfer(&k.0, &k.1, &self.m) {
            return Out::Collection;
        }
        s.owners.insert(k.clone(), bidder);
        if fee == 0 {
            return Out::Blocked("zero-trading-fee");
        }
        Out::Settled(s)
    }
    /// ended auctions, grouped by order
    fn due(&self) -> Vec<&Auc> {
        let mut v: Vec<&Auc> = self.s.auc.values().filter(|a| a.end.map_or(false, |e| e <= self.now())).collect();
        v.sort_by_key(|a| (a.end.unwrap() / NS, a.key()));
        v
    }

    fn expect(&self, a: &A, sender: &str, funds: &[Coin]) -> Exp {
        let s = &self.s;
        let mut p = s.clone();
        let mut bad: Vec<Tag> = vec![];
        for c in funds {
            if !debit(&mut p.bank, sender, &c.denom, c.amount.u128()) {
                return Exp::Reject(vec![]);
            }
            credit(&mut p.bank, &self.m, &c.denom, c.amount.u128());
        }
        let reserve_ok = |denom: &str, amt: u128| s.mins.get(denom).map_or(false, |m| amt >= *m);
        match a {
            A::Create { coll, token, denom, amt, dur, rcpt } => {
                if rcpt.as_ref().map_or(false, |r| !valid_addr(r)) {
                    bad.push("R08");
                }
                let k = (coll.clone(), token.clone());
                if s.owners.get(&k).map_or(true, |o| o != sender) || !self.c.approved(coll, token, &self.m) || s.auc.contains_key(&k) || !self.tradable(coll) {
                    bad.push("R08");
                }
                if !reserve_ok(denom, *amt) || *dur < s.cfg.min_d || *dur > s.cfg.max_d {
                    bad.push("R08");
                }
                let (fd, fa) = &s.cfg.create;
                if *fa == 0 {
                    if !funds.is_empty() {
                        bad.extend(["R08", "R01"]);
                    }
                } else if funds.len() != 1 || funds[0].denom != *fd || funds[0].amount.u128() != *fa {
                    bad.push("R08");
                    if !funds.is_empty() {
                        bad.push("R01");
                    }
                } else {
                    debit(&mut p.bank, &self.m, fd, *fa);
                    credit(&mut p.bank, &s.cfg.fair_burn, fd, *fa);
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if !self.c.can_transfer(coll, token, &self.m) {
                    return Exp::Reject(vec!["R01"]);
                }
                p.owners.insert(k.clone(), self.m.clone());
                p.auc.insert(
                    k,
                    Auc { coll: coll.clone(), token: token.clone(), seller: sender.into(), denom: denom.clone(), reserve: *amt, duration: *dur, end: None, rcpt: rcpt.clone(), bid: None, first: None },
                );
                Exp::Accept(p, vec!["R08"])
            }
            A::Update { .. } | A::Cancel { .. } => {
                let k = a.target().unwrap();
                if !funds.is_empty() {
                    bad.push("R01");
                }
                let Some(old) = s.auc.get(&k) else {
                    bad.push("R05");
                    return Exp::Reject(bad);
                };
                if old.seller != sender || old.first.is_some() {
                    bad.push("R05");
                }
                if let A::Update { denom, amt, .. } = a {
                    if !reserve_ok(denom, *amt) {
                        bad.extend(["R05", "R08"]);
                    }
                    let x = p.auc.get_mut(&k).unwrap();
                    x.denom = denom.clone();
                    x.reserve = *amt;
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if let A::Cancel { .. } = a {
                    if !self.c.can_transfer(&k.0, &k.1, &self.m) {
                        return Exp::Reject(vec!["R01"]);
                    }
                    p.auc.remove(&k);
                    p.owners.insert(k, old.seller.clone());
                }
                Exp::Accept(p, vec!["R05"])
            }
            A::Bid { .. } => {
                let k = a.target().unwrap();
                let Some(old) = s.auc.get(&k) else { return Exp::Reject(vec!["R02", "R01"]) };
                if funds.len() != 1 || funds[0].denom != old.denom || funds[0].amount.is_zero() {
                    bad.extend(["R02", "R01"]);
                }
                if old.seller == sender {
                    bad.push("R02");
                }
                let Some(min) = old.min_bid(s.cfg.inc) else { return Exp::Reject(vec!["R02"]) };
                let paid = funds.first().map_or(0, |c| c.amount.u128());
                if paid < min {
                    bad.push("R02");
                }
                if old.end.map_or(false, |e| e / NS <= self.secs()) {
                    bad.extend(["R02", "R04"]);
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                if let Some((b, d, n)) = &old.bid {
                    if !debit(&mut p.bank, &self.m, d, *n) {
                        return Exp::Reject(vec!["R01"]);
                    }
                    credit(&mut p.bank, b, d, *n);
                }
                let x = p.auc.get_mut(&k).unwrap();
                x.bid = Some((sender.into(), old.denom.clone(), paid));
                match old.end {
                    None => {
                        x.first = Some(self.now());
                        x.end = Some(self.now() + old.duration * NS);
                    }
                    Some(e) => {
                        if e / NS - self.secs() < s.cfg.ext {
                            x.end = Some(self.now() + s.cfg.ext * NS);
                        }
                    }
                }
                let mut t = vec!["R02"];
                if s.mins.get(&old.denom).map_or(true, |m| *m > old.reserve) || old.duration < s.cfg.min_d || old.duration > s.cfg.max_d {
                    t.push("R10"); // a running auction keeps its own terms
                }
                Exp::Accept(p, t)
            }
            A::Settle { .. } => {
                let k = a.target().unwrap();
                if !funds.is_empty() {
                    bad.push("R01");
                }
                let Some(old) = s.auc.get(&k) else {
                    bad.push("R03");
                    return Exp::Reject(bad);
                };
                if old.end.map_or(true, |e| e > self.now()) {
                    bad.extend(["R04", "R03"]);
                }
                if !bad.is_empty() {
                    return Exp::Reject(bad);
                }
                match self.settle(&p, &k) {
                    Out::Settled(p) => Exp::Accept(p, vec!["R03", "R07"]),
                    Out::Postponed(p) => Exp::Accept(p, vec!["R07"]),
                    Out::Blocked(w) => Exp::Blocked(format!("settle-blocked:{w}"), vec!["R03"]),
                    Out::Collection => Exp::Reject(vec!["R03"]),
                }
            }
            A::Begin => {
                let now = self.secs();
                if s.prev > 0 && now - s.prev >= s.cfg.thr {
                    p.halts.push((s.prev, now + s.cfg.buf));
                }
                p.prev = now;
                Exp::Accept(p, vec!["R07"])
            }
            A::End => Exp::EndBlock,
            A::Params { cfg, .. } => {
                if !cfg.valid() {
                    return Exp::Reject(vec!["R10"]);
                }
                p.cfg = cfg.clone();
                Exp::Accept(p, vec!["R10"])
            }
            A::SetMin { v } => {
                for (d, n) in v {
                    if p.mins.insert(d.clone(), *n).is_some() {
                        return Exp::Reject(vec!["R10"]);
                    }
                }
                Exp::Accept(p, vec!["R10"])
            }
            A::UnsetMin { v } => {
                for d in v {
                    if p.mins.remove(d).is_none() {
                        return Exp::Reject(vec!["R10"]);
                    }
                }
                Exp::Accept(p, vec!["R10"])
            }
        }
    }

    // ------------------------------------------------------------ judging
    fn compare(&self, a: &A, p: &S, got: &S, ctx: &mut Ctx, s0: &str) {
        let tgt = a.target();
        let settling = matches!(a, A::Settle { .. } | A::End);
        let mut out: Vec<(Vec<Tag>, String)> = vec![];
        let keys: BTreeSet<&Key> = p.auc.keys().chain(got.auc.keys()).collect();
        for k in keys {
            let mine = tgt.as_ref() == Some(k) || (matches!(a, A::End) && self.s.auc.get(k).map_or(false, |x| x.end.map_or(false, |e| e <= self.now())));
            match (p.auc.get(k), got.auc.get(k)) {
                (Some(e), Some(g)) if e == g => {}
                (Some(e), Some(g)) => {
                    let mut t: Vec<Tag> = vec![];
                    if !mine {
                        t.push("X02");
                    }
                    if matches!(a, A::Create { .. }) && mine {
                        t.push("R08");
                    }
                    if e.end != g.end {
                        t.push("R04");
                        if settling {
                            t.push("R07");
                        }
                    }
                    if e.first != g.first {
                        t.push("R04");
                    }
                    if e.bid != g.bid {
                        t.push("R02");
                        if settling {
                            t.push("R07");
                        }
                    }
                    if (&e.seller, &e.denom, e.reserve, &e.rcpt, &e.coll, &e.token, e.duration) != (&g.seller, &g.denom, g.reserve, &g.rcpt, &g.coll, &g.token, g.duration) {
                        t.push("R05");
                    }
                    if matches!(a, A::Params { .. } | A::SetMin { .. } | A::UnsetMin { .. }) {
                        t.push("R10");
                    }
                    out.push((t, format!("auction: expected {} observed {}", e.s(), g.s())));
                }
                (Some(e), None) => {
                    let mut t: Vec<Tag> = if mine { vec![] } else { vec!["X02"] };
                    match a {
                        A::Create { .. } => t.extend(["R08", "R01"]),
                        A::Bid { .. } => t.push("R02"),
                        A::Update { .. } => t.push("R05"),
                        A::Settle { .. } | A::End => t.extend(["R07", "R03"]),
                        _ => t.push("R05"),
                    }
                    out.push((t, format!("auction vanished: {}", e.s())));
                }
                (None, Some(g)) => {
                    let mut t: Vec<Tag> = vec![];
                    match a {
                        A::Cancel { .. } => t.push("R05"),
                        A::Settle { .. } | A::End => t.extend(["R03", "R07"]),
                        _ => t.extend(["X02", "R08"]),
                    }
                    out.push((t, format!("auction still open: {}", g.s())));
                }
                _ => {}
            }
        }
        for (who, d, e, g) in bank_diff(&p.bank, &got.bank) {
            let mut t: Vec<Tag> = vec![];
            if who == self.m {
                t.push("R01");
            }
            match a {
                A::Create { .. } => {
                    if self.fb.contains(&who) || who == self.m {
                        t.push("R08");
                    } else {
                        t.push("X02");
                    }
                }
                A::Bid { .. } => t.push("R02"),
                A::Settle { .. } | A::End => t.push("R03"),
                _ => t.push("X02"),
            }
            if self.s.bank.get(&(who.clone(), d.clone())).copied().unwrap_or(0) == e && !t.contains(&"X02") {
                t.push("X02");
            }
            out.push((t, format!("balance of {} in {}: expected {} observed {}", short(&who), d, e, g)));
        }
        for (k, e) in &p.owners {
            let g = got.owners.get(k);
            if g != Some(e) {
                let mut t: Vec<Tag> = vec!["R01"];
                if self.s.owners.get(k) == Some(e) {
                    t.push("X02");
                }
                match a {
                    A::Create { .. } => t.push("R08"),
                    A::Cancel { .. } => t.push("R05"),
                    A::Settle { .. } | A::End => t.push("R03"),
                    _ => t.push("X02"),
                }
                out.push((t, format!("owner of {}/{}: expected {} observed {:?}", short(&k.0), k.1, short(e), g.map(|x| short(x)))));
            }
        }
        if p.cfg != got.cfg {
            out.push((vec!["R10"], format!("config: expected {:?} observed {:?}", p.cfg, got.cfg)));
        }
        if p.mins != got.mins {
            out.push((vec!["R10"], format!("minimum reserve prices: expected {:?} observed {:?}", p.mins, got.mins)));
        }
        if p.prev != got.prev {
            out.push((vec!["R07"], format!("previous block time: expected {} observed {}", p.prev, got.prev)));
        }
        if p.halts != got.halts {
            out.push((vec!["R07"], format!("halt windows: expected {:?} observed {:?}", p.halts, got.halts)));
        }
        for (t, d) in out {
            ctx.div(&t, "wrong-effect", format!("{s0}: {d}"));
        }
    }

    fn judge_end_block(&self, r: &Result<TxOk, String>, got: &S, ctx: &mut Ctx, s0: &str) {
        let due = self.due();
        let limit = (self.s.cfg.max_settle as usize).min(due.len());
        let shape: Vec<(u64, bool)> = due.iter().map(|a| (self.secs() - a.end.unwrap() / NS, a.bid.is_some())).collect();
        let same_sec = self.s.auc.values().any(|a| a.end.map_or(false, |e| e > self.now() && e / NS == self.secs()));
        ctx.eval(
            "R06",
            &format!("end block due={} processed={} pending-same-second={}", due.len().min(4), limit.min(4), same_sec),
            if due.is_empty() && !same_sec { None } else { Some(fp(&(&shape, limit, same_sec))) },
        );
        if same_sec {
            ctx.count("ra auctions ending later in the same second");
        }
        if due.len() > limit {
            ctx.count("ra end block with backlog");
        }
        // what each due auction should become
        if let Err(e) = r {
            // may fail only if something in the batch cannot be settled
            let last = due.get(limit.saturating_sub(1)).map(|a| a.end.unwrap() / NS);
            let mut cause: Option<&str> = None;
            for a in due.iter().filter(|a| Some(a.end.unwrap() / NS) <= last && limit > 0) {
                match self.settle(&self.s, &a.key()) {
                    Out::Blocked(w) => cause = Some(w),
                    Out::Collection => cause = Some("transfer-refused"),
                    _ => {}
                }
            }
            self.stuck.set(self.stuck.get() || cause.is_some());
            match cause {
                Some(w) => ctx.div(&["R06"], &format!("end-block-poisoned:{w}"), format!("{s0}: {} due auctions not processed because one cannot be settled ({w}): {e}", due.len())),
                None => {
                    let mut t: Vec<Tag> = vec!["R06"];
                    if due.iter().take(limit).any(|a| matches!(self.settle(&self.s, &a.key()), Out::Postponed(_))) {
                        t.push("R07");
                    }
                    if due.iter().take(limit).any(|a| matches!(self.settle(&self.s, &a.key()), Out::Settled(_))) {
                        t.push("R03");
                    }
                    ctx.div(&t, "end-block-failed", format!("{s0} failed although every due auction can be processed ({} due): {e}", due.len()));
                }
            }
            self.unchanged(got, ctx, s0);
            return;
        }
        // which auctions were processed
        let changed: BTreeSet<Key> = self.s.auc.iter().filter(|(k, a)| got.auc.get(*k) != Some(*a)).map(|(k, _)| k.clone()).collect();
        let mut p = self.s.clone();
        let mut noop = 0;
        let mut failing = false;
        for a in &due {
            let k = a.key();
            let o = self.settle(&p, &k);
            if let Out::Postponed(x) = &o {
                if x.auc[&k] == self.s.auc[&k] {
                    noop += 1;
                }
            }
            if !changed.contains(&k) {
                continue;
            }
            match o {
                Out::Settled(x) => {
                    ctx.eval("R03", "end-block settlement", Some(fp(&(a.bid.as_ref().map(|b| b.2), &p.cfg, &a.coll))));
                    p = x;
                }
                Out::Postponed(x) => {
                    ctx.eval("R07", "end-block postponement", Some(fp(&(a.end.map(|e| self.now() - e), &p.cfg, p.halts.len()))));
                    p = x;
                }
                _ => failing = true,
            }
        }
        for k in &changed {
            let a = &self.s.auc[k];
            if a.end.map_or(true, |e| e > self.now()) {
                ctx.div(&["R06", "R04"], "premature", format!("{s0} touched an auction that has not ended: {}", a.s()));
            }
        }
        let done: Vec<&&Auc> = due.iter().filter(|a| changed.contains(&a.key())).collect();
        let todo: Vec<&&Auc> = due.iter().filter(|a| !changed.contains(&a.key())).collect();
        if done.len() > limit || done.len() + noop < limit {
            ctx.div(&["R06"], "count", format!("{s0}: {} auctions due, limit {}, processed {}", due.len(), self.s.cfg.max_settle, done.len()));
        } else if noop == 0 {
            if let (Some(l), Some(f)) = (done.iter().map(|a| a.end.unwrap() / NS).max(), todo.iter().map(|a| a.end.unwrap() / NS).min()) {
                if l > f {
                    ctx.div(&["R06"], "order", format!("{s0}: an auction that ended at {f} was left while one that ended at {l} was processed"));
                }
            }
        }
        // a window may be dropped only when nothing can depend on it any more
        p.halts = got.halts.clone();
        let mut left = self.s.halts.clone();
        let mut ok = true;
        for w in &got.halts {
            match left.iter().position(|x| x == w) {
                Some(i) => {
                    left.remove(i);
                }
                None => ok = false,
            }
        }
        if !ok {
            ctx.div(&["R07"], "halt-windows", format!("{s0}: halt windows {:?} became {:?}", self.s.halts, got.halts));
        }
        for (st, en) in left {
            ctx.eval("R07", "halt window dropped", Some(fp(&(self.secs() - st, self.secs() as i64 - en as i64, due.len()))));
            let dep = self.s.auc.values().find(|a| a.end.map_or(false, |e| e <= self.now() && e / NS > st && e / NS < en) && got.auc.get(&a.key()) == Some(a));
            if self.secs() < en || dep.is_some() {
                ctx.div(
                    &["R07"],
                    "window-dropped-early",
                    format!("{s0}: halt window ({st},{en}) dropped at {} while {}", self.secs(), dep.map_or("its buffer has not passed".to_string(), |a| format!("{} ended inside it", a.s()))),
                );
            }
        }
        // and it is dropped (one per block is enough) when nothing is due and every window has passed
        if due.is_empty() && !self.s.halts.is_empty() && self.s.halts.iter().all(|w| w.1 <= self.secs()) && got.halts == self.s.halts {
            self.idle.set(self.idle.get() + 1);
            ctx.eval("R07", "passed halt window kept", None);
            if self.idle.get() >= 3 {
                ctx.div(&["R07"], "window-kept", format!("{s0}: halt windows {:?} still there after {} idle end blocks", got.halts, self.idle.get()));
            }
        } else {
            self.idle.set(0);
        }
        if !failing {
            self.compare(&A::End, &p, got, ctx, s0);
        }
    }

    fn unchanged(&self, got: &S, ctx: &mut Ctx, s0: &str) {
        let g = &self.s;
        let same = g.auc == got.auc && g.bank == got.bank && g.owners == got.owners && g.cfg == got.cfg && g.halts == got.halts && g.prev == got.prev && g.mins == got.mins;
        ctx.eval("X02", "ra failed action", Some(fp(&s0)));
        if !same {
            ctx.div(&["X02"], "failed-action-trace", format!("failed action left a trace: {s0}"));
        }
    }

    fn invariants(&self, s: &S, ctx: &mut Ctx, after: &str) {
        let mut owed: BTreeMap<&str, u128> = BTreeMap::new();
        for a in s.auc.values() {
            if let Some((_, d, n)) = &a.bid {
                *owed.entry(d).or_default() += *n;
            }
            if a.bid.is_some() != a.end.is_some() || a.bid.is_some() != a.first.is_some() {
                ctx.div(&["R04"], "clock", format!("after {after}: clock and bid disagree: {}", a.s()));
            }
        }
        let mut bad = vec![];
        let mut h = vec![];
        let held: BTreeMap<&str, u128> = s.bank.iter().filter(|((w, _), _)| *w == self.m).map(|((_, d), n)| (d.as_str(), *n)).collect();
        for d in &self.denoms {
            let o = owed.get(d.as_str()).copied().unwrap_or(0);
            let n = held.get(d.as_str()).copied().unwrap_or(0);
            h.push(o);
            if o != n {
                bad.push(format!("{d}: holds {n}, high bids total {o}"));
            }
        }
        ctx.eval("R01", "escrow", if h.iter().any(|x| *x > 0) { Some(fp(&h)) } else { None });
        if !bad.is_empty() {
            ctx.div(&["R01"], "escrow", format!("after {after}: {}", bad.join("; ")));
        }
        for (k, o) in &s.owners {
            if (*o == self.m) != s.auc.contains_key(k) {
                ctx.div(&["R01"], "custody", format!("after {after}: token {}/{} owned by {} auction {}", short(&k.0), k.1, short(o), s.auc.contains_key(k)));
            }
        }
        ctx.eval("R01", "custody", if s.auc.is_empty() { None } else { Some(fp(&s.owners)) });
    }

    fn do_act(&mut self, a: &A, sender: &str, funds: &[Coin], ctx: &mut Ctx) {
        let exp = self.expect(a, sender, funds);
        let f: Vec<String> = funds.iter().map(|c| c.to_string()).collect();
        let sudo = matches!(a, A::Begin | A::End | A::Params { .. } | A::SetMin { .. } | A::UnsetMin { .. });
        let s0 = if sudo { a.s() } else { format!("{} {} funds[{}]", short(sender), a.s(), f.join(",")) };
        ctx.log.push(format!("t={}.{:09} {}", self.secs(), self.now() % NS, s0));
        let r = if sudo { self.c.sudo(&self.m, &a.msg()) } else { self.c.tx(&self.m, sender, &a.msg(), funds) };
        let res = match &r {
            Ok(_) => "ok".to_string(),
            Err(e) => format!("ERR {}", e.chars().take(90).collect::<String>()),
        };
        ctx.log.last_mut().unwrap().push_str(&format!(" -> {res}"));
        if ctx.prop.is_none() && res.starts_with("ERR") && !s0.starts_with('{') {
            ctx.count(&format!("why {} {}", s0.split(" ").nth(1).unwrap_or(""), res.chars().take(60).filter(|c| !c.is_ascii_digit()).collect::<String>()));
        }
        ctx.count(&format!("ra {} {}", a.name(), if r.is_ok() { "ok" } else { "rejected" }));
        // the host has undone a failed action to the last byte: one in four is looked at all the same
        let got = if r.is_err() && self.c.tx_index.get() % 4 != 0 { self.s.clone() } else { self.observe(ctx) };
        self.evals(a, sender, funds, &exp, r.is_ok(), ctx);
        match (&exp, &r) {
            (Exp::EndBlock, _) => self.judge_end_block(&r, &got, ctx, &s0),
            (Exp::Reject(t), Ok(_)) => {
                if !t.is_empty() {
                    ctx.div(t, "accepted-invalid", format!("accepted although it must be rejected ({t:?}): {s0}"));
                }
            }
            (Exp::Reject(_), Err(_)) => self.unchanged(&got, ctx, &s0),
            (Exp::Blocked(w, t), Err(e)) => {
                ctx.div(t, w, format!("an ended auction cannot be settled: {s0}: {e}"));
                self.unchanged(&got, ctx, &s0);
            }
            (Exp::Blocked(..), Ok(_)) => {
                let k = a.target().unwrap();
                if got.auc.contains_key(&k) || Some(&self.s.auc[&k].bid.as_ref().unwrap().0) != got.owners.get(&k) {
                    ctx.div(&["R03"], "wrong-effect", format!("{s0}: the winner did not get the token"));
                }
            }
            (Exp::Accept(_, t), Err(e)) => {
                if !t.is_empty() {
                    ctx.div(t, "rejected-valid", format!("rejected although valid: {s0}: {e}"));
                }
                self.unchanged(&got, ctx, &s0);
            }
            (Exp::Accept(p, _), Ok(_)) => self.compare(a, p, &got, ctx, &s0),
        }
        if let Ok(o) = &r {
            self.invariants(&got, ctx, &s0);
            self.replay_log(a, &o.events, &got, ctx, &s0);
        }
        // terms no action may ever change
        for (k, o) in &self.s.auc {
            if let Some(g) = got.auc.get(k) {
                if (&o.seller, &o.rcpt, o.duration) != (&g.seller, &g.rcpt, g.duration) || (o.first.is_some() && (o.reserve, &o.denom, o.first) != (g.reserve, &g.denom, g.first)) {
                    ctx.div(&["R05"], "terms", format!("{s0}: auction terms changed from {} to {}", o.s(), g.s()));
                }
                ctx.eval("R05", "terms kept", if o.first.is_some() { Some(fp(&(a.name(), k, o.bid.is_some(), g == o))) } else { None });
            }
        }
        self.s = got;
    }

    /// Event-log checker: the state before the action plus the events it emitted must give the state after it.
    fn replay_log(&self, a: &A, evs: &[Ev], got: &S, ctx: &mut Ctx, s0: &str) {
        let mut bad: Vec<String> = vec![];
        let mine: Vec<&Ev> = evs.iter().filter(|e| e.from == self.m).collect();
        // what the log tells about an auction: seller, reserve price, recipient, high bid, end
        type Facts = (String, (u128, String), Option<String>, Option<(String, (u128, String))>, Option<u64>);
        let facts = |x: &Auc| -> Facts { (x.seller.clone(), (x.reserve, x.denom.clone()), x.rcpt.clone(), x.bid.as_ref().map(|b| (b.0.clone(), (b.2, b.1.clone()))), x.end) };
        let mut auc: BTreeMap<Key, Facts> = self.s.auc.iter().map(|(k, x)| (k.clone(), facts(x))).collect();
        let mut mins = self.s.mins.clone();
        let mut cfg = self.s.cfg.clone();
        let mut halts = vec![];
        let no = || (u128::MAX, "?".to_string());
        let when = |e: &Ev, k: &str| -> Option<u64> {
            let v = e.s(k);
            let (s, n) = v.split_once('.').unwrap_or((v.as_str(), "0"));
            Some(s.parse::<u64>().ok()?.saturating_mul(NS).saturating_add(n.parse().ok()?))
        };
        for e in &mine {
            let k: Key = (e.s("collection"), e.s("token_id"));
            let open = auc.get(&k).cloned();
            let mut miss = false;
            match e.ty.as_str() {
                "create-auction" => {
                    miss = open.is_some();
                    auc.insert(k, (e.s("seller"), e.coin("reserve_price").unwrap_or_else(no), e.get("seller_funds_recipient").map(|x| x.to_string()), None, None));
                }
                "update-reserve-price" => {
                    miss = auc.get_mut(&k).map(|x| x.1 = e.coin("reserve_price").unwrap_or_else(no)).is_none();
                }
                "cancel-auction" => miss = auc.remove(&k).is_none(),
                "place-bid" => {
                    if let Some(x) = auc.get_mut(&k) {
                        if (e.s("first_bid") == "true") != x.3.is_none() || e.s("seller") != x.0 {
                            bad.push(format!("{} on {x:?}", e.show()));
                        }
                        if let Some((who, c)) = &x.3 {
                            if e.s("previous_bidder") != *who || e.coin("previous_bid_amount").as_ref() != Some(c) {
                                bad.push(format!("{}: the previous bid was {c:?} by {who}", e.show()));
                            }
                        }
                        x.3 = Some((e.s("bidder"), e.coin("bid_amount").unwrap_or_else(no)));
                        x.4 = when(e, "auction_end_time");
                    } else {
                        miss = true;
                    }
                }
                "postpone-auction" => miss = auc.get_mut(&k).map(|x| x.4 = when(e, "auction_end_time")).is_none(),
                "settle-auction" => {
                    miss = true;
                    if let Some(x) = auc.remove(&k) {
                        miss = false;
                        let b = x.3.clone().unwrap_or_default();
                        if e.s("seller") != x.0 || e.s("bidder") != b.0 || (e.num("bid_amount").unwrap_or(u128::MAX), e.s("bid_denom")) != b.1 {
                            bad.push(format!("{}: the auction was {x:?}", e.show()));
                        }
                        if got.owners.get(&k).cloned() != e.get("bidder").map(|x| x.to_string()) {
                            bad.push(format!("{}: the token went to {:?}", e.show(), got.owners.get(&k)));
                        }
                    }
                }
                "set-min-reserve-price" => {
                    mins.insert(e.s("denom"), e.num("amount").unwrap_or(u128::MAX));
                }
                "unset-min-reserve-price" => miss = mins.remove(&e.s("denom")).is_none(),
                "sudo-update-params" => {
                    let mut n = |k: &str, f: &mut u64| {
                        if let Some(v) = e.get(k) {
                            *f = v.parse().unwrap_or(u64::MAX - 5);
                        }
                    };
                    n("min_duration", &mut cfg.min_d);
                    n("extend_duration", &mut cfg.ext);
                    n("max_auctions_to_settle_per_block", &mut cfg.max_settle);
                    n("halt_duration_threshold", &mut cfg.thr);
                    n("halt_buffer_duration", &mut cfg.buf);
                    n("halt_postpone_duration", &mut cfg.post);
                    if let Some(v) = e.get("fair_burn") {
                        cfg.fair_burn = v.into();
                    }
                    if let Some(v) = e.get("trading_fee_percent") {
                        cfg.fee = atomics(v);
                    }
                    if let Some(v) = e.get("min_bid_increment_percent") {
                        cfg.inc = atomics(v);
                    }
                    if let Some((n, d)) = e.coin("create_auction_fee") {
                        cfg.create = (d, n);
                    }
                }
                "wasm" | "halt-detected" => {
                    if let (Some(s), Some(t)) = (e.num("start_time"), e.num("end_time")) {
                        halts.push((s as u64, t as u64));
                    }
                }
                _ => {}
            }
            if miss {
                bad.push(format!("{}: the log has {open:?}", e.show()));
            }
        }
        let ks: BTreeSet<&Key> = auc.keys().chain(got.auc.keys()).collect();
        for k in ks {
            let g = got.auc.get(k).map(|x| facts(x));
            if auc.get(k) != g.as_ref() {
                bad.push(format!("auction {k:?}: the log says {:?}, it is {g:?}", auc.get(k)));
            }
        }
        if mins != got.mins {
            bad.push(format!("minimum reserve prices: the log says {mins:?}, they are {:?}", got.mins));
        }
        if cfg != got.cfg {
            bad.push(format!("parameters: the log says {cfg:?}, they are {:?}", got.cfg));
        }
        if matches!(a, A::Begin) {
            let fresh: Vec<(u64, u64)> = got.halts.get(self.s.halts.len()..).unwrap_or(&[]).to_vec();
            if fresh != halts {
                bad.push(format!("halts: announced {halts:?}, recorded {fresh:?}"));
            }
        }
        ctx.eval("R11", &format!("log {}", a.name()), if mine.is_empty() || (mine.len() == 1 && mine[0].ty == "sudo-end-block") { None } else { Some(fp(&mine.iter().map(|e| (&e.ty, &e.attrs)).collect::<Vec<_>>())) });
        if !bad.is_empty() {
            let l: Vec<String> = mine.iter().map(|e| e.show()).collect();
            ctx.div(&["R11"], "event-log", format!("{s0}: {}; events: {}", bad.join("; "), l.join(" ")));
        }
    }

    fn evals(&self, a: &A, sender: &str, funds: &[Coin], exp: &Exp, ok: bool, ctx: &mut Ctx) {
        let kind = a.name();
        let fs: Vec<String> = funds.iter().map(|c| c.to_string()).collect();
        let old = a.target().and_then(|k| self.s.auc.get(&k));
        match exp {
            Exp::Reject(t) => {
                for x in t {
                    ctx.eval(x, &format!("{kind} must be rejected"), Some(fp(&(a.msg().to_string(), sender, &fs, old.map(|o| (o.bid.clone(), o.end)))))); 
                }
            }
            Exp::Accept(p, t) => {
                for x in t {
                    let f = match a {
                        A::Create { amt, dur, .. } => fp(&(amt, dur, &self.s.cfg.create, &self.s.mins)),
                        A::Bid { .. } => fp(&(&fs, old.map(|o| o.bid.clone()), self.s.cfg.inc)),
                        A::Settle { .. } => fp(&(old.map(|o| (o.bid.clone(), o.rcpt.is_some())), self.s.cfg.fee)),
                        A::Begin => fp(&(self.secs() - self.s.prev, self.s.cfg.thr, self.s.cfg.buf)),
                        _ => fp(&a.msg().to_string()),
                    };
                    let post = a.target().and_then(|k| p.auc.get(&k)).map_or(false, |_| matches!(a, A::Settle { .. }));
                    let trivial = matches!(a, A::Begin) && p.halts == self.s.halts;
                    ctx.eval(x, &format!("{kind}{}", if post { " postponed" } else { "" }), if trivial { None } else { Some(f) });
                }
                if let (A::Bid { .. }, Some(o)) = (a, old) {
                    let rem = o.end.map(|e| e - self.now());
                    let k = match rem {
                        None => "first bid starts clock",
                        Some(_) if o.end.unwrap() / NS - self.secs() < self.s.cfg.ext => "late bid extends",
                        Some(_) => "early bid leaves clock",
                    };
                    ctx.eval("R04", k, Some(fp(&(rem, self.s.cfg.ext, o.duration))));
                }
            }
            _ => {}
        }
        if ok {
            ctx.eval("X02", &format!("ra {kind}"), Some(fp(&(kind, &self.s.auc))));
        }
    }

    // ------------------------------------------------------------ workload
    fn gen_price(&mut self) -> u128 {
        match self.profile {
            3 => self.rng.pickc(&[1u128, 2, 3, 99, 100, 101, 1_000_000_007, 999_999_999_999_999_999, 1_000_000_000_000_000_001, 1_000_000_000_000_000_000_000_000_000_000, 123_456_789_012_345_678_901_234_567_891]),
            _ => self.rng.pickc(&[0u128, 1, 10, 49, 50, 51, 99, 100, 101, 200, 333, 1000, 12_345, 1_000_000]),
        }
    }
    fn gen(&mut self) -> (A, String, Vec<Coin>) {
        let mut sender = user(self.rng.below(NU));
        //        Cr  Up  Ca  Bid Set Par SM  UM
        let w: [u32; 8] = match self.profile {
            1 => [26, 2, 2, 45, 6, 2, 0, 0],
            2 => [18, 4, 4, 30, 8, 14, 5, 4],
            _ => [22, 7, 6, 40, 12, 4, 1, 1],
        };
        let mut k = self.rng.weighted(&w);
        if (1..5).contains(&k) && self.s.auc.is_empty() && self.rng.p(85) {
            k = 0;
        }
        if k == 0 && self.s.mins.is_empty() && self.rng.p(50) {
            k = 6;
        }
        let mut key = (self.rng.pickc(&self.colls.clone()), if self.rng.p(2) { "99".to_string() } else { self.rng.pickc(&self.tokens.clone()) });
        let clean = self.rng.p(50);
        let mut near = None;
        if let Some((f, n)) = self.focus.take() {
            if self.rng.p(75) {
                near = Some(f.clone());
                key = f.clone();
            }
            if n > 1 {
                self.focus = Some((f, n - 1));
            }
        }
        let open: Vec<Key> = self.s.auc.keys().cloned().collect();
        if (1..5).contains(&k) && !open.is_empty() && self.rng.p(94) {
            key = self.rng.pickc(&open);
            // favour ended auctions for settlement, unstarted for update/cancel
            let pref: Vec<Key> = self
                .s
                .auc
                .values()
                .filter(|a| match k {
                    4 => a.end.map_or(false, |e| e <= self.now()),
                    3 => a.end.map_or(true, |e| e > self.now()),
                    _ => a.end.is_none(),
                })
                .map(|a| a.key())
                .collect();
            if !pref.is_empty() && self.rng.p(60) {
                key = self.rng.pickc(&pref);
            }
            if let Some(f) = near.as_ref().filter(|f| self.s.auc.contains_key(*f)) {
                key = f.clone();
            }
        }
        let loyal = self.rng.p(88);
        let mut funds: Vec<Coin> = vec![];
        let old = self.s.auc.get(&key).cloned();
        let denom = if self.rng.p(93) { self.rng.pickc(&self.s.mins.keys().cloned().collect::<Vec<_>>().into_iter().chain(self.s.mins.is_empty().then(|| self.denoms[0].clone())).collect::<Vec<_>>()) } else { self.rng.pickc(&self.denoms.clone()) };
        let mut amt = self.gen_price();
        if let Some(m) = self.s.mins.get(&denom) {
            if self.rng.p(50) {
                amt = self.rng.pickc(&[*m, m.saturating_sub(1), m + 1, m * 3, m + 100]);
            }
        }
        let a = match k {
            0 => {
                if loyal {
                    let mut v: Vec<(Key, String)> = self.s.owners.iter().filter(|(_, o)| **o != self.m).map(|(k, o)| (k.clone(), o.clone())).collect();
                    if let Some(f) = &near {
                        if v.iter().any(|(k, _)| k.0 == f.0) {
                            v.retain(|(k, _)| k.0 == f.0);
                        }
                    }
                    if !v.is_empty() {
                        let (k2, o) = self.rng.pickc(&v);
                        key = k2;
                        sender = o;
                        if self.rng.p(80) {
                            // the usual flow approves right before creating
                            self.c.w.borrow_mut().nfts.get_mut(&key.0).unwrap().approvals.insert((key.1.clone(), self.m.clone()), None);
                        }
                    }
                }
                let c = self.s.cfg.clone();
                let dur = match self.rng.below(12) {
                    0 => c.min_d.saturating_sub(1),
                    1 => c.max_d + 1,
                    2..=5 => c.max_d,
                    6..=8 => c.min_d,
                    _ => c.min_d + self.rng.below((c.max_d.saturating_sub(c.min_d) + 1) as usize) as u64,
                };
                let (fd, fa) = c.create;
                if fa > 0 || self.rng.p(3) {
                    let n = if self.rng.p(91) { fa } else { self.rng.pickc(&[fa + 1, fa.saturating_sub(1), fa * 2, 0]) };
                    funds.push(coin(n, &fd));
                }
                if self.rng.p(3) {
                    funds.push(coin(1, &self.rng.pickc(&self.denoms.clone())));
                }
                let mut dur = dur;
                if clean {
                    dur = dur.clamp(c.min_d, c.max_d.max(c.min_d));
                    amt = amt.max(self.s.mins.get(&denom).copied().unwrap_or(1)).max(1);
                    funds = if fa > 0 { vec![coin(fa, &fd)] } else { vec![] };
                }
                let rcpt = if self.rng.p(2) {
                    Some(bad_addr(self.rng.below(5)))
                } else if self.rng.p(30) {
                    Some(user(self.rng.below(10)))
                } else {
                    None
                };
                A::Create { coll: key.0, token: key.1, denom, amt, dur, rcpt }
            }
            1 | 2 => {
                if loyal {
                    if let Some(o) = &old {
                        sender = o.seller.clone();
                    }
                } else if let (Some(o), true) = (&old, self.rng.p(40)) {
                    let mut v: Vec<String> = [o.rcpt.clone(), o.bid.as_ref().map(|b| b.0.clone())].into_iter().flatten().collect();
                    v.extend(v.clone());
                    v.extend(self.c.around(&key.0, &key.1));
                    v.retain(|x| self.users.contains(x));
                    if !v.is_empty() {
                        sender = self.rng.pickc(&v);
                    }
                }
                if self.rng.p(3) {
                    funds.push(coin(5, &self.rng.pickc(&self.denoms.clone())));
                }
                if k == 1 {
                    A::Update { coll: key.0, token: key.1, denom, amt }
                } else {
                    A::Cancel { coll: key.0, token: key.1 }
                }
            }
            3 => {
                let (d, min) = old.as_ref().map_or((self.denoms[0].clone(), 10), |o| (o.denom.clone(), o.min_bid(self.s.cfg.inc).unwrap_or(1)));
                let n = match self.rng.below(20) {
                    0..=10 => min,
                    11..=13 => min.saturating_add(1),
                    14 | 15 => min.saturating_sub(1),
                    16 => old.as_ref().and_then(|o| o.bid.as_ref().map(|b| b.2)).unwrap_or(min),
                    17 => min.saturating_mul(2).min(1_000_000_000_000_000_000_000_000_000_000_000),
                    18 => old.as_ref().and_then(|o| o.bid.as_ref().map(|b| b.2 + 1)).unwrap_or(1),
                    _ => self.gen_price(),
                };
                let d = if self.rng.p(95) { d } else { self.rng.pickc(&self.denoms.clone()) };
                funds.push(coin(n.max(if self.rng.p(98) { 1 } else { 0 }), &d));
                if self.rng.p(3) {
                    funds.push(coin(1, &self.rng.pickc(&self.denoms.clone())));
                }
                if self.rng.p(2) {
                    funds.clear();
                }
                if let Some(o) = &old {
                    if loyal && sender == o.seller {
                        sender = user((self.users.iter().position(|u| *u == sender).unwrap_or(0) + 1) % NU);
                    }
                    if !loyal && self.rng.p(50) {
                        sender = o.seller.clone();
                    }
                }
                A::Bid { coll: key.0, token: key.1 }
            }
            4 => {
                if self.rng.p(4) {
                    funds.push(coin(5, &self.rng.pickc(&self.denoms.clone())));
                }
                A::Settle { coll: key.0, token: key.1 }
            }
            5 => {
                let mut c = self.s.cfg.clone();
                let mut only = BTreeSet::new();
                for _ in 0..1 + self.rng.below(3) {
                    let i = self.rng.below(10);
                    only.insert(i);
                    match i {
                        0 => c.fair_burn = if self.rng.p(90) { self.rng.pickc(&self.fb) } else { "bad!".into() },
                        1 => c.fee = Self::gen_fee(&mut self.rng),
                        2 => c.inc = if self.rng.p(85) { Self::gen_inc(&mut self.rng) } else { self.rng.pickc(&[0, ONE, ONE + 1]) },
                        3 => c.min_d = self.rng.pickc(&[1u64, 1, 5, 10, 30, 0]),
                        4 => c.ext = self.rng.pickc(&[1u64, 2, 5, 10, 60, 0]),
                        5 => c.create = (self.rng.pickc(&self.denoms.clone()), self.rng.pickc(&[0u128, 1, 10, 500])),
                        6 => c.max_settle = self.rng.pickc(&[0u64, 1, 1, 2, 3, 10, 200, u64::MAX]),
                        7 => c.thr = self.rng.pickc(&[10u64, 20, 60, 600, 0]),
                        8 => c.buf = self.rng.pickc(&[0u64, 1, 15, 60]),
                        _ => c.post = self.rng.pickc(&[0u64, 1, 30, 120]),
                    }
                }
                A::Params { cfg: c, only }
            }
            6 => {
                let mut v = vec![];
                for _ in 0..1 + self.rng.below(3) {
                    let d = if self.rng.p(70) { self.rng.pickc(&self.denoms.clone()) } else { self.rng.pickc(&["ujuno".to_string(), "factory/x".to_string()]) };
                    v.push((d, self.rng.pickc(&[0u128, 1, 50, 100])));
                }
                A::SetMin { v }
            }
            _ => {
                let mut v = vec![];
                for _ in 0..1 + self.rng.below(2) {
                    let all: Vec<String> = self.s.mins.keys().cloned().collect();
                    v.push(if self.rng.p(75) && !all.is_empty() { self.rng.pickc(&all) } else { self.rng.pickc(&self.denoms.clone()) });
                }
                A::UnsetMin { v }
            }
        };
        // no zero or duplicate coins reach a contract
        let mut seen = BTreeSet::new();
        funds.retain(|c| !c.amount.is_zero() && seen.insert(c.denom.clone()));
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        (a, sender, funds)
    }

    fn advance(&mut self) {
        let now = self.now();
        let r = &mut self.rng;
        let mut dt = r.pickc(&[100_000_000u64, 1, 400_000_000, NS, NS + 1, 2 * NS, 5 * NS, 6_123_456_789, 6 * NS]);
        if r.p(35) {
            // aim at a boundary
            let mut t: Vec<u64> = vec![];
            for a in self.s.auc.values() {
                if let Some(e) = a.end {
                    t.extend([e, e.saturating_sub(1), e + 1, e / NS * NS, e / NS * NS + NS - 1, (e / NS).saturating_sub(self.s.cfg.ext) * NS, ((e / NS).saturating_sub(self.s.cfg.ext) + 1) * NS]);
                }
            }
            for (st, en) in &self.s.halts {
                t.extend([en * NS, en * NS - 1, (en + 1) * NS, st * NS]);
            }
            t.push((self.s.prev + self.s.cfg.thr) * NS);
            t.retain(|x| *x > now && *x - now < 400 * NS);
            if !t.is_empty() {
                dt = r.pickc(&t) - now;
            }
        } else if r.p(8) {
            dt = (self.s.cfg.thr.min(300) + r.below(40) as u64) * NS + r.next() % NS;
        }
        self.c.time.set(now + dt.max(1));
        self.c.height.set(self.c.height.get() + 1);
        self.c.tx_index.set(0);
    }

    /// after a blocked end block: governance and the collections remove the cause
    fn rescue(&mut self, ctx: &mut Ctx) {
        self.stuck.set(false);
        for n in self.c.w.borrow_mut().nfts.values_mut() {
            n.frozen = false;
            n.stuck.clear();
            if let Some(i) = n.info.as_mut() {
                i.royalty = None;
            }
        }
        ctx.log.push("ext rescue: royalties off, transfers on".into());
        let c = Cfg { fee: ONE / 100, ..self.s.cfg.clone() };
        self.do_act(&A::Params { cfg: c, only: BTreeSet::from([1]) }, "", &[], ctx);
    }
    fn external(&mut self, ctx: &mut Ctx) {
        let coll = self.rng.pickc(&self.colls.clone());
        let token = self.rng.pickc(&self.tokens.clone());
        let what;
        let now = self.now();
        let hostile = self.profile == 4;
        if self.rng.p(60) {
            self.focus = Some(((coll.clone(), token.clone()), 4));
        }
        let mut w = self.c.w.borrow_mut();
        let n = w.nfts.get_mut(&coll).unwrap();
        match self.rng.weighted(&[20, 20, 14, 18, if hostile { 14 } else { 1 }, 8]) {
            0 => {
                let Some(owner) = n.owners.get(&token).cloned() else { return };
                if owner == self.m {
                    return;
                }
                let to = user(self.rng.below(NU));
                n.owners.insert(token.clone(), to.clone());
                n.approvals.retain(|(t, _), _| *t != token);
                what = format!("ext transfer {}/{token} to {}", short(&coll), short(&to));
            }
            1 => {
                if n.owners.get(&token).map_or(true, |o| *o == self.m) {
                    return;
                }
                let k = (token.clone(), self.m.clone());
                if self.rng.p(70) {
                    let e = if self.rng.p(70) { None } else { Some(now + self.rng.below(20) as u64 * NS) };
                    n.approvals.insert(k, e);
                    what = format!("ext approve {}/{token} until {e:?}", short(&coll));
                } else {
                    n.approvals.remove(&k);
                    if self.rng.p(50) {
                        n.operators.insert((n.owners[&token].clone(), self.m.clone()));
                    }
                    what = format!("ext revoke {}/{token}", short(&coll));
                }
            }
            2 => {
                let t = self.rng.pickc(&[now, now + 1, now.saturating_sub(1), now + 10 * NS]);
                if let Some(i) = n.info.as_mut() {
                    i.start = if self.rng.p(70) { Some(t) } else { None };
                    what = format!("ext start time {} {:?}", short(&coll), i.start);
                } else {
                    return;
                }
            }
            3 => {
                let share = self.rng.pickc(&["0", "0.01", "0.05", "0.1", "0.333333333333333333", "0.000000000000000001", "0.5", "0.05"]);
                if let Some(i) = n.info.as_mut() {
                    i.royalty = if self.rng.p(80) { Some((user(if self.rng.p(25) { self.rng.below(NU) } else { 8 + self.rng.below(2) }), share.to_string())) } else { None };
                    what = format!("ext royalty {} {:?}", short(&coll), i.royalty.as_ref().map(|r| r.1.clone()));
                } else {
                    return;
                }
            }
            4 => {
                if self.rng.p(70) {
                    if !n.stuck.remove(&token) {
                        n.stuck.insert(token.clone());
                    }
                } else {
                    n.frozen = !n.frozen;
                }
                what = format!("ext {} frozen {} stuck {:?}", short(&coll), n.frozen, n.stuck);
            }
            _ => {
                n.info = if n.info.is_some() { None } else { Some(CollInfo { start: None, royalty: Some((user(8), "0.07".into())) }) };
                what = format!("ext collection_info {} supported={}", short(&coll), n.info.is_some());
            }
        }
        for (c, n) in &w.nfts {
            for (t, o) in &n.owners {
                self.s.owners.insert((c.clone(), t.clone()), o.clone());
            }
        }
        ctx.log.push(what);
    }

    /// A short story around one auction, each part of it ordinary, that random choice would rarely tell in this order.
    fn new_plan(&mut self) {
        let coll = self.rng.pickc(&self.colls.clone());
        let token = self.rng.pickc(&self.tokens.clone());
        let key = (coll.clone(), token.clone());
        let Some(owner) = self.s.owners.get(&key).cloned().filter(|o| *o != self.m) else { return };
        let mut us: Vec<String> = (0..NU).map(user).filter(|u| *u != owner).collect();
        for i in (1..us.len()).rev() {
            us.swap(i, self.rng.below(i + 1));
        }
        let (x, y, z) = (us[0].clone(), us[1].clone(), us[2].clone());
        let cfg = self.s.cfg.clone();
        let mins: Vec<(String, u128)> = self.s.mins.iter().map(|(d, n)| (d.clone(), *n)).collect();
        if mins.is_empty() {
            return;
        }
        let others: Vec<(Key, String)> = self.s.owners.iter().filter(|(k, o)| **o != self.m && **k != key).map(|(k, o)| (k.clone(), o.clone())).take(6).collect();
        let r = &mut self.rng;
        let (denom, min) = r.pickc(&mins);
        let amt = min.max(1) + r.pickc(&[0u128, 0, 1, 9, 50, 950]);
        let top = cfg.max_d.max(cfg.min_d);
        let dur = r.pickc(&[cfg.min_d, top.min(cfg.min_d + 30), top]).min(top);
        let rcpt = if r.p(40) { Some(r.pickc(&[x.clone(), y.clone(), user(9), owner.clone()])) } else { None };
        let create = |k: &Key, who: &String| P::Do(A::Create { coll: k.0.clone(), token: k.1.clone(), denom: denom.clone(), amt, dur, rcpt: rcpt.clone() }, who.clone());
        let upd = |who: &String, d: &String, n: u128| P::Do(A::Update { coll: coll.clone(), token: token.clone(), denom: d.clone(), amt: n }, who.clone());
        let cancel = |who: &String| P::Do(A::Cancel { coll: coll.clone(), token: token.clone() }, who.clone());
        let settle = |who: &String| P::Do(A::Settle { coll: coll.clone(), token: token.clone() }, who.clone());
        let bid = |who: &String, d: i64| P::Bid(key.clone(), who.clone(), d);
        let end = |d: i64, w: u8| P::End(key.clone(), d, w);
        let set = |i: usize, f: &dyn Fn(&mut Cfg)| {
            let mut c = cfg.clone();
            f(&mut c);
            P::Do(A::Params { cfg: c, only: BTreeSet::from([i]) }, String::new())
        };
        let ext = cfg.ext.min(100_000) as i64 * NS as i64;
        let few = r.pickc(&[-1i64, 0, 0, 1, NS as i64, -(NS as i64)]);
        let mut v: Vec<P> = vec![P::Approve(key.clone()), create(&key, &owner)];
        match r.below(10) {
            0 | 1 => {
                // bids early and late, at the edges of the extension and of the end
                v.extend([bid(&x, 0), bid(&y, r.pickc(&[0, 0, -1]))]);
                for _ in 0..1 + r.below(3) {
                    v.push(end(-ext + r.pickc(&[-1i64, 0, 1, NS as i64, -(NS as i64), ext - 1, ext - NS as i64]), 0));
                    v.push(bid(&r.pickc(&[x.clone(), y.clone(), z.clone()]), r.pickc(&[0, 0, 1, -1])));
                }
                v.extend([end(few, r.below(3) as u8), bid(&z, 0), settle(&x), settle(&x)]);
            }
            2 => {
                // a royalty to a party of the sale
                let to = r.pickc(&[owner.clone(), owner.clone(), x.clone(), y.clone(), rcpt.clone().unwrap_or(z.clone())]);
                v.insert(0, P::Royalty(coll.clone(), Some((to, r.pickc(&["0.05", "0.1", "0.5", "0.01"]).into()))));
                v.extend([bid(&x, 0), bid(&y, 0), bid(&x, 50)]);
                if r.p(40) {
                    v.push(P::Royalty(coll.clone(), if r.p(50) { None } else { Some((user(8), "0.03".into())) }));
                }
                v.push(end(r.pickc(&[0i64, 1, NS as i64]), 0));
                v.push(if r.p(50) { settle(&z) } else { P::Wait(NS, 0) });
            }
            3 | 4 => {
                // the chain halts around the end
                v.extend([bid(&x, 0), bid(&y, 0)]);
                v.push(end(r.pickc(&[-1i64, -(NS as i64), -5 * NS as i64, -20 * NS as i64, NS as i64]), r.below(3) as u8));
                v.push(P::Halt(r.pickc(&[0u64, 1, 5, 30])));
                for _ in 0..3 {
                    v.push(match r.below(4) {
                        0 => bid(&z, 0),
                        1 => settle(&x),
                        2 => P::Wait(r.pickc(&[1, NS, cfg.buf * NS]), 0),
                        _ => end(few, 0),
                    });
                }
                v.extend([end(0, 0), settle(&z), end(few, 0), settle(&z)]);
            }
            5 => {
                // reserve and denominations change before the first bid, and nothing after it
                let (d2, m2) = r.pickc(&mins);
                for _ in 0..3 {
                    let who = if r.p(75) { owner.clone() } else { r.pickc(&us) };
                    v.push(match r.below(6) {
                        0 => upd(&who, &denom, amt + 7),
                        1 => upd(&who, &denom, min.saturating_sub(1)),
                        2 => upd(&who, &d2, m2),
                        3 => P::Do(A::UnsetMin { v: vec![denom.clone()] }, String::new()),
                        4 => P::Do(A::SetMin { v: vec![(denom.clone(), min + 3)] }, String::new()),
                        _ => cancel(&who),
                    });
                }
                v.extend([bid(&x, -1), bid(&x, 0), upd(&owner, &denom, amt), cancel(&owner), bid(&y, 0), P::Do(A::SetMin { v: vec![(denom.clone(), min)] }, String::new())]);
            }
            6 => {
                // the rules change under a running auction
                v.push(bid(&x, 0));
                for _ in 0..2 {
                    v.push(match r.below(7) {
                        0 => set(1, &|c| c.fee = ONE / 50),
                        1 => set(2, &|c| c.inc = if c.inc > ONE / 10 { ONE / 100 } else { ONE / 4 }),
                        2 => set(3, &|c| c.min_d = dur + 5),
                        3 => set(4, &|c| c.ext = if c.ext > 10 { 1 } else { 60 }),
                        4 => P::Do(A::UnsetMin { v: vec![denom.clone()] }, String::new()),
                        5 => set(5, &|c| c.create = (denom.clone(), if amt % 2 == 0 { 0 } else { 7 })),
                        _ => set(6, &|c| c.max_settle = if c.max_settle > 1 { 1 } else { 10 }),
                    });
                    v.push(bid(&r.pickc(&[y.clone(), z.clone()]), r.pickc(&[0, -1])));
                }
                v.extend([end(-ext / 2, 0), bid(&x, 0), end(few, 0), P::Do(A::SetMin { v: vec![(denom.clone(), min)] }, String::new()), settle(&y)]);
            }
            7 => {
                // several auctions that end together, settled a few at a time
                let mut all = vec![key.clone()];
                for (k, o) in others {
                    v.extend([P::Approve(k.clone()), create(&k, &o)]);
                    all.push(k);
                }
                for k in &all {
                    v.push(P::Bid(k.clone(), r.pickc(&us), 0));
                }
                let most = r.pickc(&[1u64, 1, 2, 3]);
                v.push(set(6, &|c| c.max_settle = most));
                v.push(end(few.max(0), 0));
                for _ in 0..3 {
                    v.push(P::Wait(r.pickc(&[1, NS]), 0));
                }
            }
            8 => {
                // the winner sells on; the first seller has nothing to say any more
                v.extend([bid(&x, 0), end(NS as i64, 0), settle(&y), P::Approve(key.clone()), create(&key, &x)]);
                v.push(r.pickc(&[0, 1, 2]).min(r.below(3)).eq(&0).then(|| cancel(&owner)).unwrap_or(upd(&owner, &denom, amt)));
                v.extend([P::Do(A::Create { coll: coll.clone(), token: token.clone(), denom: denom.clone(), amt, dur, rcpt: None }, owner.clone()), bid(&owner, 0), bid(&x, 0), end(NS as i64, 0), settle(&owner)]);
            }
            _ => {
                // outbidding oneself; called off and opened again
                v.extend([cancel(&owner), P::Approve(key.clone()), create(&key, &owner), bid(&x, 0), bid(&x, 0), bid(&x, r.pickc(&[0, 10, -1])), bid(&y, 0), cancel(&owner)]);
                v.extend([end(-1, 0), bid(&x, 0), end(0, 0), settle(&x)]);
            }
        }
        // now and then a part is left out
        v.retain(|_| !r.p(4));
        self.plan = v.into();
    }
    fn pass(&mut self, to: u64, without: u8, ctx: &mut Ctx) {
        if to <= self.now() {
            return;
        }
        if without != 1 {
            self.do_act(&A::End, "", &[], ctx);
        }
        self.c.time.set(to);
        self.c.height.set(self.c.height.get() + 1);
        self.c.tx_index.set(0);
        if without != 2 {
            self.do_act(&A::Begin, "", &[], ctx);
        }
    }
    /// a parameter change from earlier: only what the message names, the rest is as it is by now
    fn fresh(&self, a: &mut A) {
        if let A::Params { cfg, only } = a {
            let mut c = self.s.cfg.clone();
            for i in only.iter() {
                match i {
                    0 => c.fair_burn = cfg.fair_burn.clone(),
                    1 => c.fee = cfg.fee,
                    2 => c.inc = cfg.inc,
                    3 => c.min_d = cfg.min_d,
                    4 => c.ext = cfg.ext,
                    5 => c.create = cfg.create.clone(),
                    6 => c.max_settle = cfg.max_settle,
                    7 => c.thr = cfg.thr,
                    8 => c.buf = cfg.buf,
                    _ => c.post = cfg.post,
                }
            }
            *cfg = c;
        }
    }
    fn play(&mut self, p: P, ctx: &mut Ctx) {
        match p {
            P::Do(mut a, who) => {
                self.fresh(&mut a);
                let f = match &a {
                    A::Create { .. } if self.s.cfg.create.1 > 0 => vec![coin(self.s.cfg.create.1, &self.s.cfg.create.0)],
                    _ => vec![],
                };
                self.do_act(&a, &who, &f, ctx);
                self.last = Some((a, who, f)).filter(|x| !x.1.is_empty());
            }
            P::Bid(k, who, d) => {
                let (den, least) = self.s.auc.get(&k).map_or((self.denoms[0].clone(), 10), |o| (o.denom.clone(), o.min_bid(self.s.cfg.inc).unwrap_or(1)));
                let n = if d < 0 { least.saturating_sub(d.unsigned_abs() as u128) } else { least.saturating_add(d as u128) };
                let f = if n > 0 { vec![coin(n, &den)] } else { vec![] };
                let a = A::Bid { coll: k.0, token: k.1 };
                self.do_act(&a, &who, &f, ctx);
                self.last = Some((a, who, f));
            }
            P::End(k, d, w) => {
                if let Some(e) = self.s.auc.get(&k).and_then(|a| a.end) {
                    let t = if d < 0 { e.saturating_sub(d.unsigned_abs()) } else { e + d as u64 };
                    self.pass(t, w, ctx);
                }
            }
            P::Wait(n, w) => self.pass(self.now() + n, w, ctx),
            P::Halt(n) => {
                if self.s.prev > 0 && self.s.cfg.thr < 10_000 {
                    let t = (self.s.prev + self.s.cfg.thr + n) * NS;
                    self.pass(t, 0, ctx);
                }
            }
            P::Royalty(c, to) => {
                if let Some(i) = self.c.w.borrow_mut().nfts.get_mut(&c).and_then(|n| n.info.as_mut()) {
                    ctx.log.push(format!("ext royalty {} {:?}", short(&c), to.as_ref().map(|r| (short(&r.0), r.1.clone()))));
                    i.royalty = to;
                }
            }
            P::Approve((c, t)) => {
                self.c.w.borrow_mut().nfts.get_mut(&c).unwrap().approvals.insert((t, self.m.clone()), None);
            }
        }
    }

    /// what the next steps do from here, on a fork of the world that is thrown away again
    fn probe(&mut self, k: u64) -> Vec<String> {
        let saved = (self.rng.clone(), self.s.clone(), self.dead, self.c.time.get(), self.c.height.get(), self.c.tx_index.get(), self.c.w.borrow().clone(), self.stuck.get());
        // both runs start from the same leanings
        let leaning = (self.focus.take(), self.last.take(), self.idle.replace(0), std::mem::take(&mut self.plan));
        self.rng = Rng::new(k, 0, 0x77);
        let mut ctx = Ctx::new(None);
        let mut trace = vec![];
        for _ in 0..10 {
            self.step(&mut ctx);
            self.queries(&mut ctx);
            let last = ctx.log.last().cloned().unwrap_or_default();
            trace.push(format!("{last} | {:?} | {:?}", self.s, ctx.divs.drain(..).map(|d| (d.sig, d.detail)).collect::<Vec<_>>()));
        }
        self.rng = saved.0;
        self.s = saved.1;
        self.dead = saved.2;
        self.c.time.set(saved.3);
        self.c.height.set(saved.4);
        self.c.tx_index.set(saved.5);
        *self.c.w.borrow_mut() = saved.6;
        self.stuck.set(saved.7);
        self.focus = leaning.0;
        self.last = leaning.1;
        self.idle.set(leaning.2);
        self.plan = leaning.3;
        trace
    }
    fn judge_probe(&mut self, (k, before): (u64, Vec<String>), ctx: &mut Ctx) {
        let after = self.probe(k);
        ctx.eval("X01", "behaviour after migration", Some(fp(&after)));
        if let Some((b, a)) = before.iter().zip(&after).find(|(b, a)| b != a) {
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            ctx.div(&["X01"], "migrate-changed-behaviour", format!("later behaviour differs: without migration {} / with migration {}", cut(b), cut(a)));
        }
    }
    fn migrate(&mut self, ctx: &mut Ctx) {
        let k = self.rng.next();
        let before = if ctx.prop.as_deref() == Some("X01") { Some((k, self.probe(k))) } else { None };
        ctx.log.push("migrate".into());
        // sometimes from an earlier release
        let key = b"contract_info".to_vec();
        let cur: Option<Value> = self.c.w.borrow().stores[&self.m].get(&key).and_then(|b| serde_json::from_slice(b).ok());
        if let (Some(v), 1) = (&cur, k % 2) {
            let mut v = v.clone();
            v["version"] = json!("0.0.1");
            self.c.w.borrow_mut().stores.get_mut(&self.m).unwrap().insert(key.clone(), serde_json::to_vec(&v).unwrap());
        }
        let r = self.c.migrate(&self.m);
        let now: Option<Value> = self.c.w.borrow().stores[&self.m].get(&key).and_then(|b| serde_json::from_slice(b).ok());
        if r.is_ok() && now != cur {
            ctx.div(&["X01"], "migrate-version", format!("after the migration the recorded version is {now:?}, the running code is {cur:?}"));
        }
        let got = self.observe(ctx);
        ctx.eval("X01", "ra migrate", Some(fp(&(&self.s.auc, &self.s.cfg, &self.s.halts))));
        if let Err(e) = r {
            ctx.div(&["X01"], "migrate-failed", format!("migration failed: {e}"));
        }
        let g = &self.s;
        if !(g.auc == got.auc && g.bank == got.bank && g.owners == got.owners && g.cfg == got.cfg && g.halts == got.halts && g.prev == got.prev && g.mins == got.mins) {
            ctx.div(&["X01"], "migrate-changed", "migration changed observable state".into());
        }
        self.s = got;
        if let Some(b) = before {
            self.judge_probe(b, ctx);
        }
    }

    // ------------------------------------------------------------ queries
    fn queries(&mut self, ctx: &mut Ctx) {
        for _ in 0..3 {
            let desc = self.rng.pickc(&[None, Some(false), Some(true)]);
            let limit = self.rng.pickc(&[None, Some(0u32), Some(1), Some(2), Some(3), Some(40), Some(99), Some(100), Some(101), Some(1000)]);
            let lim = limit.unwrap_or(10).min(100) as usize;
            let d = desc.unwrap_or(false);
            match self.rng.below(3) {
                0 => {
                    let keys: Vec<String> = self.s.mins.keys().cloned().collect();
                    let cur = if keys.is_empty() || self.rng.p(40) { None } else { Some(if self.rng.p(80) { self.rng.pickc(&keys) } else { "m".to_string() }) };
                    let items: BTreeMap<String, (String, u128)> = self.s.mins.iter().map(|(d, n)| (d.clone(), (d.clone(), *n))).collect();
                    let b = cur.clone().map(|c| (c, false));
                    let want = if d { page(&items, None, b, true, lim) } else { page(&items, b, None, false, lim) };
                    let v = self.q(ctx, json!({"min_reserve_prices":{"query_options":{"descending":desc,"limit":limit,"start_after":cur.map(|c|json!({"denom":c}))}}}));
                    let got: Vec<(String, u128)> = v.as_array().map(|a| a.iter().map(|c| (c["denom"].as_str().unwrap_or("").to_string(), c["amount"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0))).collect()).unwrap_or_default();
                    ctx.eval("R09", "min_reserve_prices", if want.is_empty() { None } else { Some(fp(&(&want, d, lim))) });
                    if got != want {
                        ctx.div(&["R09"], "wrong-listing", format!("min_reserve_prices desc={desc:?} limit={limit:?}: expected {want:?} observed {got:?}"));
                    }
                }
                1 => {
                    let sel: Vec<String> = self.s.auc.values().map(|a| a.seller.clone()).collect();
                    let seller = if sel.is_empty() { user(0) } else { self.rng.pickc(&sel) };
                    let items: BTreeMap<Key, Auc> = self.s.auc.iter().filter(|(_, a)| a.seller == seller).map(|(k, a)| (k.clone(), a.clone())).collect();
                    let keys: Vec<Key> = items.keys().cloned().collect();
                    let cur = if keys.is_empty() || self.rng.p(40) { None } else { Some(self.rng.pickc(&keys)) };
                    let b = cur.clone().map(|c| (c, false));
                    let want = if d { page(&items, None, b, true, lim) } else { page(&items, b, None, false, lim) };
                    self.listing(ctx, json!({"auctions_by_seller":{"seller":seller,"query_options":{"descending":desc,"limit":limit,"start_after":cur.map(|c|json!({"collection":c.0,"token_id":c.1}))}}}), want);
                }
                _ => {
                    let items: BTreeMap<(u64, Key), Auc> = self.s.auc.iter().filter_map(|(k, a)| a.end.map(|e| ((e / NS, k.clone()), a.clone()))).collect();
                    let keys: Vec<(u64, Key)> = items.keys().cloned().collect();
                    let (end, cur) = if keys.is_empty() || self.rng.p(35) {
                        (self.rng.pickc(&[0, self.secs(), self.secs() + 10, self.secs() - 10]), None)
                    } else {
                        let k = self.rng.pickc(&keys);
                        (k.0 + self.rng.below(2) as u64, if self.rng.p(60) { Some(k.1) } else { None })
                    };
                    let b = Some(((end, cur.clone().unwrap_or_default()), false));
                    let want = if d { page(&items, None, b, true, lim) } else { page(&items, b, None, false, lim) };
                    self.listing(ctx, json!({"auctions_by_end_time":{"end_time":end,"query_options":{"descending":desc,"limit":limit,"start_after":cur.map(|c|json!({"collection":c.0,"token_id":c.1}))}}}), want);
                }
            }
        }
        // walk both listings page by page
        if self.rng.p(40) {
            let lim = if self.bulk { self.rng.pickc(&[7, 10, 33, 100]) } else { 1 + self.rng.below(2) };
            let items: BTreeMap<(u64, Key), Auc> = self.s.auc.iter().filter_map(|(k, a)| a.end.map(|e| ((e / NS, k.clone()), a.clone()))).collect();
            let mut seen: Vec<Auc> = vec![];
            let mut cur: (u64, Option<Key>) = (0, None);
            for _ in 0..items.len() + 2 {
                let v = self.q(ctx, json!({"auctions_by_end_time":{"end_time":cur.0,"query_options":{"limit":lim,"start_after":cur.1.as_ref().map(|c|json!({"collection":c.0,"token_id":c.1}))}}}));
                let pg: Vec<Auc> = v.as_array().map(|a| a.iter().filter_map(Auc::parse).collect()).unwrap_or_default();
                let Some(l) = pg.last() else { break };
                cur = (l.end.unwrap_or(u64::MAX) / NS, Some(l.key()));
                seen.extend(pg);
            }
            let want: Vec<Auc> = items.values().cloned().collect();
            ctx.eval("R09", "walk by end time", if want.is_empty() { None } else { Some(fp(&(&want, lim))) });
            if seen != want {
                ctx.div(&["R09"], "walk", format!("paging auctions_by_end_time by {lim}: visited {} of {}", seen.len(), want.len()));
            }
        }
    }
    fn listing(&self, ctx: &mut Ctx, q: Value, want: Vec<Auc>) {
        let v = self.q(ctx, q.clone());
        let got: Option<Vec<Auc>> = v.as_array().map(|a| a.iter().filter_map(Auc::parse).collect());
        let kind = q.as_object().unwrap().keys().next().unwrap().clone();
        ctx.eval("R09", &kind, if want.is_empty() { None } else { Some(fp(&(q.to_string(), &want))) });
        if got.as_ref() != Some(&want) {
            let w: Vec<String> = want.iter().map(|a| a.s()).collect();
            let g: Vec<String> = got.unwrap_or_default().iter().map(|a| a.s()).collect();
            ctx.div(&["R09"], "wrong-listing", format!("query {q}: expected {w:?} observed {g:?}"));
        }
    }
}

impl Engine for Ra {
    fn step(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        if self.plan.is_empty() && self.rng.p(4) {
            self.new_plan();
        }
        if !self.plan.is_empty() && !self.stuck.get() && self.rng.p(88) {
            let p = self.plan.pop_front().unwrap();
            self.play(p, ctx);
            return;
        }
        if self.rng.p(38) {
            if self.rng.p(if self.profile == 1 { 75 } else { 90 }) {
                self.do_act(&A::End, "", &[], ctx);
            }
            self.advance();
            if self.rng.p(92) {
                self.do_act(&A::Begin, "", &[], ctx);
            }
            return;
        }
        if self.stuck.get() && self.rng.p(40) {
            self.rescue(ctx);
            return;
        }
        if self.rng.p(if self.profile == 4 { 20 } else { 10 }) {
            self.external(ctx);
            return;
        }
        if self.rng.p(if ctx.prop.as_deref() == Some("X01") { 8 } else { 1 }) {
            self.migrate(ctx);
        }
        if self.bulk && (ctx.wants("R09") || ctx.wants("X05")) && self.rng.p(85) {
            self.queries(ctx);
            return;
        }
        let (a, sender, funds) = match self.last.clone().filter(|_| self.rng.p(4)) {
            // the same message over again, by the same sender or by someone else
            Some((mut a, mut s, f)) => {
                self.fresh(&mut a);
                if self.rng.p(30) {
                    s = self.rng.pickc(&self.users.clone());
                }
                (a, s, f)
            }
            None => self.gen(),
        };
        self.do_act(&a, &sender, &funds, ctx);
        self.last = Some((a, sender, funds));
        let qp = if ctx.prop.as_deref() == Some("R09") { 70 } else { 10 };
        if (ctx.prop.is_none() || ctx.wants("R09") || ctx.wants("X05")) && self.rng.p(qp) {
            self.queries(ctx);
        }
    }
    fn finish(&mut self, ctx: &mut Ctx) {
        {
            let mut w = self.c.w.borrow_mut();
            for n in w.nfts.values_mut() {
                n.frozen = false;
                n.stuck.clear();
            }
        }
        let unstarted: Vec<Auc> = self.s.auc.values().filter(|a| a.end.is_none()).cloned().collect();
        for a in unstarted {
            self.do_act(&A::Cancel { coll: a.coll.clone(), token: a.token.clone() }, &a.seller, &[], ctx);
        }
        // let every halt and auction pass, then settle at the end of successive blocks / directly
        for round in 0..8 {
            let last = self.s.auc.values().filter_map(|a| a.end).chain(self.s.halts.iter().map(|h| h.1 * NS)).max();
            let Some(last) = last else { break };
            if self.s.auc.is_empty() {
                break;
            }
            self.c.time.set(self.now().max(last) + NS);
            if round % 2 == 0 {
                self.do_act(&A::End, "", &[], ctx);
            } else {
                let v: Vec<Key> = self.s.auc.keys().cloned().collect();
                for (coll, token) in v {
                    let u = user(self.rng.below(10));
                    self.do_act(&A::Settle { coll, token }, &u, &[], ctx);
                }
            }
        }
        let stuck = self.s.auc.values().filter(|a| matches!(self.settle(&self.s, &a.key()), Out::Blocked(_))).count();
        ctx.eval("R03", "drained", Some(fp(&ctx.log.len())));
        if self.s.auc.len() != stuck {
            let v: Vec<String> = self.s.auc.values().map(|a| a.s()).collect();
            ctx.div(&["R03", "R06"], "drain", format!("auctions cannot be wound up: {v:?}"));
        }
    }
}
