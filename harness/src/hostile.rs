//! Misbehaving contracts around the three marketplaces: collections that lie, refuse or ignore transfers, and
//! collections and v1 hooks that call back into the marketplace in the middle of an action. Honest users hold orders,
//! auctions and tokens the attackers can neither afford nor are entitled to, so whatever the attackers do, the honest
//! side must stay exactly as it is (and the escrow solvent), and at the end everything can be withdrawn.
use crate::chain::*;
use crate::common::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROPS: [Tag; 2] = ["X06", "X03"];
const NS: u64 = 1_000_000_000;
const RICH: u128 = 1_000_000_000_000; // what honest users ask for
const POOR: u128 = 1_000_000; // what an attacker owns per denom
const DENOMS: [&str; 2] = [NATIVE, "uatom"];

#[derive(Clone, Default)]
struct St {
    /// every open order or auction, by kind and key
    orders: BTreeMap<String, Value>,
    bank: Bank,
    owners: BTreeMap<(String, String), String>,
    settings: Vec<Value>,
}

pub struct Hostile {
    c: Chain,
    rng: Rng,
    k: Kind,
    m: String,
    alpha: String,
    evil: Vec<String>,
    hooks: Vec<String>,
    u: Vec<String>,
    s: St,
    dead: bool,
}

fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn amt(v: &Value) -> u128 {
    s(v).parse().unwrap_or(0)
}
fn cn(n: u128, d: &str) -> Value {
    json!({"amount": n.to_string(), "denom": d})
}

impl Hostile {
    pub fn new(seed: u64, idx: u64, ctx: &mut Ctx) -> Self {
        let mut rng = Rng::new(seed, idx, 0xE1);
        let k = [Kind::V2, Kind::V1, Kind::RA][(idx % 3) as usize];
        let c = Chain::new(1_700_000_000 * NS + rng.next() % NS);
        let m = contract("market");
        let u: Vec<String> = (0..7).map(user).collect();
        let alpha = contract("alpha");
        let evil = vec![contract("evil"), contract("evilb")];
        let hooks: Vec<String> = ["hooka", "hookb", "hookc"].iter().map(|h| contract(h)).collect();
        let (reg, burn) = (contract("registry"), contract("fairburn"));
        c.add(&reg, Kind::Registry);
        c.add(&burn, Kind::FairBurn);
        for d in DENOMS {
            for (i, a) in u.iter().enumerate() {
                c.mint(a, d, if i < 5 { 10 * RICH } else { POOR });
            }
            for a in evil.iter().chain(&hooks) {
                c.mint(a, d, POOR);
            }
        }
        for a in std::iter::once(&alpha).chain(&evil) {
            c.add(a, Kind::Nft);
            let mut n = NftState { creator: u[0].clone(), ..Default::default() };
            n.info = Some(CollInfo { start: None, royalty: Some((u[0].clone(), "0.05".into())) });
            for t in 1..=6usize {
                let o = if *a == alpha { u[1 + t % 4].clone() } else { u[5 + t % 2].clone() };
                n.operators.insert((o.clone(), m.clone()));
                n.owners.insert(t.to_string(), o);
                n.approvals.insert((t.to_string(), m.clone()), None);
            }
            c.w.borrow_mut().nfts.insert(a.clone(), n);
        }
        for h in &hooks {
            c.add(h, Kind::Hook);
        }
        let people: Vec<String> = u.iter().chain(&evil).cloned().collect();
        for (i, a) in evil.iter().chain(&hooks).enumerate() {
            let e = Evil {
                seed: rng.next(),
                lie: if i < 2 { rng.pickc(&[0, 10, 30, 60]) } else { 0 },
                refuse: rng.pickc(&[0, 0, 10, 40]),
                ignore: rng.pickc(&[0, 20, 50]),
                people: people.clone(),
                script: vec![],
            };
            c.w.borrow_mut().evil.insert(a.clone(), e);
        }
        let attacker_ops = rng.p(50);
        let r = match k {
            Kind::V2 => c.instantiate(&m, k, &u[0], &json!({"config": {"fee_manager": u[0], "royalty_registry": reg, "protocol_fee_bps": 200,
                "max_royalty_fee_bps": 1000, "maker_reward_bps": 4000, "taker_reward_bps": 1000, "default_denom": NATIVE}})),
            Kind::V1 => c.instantiate(&m, k, &u[0], &json!({"trading_fee_bps": 200, "ask_expiry": {"min": 10, "max": 1_000_000_000}, "bid_expiry": {"min": 10, "max": 1_000_000_000},
                "operators": if attacker_ops { vec![&u[0], &u[5], &evil[0]] } else { vec![&u[0]] }, "sale_hook": hooks[2], "max_finders_fee_bps": 1000, "min_price": "5",
                "stale_bid_duration": {"time": 10}, "bid_removal_reward_bps": 500, "listing_fee": "0"})),
            _ => c.instantiate(&m, k, &u[0], &json!({"fair_burn": burn, "trading_fee_percent": "0.02", "min_bid_increment_percent": "0.02", "min_duration": 10,
                "max_duration": 1_000_000_000, "extend_duration": 60, "create_auction_fee": cn(0, NATIVE), "max_auctions_to_settle_per_block": 10, "halt_duration_threshold": 600,
                "halt_buffer_duration": 60, "halt_postpone_duration": 100, "min_reserve_prices": [cn(5, NATIVE), cn(5, "uatom")]})),
        };
        if let Err(e) = r {
            ctx.div(&["X03"], "setup", format!("instantiate: {e}"));
        }
        c.w.borrow_mut().admins.insert(m.clone(), Some(u[0].clone()));
        let mut e = Hostile { c, rng, k, m, alpha, evil, hooks, u, s: St::default(), dead: false };
        e.setup(ctx);
        e.s = e.observe(ctx);
        e
    }
    fn must(&mut self, ctx: &mut Ctx, who: usize, msg: Value, funds: &[Coin]) {
        if let Err(e) = self.c.tx(&self.m, &self.u[who], &msg, funds) {
            ctx.div(&["X03"], "setup", format!("honest {msg} refused: {e}"));
            self.dead = true;
        }
    }
    fn later(&self, secs: u64) -> String {
        (self.c.time.get() + secs * NS).to_string()
    }
    fn setup(&mut self, ctx: &mut Ctx) {
        let a = self.alpha.clone();
        let owner = |t: usize| 1 + t % 4;
        match self.k {
            Kind::V2 => {
                self.must(ctx, 0, json!({"set_listing_fee": {"fee": cn(3, NATIVE)}}), &[]);
                if self.rng.p(50) {
                    self.must(ctx, 0, json!({"update_collection_denom": {"collection": self.evil[1], "denom": "uatom"}}), &[]);
                }
                let det = |p: u128| json!({"price": cn(p, NATIVE), "recipient": null, "finder": null});
                for t in 1..=4 {
                    self.must(ctx, owner(t), json!({"set_ask": {"collection": a, "token_id": t.to_string(), "details": det(RICH + t as u128)}}), &[coin(3, NATIVE)]);
                }
                for i in 1..=4u128 {
                    self.must(ctx, i as usize, json!({"set_bid": {"collection": a, "token_id": (i % 6 + 1).to_string(), "details": det(100 * i)}}), &[coin(100 * i, NATIVE)]);
                    self.must(ctx, i as usize, json!({"set_collection_bid": {"collection": a, "details": det(70 * i)}}), &[coin(70 * i, NATIVE)]);
                }
            }
            Kind::V1 => {
                for (n, h) in ["add_ask_hook", "add_bid_hook"].iter().zip(self.hooks.clone()) {
                    if let Err(e) = self.c.sudo(&self.m, &json!({ *n: {"hook": h} })) {
                        ctx.div(&["X03"], "setup", e);
                    }
                }
                let e = self.later(900_000_000);
                for t in 1..=4usize {
                    self.must(ctx, owner(t), json!({"set_ask": {"sale_type": if t == 4 { "auction" } else { "fixed_price" }, "collection": a, "token_id": t, "price": cn(RICH, NATIVE),
                        "funds_recipient": null, "reserve_for": null, "finders_fee_bps": null, "expires": e}}), &[]);
                }
                for i in 1..=4u128 {
                    // tokens 5 and 6 are not listed
                    self.must(ctx, i as usize, json!({"set_bid": {"collection": a, "token_id": 5 + i % 2, "expires": e, "sale_type": "fixed_price", "finder": null, "finders_fee_bps": null}}), &[coin(100 * i, NATIVE)]);
                    self.must(ctx, i as usize, json!({"set_collection_bid": {"collection": a, "expires": e, "finders_fee_bps": null}}), &[coin(70 * i, NATIVE)]);
                }
            }
            _ => {
                for t in 1..=4usize {
                    self.must(ctx, owner(t), json!({"create_auction": {"collection": a, "token_id": t.to_string(), "reserve_price": cn(RICH, DENOMS[t % 2]), "duration": 900_000_000, "seller_funds_recipient": null}}), &[]);
                }
                for t in 1..=2usize {
                    self.must(ctx, 1 + (owner(t) + 1) % 4, json!({"place_bid": {"collection": a, "token_id": t.to_string()}}), &[coin(RICH, DENOMS[t % 2])]);
                }
            }
        }
    }
    fn q(&self, ctx: &mut Ctx, m: Value) -> Value {
        match self.c.query(&self.m, &m) {
            Ok(v) => v,
            Err(e) => {
                ctx.div(&["X03"], "query", format!("{m}: {e}"));
                Value::Null
            }
        }
    }
    fn observe(&self, ctx: &mut Ctx) -> St {
        let mut o = St::default();
        let people: Vec<&String> = self.u.iter().chain(&self.evil).chain(&self.hooks).collect();
        let colls: Vec<&String> = std::iter::once(&self.alpha).chain(&self.evil).collect();
        let put = |o: &mut St, k: String, v: &Value| {
            o.orders.insert(k, v.clone());
        };
        for p in &people {
            match self.k {
                Kind::V2 => {
                    for cl in &colls {
                        for (n, q) in [("ask", "asks_by_creator_collection"), ("bid", "bids_by_creator_collection"), ("cbid", "collection_bids_by_creator_collection")] {
                            let v = self.q(ctx, json!({q: {"creator": p, "collection": cl, "query_options": {"limit": 100}}}));
                            for x in v.as_array().into_iter().flatten() {
                                put(&mut o, format!("{n} {}", s(&x["id"])), x);
                            }
                        }
                    }
                }
                Kind::V1 => {
                    for (n, q, f, r) in [("ask", "asks_by_seller", "seller", "asks"), ("bid", "bids_by_bidder", "bidder", "bids"), ("cbid", "collection_bids_by_bidder", "bidder", "bids")] {
                        let v = self.q(ctx, if n == "ask" { json!({q: {f: p, "limit": 100, "include_inactive": true}}) } else { json!({q: {f: p, "limit": 100}}) });
                        for x in v[r].as_array().into_iter().flatten() {
                            put(&mut o, format!("{n} {} {} {}", s(&x["collection"]), x["token_id"], p), x);
                        }
                    }
                }
                _ => {
                    let v = self.q(ctx, json!({"auctions_by_seller": {"seller": p, "query_options": {"limit": 100}}}));
                    for x in v.as_array().into_iter().flatten() {
                        put(&mut o, format!("auction {} {}", s(&x["collection"]), s(&x["token_id"])), x);
                    }
                }
            }
        }
        o.settings = match self.k {
            Kind::V2 => {
                let mut v = vec![self.q(ctx, json!({"config": {}}))];
                v.extend(colls.iter().map(|c| self.q(ctx, json!({"collection_denom": {"collection": c}}))));
                v
            }
            Kind::V1 => ["params", "ask_hooks", "bid_hooks", "sale_hooks"].iter().map(|q| self.q(ctx, json!({ *q: {} }))).collect(),
            _ => vec![self.q(ctx, json!({"config": {}})), self.q(ctx, json!({"min_reserve_prices": {}}))],
        };
        let w = self.c.w.borrow();
        o.bank = w.bank.clone();
        for (a, n) in &w.nfts {
            for (t, x) in &n.owners {
                o.owners.insert((a.clone(), t.clone()), x.clone());
            }
        }
        o
    }
    /// (owner of the escrowed money, denom, amount) of an order, if it escrows money
    fn escrow(&self, key: &str, v: &Value) -> Option<(String, String, u128)> {
        match self.k {
            Kind::V2 if !key.starts_with("ask") => Some((s(&v["creator"]), s(&v["details"]["price"]["denom"]), amt(&v["details"]["price"]["amount"]))),
            Kind::V1 if !key.starts_with("ask") => Some((s(&v["bidder"]), NATIVE.into(), amt(&v["price"]))),
            Kind::RA if !v["high_bid"].is_null() => Some((s(&v["high_bid"]["bidder"]), s(&v["high_bid"]["coin"]["denom"]), amt(&v["high_bid"]["coin"]["amount"]))),
            _ => None,
        }
    }
    fn honest(&self, a: &str) -> bool {
        self.u[1..5].iter().any(|u| u == a)
    }
    fn maker(&self, v: &Value) -> String {
        [&v["creator"], &v["seller"], &v["bidder"]].iter().find(|x| x.is_string()).map(|x| s(x)).unwrap_or_default()
    }
    /// money in hand plus money in escrow, per honest user and denom; optionally only the escrow orders in `keep`
    fn claims(&self, st: &St) -> BTreeMap<(String, String), u128> {
        let mut m = BTreeMap::new();
        for u in &self.u[1..5] {
            for d in DENOMS {
                m.insert((u.clone(), d.to_string()), st.bank.get(&(u.clone(), d.to_string())).copied().unwrap_or(0));
            }
        }
        for (k, v) in &st.orders {
            if let Some((a, d, n)) = self.escrow(k, v) {
                if let Some(x) = m.get_mut(&(a, d)) {
                    *x += n;
                }
            }
        }
        m
    }
    fn judge(&mut self, ctx: &mut Ctx, what: &str, by: Option<(String, Vec<Coin>)>) {
        let o = self.observe(ctx);
        let p = std::mem::take(&mut self.s);
        // the escrow covers every open bid
        let mut owed: BTreeMap<String, u128> = BTreeMap::new();
        for (k, v) in &o.orders {
            if let Some((_, d, n)) = self.escrow(k, v) {
                *owed.entry(d).or_default() += n;
            }
        }
        for (d, n) in &owed {
            let b = o.bank.get(&(self.m.clone(), d.clone())).copied().unwrap_or(0);
            if b < *n {
                ctx.div(&["X03"], "escrow", format!("{what}: holds {b}{d} for open bids of {n}"));
            }
        }
        // honest orders on the honest collection are frozen
        let acting = by.as_ref().map(|b| b.0.clone());
        for (k, v) in &p.orders {
            let alpha = v["collection"] == self.alpha;
            if alpha && self.honest(&self.maker(v)) && o.orders.get(k) != Some(v) {
                ctx.div(&["X03"], "honest-order", format!("{what}: {v} became {:?}", o.orders.get(k)));
            }
            // orders of honest users elsewhere may be traded away, nothing else
            if !alpha && self.honest(&self.maker(v)) && Some(self.maker(v)) != acting {
                if let Some(n) = o.orders.get(k) {
                    if n != v {
                        ctx.div(&["X03"], "honest-order-changed", format!("{what}: {v} became {n}"));
                    }
                }
            }
        }
        // a bid of theirs disappears only by being traded, so the marketplace sent them a token of that collection for it
        let sent: Vec<(String, String, String)> =
            self.c.calls.borrow().iter().filter(|c| c.from == self.m).map(|c| (c.to.clone(), s(&c.msg["transfer_nft"]["token_id"]), s(&c.msg["transfer_nft"]["recipient"]))).collect();
        for cl in &self.evil {
            for u in &self.u[1..5] {
                if Some(u) == acting.as_ref() || self.k == Kind::RA {
                    continue;
                }
                let gone: Vec<&String> = p
                    .orders
                    .iter()
                    .filter(|(k, v)| !k.starts_with("ask") && !(self.k == Kind::V1 && k.starts_with("bid")) && v["collection"] == *cl && self.maker(v) == *u && !o.orders.contains_key(*k))
                    .map(|(k, _)| k)
                    .collect();
                let moved = sent.iter().filter(|x| x.0 == *cl && x.2 == *u).count();
                if !gone.is_empty() {
                    ctx.eval("X03", "honest bid on a hostile token traded", Some(fp(&(gone.len(), moved, &gone))));
                }
                if gone.len() > moved {
                    ctx.div(&["X03"], "bid-removed", format!("{what}: {gone:?} disappeared though {} was sent {moved} tokens", short(u)));
                }
            }
        }
        for (k, v) in &o.orders {
            if !p.orders.contains_key(k) && self.honest(&self.maker(v)) && Some(self.maker(v)) != acting {
                ctx.div(&["X03"], "order-forged", format!("{what}: {v} appeared"));
            }
        }
        for ((c, t), x) in &p.owners {
            if *c == self.alpha && o.owners.get(&(c.clone(), t.clone())) != Some(x) {
                ctx.div(&["X03"], "honest-token", format!("{what}: alpha/{t} moved from {} to {:?}", short(x), o.owners.get(&(c.clone(), t.clone())).map(|a| short(a))));
            }
        }
        if p.settings != o.settings {
            ctx.div(&["X03"], "settings", format!("{what}: settings changed"));
        }
        // money of honest users: at most the bids they left on the attackers' tokens are spent
        let (a, b) = (self.claims(&p), self.claims(&o));
        for ((u, d), n) in &a {
            let mut floor = *n;
            for (k, v) in &p.orders {
                if let Some((w, dd, x)) = self.escrow(k, v) {
                    // a reserve auction keeps its key when it is created anew
                    let gone = if self.k == Kind::RA { sent.iter().any(|x| v["collection"] == x.0 && v["token_id"] == x.1 && x.2 == w) } else { !o.orders.contains_key(k) };
                    if w == *u && dd == *d && gone && v["collection"] != self.alpha {
                        floor -= x;
                    }
                }
            }
            if let Some((w, f)) = &by {
                if w == u {
                    floor -= f.iter().filter(|c| c.denom == *d).map(|c| c.amount.u128()).sum::<u128>().min(floor);
                }
            }
            let got = b[&(u.clone(), d.clone())];
            if got < floor {
                ctx.div(&["X03"], "honest-money", format!("{what}: {} owns {got}{d}, at least {floor} expected", short(u)));
            }
        }
        self.s = o;
    }

    // ---------------------------------------------------------------- attackers
    fn coll(&mut self) -> String {
        match self.rng.weighted(&[30, 45, 25]) {
            0 => self.alpha.clone(),
            1 => self.evil[0].clone(),
            _ => self.evil[1].clone(),
        }
    }
    fn someone(&mut self) -> Value {
        match self.rng.below(6) {
            0..=2 => Value::Null,
            3 => json!(self.u[5 + self.rng.below(2)]),
            4 => json!(self.evil[self.rng.below(2)]),
            _ => json!(self.u[self.rng.below(5)]),
        }
    }
    fn money(&mut self, p: &Value) -> Vec<Coin> {
        match self.rng.weighted(&[60, 15, 15, 10]) {
            0 => vec![coin(amt(&p["amount"]).max(1), p["denom"].as_str().unwrap_or(NATIVE))],
            1 => vec![],
            2 => vec![coin(self.rng.pickc(&[1u128, 3, 500, 5000]), DENOMS[self.rng.below(2)])],
            _ => vec![coin(amt(&p["amount"]).max(1), NATIVE), coin(3, "uatom")],
        }
    }
    /// any message of the marketplace, addressed at anything, with its coins
    fn attack(&mut self, sender: &str) -> (Value, Vec<Coin>) {
        let mut cl = self.coll();
        let mut t = 1 + self.rng.below(6);
        let ord: Vec<(String, Value)> = self.s.orders.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if self.rng.p(35) && !ord.is_empty() {
            let v = self.rng.pickc(&ord).1;
            cl = s(&v["collection"]);
            t = v["token_id"].as_u64().map(|x| x as usize).or(s(&v["token_id"]).parse().ok()).unwrap_or(t);
        }
        // the attackers decide who owns tokens of their own collections
        if cl != self.alpha && self.rng.p(50) {
            let listed = ord.iter().any(|(k, v)| (k.starts_with("ask") || k.starts_with("auc")) && v["collection"] == cl && (v["token_id"] == t || v["token_id"] == t.to_string()));
            if !listed || self.rng.p(20) {
                self.c.w.borrow_mut().nfts.get_mut(&cl).unwrap().owners.insert(t.to_string(), sender.to_string());
            }
        }
        let mut denom = if self.k == Kind::V1 || self.rng.p(75) { NATIVE } else { "uatom" };
        if self.k == Kind::V2 && cl == self.evil[1] && self.rng.p(40) {
            denom = "uatom";
        }
        let n = if self.rng.p(60) || ord.is_empty() {
            self.rng.pickc(&[5u128, 10, 100, 400, 1000, 30_000])
        } else {
            let (k, v) = self.rng.pickc(&ord);
            self.escrow(&k, &v).map_or(700, |e| e.2)
        };
        let mut p = cn(n, denom);
        match self.k {
            Kind::V2 => {
                let mut d = json!({"price": p, "recipient": self.someone(), "finder": self.someone()});
                let target = std::cell::Cell::new(None);
                let find = |r: &mut Rng, kind: &str| -> Value {
                    let mine = r.p(50);
                    let v: Vec<&(String, Value)> = ord.iter().filter(|x| x.0.starts_with(kind) && (!mine || x.1["creator"] == sender)).collect();
                    if v.is_empty() || r.p(3) {
                        json!("0".repeat(64))
                    } else {
                        let x = &v[r.below(v.len())].1;
                        target.set(Some(x.clone()));
                        x["id"].clone()
                    }
                };
                let r = &mut self.rng;
                let m = match r.weighted(&[16, 8, 8, 8, 12, 4, 5, 8, 12, 4, 5, 8, 8, 8, 8, 4]) {
                    0 => json!({"set_ask": {"collection": cl, "token_id": t.to_string(), "details": d}}),
                    1 => json!({"remove_ask": {"id": find(r, "ask")}}),
                    2 => json!({"update_ask": {"id": find(r, "ask"), "details": d}}),
                    3 => json!({"accept_ask": {"id": find(r, "ask"), "details": d}}),
                    4 => json!({"set_bid": {"collection": cl, "token_id": t.to_string(), "details": d}}),
                    5 => json!({"remove_bid": {"id": find(r, "bid")}}),
                    6 => json!({"update_bid": {"id": find(r, "bid"), "details": d}}),
                    7 => json!({"accept_bid": {"id": find(r, "bid"), "details": d}}),
                    8 => json!({"set_collection_bid": {"collection": cl, "details": d}}),
                    9 => json!({"remove_collection_bid": {"id": find(r, "cbid")}}),
                    10 => json!({"update_collection_bid": {"id": find(r, "cbid"), "details": d}}),
                    11 => json!({"accept_collection_bid": {"id": find(r, "cbid"), "token_id": t.to_string(), "details": d}}),
                    12 => json!({"sell_nft": {"collection": cl, "token_id": t.to_string(), "details": d}}),
                    13 => json!({"buy_specific_nft": {"collection": cl, "token_id": t.to_string(), "details": d}}),
                    14 => json!({"buy_collection_nft": {"collection": cl, "details": d}}),
                    _ => match r.below(4) {
                        0 => json!({"set_listing_fee": {"fee": p}}),
                        1 => json!({"remove_listing_fee": {"denom": NATIVE}}),
                        2 => json!({"update_collection_denom": {"collection": cl, "denom": "uatom"}}),
                        _ => json!({"update_config": {"config": {"fee_manager": self.evil[0], "royalty_registry": self.evil[0], "protocol_fee_bps": 9999, "max_royalty_fee_bps": 0,
                            "maker_reward_bps": 0, "taker_reward_bps": 0, "default_denom": "uatom"}}}),
                    },
                };
                let mut m = m;
                let kind = m.as_object().unwrap().keys().next().unwrap().clone();
                if let (true, true, Some(x)) = (kind.starts_with("accept"), self.rng.p(75), target.take()) {
                    p = x["details"]["price"].clone();
                    d["price"] = p.clone();
                    m[&kind]["details"] = d;
                    if kind == "accept_bid" && x["collection"] != self.alpha && self.rng.p(70) {
                        self.c.w.borrow_mut().nfts.get_mut(&s(&x["collection"])).unwrap().owners.insert(s(&x["token_id"]), sender.to_string());
                    }
                    if kind == "accept_collection_bid" && x["collection"] != self.alpha && self.rng.p(70) {
                        self.c.w.borrow_mut().nfts.get_mut(&s(&x["collection"])).unwrap().owners.insert(t.to_string(), sender.to_string());
                    }
                }
                let f = if ["set_ask", "sell_nft"].contains(&kind.as_str()) {
                    if self.rng.p(90) { vec![coin(3, NATIVE)] } else { vec![] }
                } else if kind.contains("remove") || kind.contains("accept_bid") || kind.contains("accept_collection") || kind == "update_ask" {
                    if self.rng.p(92) { vec![] } else { vec![coin(7, NATIVE)] }
                } else {
                    self.money(&p)
                };
                (m, f)
            }
            Kind::V1 => {
                let exp = { let x = self.rng.pickc(&[11u64, 100, 100_000, 10_000_000]); self.later(x) };
                let who = if self.rng.p(70) { self.u[1 + self.rng.below(6)].clone() } else { self.evil[self.rng.below(2)].clone() };
                let st = self.rng.pickc(&["fixed_price", "fixed_price", "auction"]);
                let (fr, rf, fi) = (self.someone(), if self.rng.p(80) { Value::Null } else { self.someone() }, self.someone());
                let ff = if fi.is_null() { Value::Null } else { json!(self.rng.pickc(&[0u64, 100, 1000])) };
                let w = self.rng.weighted(&[18, 6, 6, 16, 6, 5, 5, 8, 6, 10, 5, 8, 5, 5, 4, 4]);
                let mut who = who;
                let kind = if w == 7 || w == 8 || w == 14 { "bid " } else { "cbid " };
                let have: Vec<&(String, Value)> = ord.iter().filter(|o| o.0.starts_with(kind)).collect();
                if [7, 8, 11, 14, 15].contains(&w) && !have.is_empty() && self.rng.p(80) {
                    let v = &have[self.rng.below(have.len())].1;
                    who = s(&v["bidder"]);
                    cl = s(&v["collection"]);
                    t = v["token_id"].as_u64().map_or(t, |x| x as usize);
                    if cl != self.alpha && self.rng.p(70) {
                        self.c.w.borrow_mut().nfts.get_mut(&cl).unwrap().owners.insert(t.to_string(), sender.to_string());
                    }
                }
                let m = match w {
                    0 => json!({"set_ask": {"sale_type": st, "collection": cl, "token_id": t, "price": p, "funds_recipient": fr, "reserve_for": rf, "finders_fee_bps": ff, "expires": exp}}),
                    1 => json!({"remove_ask": {"collection": cl, "token_id": t}}),
                    2 => json!({"update_ask_price": {"collection": cl, "token_id": t, "price": p}}),
                    3 => json!({"set_bid": {"collection": cl, "token_id": t, "expires": exp, "sale_type": st, "finder": fi, "finders_fee_bps": ff}}),
                    4 => json!({"buy_now": {"collection": cl, "token_id": t, "expires": exp, "finder": fi, "finders_fee_bps": ff}}),
                    5 => json!({"buy_for": {"collection": cl, "token_id": t, "expires": exp, "finder": fi, "finders_fee_bps": ff, "asset_recipient": who}}),
                    6 => json!({"remove_bid": {"collection": cl, "token_id": t}}),
                    7 => json!({"accept_bid": {"collection": cl, "token_id": t, "bidder": who, "finder": fi}}),
                    8 => json!({"reject_bid": {"collection": cl, "token_id": t, "bidder": who}}),
                    9 => json!({"set_collection_bid": {"collection": cl, "expires": exp, "finders_fee_bps": ff}}),
                    10 => json!({"remove_collection_bid": {"collection": cl}}),
                    11 => json!({"accept_collection_bid": {"collection": cl, "token_id": t, "bidder": who, "finder": fi}}),
                    12 => json!({"sync_ask": {"collection": cl, "token_id": t}}),
                    13 => json!({"remove_stale_ask": {"collection": cl, "token_id": t}}),
                    14 => json!({"remove_stale_bid": {"collection": cl, "token_id": t, "bidder": who}}),
                    _ => json!({"remove_stale_collection_bid": {"collection": cl, "bidder": who}}),
                };
                let kind = m.as_object().unwrap().keys().next().unwrap().clone();
                let pay = ["set_bid", "buy_now", "buy_for", "set_collection_bid"].contains(&kind.as_str());
                let f = if pay { self.money(&p) } else if self.rng.p(95) { vec![] } else { vec![coin(9, NATIVE)] };
                (m, f)
            }
            _ => {
                let w = self.rng.weighted(&[30, 6, 8, 35, 15]);
                if w == 0 && self.rng.p(85) {
                    cl = self.evil[self.rng.below(2)].clone();
                    p = cn(self.rng.pickc(&[5u128, 10, 100, 400, 1000]), DENOMS[self.rng.below(2)]);
                    self.c.w.borrow_mut().nfts.get_mut(&cl).unwrap().owners.insert(t.to_string(), sender.to_string());
                }
                if w >= 3 && self.rng.p(70) {
                    let v: Vec<&Value> = ord.iter().map(|o| &o.1).filter(|v| v["collection"] != self.alpha).collect();
                    if !v.is_empty() {
                        let v = v[self.rng.below(v.len())];
                        cl = s(&v["collection"]);
                        t = s(&v["token_id"]).parse().unwrap_or(t);
                    }
                }
                let m = match w {
                    0 => json!({"create_auction": {"collection": cl, "token_id": t.to_string(), "reserve_price": p, "duration": self.rng.pickc(&[10u64, 11, 50, 1000]), "seller_funds_recipient": self.someone()}}),
                    1 => json!({"update_reserve_price": {"collection": cl, "token_id": t.to_string(), "reserve_price": p}}),
                    2 => json!({"cancel_auction": {"collection": cl, "token_id": t.to_string()}}),
                    3 => json!({"place_bid": {"collection": cl, "token_id": t.to_string()}}),
                    _ => json!({"settle_auction": {"collection": cl, "token_id": t.to_string()}}),
                };
                let bid = m.get("place_bid").is_some();
                if let Some(v) = self.s.orders.get(&format!("auction {cl} {t}")) {
                    if bid && cl != self.alpha && self.rng.p(80) {
                        let n = if v["high_bid"].is_null() { amt(&v["reserve_price"]["amount"]) } else { amt(&v["high_bid"]["coin"]["amount"]) * 103 / 100 + 1 };
                        p = cn(n, v["reserve_price"]["denom"].as_str().unwrap());
                    }
                }
                let f = if bid { self.money(&p) } else if self.rng.p(95) { vec![] } else { vec![coin(9, NATIVE)] };
                (m, f)
            }
        }
    }
    fn plot(&mut self) {
        for _ in 0..1 + self.rng.below(2) {
            let n = 1 + self.rng.below(3);
            let mut batch = vec![];
            let all: Vec<String> = if self.k == Kind::V1 { self.evil.iter().chain(&self.hooks).cloned().collect() } else { self.evil.clone() };
            let a = self.rng.pickc(&all);
            for _ in 0..n {
                let (m, f) = self.attack(&a);
                batch.push((self.rng.p(80), self.m.clone(), m, f));
            }
            let mut w = self.c.w.borrow_mut();
            let sc = &mut w.evil.get_mut(&a).unwrap().script;
            if sc.len() < 4 {
                sc.push(batch);
            }
        }
    }
    fn describe(&self, n0: usize) -> (String, u64, u64) {
        let calls = self.c.calls.borrow();
        let inner: Vec<(String, String, bool)> = calls
            .iter()
            .skip(n0)
            .filter(|c| c.to == self.m)
            .map(|c| (short(&c.from), c.msg.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default(), c.ok))
            .collect();
        let t = inner.iter().map(|i| format!("{}:{}{}", i.0, i.1, if i.2 { "" } else { "!" })).collect::<Vec<_>>().join(" ");
        (t.clone(), inner.iter().filter(|i| i.2).count() as u64, inner.len() as u64)
    }
    fn note(&self, ctx: &mut Ctx, outer: &str, target_evil: bool, ok: bool) {
        let (t, good, n) = self.describe(0);
        if n > 0 {
            ctx.eval("X03", &format!("reentrant {outer} ok={ok} inner_ok={}", good > 0), Some(fp(&(outer, ok, &t))));
        } else {
            ctx.eval("X03", &format!("{}{outer} ok={ok}", if target_evil { "evil " } else { "" }), if target_evil { Some(fp(&(outer, ok, self.c.calls.borrow().len()))) } else { None });
        }
        for c in self.c.calls.borrow().iter().filter(|c| c.to == self.m) {
            let k = c.msg.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
            ctx.count(&format!("X03 reentrant {k} ok={}", c.ok));
        }
    }
    fn act(&mut self, ctx: &mut Ctx, sender: &str, msg: Value, f: Vec<Coin>, honest: bool) {
        let kind = msg.as_object().unwrap().keys().next().unwrap().clone();
        let r = self.c.tx(&self.m, sender, &msg, &f);
        let what = format!("{} {msg} with {:?} -> {} inner [{}]", short(sender), f.iter().map(|c| c.to_string()).collect::<Vec<_>>(), match &r { Ok(_) => "ok".into(), Err(e) => e.clone() }, self.describe(0).0);
        ctx.log.push(what.clone());
        self.note(ctx, &kind, msg.to_string().contains("contractevil"), r.is_ok());
        ctx.count(&format!("X03 {kind} ok={}", r.is_ok()));
        self.judge(ctx, &what, if honest { Some((sender.to_string(), f)) } else { None });
    }
}

impl Engine for Hostile {
    fn step(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        if self.rng.p(60) {
            self.plot();
        }
        match self.rng.weighted(if self.k == Kind::RA { &[62, 24, 10, 4] } else { &[70, 14, 12, 4] }) {
            0 => {
                let who = match self.rng.below(10) {
                    0..=7 => self.u[5 + self.rng.below(2)].clone(),
                    8 => self.evil[0].clone(),
                    _ => self.evil[1].clone(),
                };
                let (m, f) = self.attack(&who);
                self.act(ctx, &who, m, f, false);
            }
            // honest users trade in the attackers' collections, too
            1 => {
                let cl = self.evil[self.rng.below(2)].clone();
                let t = 1 + self.rng.below(6);
                let i = 1 + self.rng.below(4);
                let n = self.rng.pickc(&[10u128, 100, 400, 1000]);
                let e = self.later(900_000_000);
                let (m, f) = match self.k {
                    Kind::V2 => {
                        let dn = if self.rng.p(80) { NATIVE } else { "uatom" };
                        let d = json!({"price": cn(n, dn), "recipient": null, "finder": null});
                        (if self.rng.p(50) { json!({"set_bid": {"collection": cl, "token_id": t.to_string(), "details": d}}) } else { json!({"set_collection_bid": {"collection": cl, "details": d}}) }, vec![coin(n, dn)])
                    }
                    Kind::V1 => (
                        if self.rng.p(50) { json!({"set_bid": {"collection": cl, "token_id": t, "expires": e, "sale_type": "auction", "finder": null, "finders_fee_bps": null}}) } else { json!({"set_collection_bid": {"collection": cl, "expires": e, "finders_fee_bps": null}}) },
                        vec![coin(n, NATIVE)],
                    ),
                    _ => {
                        let open: Vec<Value> = self.s.orders.values().filter(|v| v["collection"] != self.alpha).cloned().collect();
                        if open.is_empty() || self.rng.p(10) {
                            (json!({"place_bid": {"collection": cl, "token_id": t.to_string()}}), vec![coin(n * 3, DENOMS[self.rng.below(2)])])
                        } else {
                            let v = self.rng.pickc(&open);
                            let b = if v["high_bid"].is_null() { amt(&v["reserve_price"]["amount"]) } else { amt(&v["high_bid"]["coin"]["amount"]) * 103 / 100 + 1 };
                            (json!({"place_bid": {"collection": v["collection"], "token_id": v["token_id"]}}), vec![coin(b, v["reserve_price"]["denom"].as_str().unwrap())])
                        }
                    }
                };
                let u = self.u[i].clone();
                self.act(ctx, &u, m, f, true);
            }
            2 => {
                let d = self.rng.pickc(&[1u64, 5, 6, 12, 60, 200]);
                self.c.time.set(self.c.time.get() + d * NS + self.rng.next() % NS);
                self.c.height.set(self.c.height.get() + 1);
                if self.k == Kind::RA {
                    for b in ["begin_block", "end_block"] {
                        let r = self.c.sudo(&self.m, &json!({ b: {} }));
                        let what = format!("{b} +{d} -> {} inner [{}]", r.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| e.clone()), self.describe(0).0);
                        ctx.log.push(what.clone());
                        self.note(ctx, b, true, r.is_ok());
                        self.judge(ctx, &what, None);
                    }
                }
            }
            // the attackers change how their collections behave
            _ => {
                let a = self.evil[self.rng.below(2)].clone();
                let (l, r, i) = (self.rng.pickc(&[0u64, 10, 30, 90]), self.rng.pickc(&[0u64, 0, 10, 100]), self.rng.pickc(&[0u64, 20, 100]));
                {
                    let mut w = self.c.w.borrow_mut();
                    let e = w.evil.get_mut(&a).unwrap();
                    e.lie = l;
                    e.refuse = r;
                    e.ignore = i;
                }
                let t = 1 + self.rng.below(6);
                let o = match self.rng.below(3) {
                    0 => self.u[5 + self.rng.below(2)].clone(),
                    1 => a.clone(),
                    _ => self.m.clone(),
                };
                self.c.w.borrow_mut().nfts.get_mut(&a).unwrap().owners.insert(t.to_string(), o);
                ctx.log.push(format!("{} lies {l}% refuses {r}% ignores {i}%", short(&a)));
                self.judge(ctx, "ext", None);
            }
        }
    }
    fn finish(&mut self, ctx: &mut Ctx) {
        if self.dead {
            return;
        }
        for e in self.c.w.borrow_mut().evil.values_mut() {
            e.refuse = 100;
            e.script.clear();
        }
        // every honest user can get everything back while the misbehaving contracts refuse everything
        let mine: Vec<(String, Value)> = self.s.orders.iter().filter(|(_, v)| self.honest(&self.maker(v))).map(|(k, v)| (k.clone(), v.clone())).collect();
        let before = self.claims(&self.s);
        for (k, v) in &mine {
            let who = self.maker(v);
            let (cl, t) = (v["collection"].clone(), v["token_id"].clone());
            let m = match self.k {
                Kind::V2 => {
                    let n = k.split(' ').next().unwrap();
                    let n = match n { "ask" => "remove_ask", "bid" => "remove_bid", _ => "remove_collection_bid" };
                    json!({ n: {"id": v["id"]} })
                }
                Kind::V1 => match k.split(' ').next().unwrap() {
                    "ask" => json!({"remove_ask": {"collection": cl, "token_id": t}}),
                    "bid" => json!({"remove_bid": {"collection": cl, "token_id": t}}),
                    _ => json!({"remove_collection_bid": {"collection": cl}}),
                },
                _ => {
                    if !v["high_bid"].is_null() {
                        continue;
                    }
                    json!({"cancel_auction": {"collection": cl, "token_id": t}})
                }
            };
            if let Err(e) = self.c.tx(&self.m, &who, &m, &[]) {
                ctx.div(&["X03"], "not-withdrawable", format!("{} cannot withdraw {v}: {e}", short(&who)));
            }
        }
        let o = self.observe(ctx);
        let left = o.orders.iter().filter(|(_, v)| self.honest(&self.maker(v)) && v["high_bid"].is_null()).count();
        let after = self.claims(&o);
        ctx.log.push(format!("honest users withdraw {} orders", mine.len()));
        ctx.eval("X03", "withdraw-all", Some(fp(&(mine.len(), self.k as u8))));
        if left > 0 || before != after {
            ctx.div(&["X03"], "withdrawal", format!("after withdrawing everything {left} orders are left, claims {before:?} vs {after:?}"));
        }
        if self.k != Kind::RA {
            for t in 1..=6usize {
                let want = &self.u[1 + t % 4];
                let got = o.owners.get(&(self.alpha.clone(), t.to_string()));
                if got != Some(want) {
                    ctx.div(&["X03"], "withdrawal-token", format!("alpha/{t} is with {:?}", got.map(|g| short(g))));
                }
            }
        } else {
            // the honest auctions end and settle
            self.c.time.set(self.c.time.get() + 2_000_000_000 * NS);
            for t in 1..=2usize {
                let (seller, winner, d) = (self.u[1 + t % 4].clone(), self.u[1 + (1 + t % 4 + 1) % 4].clone(), DENOMS[t % 2]);
                let b = self.c.bal(&seller, d);
                let r = self.c.tx(&self.m, &self.u[5], &json!({"settle_auction": {"collection": self.alpha, "token_id": t.to_string()}}), &[]);
                let got = self.c.bal(&seller, d) - b;
                let own = self.c.w.borrow().nfts[&self.alpha].owners[&t.to_string()].clone();
                if r.is_err() || got != RICH / 100 * 93 || own != winner {
                    ctx.div(&["X03"], "honest-settle", format!("alpha/{t}: {:?} seller got {got}, token with {}", r.err(), short(&own)));
                }
            }
        }
    }
}
