#![allow(dead_code)]
//! Small scenario kit over the in-memory chain of chain.rs.
pub use crate::chain::*;
pub use serde_json::{json, Value};

pub const SEC: u64 = 1_000_000_000;
pub const T0: u64 = 1_700_000_000;

pub struct K {
    pub c: Chain,
    pub m: String,
    pub coll: String,
    pub reg: String,
    pub burn: String,
}

pub fn cn(n: u128) -> Value {
    json!({"amount": n.to_string(), "denom": NATIVE})
}
pub fn cd(n: u128, d: &str) -> Value {
    json!({"amount": n.to_string(), "denom": d})
}
pub fn s(n: u128) -> Vec<cosmwasm_std::Coin> {
    vec![coin(n, NATIVE)]
}
pub fn u(i: usize) -> String {
    user(i)
}
/// order details of the order-book marketplace
pub fn det(price: Value) -> Value {
    json!({"price": price, "recipient": null, "finder": null})
}
pub fn det3(price: Value, recipient: Option<String>, finder: Option<String>) -> Value {
    json!({"price": price, "recipient": recipient, "finder": finder})
}

impl K {
    fn base() -> K {
        let c = Chain::new(T0 * SEC);
        let k = K { c, m: contract("market"), coll: contract("alpha"), reg: contract("registry"), burn: contract("fairburn") };
        k.c.add(&k.reg, Kind::Registry);
        k.c.add(&k.burn, Kind::FairBurn);
        for i in 0..10 {
            for d in [NATIVE, "uatom", "uosmo"] {
                k.c.mint(&u(i), d, 1_000_000_000_000_000);
            }
        }
        k.collection(&k.coll.clone());
        k
    }
    /// a collection with tokens "1".."9", token n owned by user n, the marketplace approved for all
    pub fn collection(&self, coll: &str) {
        self.c.add(coll, Kind::Nft);
        let mut n = NftState { creator: u(0), info: Some(CollInfo::default()), ..Default::default() };
        for i in 1..10 {
            n.owners.insert(i.to_string(), u(i));
            n.operators.insert((u(i), self.m.clone()));
            n.approvals.insert((i.to_string(), self.m.clone()), None);
        }
        self.c.w.borrow_mut().nfts.insert(coll.to_string(), n);
    }
    pub fn royalty(&self, to: &str, share: &str) {
        self.c.w.borrow_mut().nfts.get_mut(&self.coll).unwrap().info.as_mut().unwrap().royalty = Some((to.into(), share.into()));
    }
    /// order-book marketplace, admin and fee manager user 0, listing fee 5 ustars
    pub fn v2() -> K {
        Self::v2_with(json!({}))
    }
    pub fn v2_cfg(k: &K, over: Value) -> Value {
        let mut cfg = json!({"fee_manager": u(0), "royalty_registry": k.reg, "protocol_fee_bps": 200, "max_royalty_fee_bps": 1000,
            "maker_reward_bps": 4000, "taker_reward_bps": 1000, "default_denom": NATIVE});
        for (a, b) in over.as_object().unwrap() {
            cfg[a] = b.clone();
        }
        cfg
    }
    pub fn v2_with(over: Value) -> K {
        let k = Self::base();
        let cfg = Self::v2_cfg(&k, over);
        k.c.instantiate(&k.m, Kind::V2, &u(0), &json!({ "config": cfg })).map(|_| ()).expect("instantiate");
        k.c.w.borrow_mut().admins.insert(k.m.clone(), Some(u(0)));
        k.ok(&u(0), json!({"set_listing_fee": {"fee": cn(5)}}), &[]);
        k
    }
    /// v1 marketplace: trading fee 2%, minimum price 5, listing fee 0, operator user 9
    pub fn v1_with(over: Value) -> K {
        let k = Self::base();
        let mut p = json!({"trading_fee_bps": 200, "ask_expiry": {"min": 100, "max": 1_000_000}, "bid_expiry": {"min": 100, "max": 1_000_000},
            "operators": [u(9)], "sale_hook": null, "max_finders_fee_bps": 1000, "min_price": "5", "stale_bid_duration": {"time": 1000},
            "bid_removal_reward_bps": 500, "listing_fee": "0"});
        for (a, b) in over.as_object().unwrap() {
            p[a] = b.clone();
        }
        k.c.instantiate(&k.m, Kind::V1, &u(0), &p).map(|_| ()).expect("instantiate");
        k
    }
    pub fn v1() -> K {
        Self::v1_with(json!({}))
    }
    /// reserve auction: trading fee 2%, bid increment 2%, durations 100..10000 s, extension 60 s, creation fee 0
    pub fn ra_with(over: Value) -> K {
        let k = Self::base();
        let mut p = json!({"fair_burn": k.burn, "trading_fee_percent": "0.02", "min_bid_increment_percent": "0.02", "min_duration": 100,
            "max_duration": 10000, "extend_duration": 60, "create_auction_fee": cn(0), "max_auctions_to_settle_per_block": 10,
            "halt_duration_threshold": 600, "halt_buffer_duration": 120, "halt_postpone_duration": 300, "min_reserve_prices": [cn(10)]});
        for (a, b) in over.as_object().unwrap() {
            p[a] = b.clone();
        }
        k.c.instantiate(&k.m, Kind::RA, &u(0), &p).map(|_| ()).expect("instantiate");
        k
    }
    pub fn ra() -> K {
        Self::ra_with(json!({}))
    }
    pub fn x(&self, from: &str, msg: Value, funds: &[cosmwasm_std::Coin]) -> Result<(), String> {
        self.c.tx(&self.m, from, &msg, funds).map(|_| ())
    }
    /// the events of an action that should succeed
    pub fn evs(&self, from: &str, msg: Value, funds: &[cosmwasm_std::Coin]) -> Vec<Ev> {
        self.c.tx(&self.m, from, &msg, funds).unwrap_or_else(|e| panic!("{msg} should succeed: {e:?}")).events
    }
    pub fn ok(&self, from: &str, msg: Value, funds: &[cosmwasm_std::Coin]) {
        if let Err(e) = self.x(from, msg.clone(), funds) {
            panic!("{msg} should succeed: {e}");
        }
    }
    pub fn err(&self, from: &str, msg: Value, funds: &[cosmwasm_std::Coin]) {
        assert!(self.x(from, msg.clone(), funds).is_err(), "{msg} should be rejected");
    }
    pub fn sudo(&self, msg: Value) {
        if let Err(e) = self.c.sudo(&self.m, &msg) {
            panic!("{msg} should succeed: {e}");
        }
    }
    pub fn q(&self, msg: Value) -> Value {
        self.c.query(&self.m, &msg).unwrap_or_else(|e| panic!("query {msg}: {e}"))
    }
    pub fn bal(&self, who: &str) -> u128 {
        self.c.bal(who, NATIVE)
    }
    pub fn held(&self, d: &str) -> u128 {
        self.c.bal(&self.m, d)
    }
    pub fn owner(&self, token: &str) -> String {
        self.c.w.borrow().nfts[&self.coll].owners[token].clone()
    }
    pub fn give(&self, token: &str, to: &str) {
        let mut w = self.c.w.borrow_mut();
        let n = w.nfts.get_mut(&self.coll).unwrap();
        n.owners.insert(token.into(), to.into());
        n.approvals.retain(|(t, _), _| t != token);
    }
    pub fn approve(&self, token: &str) {
        self.c.w.borrow_mut().nfts.get_mut(&self.coll).unwrap().approvals.insert((token.into(), self.m.clone()), None);
    }
    pub fn wait(&self, secs: u64) {
        self.c.time.set(self.c.time.get() + secs * SEC);
        self.c.height.set(self.c.height.get() + 1);
    }
    pub fn now(&self) -> u64 {
        self.c.time.get() / SEC
    }
    /// a timestamp `secs` from now
    pub fn at(&self, secs: u64) -> String {
        (self.c.time.get() + secs * SEC).to_string()
    }
    // ---- order book
    pub fn ask(&self, who: &str, token: &str, d: Value) {
        self.ok(who, json!({"set_ask": {"collection": self.coll, "token_id": token, "details": d}}), &s(5));
    }
    pub fn bid(&self, who: &str, token: &str, d: Value) {
        let f = [coin(d["price"]["amount"].as_str().unwrap().parse().unwrap(), d["price"]["denom"].as_str().unwrap())];
        self.ok(who, json!({"set_bid": {"collection": self.coll, "token_id": token, "details": d}}), &f);
    }
    pub fn cbid(&self, who: &str, d: Value) {
        let f = [coin(d["price"]["amount"].as_str().unwrap().parse().unwrap(), d["price"]["denom"].as_str().unwrap())];
        self.ok(who, json!({"set_collection_bid": {"collection": self.coll, "details": d}}), &f);
    }
    pub fn asks(&self, denom: &str) -> Vec<Value> {
        self.q(json!({"asks_by_collection_denom": {"collection": self.coll, "denom": denom, "query_options": {"limit": 100}}})).as_array().unwrap().clone()
    }
    pub fn bids(&self, token: &str, denom: &str) -> Vec<Value> {
        self.q(json!({"bids_by_token_price": {"collection": self.coll, "token_id": token, "denom": denom, "query_options": {"limit": 100}}})).as_array().unwrap().clone()
    }
    pub fn cbids(&self, denom: &str) -> Vec<Value> {
        self.q(json!({"collection_bids_by_price": {"collection": self.coll, "denom": denom, "query_options": {"limit": 100}}})).as_array().unwrap().clone()
    }
}
