//! Monitors of the shared marketplace package (C01 sale splitter, C02 guards, C03 royalty lookup): every call of the real
//! functions on generated inputs is judged against an independent big-integer / set-based oracle.
use crate::common::*;
use cosmwasm_std::testing::{mock_env, MockApi, MockStorage};
use cosmwasm_std::{
    coin, from_json, to_json_binary, Addr, BankMsg, Coin, ContractResult, CosmosMsg, Decimal, Deps, Empty, MessageInfo, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, Response, SystemError, SystemResult, Timestamp, Uint256, WasmMsg, WasmQuery,
};
use serde_json::{json, Value};
use sg_marketplace_common::{address, coin as mcoin, nft, royalties, sale};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROPS: [Tag; 3] = ["C01", "C02", "C03"];

pub struct Common {
    rng: Rng,
}

/// answers every smart query with a fixed value and remembers the question
struct Q {
    ans: QuerierResult,
    /// answers of particular contracts, before `ans`
    by: BTreeMap<String, QuerierResult>,
    asked: std::cell::RefCell<Vec<(String, Value)>>,
}
impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        if let Ok(QueryRequest::<Empty>::Wasm(WasmQuery::Smart { contract_addr, msg })) = from_json(bin) {
            let a = self.by.get(&contract_addr).unwrap_or(&self.ans).clone();
            self.asked.borrow_mut().push((contract_addr, from_json(&msg).unwrap_or(Value::Null)));
            return a;
        }
        SystemResult::Err(SystemError::Unknown {})
    }
}

fn sends(r: &Response) -> Option<BTreeMap<(String, Vec<(String, u128)>), usize>> {
    let mut m = BTreeMap::new();
    for s in &r.messages {
        match &s.msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                *m.entry((to_address.clone(), amount.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect())).or_default() += 1;
            }
            _ => return None,
        }
    }
    Some(m)
}

impl Common {
    pub fn new(seed: u64, idx: u64, _ctx: &mut Ctx) -> Self {
        Common { rng: Rng::new(seed, idx, 0x40) }
    }
    fn amount(&mut self) -> u128 {
        match self.rng.below(8) {
            0 => 1 + self.rng.below(10) as u128,
            1 => 1 + self.rng.below(1000) as u128,
            2 => u128::MAX - self.rng.below(3) as u128,
            3 => 1u128 << self.rng.below(128),
            4 => (1u128 << self.rng.below(128)).max(2) - 1,
            5 => self.rng.pickc(&[10, 100, 10_000, 1_000_000, ONE, ONE - 1, ONE + 1, u64::MAX as u128, u64::MAX as u128 + 1]),
            _ => {
                let s = self.rng.below(127) as u32;
                (((self.rng.next() as u128) << 64 | self.rng.next() as u128) >> s).max(1)
            }
        }
    }
    fn share(&mut self) -> u128 {
        match self.rng.below(9) {
            0 => 0,
            1 => 1,
            2 => ONE / 100 * self.rng.below(101) as u128,
            3 => ONE / 10_000 * self.rng.below(10_001) as u128,
            4 => self.rng.pickc(&[ONE / 2, ONE / 3, ONE / 3 + 1, ONE, ONE - 1, ONE + 1, 2 * ONE, ONE / 7]),
            5 => self.rng.next() as u128 % (ONE / 5),
            6 => self.rng.next() as u128 % ONE,
            7 => self.rng.next() as u128 % 1000,
            _ => ONE / 20,
        }
    }
    fn splitter(&mut self, ctx: &mut Ctx) {
        let price = self.amount();
        let denom = self.rng.pickc(&["ustars", "ibc/ABC"]);
        let seller = user(self.rng.below(6));
        let n = self.rng.pickc(&[0usize, 1, 2, 3, 3, 4, 6, 9]);
        let small = self.rng.p(50);
        let fees: Vec<(String, u128, String)> = (0..n)
            .map(|i| {
                let mut s = self.share();
                if small && n > 1 {
                    s %= ONE / n as u128 + 1;
                }
                let l = if self.rng.p(85) { format!("fee{i}") } else { "seller".to_string() };
                (l, s, user(self.rng.below(6)))
            })
            .collect();
        let what = format!("split {price}{denom} to {} with shares {:?}", short(&seller), fees.iter().map(|f| format!("{}={}->{}", f.0, dec_str(f.1), short(&f.2))).collect::<Vec<_>>());
        ctx.log.push(what.clone());
        // oracle
        let mut want: Vec<(String, String, u128)> = vec![];
        let mut left = Some(Uint256::from(price));
        for (l, s, r) in &fees {
            let x = Uint256::from(price) * Uint256::from(*s);
            let one = Uint256::from(ONE);
            let mut q = x / one;
            if q * one != x {
                q += Uint256::from(1u128);
            }
            left = left.and_then(|v| v.checked_sub(q).ok());
            if left.is_some() && !q.is_zero() {
                want.push((l.clone(), r.clone(), cosmwasm_std::Uint128::try_from(q).unwrap().u128()));
            }
        }
        if let Some(v) = left {
            let v = cosmwasm_std::Uint128::try_from(v).unwrap().u128();
            if v > 0 {
                want.push(("seller".into(), seller.clone(), v));
            }
        }
        let got = catch_unwind(AssertUnwindSafe(|| {
            let mut p = sale::NftSaleProcessor::new(coin(price, denom), Addr::unchecked(&seller));
            for (l, s, r) in &fees {
                p.add_fee(l.clone(), Decimal::raw(*s), Addr::unchecked(r));
            }
            p.build_payments().ok()?;
            let r = p.payout(Response::new());
            Some((p, r))
        }))
        .unwrap_or(None);
        ctx.count(if got.is_some() { "C01 split" } else { "C01 refused" });
        let kind = match (left.is_some(), n) {
            (false, _) => "split-refused",
            (_, 0) => "split-no-fees",
            (_, 1) => "split-one-fee",
            _ => "split-many-fees",
        };
        ctx.eval("C01", kind, Some(fp(&what)));
        match (left.is_some(), got) {
            (false, None) => {}
            (true, None) => ctx.div(&["C01"], "split-refused", format!("{what}: fees fit the price but the split failed")),
            (false, Some(_)) => ctx.div(&["C01"], "split-accepted", format!("{what}: fees exceed the price but the split succeeded")),
            (true, Some((p, r))) => {
                let mut g: Vec<(String, String, u128)> = p.payments.iter().map(|x| (x.label.clone(), x.recipient.to_string(), x.funds.amount.u128())).collect();
                g.sort();
                let mut w = want.clone();
                w.sort();
                if g != w || p.payments.iter().any(|x| x.funds.denom != denom) {
                    ctx.div(&["C01"], "split-payments", format!("{what}: payments {g:?}, expected {w:?}"));
                }
                let mut m: BTreeMap<(String, Vec<(String, u128)>), usize> = BTreeMap::new();
                for (_, to, a) in &want {
                    *m.entry((to.clone(), vec![(denom.to_string(), *a)])).or_default() += 1;
                }
                let s = sends(&r);
                if s.as_ref() != Some(&m) {
                    ctx.div(&["C01"], "split-messages", format!("{what}: transfers {s:?}, expected {m:?}"));
                }
                for (l, _, _) in &want {
                    let f = p.find_payment(l.clone()).map(|x| (x.recipient.to_string(), x.funds.amount.u128()));
                    if !f.as_ref().map_or(false, |f| want.iter().any(|w| w.0 == *l && w.1 == f.0 && w.2 == f.1)) {
                        ctx.div(&["C01"], "find-payment", format!("{what}: find_payment({l}) gave {f:?}"));
                    }
                }
                if p.find_payment("nobody".into()).is_some() {
                    ctx.div(&["C01"], "find-payment", format!("{what}: find_payment invents a payment"));
                }
            }
        }
    }

    fn answer(&mut self, ok: Value) -> (QuerierResult, bool) {
        match self.rng.below(10) {
            0 => (SystemResult::Ok(ContractResult::Err("no".into())), false),
            1 => (SystemResult::Err(SystemError::NoSuchContract { addr: "x".into() }), false),
            2 => (SystemResult::Ok(ContractResult::Ok(to_json_binary(&json!({"unexpected": 1})).unwrap())), false),
            _ => (SystemResult::Ok(ContractResult::Ok(to_json_binary(&ok).unwrap())), true),
        }
    }

    fn entry(&mut self) -> (String, String, Option<u64>) {
        let share = self.share();
        (user(self.rng.below(6)), dec_str(share), if self.rng.p(60) { Some(1_600_000_000_000_000_000 + self.rng.next() % 1_000_000_000_000) } else { None })
    }
    fn royalty(&mut self, ctx: &mut Ctx) {
        let colls = ["alpha", "beta"].map(|c| Addr::unchecked(contract(c)));
        let coll = colls[self.rng.below(2)].clone();
        let registry = Addr::unchecked(contract("registry"));
        let market = if self.rng.p(75) { Some(Addr::unchecked(contract("market"))) } else { None };
        let json_entry = |e: &(String, String, Option<u64>)| json!({"recipient": e.0, "share": e.1, "updated": e.2.map(|t| t.to_string())});
        let own = if self.rng.p(45) { Some(self.entry()) } else { None };
        let def = if self.rng.p(45) { Some(self.entry()) } else { None };
        let reg = json!({
            "royalty_default": def.as_ref().map(|e| json!({"collection": coll.as_str(), "royalty_entry": json_entry(e)})),
            "royalty_protocol": own.as_ref().map(|e| json!({"collection": coll.as_str(), "protocol": contract("market"), "royalty_entry": json_entry(e)})),
        });
        let (reg_ans, reg_ok) = if self.rng.p(80) { (SystemResult::Ok(ContractResult::Ok(to_json_binary(&reg).unwrap())), true) } else { self.answer(reg) };
        let mut info = if self.rng.p(70) { Some(self.entry()) } else { None };
        let bad_addr = self.rng.p(8);
        if let (true, Some(i)) = (bad_addr, &mut info) {
            i.0 = "X".into();
        }
        let v = json!({"creator": user(0), "description": "", "image": "", "external_link": null, "explicit_content": null, "start_trading_time": null,
            "royalty_info": info.as_ref().map(|i| json!({"payment_address": i.0, "share": i.1}))});
        let (info_ans, info_ok) = self.answer(v);
        let q = Q { ans: SystemResult::Err(SystemError::Unknown {}), by: [(registry.to_string(), reg_ans), (coll.to_string(), info_ans)].into(), asked: Default::default() };
        let api = MockApi::default();
        let store = MockStorage::new();
        let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(&q) };
        let lookup_only = self.rng.p(30);
        let what = format!("{} of {} for {:?}: registry {} own {own:?} default {def:?}, collection {} {info:?}", if lookup_only { "fetch_royalty_entry" } else { "fetch_or_set_royalties" },
            short(coll.as_str()), market.as_ref().map(|m| short(m.as_str())), if reg_ok { "answers" } else { "fails" }, if info_ok { "answers" } else { "fails" });
        ctx.log.push(what.clone());
        type Got = Option<(Option<(String, String, Option<u64>)>, Vec<cosmwasm_std::SubMsg>, usize)>;
        fn norm<T: serde::Serialize>(e: T) -> (String, String, Option<u64>) {
            let v = serde_json::to_value(e).unwrap_or(Value::Null);
            let s = |k: &str| v[k].as_str().unwrap_or("?").to_string();
            (s("recipient"), s("share"), v["updated"].as_str().and_then(|t| t.parse().ok()))
        }
        let got: Got = catch_unwind(AssertUnwindSafe(|| {
            if lookup_only {
                royalties::fetch_royalty_entry(&deps.querier, &registry, &coll, market.as_ref()).ok().map(|e| (e.map(norm), vec![], 1))
            } else {
                royalties::fetch_or_set_royalties(deps, &registry, &coll, market.as_ref(), Response::new().add_attribute("a", "b")).ok().map(|(e, r)| (e.map(norm), r.messages, r.attributes.len()))
            }
        }))
        .unwrap_or(None);
        // oracle: None = an error, (entry, whether to register)
        let dec = |e: &(String, String, Option<u64>)| (e.0.clone(), e.1.parse::<Decimal>().unwrap().to_string(), e.2);
        let (kind, want): (&str, Option<(Option<(String, String, Option<u64>)>, bool)>) = if !reg_ok {
            ("registry-fails", None)
        } else if let Some(e) = &own {
            ("registry-own", Some((Some(dec(e)), false)))
        } else if let Some(e) = &def {
            ("registry-default", Some((Some(dec(e)), false)))
        } else if lookup_only {
            ("registry-none", Some((None, false)))
        } else if !info_ok || info.is_none() {
            ("none", Some((None, false)))
        } else if bad_addr {
            ("bad-address", None)
        } else {
            let i = info.as_ref().unwrap();
            ("collection", Some((Some(dec(&(i.0.clone(), i.1.clone(), None))), true)))
        };
        ctx.eval("C03", kind, Some(fp(&what)));
        match (&want, &got) {
            (None, None) => {}
            (Some((e, set)), Some((g, m, attrs))) => {
                if e != g {
                    ctx.div(&["C03"], "royalty-entry", format!("{what}: got {g:?}, expected {e:?}"));
                }
                let ok = m.iter().all(|s| matches!(&s.msg, CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })
                    if *contract_addr == registry.as_str() && funds.is_empty() && from_json::<Value>(msg).ok() == Some(json!({"initialize_collection_royalty": {"collection": coll.as_str()}}))));
                if m.len() != *set as usize || !ok {
                    ctx.div(&["C03"], "royalty-registration", format!("{what}: registration expected {set}, messages {m:?}"));
                }
                if *attrs != 1 {
                    ctx.div(&["C03"], "royalty-response", format!("{what}: what the response held before is lost"));
                }
            }
            _ => ctx.div(&["C03"], "royalty-outcome", format!("{what}: got {got:?}, expected {want:?}")),
        }
        let asked = q.asked.borrow();
        let right = json!({"royalty_payment": {"collection": coll.as_str(), "protocol": market.as_ref().map(|m| m.as_str())}});
        if !asked.iter().any(|(c, m)| *c == registry.as_str() && *m == right) {
            ctx.div(&["C03"], "royalty-question", format!("{what}: asked {asked:?}"));
        }
    }

    fn guards(&mut self, ctx: &mut Ctx) {
        let coll = Addr::unchecked(contract(self.rng.pick(&["alpha", "beta", "gamma"])));
        let token = self.rng.pickc(&["0", "1", "42", "weird id", "4294967296"]).to_string();
        match self.rng.below(6) {
            0 => {
                // trading start
                let now = 1_700_000_000_000_000_000u64 + self.rng.next() % 3;
                let start = match self.rng.below(6) {
                    0 => None,
                    1 => Some(now),
                    2 => Some(now + 1),
                    3 => Some(now - 1),
                    4 => Some(now + self.rng.next() % 2_000_000_000),
                    _ => Some(self.rng.next() % (2 * now)),
                };
                let v = json!({"creator": user(0), "description": "", "image": "", "external_link": null, "explicit_content": null,
                    "start_trading_time": start.map(|s| s.to_string()), "royalty_info": null});
                let (ans, ok) = self.answer(v);
                let q = Q { ans, by: Default::default(), asked: Default::default() };
                let mut b = mock_env().block;
                b.time = Timestamp::from_nanos(now);
                let got = nft::only_tradable(&QuerierWrapper::new(&q), &b, &coll).is_ok();
                let want = !ok || start.map_or(true, |s| s <= now);
                let what = format!("only_tradable start {:?} now {now} answered {ok}: {got}", start);
                ctx.log.push(what.clone());
                ctx.eval("C02", if ok { "tradable" } else { "tradable-unsupported" }, Some(fp(&what)));
                if got != want {
                    ctx.div(&["C02"], "tradable", what.clone());
                }
                if q.asked.borrow().iter().any(|(c, _)| *c != coll.as_str()) {
                    ctx.div(&["C02"], "tradable-target", format!("{what}: asked {:?}", q.asked.borrow()));
                }
            }
            1 => {
                let owner = user(self.rng.below(4));
                let sender = user(self.rng.below(4));
                let (ans, ok) = self.answer(json!({"owner": owner, "approvals": [{"spender": sender, "expires": {"never": {}}}]}));
                let ans = if ok { SystemResult::Ok(ContractResult::Ok(to_json_binary(&json!({"owner": owner, "approvals": []})).unwrap())) } else { ans };
                let q = Q { ans, by: Default::default(), asked: Default::default() };
                let info = MessageInfo { sender: Addr::unchecked(&sender), funds: vec![] };
                let got = nft::only_owner(&QuerierWrapper::new(&q), &info, &coll, &token).is_ok();
                let what = format!("only_owner of {} token {token} owner {} sender {} answered {ok}: {got}", short(coll.as_str()), short(&owner), short(&sender));
                ctx.log.push(what.clone());
                if ok {
                    ctx.eval("C02", if owner == sender { "owner" } else { "not-owner" }, Some(fp(&what)));
                    if got != (owner == sender) {
                        ctx.div(&["C02"], "only-owner", what.clone());
                    }
                    if !q.asked.borrow().iter().any(|(c, m)| *c == coll.as_str() && m["owner_of"]["token_id"] == json!(token)) {
                        ctx.div(&["C02"], "only-owner-question", format!("{what}: asked {:?}", q.asked.borrow()));
                    }
                }
            }
            2 => {
                let n = self.rng.below(4);
                let funds: Vec<Coin> = (0..n).map(|i| coin(if self.rng.p(20) { 0 } else { self.amount() }, ["uatom", "ustars", "uosmo"][i % 3])).collect();
                let to = Addr::unchecked(user(self.rng.below(6)));
                let zero = funds.iter().any(|c| c.amount.is_zero());
                let what = format!("transfer {funds:?} to {}", short(to.as_str()));
                ctx.log.push(what.clone());
                ctx.eval("C02", if zero { "transfer-zero" } else { "transfer" }, Some(fp(&what)));
                let want = |c: &[Coin]| {
                    let k = (to.to_string(), c.iter().map(|x| (x.denom.clone(), x.amount.u128())).collect::<Vec<_>>());
                    Some(BTreeMap::from([(k, 1usize)]))
                };
                let base = Response::new().add_attribute("a", "b");
                if !funds.is_empty() {
                    match mcoin::checked_transfer_coins(funds.clone(), &to, base.clone()) {
                        Ok(r) => {
                            if zero || sends(&r) != want(&funds) || r.attributes.len() != 1 {
                                ctx.div(&["C02"], "checked-transfer", format!("{what}: gave {r:?}"));
                            }
                        }
                        Err(e) => {
                            if !zero {
                                ctx.div(&["C02"], "checked-transfer-refused", format!("{what}: {e}"));
                            }
                        }
                    }
                    match mcoin::checked_transfer_coin(funds[0].clone(), &to, base.clone()) {
                        Ok(r) => {
                            if funds[0].amount.is_zero() || sends(&r) != want(&funds[..1]) || r.attributes.len() != 1 {
                                ctx.div(&["C02"], "checked-transfer", format!("{what} (first coin): gave {r:?}"));
                            }
                        }
                        Err(e) => {
                            if !funds[0].amount.is_zero() {
                                ctx.div(&["C02"], "checked-transfer-refused", format!("{what} (first coin): {e}"));
                            }
                        }
                    }
                    if !zero {
                        let r = mcoin::transfer_coins(funds.clone(), &to, base.clone());
                        let r1 = mcoin::transfer_coin(funds[0].clone(), &to, base);
                        if sends(&r) != want(&funds) || sends(&r1) != want(&funds[..1]) {
                            ctx.div(&["C02"], "transfer", format!("{what}: gave {r:?} / {r1:?}"));
                        }
                    }
                }
            }
            3 => {
                let n = self.rng.below(7);
                let bad = self.rng.p(15);
                let mut list: Vec<String> = (0..n).map(|_| if self.rng.p(75) { user(self.rng.below(5)) } else { contract("alpha") }).collect();
                if bad {
                    let at = self.rng.below(list.len() + 1);
                    list.insert(at, self.rng.pickc(&["", "x", "UPPER"]).to_string());
                }
                let what = format!("map_validate {list:?}");
                ctx.log.push(what.clone());
                ctx.eval("C02", if bad { "addresses-invalid" } else { "addresses" }, Some(fp(&what)));
                let got = address::map_validate(&MockApi::default(), &list).map(|v| v.iter().map(|a| a.to_string()).collect::<Vec<_>>());
                let mut w = list.clone();
                w.sort();
                w.dedup();
                match got {
                    Ok(g) => {
                        if bad || g != w {
                            ctx.div(&["C02"], "map-validate", format!("{what}: gave {g:?}"));
                        }
                    }
                    Err(e) => {
                        if !bad {
                            ctx.div(&["C02"], "map-validate-refused", format!("{what}: {e}"));
                        }
                    }
                }
            }
            4 => {
                let a = self.rng.p(60).then(|| Addr::unchecked(user(self.rng.below(5))));
                let d = Addr::unchecked(user(self.rng.below(5)));
                let got = address::address_or(a.as_ref(), &d);
                let what = format!("address_or {:?} default {}: {}", a.as_ref().map(|x| short(x.as_str())), short(d.as_str()), short(got.as_str()));
                ctx.log.push(what.clone());
                ctx.eval("C02", if a.is_some() { "address-given" } else { "address-default" }, Some(fp(&what)));
                if got != a.unwrap_or(d) {
                    ctx.div(&["C02"], "address-or", what);
                }
            }
            _ => {
                let to = Addr::unchecked(user(self.rng.below(5)));
                let r = nft::transfer_nft(&coll, &token, &to, Response::new().add_attribute("a", "b"));
                let what = format!("transfer_nft {} {token} to {}", short(coll.as_str()), short(to.as_str()));
                ctx.log.push(what.clone());
                ctx.eval("C02", "transfer-nft", Some(fp(&what)));
                let ok = r.messages.len() == 1
                    && r.attributes.len() == 1
                    && matches!(&r.messages[0].msg, CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })
                        if *contract_addr == coll.as_str() && funds.is_empty()
                            && from_json::<Value>(msg).ok() == Some(json!({"transfer_nft": {"recipient": to.as_str(), "token_id": token}})))
                    && r.messages[0].reply_on == cosmwasm_std::ReplyOn::Never;
                if !ok {
                    ctx.div(&["C02"], "transfer-nft", format!("{what}: {:?}", r.messages));
                }
            }
        }
    }
}
use crate::chain::{contract, short, user};

impl Engine for Common {
    fn step(&mut self, ctx: &mut Ctx) {
        for _ in 0..20 {
            let w = match ctx.prop.as_deref() {
                Some("C01") => 0,
                Some("C02") => 1,
                Some("C03") => 2,
                _ => self.rng.below(3),
            };
            match w {
                0 => self.splitter(ctx),
                1 => self.guards(ctx),
                _ => self.royalty(ctx),
            }
        }
    }
    fn finish(&mut self, _ctx: &mut Ctx) {}
}
