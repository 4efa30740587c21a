//! Chain host: runs the real contract entry points against an in-memory chain with Cosmos SDK
//! message semantics (atomic transactions, depth-first sub-messages, replies, bank module) and
//! records what crosses the contract boundary.
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin,
    ContractInfo, CosmosMsg, CustomQuery, Deps, DepsMut, Empty, Env, MessageInfo, Order, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Record, Reply, ReplyOn, Response,
    StdError, StdResult, Storage, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use sg_std::{StargazeMsg, StargazeMsgWrapper};
use serde_json::{json, Value};
use std::ops::Bound::{Excluded, Included, Unbounded};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NATIVE: &str = "ustars";
pub const BURNED: &str = "burned";
pub const POOL: &str = "fairburn_pool";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    V1,
    V2,
    RA,
    Nft,
    Registry,
    FairBurn,
    Hook,
}

#[derive(Clone, Default, Debug)]
pub struct CollInfo {
    pub start: Option<u64>,
    pub royalty: Option<(String, String)>, // payment address, decimal share
}

#[derive(Clone, Default, Debug)]
pub struct NftState {
    pub creator: String,
    pub owners: BTreeMap<String, String>,
    pub approvals: BTreeMap<(String, String), Option<u64>>, // (token, spender) -> expiry nanos
    pub operators: BTreeSet<(String, String)>,
    /// None: the collection does not answer collection_info (plain cw721)
    pub info: Option<CollInfo>,
    /// transfers fail
    pub frozen: bool,
    /// tokens whose transfer fails
    pub stuck: BTreeSet<String>,
}

#[derive(Clone, Default, Debug)]
pub struct RegistryState {
    pub default: BTreeMap<String, (String, String)>,
    pub protocol: BTreeMap<(String, String), (String, String)>,
}

#[derive(Clone, Default, Debug)]
pub struct World {
    pub bank: BTreeMap<(String, String), u128>,
    pub stores: BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>,
    pub nfts: BTreeMap<String, NftState>,
    pub registry: RegistryState,
    pub admins: BTreeMap<String, Option<String>>,
    /// hook contracts that fail
    pub failing: BTreeSet<String>,
    /// collections and hooks that misbehave
    pub evil: BTreeMap<String, Evil>,
}

/// A misbehaving contract: a collection that lies, refuses or ignores transfers, or any contract that calls others
/// when it is called.
#[derive(Clone, Default, Debug)]
pub struct Evil {
    pub seed: u64,
    /// percentages
    pub lie: u64,
    pub refuse: u64,
    pub ignore: u64,
    /// accounts it names in false answers
    pub people: Vec<String>,
    /// calls it makes, one batch per call it receives: (failure is caught, contract, message, funds)
    pub script: Vec<Vec<(bool, String, Value, Vec<Coin>)>>,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub to: String,
    pub from: String,
    pub msg: Value,
    pub funds: Vec<Coin>,
    pub ok: bool,
}

#[derive(Clone, Debug)]
pub enum NMsg {
    Send { to: String, coins: Vec<Coin> },
    Burn { coins: Vec<Coin> },
    Exec { to: String, msg: Binary, funds: Vec<Coin> },
    Pool { coins: Vec<Coin> },
    Other(String),
}

pub struct NSub {
    id: u64,
    on: ReplyOn,
    msg: NMsg,
}

pub struct NResp {
    subs: Vec<NSub>,
    data: Option<Binary>,
    attrs: Vec<(String, String)>,
    events: Vec<(String, Vec<(String, String)>)>,
}

/// An event a contract emitted (attributes of the response itself: type "wasm").
#[derive(Clone, Debug)]
pub struct Ev {
    pub from: String,
    pub ty: String,
    pub attrs: Vec<(String, String)>,
}
impl Ev {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn s(&self, k: &str) -> String {
        self.get(k).unwrap_or("").to_string()
    }
    pub fn num(&self, k: &str) -> Option<u128> {
        self.get(k)?.parse().ok()
    }
    /// "100ustars"
    pub fn coin(&self, k: &str) -> Option<(u128, String)> {
        let v = self.get(k)?;
        let i = v.find(|c: char| !c.is_ascii_digit())?;
        Some((v[..i].parse().ok()?, v[i..].to_string()))
    }
    pub fn show(&self) -> String {
        let a: Vec<String> = self.attrs.iter().map(|(k, v)| format!("{k}={v}")).collect();
        format!("{}({})", self.ty, a.join(" "))
    }
}

pub trait NormCustom {
    fn norm(self) -> NMsg;
}
impl NormCustom for Empty {
    fn norm(self) -> NMsg {
        NMsg::Other("custom empty".into())
    }
}
impl NormCustom for StargazeMsgWrapper {
    fn norm(self) -> NMsg {
        match self.msg_data {
            StargazeMsg::FundFairburnPool { amount } => NMsg::Pool { coins: amount },
            StargazeMsg::FundCommunityPool { amount } => NMsg::Pool { coins: amount },
            o => NMsg::Other(format!("{o:?}")),
        }
    }
}

pub fn norm_resp<T: NormCustom>(r: Response<T>) -> NResp {
    let mut attrs: Vec<(String, String)> =
        r.attributes.into_iter().map(|a| (a.key, a.value)).collect();
    let mut events = vec![];
    if !attrs.is_empty() {
        events.push(("wasm".to_string(), attrs.clone()));
    }
    for e in r.events {
        let mut v = vec![];
        for a in e.attributes {
            attrs.push((a.key.clone(), a.value.clone()));
            v.push((a.key, a.value));
        }
        events.push((e.ty, v));
    }
    NResp {
        subs: r
            .messages
            .into_iter()
            .map(|s| NSub {
                id: s.id,
                on: s.reply_on,
                msg: match s.msg {
                    CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                        NMsg::Send { to: to_address, coins: amount }
                    }
                    CosmosMsg::Bank(BankMsg::Burn { amount }) => NMsg::Burn { coins: amount },
                    CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                        NMsg::Exec { to: contract_addr, msg, funds }
                    }
                    CosmosMsg::Custom(c) => c.norm(),
                    _ => NMsg::Other("unsupported message".into()),
                },
            })
            .collect(),
        data: r.data,
        attrs,
        events,
    }
}

// ------------------------------------------------------------------ api
pub struct ChainApi;
pub fn valid_addr(a: &str) -> bool {
    a.len() >= 12
        && a.len() <= 90
        && a.starts_with("stars1")
        && a.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
}
impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if valid_addr(human) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(CanonicalAddr::from(human.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::GenericErr)
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::InvalidHashFormat)
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::GenericErr)
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Err(VerificationError::GenericErr)
    }
    fn debug(&self, _: &str) {}
}

// ------------------------------------------------------------------ storage view
struct Store<'c> {
    chain: &'c Chain,
    addr: String,
    ro: bool,
}
impl Store<'_> {
    fn work(&self) {
        self.chain.n_work.set(self.chain.n_work.get() + 1);
    }
}
impl Storage for Store<'_> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.work();
        self.chain.w.borrow().stores.get(&self.addr).and_then(|m| m.get(key).cloned())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!self.ro, "write in query");
        self.work();
        assert!(!value.is_empty(), "empty value");
        let old = self.chain.w.borrow_mut().stores.entry(self.addr.clone()).or_default().insert(key.to_vec(), value.to_vec());
        self.chain.undo.borrow_mut().push(Undo::Store(self.addr.clone(), key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        assert!(!self.ro, "write in query");
        self.work();
        if let Some(old) = self.chain.w.borrow_mut().stores.get_mut(&self.addr).and_then(|m| m.remove(key)) {
            self.chain.undo.borrow_mut().push(Undo::Store(self.addr.clone(), key.to_vec(), Some(old)));
        }
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        let (s, e) = (start.map(|x| x.to_vec()), end.map(|x| x.to_vec()));
        Box::new(Walk { st: self, lo: s.map_or(Unbounded, Included), hi: e.map_or(Unbounded, Excluded), up: order == Order::Ascending })
    }
}
/// reads one entry at a time, like the chain's iterators
struct Walk<'a, 'c> {
    st: &'a Store<'c>,
    lo: std::ops::Bound<Vec<u8>>,
    hi: std::ops::Bound<Vec<u8>>,
    up: bool,
}
impl Iterator for Walk<'_, '_> {
    type Item = Record;
    fn next(&mut self) -> Option<Record> {
        match (&self.lo, &self.hi) {
            (Excluded(a), Excluded(b)) if a >= b => return None,
            (Included(a), Excluded(b)) if a >= b => return None,
            _ => {}
        }
        let w = self.st.chain.w.borrow();
        let mut it = w.stores.get(&self.st.addr)?.range::<Vec<u8>, _>((self.lo.as_ref(), self.hi.as_ref()));
        let (k, v) = if self.up { it.next()? } else { it.next_back()? };
        *(if self.up { &mut self.lo } else { &mut self.hi }) = Excluded(k.clone());
        self.st.work();
        Some((k.clone(), v.clone()))
    }
}

impl Querier for Chain {
    fn raw_query(&self, req: &[u8]) -> QuerierResult {
        let q: QueryRequest<Empty> = match from_json(req) {
            Ok(q) => q,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: req.into() })
            }
        };
        fn ok<T: serde::Serialize>(t: &T) -> QuerierResult {
            SystemResult::Ok(cosmwasm_std::ContractResult::Ok(Binary::from(serde_json::to_vec(t).unwrap())))
        }
        match q {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.query_contract(&contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(cosmwasm_std::ContractResult::Ok(b)),
                    Err(e) => {
                        if self.kinds.borrow().contains_key(&contract_addr) {
                            SystemResult::Ok(cosmwasm_std::ContractResult::Err(e))
                        } else {
                            SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr })
                        }
                    }
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let w = self.w.borrow();
                let v = w.stores.get(&contract_addr).and_then(|m| m.get(key.as_slice()).cloned()).unwrap_or_default();
                SystemResult::Ok(cosmwasm_std::ContractResult::Ok(Binary::from(v)))
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let w = self.w.borrow();
                match w.admins.get(&contract_addr) {
                    Some(a) => ok(&json!({"code_id":1,"creator":user(0),"admin":a,"pinned":false,"ibc_port":null})),
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                }
            }
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.bal(&address, &denom);
                ok(&json!({"amount":{"denom":denom,"amount":a.to_string()}}))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let w = self.w.borrow();
                let v: Vec<Value> = w
                    .bank
                    .iter()
                    .filter(|((a, _), n)| *a == address && **n > 0)
                    .map(|((_, d), n)| json!({"denom":d,"amount":n.to_string()}))
                    .collect();
                ok(&json!({"amount":v}))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "unsupported".into() }),
        }
    }
}

fn verb(msg: &Value) -> String {
    msg.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default()
}

/// what was done twice: (kind, fingerprint of the outcome, difference)
type Note = (String, u64, Option<String>);
thread_local! {
    static EVERY: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static NOTES: RefCell<Vec<Note>> = const { RefCell::new(vec![]) };
}
pub struct Twice;
impl Twice {
    /// do every n-th action and query twice (0: none)
    pub fn every(n: u32) {
        EVERY.with(|e| e.set(n));
        NOTES.with(|v| v.borrow_mut().clear());
    }
    fn now() -> bool {
        let n = EVERY.with(|e| e.get());
        n > 0 && COUNT.with(|c| {
            c.set(c.get().wrapping_add(1));
            c.get() % n == 0
        })
    }
    fn note(what: String, a: &[(&'static str, String)], b: &[(&'static str, String)]) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut h);
        let d = (a != b).then(|| match a.iter().zip(b).find(|(x, y)| x != y) {
            Some((x, y)) => {
                let at = x.1.bytes().zip(y.1.bytes()).take_while(|(p, q)| p == q).count().saturating_sub(60);
                let cut = |t: &str| t.bytes().skip(at).take(300).map(|c| c as char).collect::<String>();
                format!("{}: first …{}, then …{}", x.0, cut(&x.1), cut(&y.1))
            }
            None => "outcome".into(),
        });
        NOTES.with(|v| v.borrow_mut().push((what, h.finish(), d)));
    }
    pub fn notes() -> Vec<Note> {
        NOTES.with(|v| std::mem::take(&mut *v.borrow_mut()))
    }
}

pub struct TxOk {
    pub attrs: Vec<(String, String)>,
    pub events: Vec<Ev>,
}

pub struct Chain {
    pub time: Cell<u64>,
    pub height: Cell<u64>,
    pub tx_index: Cell<u32>,
    pub w: RefCell<World>,
    pub kinds: RefCell<BTreeMap<String, Kind>>,
    /// collections run the real sg721-base code
    pub real_nft: Cell<bool>,
    pub calls: RefCell<Vec<Call>>,
    attrs: RefCell<Vec<(String, String)>>,
    events: RefCell<Vec<Ev>>,
    depth: Cell<u32>,
    dice: Cell<u64>,
    pub n_msgs: Cell<u64>,
    pub n_queries: Cell<u64>,
    /// storage entries read or written so far
    pub n_work: Cell<u64>,
    undo: RefCell<Vec<Undo>>,
    tracing: Cell<bool>,
    trace: RefCell<Vec<String>>,
}

/// how to take back a change made during a transaction
enum Undo {
    Store(String, Vec<u8>, Option<Vec<u8>>),
    Bank((String, String), Option<u128>),
    Token(String, String, Option<String>, Vec<((String, String), Option<u64>)>),
}
/// where a transaction or a sub-message began; only the small parts of the world are copied
struct Mark(usize, World);

fn pad(s: String, n: usize) -> String {
    let mut s = s;
    while s.len() < n {
        s.push('q');
    }
    s
}
pub fn user(i: usize) -> String {
    pad(format!("stars1user{}", (b'a' + i as u8) as char), 44)
}
/// addresses no chain would accept
pub fn bad_addr(i: usize) -> String {
    match i % 5 {
        0 => "bad!".into(),
        1 => String::new(),
        2 => user(1).to_uppercase(),
        3 => "stars1short".into(),
        _ => format!(" {}", user(2)),
    }
}
/// what a registry's entries for a collection are kept under: there can be two registries
pub fn reg_key(registry: &str, coll: &str) -> String {
    if registry == contract("registry2") {
        format!("2|{coll}")
    } else {
        coll.to_string()
    }
}
pub fn contract(name: &str) -> String {
    pad(format!("stars1contract{name}"), 64)
}
/// user letter for human-readable logs
pub fn short(a: &str) -> String {
    if let Some(r) = a.strip_prefix("stars1user") {
        return format!("u{}", r.trim_end_matches('q'));
    }
    if let Some(r) = a.strip_prefix("stars1contract") {
        return r.trim_end_matches('q').to_string();
    }
    a.to_string()
}

pub fn perr(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        format!("panic: {s}")
    } else if let Some(s) = e.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else {
        "panic".into()
    }
}

impl Chain {
    pub fn new(time: u64) -> Self {
        Chain {
            time: Cell::new(time),
            height: Cell::new(1000),
            tx_index: Cell::new(0),
            w: RefCell::new(World::default()),
            kinds: RefCell::new(BTreeMap::new()),
            real_nft: Cell::new(false),
            calls: RefCell::new(vec![]),
            attrs: RefCell::new(vec![]),
            events: RefCell::new(vec![]),
            depth: Cell::new(0),
            dice: Cell::new(0),
            n_msgs: Cell::new(0),
            n_queries: Cell::new(0),
            n_work: Cell::new(0),
            undo: RefCell::new(vec![]),
            tracing: Cell::new(false),
            trace: RefCell::new(vec![]),
        }
    }
    pub fn env(&self, addr: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height.get(),
                time: Timestamp::from_nanos(self.time.get()),
                chain_id: "stargaze-mon".into(),
            },
            transaction: Some(TransactionInfo { index: self.tx_index.get() }),
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }
    pub fn add(&self, addr: &str, k: Kind) {
        self.kinds.borrow_mut().insert(addr.to_string(), k);
        self.w.borrow_mut().stores.insert(addr.to_string(), BTreeMap::new());
        self.w.borrow_mut().admins.insert(addr.to_string(), None);
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.w.borrow().bank.get(&(a.to_string(), d.to_string())).copied().unwrap_or(0)
    }
    pub fn mint(&self, a: &str, d: &str, n: u128) {
        *self.w.borrow_mut().bank.entry((a.to_string(), d.to_string())).or_default() += n;
    }
    fn mv(&self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        let mut w = self.w.borrow_mut();
        for c in coins {
            let n = c.amount.u128();
            let mut u = self.undo.borrow_mut();
            let k = (from.to_string(), c.denom.clone());
            u.push(Undo::Bank(k.clone(), w.bank.get(&k).copied()));
            let b = w.bank.entry(k).or_default();
            *b = b.checked_sub(n).ok_or_else(|| format!("insufficient funds: {from} {c}"))?;
            let k = (to.to_string(), c.denom.clone());
            u.push(Undo::Bank(k.clone(), w.bank.get(&k).copied()));
            let t = w.bank.entry(k).or_default();
            *t = t.checked_add(n).ok_or("supply overflow")?;
        }
        Ok(())
    }
    fn mark(&self) -> Mark {
        let mut w = self.w.borrow_mut();
        let big = (std::mem::take(&mut w.bank), std::mem::take(&mut w.stores), std::mem::take(&mut w.nfts));
        let m = Mark(self.undo.borrow().len(), w.clone());
        (w.bank, w.stores, w.nfts) = big;
        m
    }
    fn rollback(&self, m: Mark) {
        let mut w = self.w.borrow_mut();
        for u in self.undo.borrow_mut().drain(m.0..).rev() {
            match u {
                Undo::Store(a, k, old) => {
                    let st = w.stores.entry(a).or_default();
                    match old {
                        Some(v) => st.insert(k, v),
                        None => st.remove(&k),
                    };
                }
                Undo::Bank(k, n) => {
                    match n {
                        Some(n) => w.bank.insert(k, n),
                        None => w.bank.remove(&k),
                    };
                }
                Undo::Token(c, t, owner, approvals) => {
                    let n = w.nfts.get_mut(&c).unwrap();
                    n.approvals.extend(approvals);
                    match owner {
                        Some(o) => n.owners.insert(t, o),
                        None => n.owners.remove(&t),
                    };
                }
            }
        }
        let big = (std::mem::take(&mut w.bank), std::mem::take(&mut w.stores), std::mem::take(&mut w.nfts));
        *w = m.1;
        (w.bank, w.stores, w.nfts) = big;
    }
    /// gives a token to someone, keeping only the approvals that `keep` names
    fn hand_over(&self, coll: &str, token: &str, to: String, keep: impl Fn(&str) -> bool) {
        let mut w = self.w.borrow_mut();
        let n = w.nfts.get_mut(coll).unwrap();
        let old = n.owners.insert(token.to_string(), to);
        let gone: Vec<_> = n.approvals.iter().filter(|((t, s), _)| t == token && !keep(s)).map(|(k, e)| (k.clone(), *e)).collect();
        for (k, _) in &gone {
            n.approvals.remove(k);
        }
        self.undo.borrow_mut().push(Undo::Token(coll.to_string(), token.to_string(), old, gone));
    }
    /// SDK validity of a bank message's coins: non-empty, positive, sorted unique denoms are
    /// normalised by wasmd, duplicates are invalid.
    fn valid_coins(coins: &[Coin]) -> Result<(), String> {
        if coins.is_empty() {
            return Err("invalid coins: empty".into());
        }
        let mut seen = BTreeSet::new();
        for c in coins {
            if c.amount.is_zero() {
                return Err("invalid coins: zero amount".into());
            }
            if !seen.insert(&c.denom) {
                return Err("invalid coins: duplicate denom".into());
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- entry points
    fn guarded<R>(&self, f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(perr(e)),
        }
    }

    fn run_execute(&self, to: &str, sender: &str, msg: &[u8], funds: &[Coin]) -> Result<NResp, String> {
        let kind = *self.kinds.borrow().get(to).ok_or_else(|| format!("no such contract {to}"))?;
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let env = self.env(to);
        self.guarded(|| {
            let mut st = Store { chain: self, addr: to.to_string(), ro: false };
            let deps = DepsMut { storage: &mut st, api: &ChainApi, querier: QuerierWrapper::new(self) };
            match kind {
                Kind::V2 => stargaze_marketplace_v2::execute::execute(deps, env, info, js(msg)?).map(norm_resp).map_err(es),
                Kind::V1 => sg_marketplace::execute::execute(deps, env, info, js(msg)?).map(norm_resp).map_err(es),
                Kind::RA => stargaze_reserve_auction::execute::execute(deps, env, info, js(msg)?).map(norm_resp).map_err(es),
                Kind::Nft if self.w.borrow().evil.contains_key(to) => self.evil_execute(to, sender, msg),
                Kind::Hook if self.w.borrow().evil.contains_key(to) => self.evil_execute(to, sender, msg),
                Kind::Nft => self.nft_execute(to, sender, msg),
                Kind::Registry => self.registry_execute(to, sender, msg, funds),
                Kind::FairBurn => self.fairburn_execute(to, sender, msg, funds),
                Kind::Hook => {
                    if self.w.borrow().failing.contains(to) {
                        Err("hook failure".into())
                    } else {
                        Ok(empty())
                    }
                }
            }
        })
    }

    fn run_reply(&self, addr: &str, reply: Reply) -> Result<NResp, String> {
        let kind = *self.kinds.borrow().get(addr).unwrap();
        let env = self.env(addr);
        self.guarded(|| {
            let mut st = Store { chain: self, addr: addr.to_string(), ro: false };
            let deps = DepsMut { storage: &mut st, api: &ChainApi, querier: QuerierWrapper::new(self) };
            match kind {
                Kind::V1 => sg_marketplace::execute::reply(deps, env, reply).map(norm_resp).map_err(es),
                Kind::Nft | Kind::Hook => Ok(empty()),
                _ => Err("no reply entry point".into()),
            }
        })
    }

    fn process(&self, addr: &str, r: NResp) -> Result<Option<Binary>, String> {
        self.attrs.borrow_mut().extend(r.attrs);
        self.events.borrow_mut().extend(r.events.into_iter().map(|(ty, attrs)| Ev { from: addr.to_string(), ty, attrs }));
        for s in r.subs {
            self.n_msgs.set(self.n_msgs.get() + 1);
            let wants_err = matches!(s.on, ReplyOn::Error | ReplyOn::Always);
            let wants_ok = matches!(s.on, ReplyOn::Success | ReplyOn::Always);
            let snap = if wants_err { Some(self.mark()) } else { None };
            let n_ev = self.events.borrow().len();
            let res = self.dispatch(addr, s.msg);
            match res {
                Ok(data) => {
                    if wants_ok {
                        let rep = Reply {
                            id: s.id,
                            result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data }),
                        };
                        let r = self.run_reply(addr, rep)?;
                        self.process(addr, r)?;
                    }
                }
                Err(e) => {
                    if wants_err {
                        self.rollback(snap.unwrap());
                        self.events.borrow_mut().truncate(n_ev);
                        let rep = Reply { id: s.id, result: SubMsgResult::Err(e) };
                        let r = self.run_reply(addr, rep)?;
                        self.process(addr, r)?;
                    } else {
                        return Err(e);
                    }
                }
            }
        }
        Ok(r.data)
    }

    fn dispatch(&self, from: &str, m: NMsg) -> Result<Option<Binary>, String> {
        if self.tracing.get() {
            self.trace.borrow_mut().push(format!("{from} {m:?}"));
        }
        if self.depth.get() > 20 {
            return Err("call depth exceeded".into());
        }
        match m {
            NMsg::Send { to, coins } => {
                Self::valid_coins(&coins)?;
                if !valid_addr(&to) {
                    return Err(format!("invalid recipient {to}"));
                }
                self.mv(from, &to, &coins)?;
                Ok(None)
            }
            NMsg::Burn { coins } => {
                Self::valid_coins(&coins)?;
                self.mv(from, BURNED, &coins)?;
                Ok(None)
            }
            NMsg::Pool { coins } => {
                Self::valid_coins(&coins)?;
                self.mv(from, POOL, &coins)?;
                Ok(None)
            }
            NMsg::Exec { to, msg, funds } => {
                let funds: Vec<Coin> = funds.into_iter().filter(|c| !c.amount.is_zero()).collect();
                let i = self.calls.borrow().len();
                self.calls.borrow_mut().push(Call {
                    to: to.clone(),
                    from: from.to_string(),
                    msg: serde_json::from_slice(&msg).unwrap_or(Value::Null),
                    funds: funds.clone(),
                    ok: false,
                });
                self.depth.set(self.depth.get() + 1);
                let r = self.exec_inner(&to, from, &msg, &funds);
                self.depth.set(self.depth.get() - 1);
                if r.is_ok() {
                    self.calls.borrow_mut()[i].ok = true;
                }
                r
            }
            NMsg::Other(s) => Err(format!("unsupported message: {s}")),
        }
    }

    fn exec_inner(&self, to: &str, from: &str, msg: &[u8], funds: &[Coin]) -> Result<Option<Binary>, String> {
        if !funds.is_empty() {
            Self::valid_coins(funds)?;
            self.mv(from, to, funds)?;
        }
        let r = self.run_execute(to, from, msg, funds)?;
        self.process(to, r)
    }

    /// what an action did, to the byte
    fn outcome(&self, r: &Result<(), String>, work: u64) -> Vec<(&'static str, String)> {
        let mut o = vec![("result", r.is_ok().to_string()), ("work", (self.n_work.get() - work).to_string()), ("messages", self.trace.borrow().join("; "))];
        if r.is_ok() {
            o.push(("events", format!("{:?} {:?}", self.attrs.borrow(), self.events.borrow())));
            o.push(("calls", format!("{:?}", self.calls.borrow())));
            let small = self.mark().1;
            o.push(("world", format!("{small:?}")));
            let w = self.w.borrow();
            let mut st = BTreeSet::new();
            for u in self.undo.borrow().iter() {
                st.insert(match u {
                    Undo::Store(a, k, _) => format!("{a} {} = {:?}", String::from_utf8_lossy(k), w.stores.get(a).and_then(|s| s.get(k)).map(|v| String::from_utf8_lossy(v).to_string())),
                    Undo::Bank(k, _) => format!("{k:?} = {:?}", w.bank.get(k)),
                    Undo::Token(c, t, _, _) => format!("{c} {t} = {:?}", w.nfts[c].owners.get(t)),
                });
            }
            o.push(("state", st.into_iter().collect::<Vec<_>>().join("; ")));
        }
        o
    }
    /// now and then everything is done twice, to see whether it comes out the same
    fn atomic(&self, what: &str, f: impl Fn() -> Result<(), String>) -> Result<TxOk, String> {
        if !Twice::now() {
            return self.once(&f).0;
        }
        let (dice, tx, work, msgs, queries) = (self.dice.get(), self.tx_index.get(), self.n_work.get(), self.n_msgs.get(), self.n_queries.get());
        self.undo.borrow_mut().clear();
        let snap = self.mark();
        self.tracing.set(true);
        let (r, a) = self.once(&f);
        drop(r);
        self.rollback(snap);
        (self.dice.set(dice), self.tx_index.set(tx), self.n_work.set(work), self.n_msgs.set(msgs), self.n_queries.set(queries));
        let (r, b) = self.once(&f);
        self.tracing.set(false);
        Twice::note(format!("{what}{}", if r.is_ok() { "" } else { ", refused" }), &a, &b);
        r
    }
    fn once(&self, f: &impl Fn() -> Result<(), String>) -> (Result<TxOk, String>, Vec<(&'static str, String)>) {
        self.undo.borrow_mut().clear();
        let snap = self.mark();
        self.calls.borrow_mut().clear();
        self.attrs.borrow_mut().clear();
        self.events.borrow_mut().clear();
        self.depth.set(0);
        self.tx_index.set(self.tx_index.get() + 1);
        self.trace.borrow_mut().clear();
        let work = self.n_work.get();
        let r = f();
        let o = if self.tracing.get() { self.outcome(&r, work) } else { vec![] };
        let r = match r {
            Ok(()) => Ok(TxOk { attrs: self.attrs.borrow_mut().drain(..).collect(), events: self.events.borrow_mut().drain(..).collect() }),
            Err(e) => {
                self.rollback(snap);
                Err(e)
            }
        };
        (r, o)
    }

    /// A user transaction.
    pub fn tx(&self, to: &str, sender: &str, msg: &Value, funds: &[Coin]) -> Result<TxOk, String> {
        let b = serde_json::to_vec(msg).unwrap();
        // the bank module sorts attached coins
        let mut f = funds.to_vec();
        f.sort_by(|a, b| a.denom.cmp(&b.denom));
        self.atomic(&verb(msg), || self.exec_inner(to, sender, &b, &f).map(|_| ()))
    }
    pub fn instantiate(&self, addr: &str, kind: Kind, sender: &str, msg: &Value) -> Result<TxOk, String> {
        self.add(addr, kind);
        let b = serde_json::to_vec(msg).unwrap();
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
        let env = self.env(addr);
        self.atomic("instantiate", || {
            let env = env.clone();
            let info = info.clone();
            let r = self.guarded(|| {
                let mut st = Store { chain: self, addr: addr.to_string(), ro: false };
                let deps = DepsMut { storage: &mut st, api: &ChainApi, querier: QuerierWrapper::new(self) };
                match kind {
                    Kind::V2 => stargaze_marketplace_v2::instantiate::instantiate(deps, env, info, js(&b)?).map(norm_resp).map_err(es),
                    Kind::V1 => sg_marketplace::execute::instantiate(deps, env, info, js(&b)?).map(norm_resp).map_err(es),
                    Kind::RA => stargaze_reserve_auction::instantiate::instantiate(deps, env, info, js(&b)?).map(norm_resp).map_err(es),
                    _ => Ok(empty()),
                }
            })?;
            self.process(addr, r).map(|_| ())
        })
    }
    pub fn sudo(&self, addr: &str, msg: &Value) -> Result<TxOk, String> {
        let kind = *self.kinds.borrow().get(addr).unwrap();
        let b = serde_json::to_vec(msg).unwrap();
        let env = self.env(addr);
        self.atomic(&verb(msg), || {
            let env = env.clone();
            let r = self.guarded(|| {
                let mut st = Store { chain: self, addr: addr.to_string(), ro: false };
                let deps = DepsMut { storage: &mut st, api: &ChainApi, querier: QuerierWrapper::new(self) };
                match kind {
                    Kind::V1 => sg_marketplace::sudo::sudo(deps, env, js(&b)?).map(norm_resp).map_err(es),
                    Kind::RA => stargaze_reserve_auction::sudo::sudo(deps, env, js(&b)?).map(norm_resp).map_err(es),
                    _ => Err("no sudo".into()),
                }
            })?;
            self.process(addr, r).map(|_| ())
        })
    }
    pub fn migrate(&self, addr: &str) -> Result<TxOk, String> {
        let kind = *self.kinds.borrow().get(addr).unwrap();
        let b = b"{}".to_vec();
        let env = self.env(addr);
        self.atomic("migrate", || {
            let env = env.clone();
            let r = self.guarded(|| {
                let mut st = Store { chain: self, addr: addr.to_string(), ro: false };
                let deps = DepsMut { storage: &mut st, api: &ChainApi, querier: QuerierWrapper::new(self) };
                match kind {
                    Kind::V1 => sg_marketplace::execute::migrate(deps, env, js(&b)?).map(norm_resp).map_err(es),
                    Kind::RA => stargaze_reserve_auction::migrate::migrate(deps, env, js(&b)?).map(norm_resp).map_err(es),
                    Kind::V2 => stargaze_marketplace_v2::migrate::migrate(deps, env, js(&b)?).map(norm_resp).map_err(es),
                    _ => Err("no migrate".into()),
                }
            })?;
            self.process(addr, r).map(|_| ())
        })
    }
    pub fn query(&self, addr: &str, msg: &Value) -> Result<Value, String> {
        let b = serde_json::to_vec(msg).unwrap();
        if Twice::now() {
            let ask = || {
                let (work, n) = (self.n_work.get(), self.n_queries.get());
                let r = self.query_contract(addr, &b).ok().map(|b| String::from_utf8_lossy(&b).to_string());
                vec![("answer", format!("{r:?}")), ("work", (self.n_work.get() - work).to_string()), ("queries", (self.n_queries.get() - n).to_string())]
            };
            let (x, y) = (ask(), ask());
            Twice::note(format!("query {}", verb(msg)), &x, &y);
        }
        self.query_contract(addr, &b).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
    }
    fn query_contract(&self, addr: &str, msg: &[u8]) -> Result<Binary, String> {
        let kind = *self.kinds.borrow().get(addr).ok_or_else(|| format!("no such contract {addr}"))?;
        self.n_queries.set(self.n_queries.get() + 1);
        let env = self.env(addr);
        self.guarded(|| {
            let st = Store { chain: self, addr: addr.to_string(), ro: true };
            let deps = Deps { storage: &st, api: &ChainApi, querier: QuerierWrapper::new(self) };
            match kind {
                Kind::V2 => stargaze_marketplace_v2::query::query(deps, env, js(msg)?).map_err(es),
                Kind::V1 => sg_marketplace::query::query(deps, env, js(msg)?).map_err(es),
                Kind::RA => stargaze_reserve_auction::query::query(deps, env, js(msg)?).map_err(es),
                Kind::Nft if self.w.borrow().evil.contains_key(addr) => self.evil_query(addr, msg),
                Kind::Nft => self.nft_query(addr, msg),
                Kind::Registry => self.registry_query(addr, msg),
                _ => Err("no query".into()),
            }
        })
    }

    // ---------------------------------------------------------------- mock collection (cw721/sg721)
    fn live(exp: &Option<u64>, now: u64) -> bool {
        exp.map_or(true, |e| e > now)
    }
    /// Those with something to do with a token other than owning it: approved spenders, operators of its owner,
    /// the collection's creator and its royalty address.
    pub fn around(&self, coll: &str, token: &str) -> Vec<String> {
        let w = self.w.borrow();
        let Some(n) = w.nfts.get(coll) else { return vec![] };
        let owner = n.owners.get(token).cloned().unwrap_or_default();
        let mut v: Vec<String> = n.approvals.keys().filter(|a| a.0 == token).map(|a| a.1.clone()).collect();
        v.extend(n.operators.iter().filter(|o| o.0 == owner).map(|o| o.1.clone()));
        v.push(n.creator.clone());
        v.extend(n.info.iter().flat_map(|i| i.royalty.iter().map(|r| r.0.clone())));
        v.push(owner);
        v
    }
    pub fn approved(&self, coll: &str, token: &str, spender: &str) -> bool {
        let w = self.w.borrow();
        let n = &w.nfts[coll];
        n.owners.get(token).map_or(false, |o| o == spender)
            || n.approvals.get(&(token.to_string(), spender.to_string())).map_or(false, |e| Self::live(e, self.time.get()))
    }
    pub fn can_transfer(&self, coll: &str, token: &str, spender: &str) -> bool {
        let w = self.w.borrow();
        let n = &w.nfts[coll];
        if n.frozen || n.stuck.contains(token) {
            return false;
        }
        let Some(owner) = n.owners.get(token) else { return false };
        owner == spender
            || n.operators.contains(&(owner.clone(), spender.to_string()))
            || n.approvals.get(&(token.to_string(), spender.to_string())).map_or(false, |e| Self::live(e, self.time.get()))
    }
    /// The real sg721-base contract over what the host holds for one token; writes are taken back.
    fn nft_real<R>(&self, me: &str, token: &str, run: impl FnOnce(&mut dyn Storage) -> Result<R, String>) -> Result<R, String> {
        use cosmwasm_std::Timestamp;
        use cw721_base::state::{Approval, TokenInfo};
        use cw_utils::Expiration;
        let mut st = cosmwasm_std::MemoryStorage::new();
        let c = sg721_base::Sg721Contract::<cw721_base::Extension>::default();
        let n = self.w.borrow().nfts[me].clone();
        let exp = |e: &Option<u64>| e.map_or(Expiration::Never {}, |x| Expiration::AtTime(Timestamp::from_nanos(x)));
        if let Some(o) = n.owners.get(token) {
            let approvals = n.approvals.iter().filter(|((t, _), _)| t == token).map(|((_, s), e)| Approval { spender: Addr::unchecked(s), expires: exp(e) }).collect();
            c.parent.tokens.save(&mut st, token, &TokenInfo { owner: Addr::unchecked(o), approvals, token_uri: None, extension: None }).map_err(es)?;
            for (a, b) in n.operators.iter().filter(|(a, _)| a == o) {
                c.parent.operators.save(&mut st, (&Addr::unchecked(a), &Addr::unchecked(b)), &Expiration::Never {}).map_err(es)?;
            }
        }
        if let Some(i) = &n.info {
            let royalty_info = match &i.royalty {
                Some((a, s)) => Some(sg721::RoyaltyInfo { payment_address: Addr::unchecked(a), share: s.parse().map_err(es)? }),
                None => None,
            };
            let v = sg721::CollectionInfo {
                creator: n.creator.clone(),
                description: "d".into(),
                image: "ipfs://x".into(),
                external_link: None,
                explicit_content: None,
                start_trading_time: i.start.map(Timestamp::from_nanos),
                royalty_info,
            };
            c.collection_info.save(&mut st, &v).map_err(es)?;
        }
        let r = run(&mut st)?;
        if let Some(t) = c.parent.tokens.may_load(&st, token).map_err(es)? {
            self.hand_over(me, token, t.owner.to_string(), |s| t.approvals.iter().any(|a| a.spender.as_str() == s));
        }
        Ok(r)
    }
    fn nft_execute(&self, me: &str, sender: &str, msg: &[u8]) -> Result<NResp, String> {
        let v: Value = serde_json::from_slice(msg).map_err(es)?;
        if self.real_nft.get() {
            let token = v["transfer_nft"]["token_id"].as_str().ok_or("unsupported nft msg")?;
            {
                let w = self.w.borrow();
                if w.nfts[me].frozen || w.nfts[me].stuck.contains(token) {
                    return Err("transfer not allowed".into());
                }
            }
            let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
            return self.nft_real(me, token, |st| {
                let deps = DepsMut { storage: st, api: &ChainApi, querier: QuerierWrapper::new(self) };
                sg721_base::entry::execute(deps, self.env(me), info, js(msg)?).map(norm_resp).map_err(es)
            });
        }
        if let Some(t) = v.get("transfer_nft") {
            let token = t["token_id"].as_str().ok_or("token_id")?.to_string();
            let to = t["recipient"].as_str().ok_or("recipient")?.to_string();
            if !valid_addr(&to) {
                return Err("invalid recipient".into());
            }
            if !self.w.borrow().nfts[me].owners.contains_key(&token) {
                return Err("token not found".into());
            }
            if !self.can_transfer(me, &token, sender) {
                return Err("transfer not allowed".into());
            }
            self.hand_over(me, &token, to, |_| false);
            return Ok(empty());
        }
        Err("unsupported nft msg".into())
    }
    fn nft_query(&self, me: &str, msg: &[u8]) -> Result<Binary, String> {
        let v: Value = serde_json::from_slice(msg).map_err(es)?;
        if self.real_nft.get() {
            let token = v["owner_of"]["token_id"].as_str().or(v["approval"]["token_id"].as_str()).unwrap_or("").to_string();
            return self.nft_real(me, &token, |st| {
                let deps = Deps { storage: st, api: &ChainApi, querier: QuerierWrapper::new(self) };
                sg721_base::entry::query(deps, self.env(me), js(msg)?).map_err(es)
            });
        }
        let w = self.w.borrow();
        let n = &w.nfts[me];
        let now = self.time.get();
        let r = if let Some(q) = v.get("owner_of") {
            let t = q["token_id"].as_str().ok_or("token_id")?;
            let o = n.owners.get(t).ok_or("token not found")?;
            json!({"owner":o,"approvals":[]})
        } else if let Some(q) = v.get("approval") {
            let t = q["token_id"].as_str().ok_or("token_id")?;
            let sp = q["spender"].as_str().ok_or("spender")?;
            let incl = q["include_expired"].as_bool().unwrap_or(false);
            let o = n.owners.get(t).ok_or("token not found")?;
            if o == sp {
                json!({"approval":{"spender":sp,"expires":{"never":{}}}})
            } else {
                let e = n.approvals.get(&(t.to_string(), sp.to_string())).filter(|e| incl || Self::live(e, now)).ok_or("approval not found")?;
                let ex = match e {
                    None => json!({"never":{}}),
                    Some(x) => json!({"at_time":x.to_string()}),
                };
                json!({"approval":{"spender":sp,"expires":ex}})
            }
        } else if v.get("collection_info").is_some() {
            let i = n.info.as_ref().ok_or("unsupported query")?;
            json!({"creator":n.creator,"description":"d","image":"ipfs://x","external_link":null,"explicit_content":false,
                "start_trading_time": i.start.map(|s| s.to_string()),
                "royalty_info": i.royalty.as_ref().map(|(a,s)| json!({"payment_address":a,"share":s}))})
        } else {
            return Err("unsupported query".into());
        };
        Ok(Binary::from(serde_json::to_vec(&r).unwrap()))
    }
    // ---------------------------------------------------------------- misbehaving contracts
    fn roll(&self, e: &Evil, n: u64) -> u64 {
        self.dice.set(self.dice.get() + 1);
        let mut z = (e.seed ^ self.dice.get().wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z ^ (z >> 31)) % n
    }
    fn evil_execute(&self, me: &str, sender: &str, msg: &[u8]) -> Result<NResp, String> {
        let e = self.w.borrow().evil[me].clone();
        if self.roll(&e, 100) < e.refuse {
            return Err("refused".into());
        }
        if self.kinds.borrow()[me] == Kind::Nft && self.roll(&e, 100) >= e.ignore {
            let v: Value = serde_json::from_slice(msg).map_err(es)?;
            if let (Some(t), Some(r)) = (v["transfer_nft"]["token_id"].as_str(), v["transfer_nft"]["recipient"].as_str()) {
                let _ = sender; // it lets anyone move anything
                self.hand_over(me, t, r.into(), |_| true);
            }
        }
        let mut r = empty();
        let batch = self.w.borrow_mut().evil.get_mut(me).unwrap().script.pop();
        for (catch, to, m, funds) in batch.into_iter().flatten() {
            let msg = Binary::from(serde_json::to_vec(&m).unwrap());
            r.subs.push(NSub { id: 7, on: if catch { ReplyOn::Always } else { ReplyOn::Never }, msg: NMsg::Exec { to, msg, funds } });
        }
        Ok(r)
    }
    fn evil_query(&self, me: &str, msg: &[u8]) -> Result<Binary, String> {
        let e = self.w.borrow().evil[me].clone();
        if self.roll(&e, 100) >= e.lie {
            return self.nft_query(me, msg);
        }
        let v: Value = serde_json::from_slice(msg).map_err(es)?;
        let who = e.people[self.roll(&e, e.people.len() as u64) as usize].clone();
        let r = match self.roll(&e, 12) {
            0 => return Err("no answer".into()),
            1 => json!({"nonsense": [1, 2, 3]}),
            2 => return Ok(Binary::from(b"\xff\xfe not json".to_vec())),
            _ if v.get("owner_of").is_some() => json!({"owner": who, "approvals": []}),
            _ if v.get("approval").is_some() => json!({"approval": {"spender": who, "expires": {"never": {}}}}),
            _ => {
                let share = ["0", "0.01", "0.5", "1", "1.5", "18.4", "0.000000000000000001"][self.roll(&e, 7) as usize];
                let start = [None, Some(0u64), Some(self.time.get()), Some(self.time.get() + 1), Some(u64::MAX)][self.roll(&e, 5) as usize];
                let who = if self.roll(&e, 8) == 0 { "not an address".to_string() } else { who };
                json!({"creator": who, "description": "d", "image": "x", "external_link": null, "explicit_content": true,
                    "start_trading_time": start.map(|s| s.to_string()), "royalty_info": {"payment_address": who, "share": share}})
            }
        };
        Ok(Binary::from(serde_json::to_vec(&r).unwrap()))
    }
    // ---------------------------------------------------------------- royalty registry
    /// The real registry contract over the entries the host holds for one collection; writes are taken back.
    fn registry_call(&self, me: &str, coll: &str, run: &mut dyn FnMut(&mut dyn Storage) -> Result<(), String>) -> Result<(), String> {
        use stargaze_royalty_registry::state::{RoyaltyDefault, RoyaltyEntry, RoyaltyProtocol, ROYALTY_DEFAULTS, ROYALTY_PROTOCOLS};
        let key = reg_key(me, coll);
        let mut st = cosmwasm_std::MemoryStorage::new();
        let c = Addr::unchecked(coll);
        let entry = |(a, s): &(String, String)| -> Result<RoyaltyEntry, String> { Ok(RoyaltyEntry { recipient: Addr::unchecked(a), share: s.parse().map_err(es)?, updated: None }) };
        let had = {
            let w = self.w.borrow();
            for ((k, p), e) in w.registry.protocol.iter().filter(|((k, _), _)| *k == key) {
                let v = RoyaltyProtocol { collection: c.clone(), protocol: Addr::unchecked(p), royalty_entry: entry(e)? };
                ROYALTY_PROTOCOLS.save(&mut st, (v.collection.clone(), v.protocol.clone()), &v).map_err(es)?;
            }
            let d = w.registry.default.get(&key).cloned();
            if let Some(e) = &d {
                ROYALTY_DEFAULTS.save(&mut st, c.clone(), &RoyaltyDefault { collection: c.clone(), royalty_entry: entry(e)? }).map_err(es)?;
            }
            d.is_some()
        };
        run(&mut st)?;
        if let (false, Some(d)) = (had, ROYALTY_DEFAULTS.may_load(&st, c).map_err(es)?) {
            self.w.borrow_mut().registry.default.insert(key, (d.royalty_entry.recipient.to_string(), d.royalty_entry.share.to_string()));
        }
        Ok(())
    }
    fn registry_execute(&self, me: &str, sender: &str, msg: &[u8], funds: &[Coin]) -> Result<NResp, String> {
        let v: Value = serde_json::from_slice(msg).map_err(es)?;
        let q = v.get("initialize_collection_royalty").ok_or("unsupported registry msg")?;
        let coll = q["collection"].as_str().ok_or("collection")?.to_string();
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let mut out = Err("not run".to_string());
        self.registry_call(me, &coll, &mut |st| {
            let deps = DepsMut { storage: st, api: &ChainApi, querier: QuerierWrapper::new(self) };
            out = stargaze_royalty_registry::execute::execute(deps, self.env(me), info.clone(), js(msg)?).map(norm_resp).map_err(es);
            out.as_ref().map(|_| ()).map_err(|e| e.clone())
        })?;
        out
    }
    fn registry_query(&self, me: &str, msg: &[u8]) -> Result<Binary, String> {
        let v: Value = serde_json::from_slice(msg).map_err(es)?;
        let q = v.get("royalty_payment").ok_or("unsupported registry query")?;
        let coll = q["collection"].as_str().ok_or("collection")?.to_string();
        let mut out = Binary::default();
        self.registry_call(me, &coll, &mut |st| {
            let deps = Deps { storage: st, api: &ChainApi, querier: QuerierWrapper::new(self) };
            out = stargaze_royalty_registry::query::query(deps, self.env(me), js(msg)?).map_err(es)?;
            Ok(())
        })?;
        Ok(out)
    }
    // ---------------------------------------------------------------- fair burn contract
    /// The real contract decides and its payouts are checked, but the coins stay in its account, where the monitors see them.
    fn fairburn_execute(&self, me: &str, sender: &str, msg: &[u8], funds: &[Coin]) -> Result<NResp, String> {
        use stargaze_fair_burn::{contract, msg::InstantiateMsg};
        let mut st = cosmwasm_std::MemoryStorage::new();
        let info = |f: &[Coin]| MessageInfo { sender: Addr::unchecked(sender), funds: f.to_vec() };
        let mut deps = DepsMut { storage: &mut st, api: &ChainApi, querier: QuerierWrapper::new(self) };
        contract::instantiate(deps.branch(), self.env(me), info(&[]), InstantiateMsg { fee_bps: 5000 }).map_err(es)?;
        let r = contract::execute(deps, self.env(me), info(funds), js(msg)?).map(norm_resp).map_err(es)?;
        let mut out: BTreeMap<String, u128> = BTreeMap::new();
        for s in &r.subs {
            match &s.msg {
                NMsg::Burn { coins } | NMsg::Pool { coins } | NMsg::Send { coins, .. } => {
                    for c in coins {
                        if c.amount.is_zero() {
                            return Err("invalid coins: zero amount".into());
                        }
                        *out.entry(c.denom.clone()).or_default() += c.amount.u128();
                    }
                }
                m => return Err(format!("fair burn: unexpected {m:?}")),
            }
        }
        if funds.iter().any(|c| out.get(&c.denom) != Some(&c.amount.u128())) {
            return Err("fair burn: payouts differ from the funds".into());
        }
        Ok(empty())
    }
}

fn empty() -> NResp {
    NResp { subs: vec![], data: None, attrs: vec![], events: vec![] }
}
fn js<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    from_json(b).map_err(es)
}
pub fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
pub fn coin(n: u128, d: &str) -> Coin {
    Coin { denom: d.to_string(), amount: Uint128::new(n) }
}
#[allow(dead_code)]
pub fn bin<T: serde::Serialize>(t: &T) -> Binary {
    to_json_binary(t).unwrap()
}
#[allow(dead_code)]
fn _q<C: CustomQuery>() {}
