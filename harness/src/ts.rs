//! The TypeScript clients: the real modules run in node against a recording stand-in of the chain client (T01), and the
//! declared types are confronted with what the real contracts accept and answer (T02).
use crate::chain::{contract, user};
use crate::common::*;
use crate::schema::conforms;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

pub const PROPS: [Tag; 1] = ["T01"];
pub const CLI_PROPS: [Tag; 1] = ["T03"];
pub const TYPE_PROPS: [Tag; 1] = ["T02"];

const HERE: &str = env!("CARGO_MANIFEST_DIR");
/// the repository this harness is built against
pub fn repo() -> String {
    let t = std::fs::read_to_string(format!("{HERE}/Cargo.toml")).expect("Cargo.toml");
    let p = t.split("path = \"").find(|p| p.split('"').next().is_some_and(|p| p.contains("/contracts/"))).expect("path dependency");
    p.split("/contracts/").next().unwrap().to_string()
}
pub fn scratch() -> String {
    let d = format!("{HERE}/target/ts-{}", std::process::id());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(format!("{HERE}/target/ts-{}", std::process::id()));
}
fn bundle(entry: &'static str) -> &'static str {
    static B: OnceLock<Mutex<BTreeMap<&'static str, &'static str>>> = OnceLock::new();
    let mut m = B.get_or_init(Default::default).lock().unwrap_or_else(|p| p.into_inner());
    if !m.contains_key(entry) {
        let out = format!("{}/{entry}.cjs", scratch());
        let r = Command::new("node").args([&format!("{HERE}/ts/bundle.mjs"), &repo(), &out, entry]).output().expect("node");
        if !r.status.success() {
            panic!("the TypeScript sources do not build: {}", String::from_utf8_lossy(&r.stderr).chars().take(600).collect::<String>());
        }
        m.insert(entry, Box::leak(out.into_boxed_str()));
    }
    m[entry]
}

pub struct Api {
    pub module: &'static str,
    exec: Value,
    query: Value,
    init: Value,
    decode_exec: fn(&str) -> Result<Value, String>,
    decode_query: fn(&str) -> Result<Value, String>,
    decode_init: fn(&str) -> Result<Value, String>,
}
fn dec<T: serde::de::DeserializeOwned + serde::Serialize>(s: &str) -> Result<Value, String> {
    let x: T = cosmwasm_std::from_json(s.as_bytes()).map_err(|e| e.to_string())?;
    Ok(serde_json::to_value(&x).unwrap())
}
fn apis() -> &'static [Api; 2] {
    static A: OnceLock<[Api; 2]> = OnceLock::new();
    fn sch<T: cosmwasm_schema::schemars::JsonSchema>() -> Value {
        serde_json::to_value(cosmwasm_schema::schema_for!(T)).unwrap()
    }
    A.get_or_init(|| {
        use sg_marketplace::msg as v1;
        use stargaze_reserve_auction::msg as ra;
        [
            Api { module: "Marketplace", exec: sch::<v1::ExecuteMsg>(), query: sch::<v1::QueryMsg>(), init: sch::<v1::InstantiateMsg>(), decode_exec: dec::<v1::ExecuteMsg>, decode_query: dec::<v1::QueryMsg>, decode_init: dec::<v1::InstantiateMsg> },
            Api { module: "ReserveAuction", exec: sch::<ra::ExecuteMsg>(), query: sch::<ra::QueryMsg>(), init: sch::<ra::InstantiateMsg>(), decode_exec: dec::<ra::ExecuteMsg>, decode_query: dec::<ra::QueryMsg>, decode_init: dec::<ra::InstantiateMsg> },
        ]
    })
}
pub fn camel(s: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.extend(c.to_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}
/// variant name -> schema of its body
fn variants(s: &Value) -> Vec<(String, Value)> {
    s["oneOf"].as_array().into_iter().flatten().filter_map(|v| v["properties"].as_object().and_then(|p| p.iter().next()).map(|(k, b)| (k.clone(), b.clone()))).collect()
}
/// a random value of schema `s`
fn gen(r: &mut Rng, root: &Value, s: &Value, name: &str) -> Value {
    if let Some(x) = s["$ref"].as_str() {
        let d = root.pointer(x.trim_start_matches('#')).cloned().unwrap_or(Value::Null);
        return gen(r, root, &d, x.rsplit('/').next().unwrap_or(""));
    }
    for k in ["allOf", "anyOf", "oneOf"] {
        if let Some(l) = s[k].as_array() {
            let mut l = l.clone();
            if l.len() > 1 && r.p(70) {
                l.retain(|x| x["type"] != "null");
            }
            let x = r.pickc(&l);
            return gen(r, root, &x, name);
        }
    }
    if let Some(l) = s["enum"].as_array() {
        return r.pickc(l);
    }
    let t = match &s["type"] {
        Value::Array(l) => {
            let mut l = l.clone();
            if r.p(70) {
                l.retain(|x| x != "null");
            }
            r.pickc(&l).as_str().unwrap_or("null").to_string()
        }
        Value::String(t) => t.clone(),
        _ => "null".into(),
    };
    match t.as_str() {
        "null" => Value::Null,
        "boolean" => json!(r.p(50)),
        "integer" | "number" => {
            let max: u64 = match s["format"].as_str() {
                Some("uint32") => u32::MAX as u64,
                Some("uint8") => 255,
                _ => (1 << 53) - 1,
            };
            json!(match r.below(5) {
                0 => 0,
                1 => 1,
                2 => r.below(200) as u64,
                3 => r.next() % max,
                _ => max,
            })
        }
        "string" => match name {
            "Uint128" => json!(match r.below(4) {
                0 => "0".to_string(),
                1 => "1".to_string(),
                2 => r.next().to_string(),
                _ => u128::MAX.to_string(),
            }),
            "Uint64" | "Timestamp" => json!(r.pickc(&[0, 1, u64::MAX, 1_700_000_000_000_000_000, r.clone().next()]).to_string()),
            "Decimal" => json!(r.pickc(&["0", "0.02", "1", "0.000000000000000001", "123.5"])),
            _ => json!(match r.below(8) {
                0 => "".to_string(),
                1 => "0".to_string(),
                2 => r.pickc(&["a \"quoted\" \\ name", "\u{e9}\u{1f600}\n", "__proto__", "null", "ustars", "factory/a/b"]).to_string(),
                3 => r.below(1000).to_string(),
                4 => contract("collection"),
                _ => user(r.below(9)),
            }),
        },
        "array" => {
            let n = r.below(3);
            let it = s["items"].clone();
            Value::Array((0..n).map(|_| gen(r, root, &it, name)).collect())
        }
        _ => {
            let mut m = Map::new();
            for (k, p) in s["properties"].as_object().into_iter().flatten() {
                let x = gen(r, root, p, k);
                let req = s["required"].as_array().map_or(false, |l| l.contains(&json!(k)));
                if req || !x.is_null() || r.p(50) {
                    m.insert(k.clone(), x);
                }
            }
            Value::Object(m)
        }
    }
}
/// drops nulls, which mean the same as absence to the contracts
fn lean(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), lean(x))).collect()),
        Value::Array(l) => Value::Array(l.iter().map(lean).collect()),
        x => x.clone(),
    }
}

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Node {
    fn new(entry: &'static str, zone: &str) -> Self {
        let mut child = Command::new("node").env("TZ", zone).arg(bundle(entry)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("node");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Node { child, to, from }
    }
    fn ask(&mut self, r: &Value) -> Value {
        writeln!(self.to, "{r}").and_then(|_| self.to.flush()).expect("node is gone");
        let mut l = String::new();
        self.from.read_line(&mut l).expect("node is gone");
        serde_json::from_str(&l).unwrap_or_else(|e| panic!("node answered {l:?}: {e}"))
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// do these arguments, all of them, also suit operation `name`?
fn decode_same(api: &Api, asks: bool, name: &str, f: &Value) -> bool {
    let (root, decode) = if asks { (&api.query, api.decode_query) } else { (&api.exec, api.decode_exec) };
    let m = json!({ name: f });
    decode(&m.to_string()).is_ok() && conforms(root, root, &m, "").is_ok()
}
pub struct Clients {
    rng: Rng,
    node: Node,
    /// cache key -> question
    keys: BTreeMap<String, String>,
    prev: BTreeMap<String, (Value, String)>,
    lean: usize,
    last: Option<(Value, String)>,
    was: String,
}
impl Clients {
    pub fn new(seed: u64, idx: u64, _ctx: &mut Ctx) -> Self {
        Clients { rng: Rng::new(seed, idx, 0x7501), node: Node::new("driver.ts", "UTC"), lean: idx as usize * 5 % 41, last: None, was: String::new(), keys: BTreeMap::new(), prev: BTreeMap::new() }
    }
}
impl Engine for Clients {
    fn step(&mut self, ctx: &mut Ctx) {
        if ctx.step < 2 {
            // each operation of the contract has its call
            let api = &apis()[ctx.step];
            let names = |s: &Value| -> BTreeSet<String> { variants(s).iter().map(|v| camel(&v.0)).collect() };
            let (e, q) = (names(&api.exec), names(&api.query));
            let got = self.node.ask(&json!({"kind": "names", "module": api.module, "sender": user(0), "contract": contract("market"), "args": null, "answer": null}));
            for (k, want) in [("exec", e.union(&q).cloned().collect()), ("query", q.clone()), ("compose", e.clone()), ("factory", q.clone()), ("hook", q.clone())] {
                let g: BTreeSet<String> = got[k].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
                ctx.eval("T01", &format!("operations {k} {}", api.module), Some(fp(&(k, api.module))));
                // more than the operations is no harm: helpers look the same from here
                if !want.is_subset(&g) {
                    ctx.div(&["T01"], "client-operations", format!("{} {k}: the client lacks {:?}; {}", api.module, want.difference(&g).collect::<Vec<_>>(), got["err"]));
                }
            }
            return;
        }
        let r = &mut self.rng;
        let api = &apis()[r.below(2)];
        let kind = r.pickc(&["exec", "exec", "compose", "compose", "query", "query", "hook", "factory"]);
        let asks = matches!(kind, "query" | "hook" | "factory");
        let root = if asks { &api.query } else { &api.exec };
        let vs = variants(root);
        // each history leans on a few operations, so that near-repetitions are frequent
        let (name, body) = if r.p(70) { vs[(self.lean + r.below(4) * 7) % vs.len()].clone() } else { r.pickc(&vs) };
        // and often the twin of the previous question, as reverse_x is of x
        let twins: Vec<_> = vs.iter().filter(|v| asks && v.0 != self.was && (v.0.ends_with(&self.was) || self.was.ends_with(&v.0))).cloned().collect();
        let (name, body) = if !self.was.is_empty() && !twins.is_empty() && r.p(35) { r.pickc(&twins) } else { (name, body) };
        self.was = name.clone();
        let mut fields = gen(r, root, &body, "");
        let mut addr = r.pickc(&[contract("market"), contract("auction"), user(3)]);
        // often almost the previous question again
        let pk = format!("{}{}", api.module, name);
        let shared = r.p(30);
        match (self.prev.get(&pk).filter(|_| !shared), &self.last) {
            // the very same question to another contract
            (Some((f, a)), _) if asks && r.p(30) => {
                fields = f.clone();
                while addr == *a {
                    addr = r.pickc(&[contract("market"), contract("auction"), user(3)]);
                }
            }
            (Some((f, a)), _) if r.p(50) => {
                addr = if r.p(70) { a.clone() } else { addr };
                let ks: Vec<String> = fields.as_object().unwrap().keys().cloned().collect();
                let keep = if ks.is_empty() { String::new() } else { r.pickc(&ks) };
                for (k, x) in f.as_object().unwrap() {
                    if *k != keep {
                        fields[k] = x.clone();
                    }
                }
            }
            // the arguments of the previous question to another operation, as far as it has them
            (_, Some((f, a))) if shared || r.p(50) => {
                let mut g = fields.clone();
                for k in body["properties"].as_object().into_iter().flatten().map(|x| x.0) {
                    match f.get(k) {
                        Some(x) => g[k] = x.clone(),
                        // what is optional and not shared is best left out
                        None if r.p(80) && !body["required"].as_array().is_some_and(|l| l.contains(&json!(k))) => {
                            g.as_object_mut().unwrap().remove(k);
                        }
                        None => {}
                    }
                }
                if decode_same(api, asks, &name, &g) {
                    fields = g;
                    addr = a.clone();
                }
            }
            _ => {}
        }
        self.last = Some((fields.clone(), addr.clone()));
        self.prev.insert(pk, (fields.clone(), addr.clone()));
        let want_text = json!({ name.clone(): fields }).to_string();
        let decode = if asks { api.decode_query } else { api.decode_exec };
        let Ok(want) = decode(&want_text) else { return };
        let sender = user(r.below(9));
        let method = camel(&name);
        let mut args = Map::new();
        let mut undef: Vec<String> = vec![];
        let all: Vec<String> = body["properties"].as_object().map(|p| p.keys().cloned().collect()).unwrap_or_default();
        for k in &all {
            match fields.get(k) {
                Some(Value::Null) if r.p(30) => undef.push(camel(k)),
                Some(x) => {
                    args.insert(camel(k), x.clone());
                }
                None if r.p(30) => undef.push(camel(k)),
                None => {}
            }
        }
        let answer = json!({"answer": r.below(1_000_000), "list": [null, 0, "x"]});
        let mut req = json!({"kind": kind, "module": api.module, "method": method, "args": if all.is_empty() { Value::Null } else { Value::Object(args) }, "undef": undef, "sender": sender, "contract": addr, "answer": answer, "detached": r.p(25), "signing": r.p(30)});
        let denoms = ["ustars", "uatom", "a\"b"];
        let funds: Option<Vec<Value>> = match r.below(4) {
            0 => None,
            1 => Some(vec![]),
            n => Some((0..n - 1).map(|i| json!({"denom": denoms[i], "amount": r.next().to_string()})).collect()),
        };
        let (mut fee, mut memo) = (json!("auto"), Value::Null);
        if kind == "exec" {
            // trailing arguments may be left out from the right
            if let Some(f) = &funds {
                req["funds"] = json!(f);
            }
            if funds.is_some() || r.p(50) {
                memo = r.pickc(&[Value::Null, json!("hello"), json!("")]);
                req["memo"] = memo.clone();
                fee = r.pickc(&[json!("auto"), json!(1.5), json!(0), json!({"amount": [{"denom": "ustars", "amount": "7"}], "gas": "200000"}), Value::Null]);
                req["fee"] = fee.clone();
                if fee.is_null() {
                    fee = json!("auto");
                }
            }
        } else if kind == "compose" {
            if let Some(f) = &funds {
                req["funds"] = json!(f);
            }
        } else if kind != "query" {
            req["options"] = r.pickc(&[Value::Null, json!({}), json!({"enabled": false}), json!({"enabled": true}), json!({"staleTime": 30})]);
            if req["options"].is_object() && r.p(40) {
                // falsy ones count as well
                for (k, v) in [("staleTime", json!(0)), ("retry", json!(false)), ("retry", json!(0)), ("cacheTime", json!(0)), ("refetchInterval", json!(false)), ("keepPreviousData", json!(true)), ("retryDelay", json!(7))] {
                    if r.p(25) {
                        req["options"][k] = v;
                    }
                }
            }
            req["select"] = json!(req["options"].is_object() && r.p(20));
            req["noclient"] = json!(r.p(10));
        }
        let s0 = format!("{} {kind} {method} {}", api.module, req["args"]);
        ctx.log.push(s0.chars().take(300).collect());
        let got = self.node.ask(&req);
        ctx.count(&format!("ts {kind} {}", api.module));
        let f = Some(fp(&(kind, api.module, &name, want.to_string(), funds.is_some())));
        ctx.eval("T01", &format!("{kind} {} {name}", api.module), f);
        if let Some(e) = got["err"].as_str() {
            ctx.div(&["T01"], "client-error", format!("{s0}: the call failed: {e}"));
            return;
        }
        let want_funds = json!(funds.clone().unwrap_or_default());
        let mut bad: Vec<String> = vec![];
        let mut message = |text: &str, bad: &mut Vec<String>| match decode(text) {
            Err(e) => bad.push(format!("the contract does not understand {text}: {e}")),
            Ok(m) if m != want => bad.push(format!("the contract understands {m}, asked for was {want}")),
            _ => {}
        };
        if kind == "compose" {
            if got["typeUrl"] != "/cosmwasm.wasm.v1.MsgExecuteContract" {
                bad.push(format!("type url {}", got["typeUrl"]));
            }
            if got["sender"] != json!(sender) || got["contract"] != json!(addr) {
                bad.push(format!("from {} to {}, asked for was from {sender} to {addr}", got["sender"], got["contract"]));
            }
            if got["funds"] != want_funds {
                bad.push(format!("funds {} instead of {want_funds}", got["funds"]));
            }
            message(got["msg"].as_str().unwrap_or(""), &mut bad);
        } else {
            let calls = got["calls"].as_array().cloned().unwrap_or_default();
            let noclient = req["noclient"] == json!(true);
            if noclient {
                if !calls.is_empty() || got["failed"] != json!(true) || got["enabled"] != json!(false) {
                    bad.push(format!("without a client: {got}"));
                }
            } else if calls.len() != 1 {
                bad.push(format!("{} calls instead of one", calls.len()));
            } else {
                let c = &calls[0];
                if c["contract"] != json!(addr) {
                    bad.push(format!("to {} instead of {addr}", c["contract"]));
                }
                if kind == "exec" {
                    if c["fn"] != "execute" || c["sender"] != json!(sender) {
                        bad.push(format!("{} by {} instead of {sender}", c["fn"], c["sender"]));
                    }
                    let cf = if c["funds"].is_null() { json!([]) } else { c["funds"].clone() };
                    if cf != want_funds {
                        bad.push(format!("funds {cf} instead of {want_funds}"));
                    }
                    if c["fee"] != fee || c.get("memo").cloned().unwrap_or(Value::Null) != memo {
                        bad.push(format!("fee {} and memo {} instead of {fee} and {memo}", c["fee"], c["memo"]));
                    }
                } else if c["fn"] != "query" {
                    bad.push("not a query".into());
                }
                message(c["msg"].as_str().unwrap_or(""), &mut bad);
                if got["ret"] != answer {
                    bad.push(format!("the contract answered {answer}, the caller gets {}", got["ret"]));
                }
                if kind == "hook" || kind == "factory" {
                    let on = req["options"]["enabled"] != json!(false);
                    if got["enabled"] != json!(on) {
                        bad.push(format!("enabled is {}, options are {}", got["enabled"], req["options"]));
                    }
                    for (k, v) in req["options"].as_object().into_iter().flatten().filter(|o| o.0 != "enabled") {
                        if got["opts"][k] != *v {
                            bad.push(format!("the caller's option {k} {v} became {}", got["opts"][k]));
                        }
                    }
                    if req["select"] == json!(true) && got["select"] != json!(true) {
                        bad.push("the caller's selector is lost".into());
                    }
                    let q = format!("{} {addr} {}", api.module, lean(&want));
                    let key = got["key"].as_str().unwrap_or("").to_string();
                    ctx.eval("T01", "cache key", Some(fp(&key)));
                    match self.keys.get(&key) {
                        Some(o) if *o != q => bad.push(format!("cache key {key} already stands for {o}")),
                        _ => {
                            self.keys.insert(key, q);
                        }
                    }
                }
            }
        }
        if !bad.is_empty() {
            ctx.div(&["T01"], "client-call", format!("{s0}: {}", bad.join("; ")));
        }
    }
    fn finish(&mut self, _ctx: &mut Ctx) {}
}

/// the form of a value: its leaves replaced by their types
fn shape(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), shape(x))).collect()),
        Value::Array(l) => {
            let s: BTreeSet<String> = l.iter().map(|x| shape(x).to_string()).collect();
            json!(s)
        }
        Value::Null => json!("null"),
        Value::Bool(_) => json!("b"),
        Value::Number(_) => json!("n"),
        Value::String(_) => json!("s"),
    }
}

fn title(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}
/// the declared types of the arguments of operation `name`
fn arg_types(module: &str, name: &str, query: bool) -> Vec<String> {
    let (m, lower) = (camel(name), module[..1].to_lowercase() + &module[1..]);
    if query {
        vec![
            format!("Parameters<{module}QueryClient[\"{m}\"]>[0]"),
            format!("Parameters<{module}ReadOnlyInterface[\"{m}\"]>[0]"),
            format!("Parameters<typeof {module}Hooks.use{module}{}Query>[0][\"args\"]", title(&m)),
            format!("Parameters<typeof {module}Hooks.{lower}Queries.{m}>[0][\"args\"]"),
        ]
    } else {
        ["Client", "Interface", "MessageComposer", "Message"].iter().map(|c| format!("Parameters<{module}{c}[\"{m}\"]>[0]")).collect()
    }
}
/// the declared types of the answer of query `name`
fn answer_types(module: &str, name: &str) -> Vec<String> {
    let (m, lower) = (camel(name), module[..1].to_lowercase() + &module[1..]);
    vec![
        format!("Awaited<ReturnType<{module}QueryClient[\"{m}\"]>>"),
        format!("Awaited<ReturnType<{module}ReadOnlyInterface[\"{m}\"]>>"),
        format!("Exclude<ReturnType<typeof {module}Hooks.use{module}{}Query>[\"answer\"], undefined>", title(&m)),
        format!("Exclude<ReturnType<typeof {module}Hooks.{lower}Queries.{m}>[\"answer\"], undefined>"),
    ]
}
/// the paths of all members of `v`
fn leaves(v: &Value, at: String, out: &mut Vec<String>) {
    for (k, x) in v.as_object().into_iter().flatten() {
        let p = format!("{at}/{k}");
        if !at.is_empty() {
            out.push(p.clone());
        }
        leaves(x, p, out);
    }
    for (k, x) in v.as_array().into_iter().flatten().enumerate().take(2) {
        leaves(x, format!("{at}/{k}"), out);
    }
}

pub struct Types {
    seed: u64,
    idx: u64,
    rng: Rng,
    done: bool,
}
impl Types {
    pub fn new(seed: u64, idx: u64, _ctx: &mut Ctx) -> Self {
        Types { seed, idx, rng: Rng::new(seed, idx, 0x7502), done: false }
    }
}
impl Engine for Types {
    fn step(&mut self, ctx: &mut Ctx) {
        if std::mem::replace(&mut self.done, true) {
            return;
        }
        let r = &mut self.rng;
        // (declared type, value, what it is)
        let mut items: Vec<(String, Value, String)> = vec![];
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let mut add = |t: String, v: Value, what: String| {
            if seen.insert(fp(&(&t, shape(&v).to_string()))) && items.len() < 3_000 {
                items.push((t, v, what));
            }
        };
        // what the real contracts answer in a history of their own
        for (api, e) in apis().iter().zip(["v1", "ra"]) {
            let mut inner = Ctx::new(Some("X05".into()));
            inner.capture = Some(vec![]);
            let i = self.idx * 64 + 1 + self.idx % 5;
            let mut g: Box<dyn Engine> = if e == "v1" { Box::new(crate::v1::V1::new(self.seed, i, &mut inner)) } else { Box::new(crate::ra::Ra::new(self.seed, i, &mut inner)) };
            for k in 0..90 {
                inner.step = k;
                g.step(&mut inner);
            }
            for (q, a) in inner.capture.take().unwrap_or_default() {
                let Some((name, _)) = q.as_object().and_then(|o| o.iter().next()) else { continue };
                for t in answer_types(api.module, name) {
                    add(t, a.clone(), format!("answer of {}", q.to_string().chars().take(150).collect::<String>()));
                }
                add(format!("{}.QueryMsg", api.module), q.clone(), "question".into());
            }
        }
        // what they accept
        for api in apis() {
            for (root, decode, ty) in [(&api.exec, api.decode_exec, "ExecuteMsg"), (&api.query, api.decode_query, "QueryMsg")] {
                for (name, body) in variants(root) {
                    for _ in 0..4 {
                        let f = gen(r, root, &body, "");
                        let m = json!({ name.clone(): f });
                        if decode(&m.to_string()).is_err() || conforms(root, root, &m, "").is_err() {
                            continue;
                        }
                        if let Some(o) = f.as_object().filter(|o| !o.is_empty()) {
                            let a: Map<String, Value> = o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (camel(k), x.clone())).collect();
                            for t in arg_types(api.module, &name, ty == "QueryMsg") {
                                add(t, Value::Object(a.clone()), "arguments".into());
                            }
                        }
                        add(format!("{}.{ty}", api.module), m, "message".into());
                    }
                }
            }
            for _ in 0..4 {
                let m = gen(r, &api.init, &api.init, "");
                if (api.decode_init)(&m.to_string()).is_ok() {
                    add(format!("{}.InstantiateMsg", api.module), m, "message".into());
                }
            }
        }
        // what they refuse because a part is missing or of another kind must not pass for well-typed
        let first_wrong = items.len();
        let mut wrong: Vec<(String, Value, String)> = vec![];
        for (t, v, what) in items.iter() {
            if what.starts_with("answer") {
                // nor what the contract never answers
                let mut paths = vec![];
                leaves(v, " ".into(), &mut paths);
                for p in paths {
                    let mut m = v.clone();
                    *m.pointer_mut(p.trim_start()).unwrap() = json!([[7]]);
                    if seen.insert(fp(&(t, shape(&m).to_string()))) && wrong.len() < 6_000 {
                        wrong.push((t.clone(), m, "no answer".into()));
                    }
                }
                continue;
            }
            let Some((api, kind)) = t.split_once('.').and_then(|(m, k)| apis().iter().find(|a| a.module == m).map(|a| (a, k))) else { continue };
            if what != "message" {
                continue;
            }
            let decode = match kind {
                "ExecuteMsg" => api.decode_exec,
                "QueryMsg" => api.decode_query,
                _ => api.decode_init,
            };
            let mut paths = vec![];
            leaves(v, String::new(), &mut paths);
            for p in paths {
                let mut m = v.clone();
                let (up, last) = p.rsplit_once('/').unwrap();
                let how = r.below(2);
                match m.pointer_mut(up) {
                    Some(Value::Object(o)) if how == 0 => {
                        o.remove(last);
                    }
                    Some(Value::Object(o)) => {
                        let x = o.get_mut(last).unwrap();
                        *x = r.pickc(&[json!(7), json!("7"), json!(true), json!({}), json!([])]);
                    }
                    _ => continue,
                }
                if shape(&m) == shape(v) || decode(&m.to_string()).is_ok() || !decode(&m.to_string()).is_err_and(|e| e.contains("missing field") || e.contains("nvalid type")) {
                    continue;
                }
                let (name, body) = m.as_object().and_then(|o| o.iter().next()).unwrap();
                if let Some(o) = body.as_object().filter(|_| kind != "InstantiateMsg") {
                    let a: Map<String, Value> = o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (camel(k), x.clone())).collect();
                    let a = Value::Object(a);
                    for t in arg_types(api.module, name, kind == "QueryMsg") {
                        if seen.insert(fp(&(&t, shape(&a).to_string()))) {
                            wrong.push((t, a.clone(), "no arguments".into()));
                        }
                    }
                }
                if seen.insert(fp(&(t, shape(&m).to_string()))) {
                    wrong.push((t.clone(), m, "no message".into()));
                }
            }
        }
        items.append(&mut wrong);
        let list: Vec<Value> = items.iter().enumerate().map(|(i, (t, v, _))| json!({"i": i, "t": t, "v": v})).collect();
        let file = format!("{}/lit-{}-{}.json", scratch(), self.seed, self.idx);
        std::fs::write(&file, json!(list).to_string()).expect("literals");
        let out = Command::new("node").args([&format!("{HERE}/ts/typecheck.mjs"), &repo(), &file]).output().expect("node");
        let _ = std::fs::remove_file(&file);
        let diags: Vec<(i64, String)> = serde_json::from_slice(&out.stdout).unwrap_or_else(|e| panic!("type check: {e}: {}", String::from_utf8_lossy(&out.stderr).chars().take(400).collect::<String>()));
        for (t, v, what) in &items {
            ctx.eval("T02", &format!("{} {t}", if what.starts_with("answer") { "answer" } else { what }), Some(fp(&(t, shape(v).to_string()))));
        }
        ctx.count("type check runs");
        let mut once = BTreeSet::new();
        let refused: BTreeSet<i64> = diags.iter().map(|d| d.0).collect();
        for (i, (t, v, _)) in items.iter().enumerate().skip(first_wrong) {
            if !refused.contains(&(i as i64)) && once.insert(format!("wrong {t}")) {
                ctx.div(&["T02"], &format!("accepts:{t}"), format!("{v} passes for a {t}, and the contract cannot read it"));
            }
        }
        for (i, m) in diags {
            if i as usize >= first_wrong && i >= 0 {
                continue;
            }
            if i < 0 {
                if once.insert("import".to_string()) {
                    ctx.div(&["T02"], "declared-modules", format!("the declared modules cannot be used: {m}"));
                }
                continue;
            }
            let (t, v, what) = &items[i as usize];
            if once.insert(t.clone()) {
                ctx.div(&["T02"], &format!("type:{t}"), format!("{what}: {} is no {t}: {m}", v.to_string().chars().take(200).collect::<String>()));
            }
        }
    }
    fn finish(&mut self, _ctx: &mut Ctx) {}
}

/// The command line: its commands run against a settings store in memory and a recording stand-in of the chain.
pub struct Cli {
    rng: Rng,
    node: Node,
    keys: BTreeMap<String, String>,
    default: Option<String>,
    uri: Option<String>,
    gas: Option<String>,
    addrs: BTreeMap<String, String>,
    made: u64,
}
const NAMES: [&str; 10] = ["a", "b", "creator", "bidder", "with space", "a.b", "\u{e9}\u{4e2d}", "1", "Creator", "B"];
impl Cli {
    pub fn new(seed: u64, idx: u64, _ctx: &mut Ctx) -> Self {
        let mut c = Cli { rng: Rng::new(seed, idx, 0x7503), node: Node::new("cli.ts", ["UTC", "America/St_Johns", "Pacific/Auckland"][idx as usize % 3]), keys: BTreeMap::new(), default: None, uri: None, gas: None, addrs: BTreeMap::new(), made: 0 };
        if c.rng.p(85) {
            c.conf("node", "https://rpc.example:443");
            c.conf("gas-price", "0.04ustars");
        }
        c
    }
    fn conf(&mut self, k: &str, v: &str) {
        self.node.ask(&json!({"op": "conf", "key": k, "value": v}));
        let s = Some(v.to_string());
        if k == "node" {
            self.uri = s;
        } else {
            self.gas = s;
        }
    }
    fn addr(&mut self, mnemonic: &str) -> String {
        if let Some(a) = self.addrs.get(mnemonic) {
            return a.clone();
        }
        let a = self.node.ask(&json!({"op": "addr", "mnemonic": mnemonic}))["addr"].as_str().unwrap().to_string();
        self.addrs.insert(mnemonic.to_string(), a.clone());
        a
    }
    fn iso(&mut self, ms: u64) -> String {
        self.node.ask(&json!({"op": "iso", "ms": ms}))["iso"].as_str().unwrap().to_string()
    }
    fn reachable(&self) -> bool {
        self.uri.as_deref().is_some_and(|u| u.starts_with("http"))
    }
    fn settings(&self, got: &Value, bad: &mut Vec<String>) {
        let mut want = Map::new();
        if !self.keys.is_empty() {
            want.insert("mnemonics".into(), json!(self.keys));
        }
        for (k, x) in [("default-mnemonic", &self.default), ("node", &self.uri), ("gas-price", &self.gas)] {
            if let Some(x) = x {
                want.insert(k.into(), json!(x));
            }
        }
        if got["conf"] != Value::Object(want.clone()) {
            bad.push(format!("settings are {} instead of {}", got["conf"], Value::Object(want)));
        }
    }
    fn amount(u: u64) -> String {
        format!("{}", u as f64 / 1e6)
    }
    fn schedule(&mut self, ctx: &mut Ctx, bad: &mut Vec<String>) {
        let now = self.node.ask(&json!({"op": "now"}))["ms"].as_u64().unwrap();
        let end_ms = now + self.rng.pickc(&[10_000, 3_600_500, 86_400_999, 30 * 86_400_000]) + self.rng.below(5_000) as u64;
        let iso = self.iso(end_ms);
        let (end, end_ok) = match self.rng.below(8) {
            0 => (self.rng.pickc(&[iso.replace('Z', ""), iso.replace(".", ""), "tomorrow".to_string(), iso.replace("20", "x0"), format!("{}-99T00:00:00.000Z", &iso[..7]), format!(" {iso}"), iso.replace('T', " "), format!("{}-02-31T00:00:00.000Z", &iso[..4])]), false),
            _ => (iso, true),
        };
        let names: Vec<String> = self.keys.keys().cloned().collect();
        let r = &mut self.rng;
        let mut who = || if names.is_empty() || r.p(8) { r.pickc(&NAMES).to_string() } else { r.pickc(&names) };
        let (creator, bidder) = (who(), who());
        let known = |k: &String| self.keys.get(k).cloned();
        let (cm, bm) = (known(&creator), known(&bidder));
        let ca = cm.as_ref().map(|m| self.addr(m)).unwrap_or_default();
        let ba = bm.as_ref().map(|m| self.addr(m)).unwrap_or_default();
        let r = &mut self.rng;
        let (coll, other, auction) = (contract("collection"), contract("elsewhere"), contract("auction"));
        // auctions that are already there
        let mut auctions: Vec<Value> = vec![];
        let mut open: BTreeSet<String> = BTreeSet::new();
        let crowd = r.pickc(&[0usize, 2, 6, 30]);
        let mut ends: Vec<u64> = vec![];
        for i in 0..crowd {
            let c = if r.p(60) { &coll } else { &other };
            let t = r.below(25).to_string();
            if auctions.iter().any(|a| a["collection"] == json!(c) && a["token_id"] == json!(t)) {
                continue;
            }
            let seller = if r.p(80) { ca.clone() } else { user(2) };
            if seller.is_empty() {
                continue;
            }
            let e = r.p(40).then(|| now + i as u64 * 777 + 5_000);
            if seller == ca {
                ends.extend(e);
            }
            if c == &coll {
                open.insert(t.clone());
            }
            auctions.push(json!({"collection": c, "token_id": t, "seller": seller, "reserve_price": {"denom": "ustars", "amount": "5"}, "duration": "60", "end_time": e.map(|e| format!("{e}500000")), "seller_funds_recipient": null, "high_bid": null, "first_bid_time": null}));
        }
        let mut tokens: Vec<String> = vec![];
        for _ in 0..1 + r.below(4) {
            let t = r.below(25).to_string();
            if !tokens.contains(&t) {
                tokens.push(t);
            }
        }
        let dry = r.p(15);
        // a transaction takes its time
        let tick = if end_ms > now + 1_000_000 { r.pickc(&[0u64, 6_000, 25_000]) } else { 0 };
        let fee = json!({"denom": r.pickc(&["ustars", "uatom"]), "amount": r.pickc(&["7", "500000"])});
        let fail_at = r.p(20).then(|| r.below(7));
        // now and then an argument is missing
        let cut = if r.p(6) { r.below(6) } else { 9 };
        let args: Vec<String> = [&auction, &coll, &end, &creator, &bidder].iter().take(cut).map(|x| x.to_string()).collect();
        let mut flags = json!({});
        if cut != 5 {
            flags[if r.p(30) { "t" } else { "token-ids" }] = json!(tokens);
        }
        if dry {
            flags[if r.p(30) { "d" } else { "dry-run" }] = json!(true);
        }
        let req = json!({"op": "schedule", "args": args, "flags": flags,
            "chain": {"auction": auction, "collections": [coll, other], "auctions": auctions, "failAt": fail_at, "tick": tick,
                "config": {"create_auction_fee": fee, "max_auctions_to_settle_per_block": 10, "halt_duration_threshold": 1, "halt_buffer_duration": 1, "halt_postpone_duration": 1, "min_bid_increment_percent": "0.1", "min_duration": 1, "max_duration": 10_000_000, "extend_duration": 1, "fair_burn": user(8)}}});
        ctx.log.push(format!("schedule {} {} by {creator} and {bidder}, {} auctions", req["flags"], req["args"][2], auctions.len()));
        let got = self.node.ask(&req);
        let txs = got["txs"].as_array().cloned().unwrap_or_default();
        let able = cut == 9 && end_ok && self.reachable() && cm.is_some() && self.gas.is_some();
        let todo: Vec<&String> = tokens.iter().filter(|t| !open.contains(*t)).collect();
        let fails = !dry && !todo.is_empty() && (bm.is_none() || fail_at.is_some_and(|n| n < 3 * todo.len()));
        ctx.eval("T03", &format!("schedule{}{}", if dry { ", dry" } else { "" }, if !able { ", refused" } else if fails { ", interrupted" } else { "" }), Some(fp(&(tokens.len(), todo.len(), auctions.len() > 10, dry, able, fails, fail_at, creator == bidder))));
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for t in &txs {
            let (k, body) = t["msg"].as_object().and_then(|o| o.iter().next()).map(|(k, v)| (k.clone(), v.clone())).unwrap_or_default();
            let id = body["token_id"].as_str().unwrap_or("?").to_string();
            let n = seen.entry(id.clone()).or_default();
            let (sender, to, funds, want) = match *n {
                0 => (&ca, &coll, json!([]), json!({"approve": {"spender": auction, "token_id": id}})),
                1 => (&ca, &auction, json!([fee]), json!({"create_auction": {"collection": coll, "token_id": id, "reserve_price": {"amount": "1000000", "denom": "ustars"}}})),
                _ => (&ba, &auction, json!([{"amount": "1000000", "denom": "ustars"}]), json!({"place_bid": {"collection": coll, "token_id": id}})),
            };
            *n += 1;
            let mut m = lean(&t["msg"]);
            if k == "create_auction" {
                let d = m[&k].as_object_mut().and_then(|o| o.remove("duration")).and_then(|d| d.as_i64()).unwrap_or(-1);
                let left = |from: &Value| end_ms as i64 / 1000 - from.as_i64().unwrap_or(0) / 1000;
                let begun = txs.iter().find(|a| a["msg"]["approve"]["token_id"] == json!(id)).map_or(&got["t0"], |a| &a["now"]);
                let (lo, hi) = (left(&t["now"]) - 1, left(begun) + 1);
                if d < lo || d > hi {
                    bad.push(format!("auction {id} lasts {d} s, the asked end is {lo} to {hi} s away"));
                }
            }
            if m != want || *n > 3 || t["sender"] != json!(sender) || t["contract"] != json!(to) || t["funds"] != funds || t["fee"] != json!("auto") {
                bad.push(format!("transaction {n} for {id} is {t}, expected from {sender} to {to}: {want} with {funds}"));
            }
            if !todo.contains(&&id) || dry {
                bad.push(format!("a transaction for {id}, which was not to be scheduled: {t}"));
            }
        }
        if got["gas"].as_array().into_iter().flatten().any(|g| json!(self.gas) != *g) || got["uris"].as_array().into_iter().flatten().any(|u| json!(self.uri) != *u) {
            bad.push(format!("connected to {} at {}, set are {:?} and {:?}", got["uris"], got["gas"], self.uri, self.gas));
        }
        if !able && (!txs.is_empty() || got["err"].is_null()) {
            bad.push(format!("accepted although it cannot be done: {} transactions, error {}", txs.len(), got["err"]));
        }
        if able && !fails {
            if !got["err"].is_null() {
                bad.push(format!("failed: {}", got["err"]));
            }
            if !dry && (seen.len() != todo.len() || seen.values().any(|n| *n != 3)) {
                bad.push(format!("{} of {} auctions scheduled: {seen:?}", seen.len(), todo.len()));
            }
        }
        if able && fails && (got["err"].is_null() || got["refused"].as_u64() > Some(1)) {
            bad.push(format!("a refused transaction went unnoticed: error {}, {} refused", got["err"], got["refused"]));
        }
        if able && auctions.iter().filter(|a| a["seller"] == json!(ca)).count() <= 10 {
            let log = got["log"].to_string();
            for e in ends {
                let t = self.iso(e);
                if !log.contains(&t) {
                    bad.push(format!("an auction ending at {t} is not reported"));
                }
            }
        }
        self.settings(&got, bad);
    }
}
impl Engine for Cli {
    fn step(&mut self, ctx: &mut Ctx) {
        let mut bad: Vec<String> = vec![];
        let op = self.rng.pickc(&["generate", "generate", "store", "set", "list", "balance", "schedule", "schedule", "schedule", "lib", "conf"]);
        let name = self.rng.pickc(&NAMES).to_string();
        let (nameless, short) = (self.rng.p(5), self.rng.p(30));
        ctx.count(&format!("cli {op}"));
        match op {
            "conf" => {
                if self.rng.p(50) {
                    let v = self.rng.pickc(&["https://rpc.example:443", "http://localhost:26657", "https://rpc.example:443", "https://a.b/", "http://[::1]:1/", "localhost:26657", "ftp://x", "nonsense"]);
                    self.conf("node", v);
                } else {
                    self.conf("gas-price", "0.1ustars");
                }
                return;
            }
            "generate" | "store" => {
                self.made += 1;
                let m = format!("seed{} word1", 1_000_000 + self.made);
                let got = self.node.ask(&json!({"op": op, "flags": if nameless && op == "generate" { json!({}) } else if short && op == "generate" { json!({"n": name}) } else { json!({"name": name}) }, "mnemonic": m, "args": []}));
                if got["absent"] == json!(true) {
                    return;
                }
                ctx.log.push(format!("{op} {name}: {}", got["err"]));
                let taken = self.keys.contains_key(&name);
                ctx.eval("T03", &format!("{op}{}", if taken { ", name taken" } else { "" }), Some(fp(&(op, taken, self.keys.len(), self.default.is_some(), &name))));
                let taken = taken || nameless && op == "generate";
                if taken != !got["err"].is_null() {
                    bad.push(format!("{name} taken: {taken}, error {}", got["err"]));
                }
                if !taken {
                    let m = if op == "store" { m } else { got["made"].as_array().and_then(|l| l.last()).and_then(|x| x.as_str()).unwrap_or("").to_string() };
                    if op == "generate" && !got["log"].to_string().contains(&self.addr(&m)) {
                        bad.push(format!("the new address is not reported: {}", got["log"]));
                    }
                    self.keys.insert(name.clone(), m);
                    self.default.get_or_insert(name.clone());
                }
                self.settings(&got, &mut bad);
            }
            "set" => {
                let got = self.node.ask(&json!({"op": op, "flags": if nameless { json!({}) } else if short { json!({"n": name}) } else { json!({"name": name}) }, "args": []}));
                ctx.log.push(format!("{op} {name}: {}", got["err"]));
                let m = self.keys.get(&name).filter(|_| !nameless).cloned();
                ctx.eval("T03", &format!("set{}", if m.is_none() { ", unknown" } else { "" }), Some(fp(&(op, m.is_some(), &name, &self.default))));
                if m.is_some() != got["err"].is_null() {
                    bad.push(format!("{name} known: {}, error {}", m.is_some(), got["err"]));
                }
                if let Some(m) = m {
                    self.default = Some(name.clone());
                    if !got["log"].to_string().contains(&self.addr(&m)) {
                        bad.push(format!("the selected address is not reported: {}", got["log"]));
                    }
                }
                self.settings(&got, &mut bad);
            }
            "list" | "balance" => {
                let mut bal: BTreeMap<String, u64> = BTreeMap::new();
                let all: Vec<(String, String)> = self.keys.clone().into_iter().collect();
                let mut addrs = vec![];
                for (n, m) in &all {
                    let a = self.addr(m);
                    bal.insert(a.clone(), self.rng.pickc(&[0, 1, 999_999, 1_000_000, 1_234_567, 5_000_000_000_000]));
                    addrs.push((n.clone(), a));
                }
                let one = if addrs.is_empty() || self.rng.p(20) { user(5) } else { self.rng.pickc(&addrs).1 };
                let chain: Map<String, Value> = bal.iter().map(|(a, b)| (a.clone(), json!({"ustars": b.to_string(), "uatom": "77"}))).collect();
                let got = self.node.ask(&json!({"op": op, "flags": {}, "args": if op == "list" { json!([]) } else { json!([one]) }, "chain": {"balances": chain}}));
                ctx.log.push(format!("{op}: {} {}", got["err"], got["log"]));
                ctx.eval("T03", &format!("{op}{}", if self.reachable() { "" } else { ", no chain" }), Some(fp(&(op, &bal, self.reachable()))));
                if self.reachable() != got["err"].is_null() {
                    bad.push(format!("endpoint {:?}, error {}", self.uri, got["err"]));
                } else if self.reachable() {
                    let text: String = got["log"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect::<Vec<_>>().join("\n");
                    if op == "list" {
                        for (n, a) in &addrs {
                            let want = format!("{a} {}ustars", Self::amount(bal[a]));
                            let hits: Vec<&str> = text.lines().filter(|l| l.contains(a.as_str())).collect();
                            if hits.len() != 1 || !hits[0].contains(&want) || !hits[0].starts_with(&format!("{n}:")) {
                                bad.push(format!("{n} ({want}) is reported as {hits:?}"));
                            }
                        }
                        if text.lines().filter(|l| l.contains("stars1")).count() != addrs.len() {
                            bad.push(format!("{} accounts, reported: {text}", addrs.len()));
                        }
                    } else {
                        let want = format!("{}ustars", Self::amount(bal.get(&one).copied().unwrap_or(0)));
                        let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
                        if v["address"] != json!(one) || v["balance"] != json!(want) {
                            bad.push(format!("balance of {one} is {want}, reported: {text}"));
                        }
                    }
                }
                self.settings(&got, &mut bad);
            }
            "schedule" => self.schedule(ctx, &mut bad),
            _ => {
                let ms = 1_000 * (self.rng.next() % 4_000_000_000) + self.rng.below(1_000) as u64;
                let iso = self.iso(ms);
                let k = self.rng.next() % (1 << 40);
                let d = self.rng.pickc(&[0u32, 2, 6, 8]);
                let bad_iso = self.rng.pickc(&[iso.replace('Z', ""), iso.replace(":", ""), format!("x{iso}"), format!("{iso} "), format!("{}-02-30{}", &iso[..4], &iso[10..])]);
                let host = self.rng.pickc(&["https://a.b:1/c?d", "http://x", "HTTP://x", "ftp://x", "x", "", "//x", "httpx://y", "https:", "javascript:1"]);
                for (f, args, want) in [
                    ("isValidHttpUrl", json!([host]), json!(host.to_lowercase().starts_with("http://") || host.starts_with("https://"))),
                    ("removeEmptyKeys", json!([{"a": null, "b": 0, "c": "", "d": false, "e": k, "f": {"g": null}}]), json!({"b": 0, "c": "", "d": false, "e": k, "f": {"g": null}})),
                    ("ISOToSeconds", json!([iso]), json!(ms / 1000)),
                    ("ISOToNano", json!([iso]), json!((ms as u128 * 1_000_000).to_string())),
                    ("isISODate", json!([iso]), json!(true)),
                    ("isISODate", json!([bad_iso]), json!(false)),
                    ("toRawAmount", json!([k as f64 / 10f64.powi(d as i32), d]), json!(k.to_string())),
                    ("toRawAmount", json!([k as f64 / 1e6]), json!(k.to_string())),
                    ("fromRawAmount", json!([k.to_string(), d]), json!(k as f64 / 10f64.powi(d as i32))),
                    ("fromRawAmount", json!([k.to_string()]), json!(k as f64 / 1e6)),
                ] {
                    let got = self.node.ask(&json!({"op": "lib", "fn": f, "args": args}));
                    if got["absent"] == json!(true) {
                        continue;
                    }
                    ctx.eval("T03", f, Some(fp(&(f, args.to_string()))));
                    // a date that is none may also be refused with an error
                    let ok = if want.is_number() { got["ret"].as_f64() == want.as_f64() } else { got["ret"] == want || (want == json!(false) && got["ret"].is_null()) };
                    if !ok {
                        bad.push(format!("{f}{args} is {got} instead of {want}"));
                    }
                }
            }
        }
        if !bad.is_empty() {
            ctx.div(&["T03"], &format!("cli-{op}"), format!("{op}: {}", bad.join("; ").chars().take(900).collect::<String>()));
        }
    }
    fn finish(&mut self, _ctx: &mut Ctx) {}
}
