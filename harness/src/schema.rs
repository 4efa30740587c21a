//! Conformance of query answers to the JSON schemas the contracts publish (`QueryMsg::response_schemas`).
use crate::common::*;
use cosmwasm_schema::QueryResponses;
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::OnceLock;

type Schemas = BTreeMap<String, Value>;

fn of<Q: QueryResponses>() -> Schemas {
    match Q::response_schemas() {
        Ok(m) => m.into_iter().map(|(k, v)| (k, serde_json::to_value(v).unwrap())).collect(),
        Err(_) => Schemas::new(),
    }
}
fn published(engine: &str) -> &'static Schemas {
    static V1: OnceLock<Schemas> = OnceLock::new();
    static V2: OnceLock<Schemas> = OnceLock::new();
    static RA: OnceLock<Schemas> = OnceLock::new();
    match engine {
        "v1" => V1.get_or_init(of::<sg_marketplace::msg::QueryMsg>),
        "v2" => V2.get_or_init(of::<stargaze_marketplace_v2::msg::QueryMsg>),
        _ => RA.get_or_init(of::<stargaze_reserve_auction::msg::QueryMsg>),
    }
}

fn is_type(t: &str, v: &Value) -> bool {
    match t {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "integer" => v.is_u64() || v.is_i64(),
        _ => v.is_number(),
    }
}
/// Err: where and why `v` is not what schema `s` (draft 7 as schemars writes it) describes
pub fn conforms(root: &Value, s: &Value, v: &Value, at: &str) -> Result<(), String> {
    let o = match s {
        Value::Bool(true) => return Ok(()),
        Value::Bool(false) => return Err(format!("{at}: nothing is allowed here")),
        Value::Object(o) => o,
        _ => return Ok(()),
    };
    if let Some(r) = o.get("$ref").and_then(|r| r.as_str()) {
        let d = root.pointer(r.trim_start_matches('#')).ok_or_else(|| format!("{at}: dangling {r}"))?;
        conforms(root, d, v, at)?;
    }
    match o.get("type") {
        Some(Value::String(t)) if !is_type(t, v) => return Err(format!("{at}: {t} expected, got {v}")),
        Some(Value::Array(ts)) if !ts.iter().any(|t| is_type(t.as_str().unwrap_or(""), v)) => return Err(format!("{at}: one of {ts:?} expected, got {v}")),
        _ => {}
    }
    if let Some(e) = o.get("enum").and_then(|e| e.as_array()) {
        if !e.contains(v) {
            return Err(format!("{at}: {v} is not one of {e:?}"));
        }
    }
    for x in o.get("allOf").and_then(|x| x.as_array()).into_iter().flatten() {
        conforms(root, x, v, at)?;
    }
    if let Some(a) = o.get("anyOf").and_then(|x| x.as_array()) {
        if !a.iter().any(|x| conforms(root, x, v, at).is_ok()) {
            return Err(format!("{at}: {v} fits no alternative"));
        }
    }
    if let Some(a) = o.get("oneOf").and_then(|x| x.as_array()) {
        if a.iter().filter(|x| conforms(root, x, v, at).is_ok()).count() != 1 {
            return Err(format!("{at}: {v} does not fit exactly one alternative"));
        }
    }
    if let Some(m) = v.as_object() {
        let props = o.get("properties").and_then(|p| p.as_object());
        for r in o.get("required").and_then(|r| r.as_array()).into_iter().flatten() {
            if !m.contains_key(r.as_str().unwrap_or("")) {
                return Err(format!("{at}: field {r} is missing in {v}"));
            }
        }
        for (k, x) in m {
            match props.and_then(|p| p.get(k)) {
                Some(p) => conforms(root, p, x, &format!("{at}.{k}"))?,
                None => match o.get("additionalProperties") {
                    Some(p) => conforms(root, p, x, &format!("{at}.{k}"))?,
                    None => {}
                },
            }
        }
    }
    if let Some(l) = v.as_array() {
        match o.get("items") {
            Some(Value::Array(ss)) => {
                for (i, (x, p)) in l.iter().zip(ss).enumerate() {
                    conforms(root, p, x, &format!("{at}[{i}]"))?;
                }
            }
            Some(p) => {
                for (i, x) in l.iter().enumerate() {
                    conforms(root, p, x, &format!("{at}[{i}]"))?;
                }
            }
            None => {}
        }
        if o.get("minItems").and_then(|n| n.as_u64()).map_or(false, |n| (l.len() as u64) < n) || o.get("maxItems").and_then(|n| n.as_u64()).map_or(false, |n| (l.len() as u64) > n) {
            return Err(format!("{at}: {} items", l.len()));
        }
    }
    if let (Some(min), Some(x)) = (o.get("minimum").and_then(|m| m.as_f64()), v.as_f64()) {
        if x < min {
            return Err(format!("{at}: {x} is below {min}"));
        }
    }
    Ok(())
}

/// X05: judges the answer `a` of a query `q`
pub fn judge(ctx: &mut Ctx, engine: &'static str, q: &Value, a: &Value) {
    if !ctx.wants("X05") {
        return;
    }
    if let Some(c) = &mut ctx.capture {
        if a.to_string().len() < 2_000 {
            c.push((q.clone(), a.clone()));
        }
    }
    let Some(name) = q.as_object().and_then(|o| o.keys().next()) else { return };
    let kind = format!("{engine} {name}");
    if ctx.prop.is_none() && a.to_string().len() > 4_000 {
        return;
    }
    let empty = a.is_null() || a.as_object().map_or(false, |o| o.values().all(|x| x.is_null() || x.as_array().map_or(false, |l| l.is_empty()))) || a.as_array().map_or(false, |l| l.is_empty());
    ctx.eval("X05", &if empty { format!("{kind} (empty)") } else { kind.clone() }, if empty { None } else { Some(fp(&(engine, a.to_string()))) });
    match published(engine).get(name) {
        None => ctx.div(&["X05"], &format!("no-schema:{kind}"), format!("no answer type is published for {kind}")),
        Some(s) => {
            if let Err(e) = conforms(s, s, a, "answer") {
                ctx.div(&["X05"], &format!("schema:{kind}"), format!("the answer of {q} is not of the published type: {e}"));
            }
        }
    }
}
