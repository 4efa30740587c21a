// needs: a client built from the published schema that asks for an auction that does not exist
// breaks: the schema declares that there is always an auction, the answer is null
mod chain; mod kit; use kit::*;
use cosmwasm_schema::QueryResponses;
fn main() {
    let k = K::ra();
    let answer = k.q(json!({"auction": {"collection": k.coll, "token_id": "1"}}));
    let declared = serde_json::to_value(stargaze_reserve_auction::msg::QueryMsg::response_schemas().unwrap()["auction"].clone()).unwrap();
    // what may be answered: an object of the declared kind, or null if the declaration allows it
    let null = |s: &serde_json::Value| s["type"] == "null" || s["type"].as_array().map_or(false, |a| a.contains(&json!("null")));
    let may = null(&declared) || declared["anyOf"].as_array().map_or(false, |a| a.iter().any(null));
    assert!(!answer.is_null() || may, "null is no answer of the declared type");
}
