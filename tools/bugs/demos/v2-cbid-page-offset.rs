// needs: several collection bids at the same price and paging through them
// breaks: paging with the last returned order as the bound repeats or skips orders of equal price
mod chain; mod kit; use kit::*;
use std::collections::BTreeSet;
fn main() {
    let k = K::v2();
    for i in 0..7 {
        k.cbid(&u(2 + i % 3), det(cn(1000)));
    }
    for desc in [false, true] {
        let mut seen = BTreeSet::new();
        let mut cur = Value::Null;
        for _ in 0..10 {
            let mut o = json!({"limit": 2, "descending": desc});
            if !cur.is_null() {
                o[if desc { "max" } else { "min" }] = json!({"exclusive": cur});
            }
            let q = format!(
                r#"{{"collection_bids_by_price":{{"collection":"{}","denom":"{}","query_options":{}}}}}"#,
                k.coll, NATIVE, o
            );
            let r = k.q(serde_json::from_str(&q).unwrap());
            let r = r.as_array().unwrap();
            if r.is_empty() {
                break;
            }
            for b in r {
                assert!(seen.insert(b["id"].to_string()), "order returned twice");
            }
            let l = r.last().unwrap();
            cur = json!({"id": l["id"], "amount": l["details"]["price"]["amount"].as_str().unwrap()});
        }
        assert_eq!(seen.len(), 7, "orders missed while paging");
    }
}
