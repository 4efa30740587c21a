// needs: auctions that end in the same second, paged by end time in descending order
// breaks: the auctions with the same end time that did not fit on the page are never shown
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.sudo(json!({"begin_block": {}}));
    for t in 1..6 {
        k.ok(&u(t), json!({"create_auction": {"collection": k.coll, "token_id": t.to_string(), "reserve_price": cn(100), "duration": 500, "seller_funds_recipient": null}}), &[]);
        k.ok(&u(9), json!({"place_bid": {"collection": k.coll, "token_id": t.to_string()}}), &s(100));
    }
    for desc in [false, true] {
        let (mut seen, mut after) = (vec![], Value::Null);
        let mut end: u64 = if desc { k.now() + 10_000 } else { 0 };
        for _ in 0..9 {
            let page = k.q(json!({"auctions_by_end_time": {"end_time": end, "query_options": {"descending": desc, "limit": 2, "start_after": after}}}));
            let Some(last) = page.as_array().unwrap().last().cloned() else { break };
            seen.extend(page.as_array().unwrap().iter().map(|a| a["token_id"].clone()));
            after = json!({"collection": last["collection"], "token_id": last["token_id"]});
            end = last["end_time"].as_str().unwrap().parse::<u64>().unwrap() / SEC;
        }
        let mut want = vec!["1", "2", "3", "4", "5"];
        if desc { want.reverse(); }
        assert_eq!(json!(seen), json!(want), "descending: {desc}");
    }
}
