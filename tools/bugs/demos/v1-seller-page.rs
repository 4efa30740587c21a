// needs: a seller with inactive asks among more asks than one page holds
// breaks: a page of active asks comes back short or empty although more active asks follow
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    for t in 1..=6u32 {
        k.give(&t.to_string(), &u(1));
        k.approve(&t.to_string());
        k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": t, "price": cn(1000),
            "funds_recipient": null, "reserve_for": null, "finders_fee_bps": null, "expires": k.at(5000)}}), &[]);
    }
    for t in 1..=3u32 {
        k.c.w.borrow_mut().nfts.get_mut(&k.coll).unwrap().approvals.remove(&(t.to_string(), k.m.clone()));
        k.ok(&u(9), json!({"sync_ask": {"collection": k.coll, "token_id": t}}), &[]);
    }
    let q = |inc: bool| k.q(json!({"asks_by_seller": {"seller": u(1), "include_inactive": inc, "start_after": null, "limit": 3}}))["asks"].as_array().unwrap().len();
    assert_eq!(q(true), 3);
    assert_eq!(q(false), 3, "active asks 4, 5 and 6 should fill the page");
}
