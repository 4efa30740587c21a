// needs: an ask switched inactive by an operator, then the token sold into a collection bid
// breaks: the old ask survives the sale
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(2000),
        "funds_recipient": null, "reserve_for": null, "finders_fee_bps": null, "expires": k.at(5000)}}), &[]);
    k.c.w.borrow_mut().nfts.get_mut(&k.coll).unwrap().approvals.clear();
    k.ok(&u(9), json!({"sync_ask": {"collection": k.coll, "token_id": 1}}), &[]);
    k.ok(&u(5), json!({"set_collection_bid": {"collection": k.coll, "expires": k.at(5000), "finders_fee_bps": null}}), &s(1000));
    k.ok(&u(1), json!({"accept_collection_bid": {"collection": k.coll, "token_id": 1, "bidder": u(5), "finder": null}}), &[]);
    assert_eq!(k.owner("1"), u(5));
    assert!(k.q(json!({"ask": {"collection": k.coll, "token_id": 1}}))["ask"].is_null(), "ask survived the sale");
}
