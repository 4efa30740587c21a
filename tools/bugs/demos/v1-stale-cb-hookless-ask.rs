// needs: a bid withdrawn by someone for whom the token's listing is reserved
// breaks: withdrawing a bid also deletes the seller's reserved listing
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(5), json!({"set_bid": {"collection": k.coll, "token_id": 1, "expires": k.at(5000), "sale_type": "auction", "finder": null, "finders_fee_bps": null}}), &s(500));
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(1000),
        "funds_recipient": null, "reserve_for": u(5), "finders_fee_bps": null, "expires": k.at(5000)}}), &[]);
    k.ok(&u(5), json!({"remove_bid": {"collection": k.coll, "token_id": 1}}), &[]);
    assert_eq!(k.q(json!({"ask": {"collection": k.coll, "token_id": 1}}))["ask"]["price"], "1000", "the listing is gone");
}
