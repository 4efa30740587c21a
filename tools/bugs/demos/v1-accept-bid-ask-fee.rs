// needs: a bid without a finder's fee accepted, with a finder, by a seller whose listing offers one
// breaks: the seller pays a finder's fee that the bid does not carry
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(100_000),
        "funds_recipient": null, "reserve_for": null, "finders_fee_bps": 500, "expires": k.at(5000)}}), &[]);
    k.ok(&u(5), json!({"set_bid": {"collection": k.coll, "token_id": 1, "expires": k.at(5000), "sale_type": "auction", "finder": null, "finders_fee_bps": null}}), &s(10_000));
    let before = (k.bal(&u(1)), k.bal(&u(6)));
    k.ok(&u(1), json!({"accept_bid": {"collection": k.coll, "token_id": 1, "bidder": u(5), "finder": u(6)}}), &[]);
    assert_eq!((k.bal(&u(1)) - before.0, k.bal(&u(6)) - before.1), (9_800, 0));
}
