// needs: a bidder who lowers a standing bid below the minimum price
// breaks: bids below the minimum are recorded
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1_with(json!({"min_price": "50"}));
    let bid = json!({"set_bid": {"collection": k.coll, "token_id": 1, "expires": k.at(5000), "sale_type": "auction", "finder": null, "finders_fee_bps": null}});
    k.err(&u(5), bid.clone(), &s(20));
    k.ok(&u(5), bid.clone(), &s(100));
    k.err(&u(5), bid, &s(20));
    assert_eq!(k.q(json!({"bid": {"collection": k.coll, "token_id": 1, "bidder": u(5)}}))["bid"]["price"], "100");
}
