// needs: an expired bid replaced by a lower one
// breaks: the old bid is not refunded in full and the difference stays in the contract
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let bid = |at: String| json!({"set_bid": {"collection": k.coll, "token_id": 1, "expires": at, "sale_type": "auction", "finder": null, "finders_fee_bps": null}});
    k.ok(&u(5), bid(k.at(200)), &s(1000));
    k.wait(300);
    k.ok(&u(5), bid(k.at(500)), &s(400));
    assert_eq!(k.held(NATIVE), 400);
}
