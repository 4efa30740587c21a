// needs: a bidder replacing a bid by one of the same price and expiry
// breaks: the replaced bid is not refunded, its coins stay in the contract for good
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let before = k.bal(&u(5));
    let b = |f: u64| json!({"set_bid": {"collection": k.coll, "token_id": 1, "expires": k.at(200), "sale_type": "auction", "finder": null, "finders_fee_bps": f}});
    k.ok(&u(5), b(0), &s(1000));
    let b2 = b(100);
    k.ok(&u(5), b2, &s(1000));
    assert_eq!(before - k.bal(&u(5)), 1000, "replaced bid not refunded");
    assert_eq!(k.held(NATIVE), 1000);
}
