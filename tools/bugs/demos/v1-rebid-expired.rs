// needs: a collection bid that expired, replaced by its bidder with a new one
// breaks: the replaced bid is dropped without a refund
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let before = k.bal(&u(5));
    let b = |secs| json!({"set_collection_bid": {"collection": k.coll, "expires": k.at(secs), "finders_fee_bps": null}});
    k.ok(&u(5), b(200), &s(1000));
    k.wait(300);
    k.ok(&u(5), b(500), &s(400));
    assert_eq!(before - k.bal(&u(5)), 400, "replaced bid not refunded");
    assert_eq!(k.held(NATIVE), 400);
}
