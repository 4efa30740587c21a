// needs: an operator removing a stale collection bid
// breaks: the event reports the refunded remainder as the operator reward
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(5), json!({"set_collection_bid": {"collection": k.coll, "expires": k.at(500), "finders_fee_bps": null}}), &s(1000));
    k.wait(2000);
    let b = k.bal(&u(9));
    let e = k.evs(&u(9), json!({"remove_stale_collection_bid": {"collection": k.coll, "bidder": u(5)}}), &[]);
    let e = e.iter().find(|e| e.ty == "remove-stale-collection-bid").unwrap();
    assert_eq!(e.num("reward").unwrap(), k.bal(&u(9)) - b);
}
