// needs: 120 collection bids of other people open on the collection, then a newcomer's collection bid
// breaks: a newcomer's bid is refused because of how many other bids there are
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let b = json!({"set_collection_bid": {"collection": k.coll, "expires": k.at(500), "finders_fee_bps": null}});
    for i in 0..130 {
        let who = format!("stars1crowd{i:0>33}");
        k.c.mint(&who, NATIVE, 1_000_000);
        k.ok(&who, b.clone(), &s(1000));
    }
    k.ok(&u(5), b, &s(1000));
    assert_eq!(k.held(NATIVE), 131_000);
}
