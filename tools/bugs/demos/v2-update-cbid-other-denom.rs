// needs: a resting collection bid, a later change of the collection's denom, and the bidder updating the bid into the new denom
// breaks: the old escrow is neither credited nor refunded and stays stuck in the contract
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    let before = k.bal(&u(5));
    k.cbid(&u(5), det(cn(1000)));
    let id = k.cbids(NATIVE)[0]["id"].clone();
    k.ok(&u(0), json!({"update_collection_denom": {"collection": k.coll, "denom": "uatom"}}), &[]);
    k.ok(&u(5), json!({"update_collection_bid": {"id": id, "details": det(cd(700, "uatom"))}}), &[coin(700, "uatom")]);
    assert_eq!(k.held(NATIVE), 0, "old escrow still held");
    assert_eq!(k.bal(&u(5)), before, "old escrow not returned");
    assert_eq!(k.held("uatom"), 700);
}
