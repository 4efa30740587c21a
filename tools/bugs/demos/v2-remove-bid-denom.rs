// needs: the collection's denom to change while a bid is open
// breaks: the bidder can no longer withdraw the escrow
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    let before = k.bal(&u(5));
    k.bid(&u(5), "1", det(cn(1000)));
    let id = k.bids("1", NATIVE)[0]["id"].clone();
    k.ok(&u(0), json!({"update_collection_denom": {"collection": k.coll, "denom": "uatom"}}), &[]);
    k.ok(&u(5), json!({"remove_bid": {"id": id}}), &[]);
    assert_eq!(k.bal(&u(5)), before);
}
