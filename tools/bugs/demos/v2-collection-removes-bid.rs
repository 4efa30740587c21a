// needs: a call from the collection contract itself with the id of a bid on one of its tokens
// breaks: the collection removes bids in other users' names
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.bid(&u(5), "1", det(cn(1000)));
    let id = k.bids("1", NATIVE)[0]["id"].clone();
    k.err(&k.coll, json!({"remove_bid": {"id": id}}), &[]);
    k.err(&u(6), json!({"remove_bid": {"id": id}}), &[]);
    assert_eq!(k.bids("1", NATIVE).len(), 1);
    k.ok(&u(5), json!({"remove_bid": {"id": id}}), &[]);
}
