// needs: a seller who is also the royalty recipient of the collection and directs the proceeds elsewhere
// breaks: the royalty goes to the seller's funds recipient instead of the payment address
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.royalty(&u(1), "0.1");
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 1000, "seller_funds_recipient": u(6)}}), &[]);
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(1000));
    let (a, b) = (k.bal(&u(1)), k.bal(&u(6)));
    k.wait(1001);
    k.ok(&u(7), json!({"settle_auction": {"collection": k.coll, "token_id": "1"}}), &[]);
    assert_eq!(k.owner("1"), u(5));
    assert_eq!(k.bal(&u(1)) - a, 100, "royalty");
    assert_eq!(k.bal(&u(6)) - b, 880, "proceeds");
}
