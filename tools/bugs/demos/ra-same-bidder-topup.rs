// needs: the current high bidder raising their own bid
// breaks: the earlier bid of the same bidder is not refunded and stays in the contract
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 1000, "seller_funds_recipient": null}}), &[]);
    let before = k.bal(&u(5));
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(100));
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(300));
    assert_eq!(before - k.bal(&u(5)), 300);
    assert_eq!(k.held(NATIVE), 300);
}
