// needs: a bid paid with a second coin of another denom
// breaks: the extra coin is taken and stays in the contract for ever
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 500, "seller_funds_recipient": null}}), &[]);
    let mut two = s(100);
    two.insert(0, coin(7, "uatom"));
    let _ = k.x(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &two);
    assert_eq!(k.held("uatom"), 0, "the extra coin was kept");
    k.ok(&u(6), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(200));
    assert_eq!(k.held(NATIVE), 200);
}
