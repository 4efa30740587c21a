// needs: two chain halts in a row before an auction that ended in the first window is processed
// breaks: the auction is settled although its end time lies inside a recorded halt window
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.sudo(json!({"begin_block": {}}));
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 500, "seller_funds_recipient": null}}), &[]);
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(100));
    k.wait(1000);
    k.sudo(json!({"begin_block": {}}));
    k.wait(1000);
    k.sudo(json!({"begin_block": {}}));
    assert_eq!(k.q(json!({"halt_manager": {}}))["halt_windows"].as_array().unwrap().len(), 2);
    k.sudo(json!({"end_block": {}}));
    assert_eq!(k.owner("1"), k.m, "settled inside a halt window");
    assert_eq!(k.q(json!({"auction": {"collection": k.coll, "token_id": "1"}}))["end_time"], k.at(300));
}
