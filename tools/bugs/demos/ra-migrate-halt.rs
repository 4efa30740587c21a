// needs: a migration between a chain halt and the processing of the auctions that ended in it
// breaks: the recorded halt windows are lost, so those auctions settle instead of being postponed
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.sudo(json!({"begin_block": {}}));
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 500, "seller_funds_recipient": null}}), &[]);
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(100));
    k.wait(1000);
    k.sudo(json!({"begin_block": {}}));
    let before = k.q(json!({"halt_manager": {}}));
    k.c.migrate(&k.m).map(|_| ()).expect("migrate");
    assert_eq!(k.q(json!({"halt_manager": {}})), before);
    k.sudo(json!({"end_block": {}}));
    assert_eq!(k.owner("1"), k.m, "settled inside a halt window");
}
