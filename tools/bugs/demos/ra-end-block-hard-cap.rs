// needs: more than twenty auctions due in one block while the configured maximum allows them all
// breaks: fewer auctions are settled per block than configured
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra_with(json!({"max_auctions_to_settle_per_block": 50}));
    k.sudo(json!({"begin_block": {}}));
    let mut colls = vec![];
    for n in 0..4 {
        let c = contract(&format!("many{n}"));
        k.collection(&c);
        for t in 1..9 {
            k.ok(&u(t), json!({"create_auction": {"collection": c, "token_id": t.to_string(), "reserve_price": cn(100), "duration": 500, "seller_funds_recipient": null}}), &[]);
            k.ok(&u(9), json!({"place_bid": {"collection": c, "token_id": t.to_string()}}), &s(100));
        }
        colls.push(c);
    }
    k.wait(400);
    k.sudo(json!({"begin_block": {}}));
    k.wait(200);
    k.sudo(json!({"begin_block": {}}));
    k.sudo(json!({"end_block": {}}));
    assert_eq!(k.held(NATIVE), 0, "due auctions are left although the limit allows them");
}
