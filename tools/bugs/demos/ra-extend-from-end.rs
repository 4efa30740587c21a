// needs: a late bid whose block time and the auction's end time have different fractions of a second
// breaks: the end time is not the bid's time plus the extension but off by that fraction
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 1000, "seller_funds_recipient": null}}), &[]);
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(100));
    k.wait(970);
    k.c.time.set(k.c.time.get() + 700_000_000);
    k.ok(&u(6), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(300));
    let a = k.q(json!({"auction": {"collection": k.coll, "token_id": "1"}}));
    assert_eq!(a["end_time"], k.at(60));
}
