// needs: a bid that arrives inside the extension window
// breaks: the bid event carries the end time from before the extension
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 1000, "seller_funds_recipient": null}}), &[]);
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(100));
    k.wait(990);
    let e = k.evs(&u(6), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(200));
    let e = e.iter().find(|e| e.ty == "place-bid").unwrap();
    assert_eq!(e.s("auction_end_time").split('.').next().unwrap(), (k.now() + 60).to_string());
}
