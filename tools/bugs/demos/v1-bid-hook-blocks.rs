// needs: a registered bid hook that fails, and a bid being removed
// breaks: the failing hook makes the removal fail, so the bidder cannot get the money back
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let h = contract("hook");
    k.c.add(&h, Kind::Hook);
    k.c.w.borrow_mut().failing.insert(h.clone());
    k.sudo(json!({"add_bid_hook": {"hook": h}}));
    let before = k.bal(&u(5));
    k.ok(&u(5), json!({"set_bid": {"collection": k.coll, "token_id": 1, "expires": k.at(500), "sale_type": "auction", "finder": null, "finders_fee_bps": null}}), &s(1000));
    k.ok(&u(5), json!({"remove_bid": {"collection": k.coll, "token_id": 1}}), &[]);
    assert_eq!(k.bal(&u(5)), before);
}
