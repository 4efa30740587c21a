// needs: exactly one registered ask hook, which fails
// breaks: a failing hook changes the governance-controlled list of hooks
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let h = contract("hooka");
    k.c.add(&h, Kind::Hook);
    k.sudo(json!({"add_ask_hook": {"hook": h}}));
    k.c.w.borrow_mut().failing.insert(h.clone());
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(100), "funds_recipient": null,
        "reserve_for": null, "finders_fee_bps": null, "expires": k.at(1000)}}), &[]);
    assert_eq!(k.q(json!({"ask_hooks": {}}))["hooks"], json!([h]));
}
