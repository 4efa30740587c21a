// needs: a purchase on behalf of someone else
// breaks: the sale event names the payer as the receiver of the token
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(1000), "funds_recipient": null,
        "reserve_for": null, "expires": k.at(500), "finders_fee_bps": null}}), &[]);
    let e = k.evs(&u(5), json!({"buy_for": {"collection": k.coll, "token_id": 1, "expires": k.at(500), "finder": null, "finders_fee_bps": null,
        "asset_recipient": u(6)}}), &s(1000));
    assert_eq!(k.owner("1"), u(6));
    let e = e.iter().find(|e| e.ty == "finalize-sale").unwrap();
    assert_eq!(e.s("asset_recipient"), u(6));
}
