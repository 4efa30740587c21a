// needs: a reserved listing bought on behalf of the reserved user
// breaks: someone the token is not reserved for can buy it, naming the reserved user as recipient
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(1000),
        "funds_recipient": null, "reserve_for": u(6), "finders_fee_bps": null, "expires": k.at(5000)}}), &[]);
    let b = |to: String| json!({"buy_for": {"collection": k.coll, "token_id": 1, "expires": k.at(5000), "finder": null, "finders_fee_bps": null, "asset_recipient": to}});
    k.err(&u(5), b(u(5)), &s(1000));
    k.err(&u(5), b(u(6)), &s(1000));
    k.ok(&u(6), b(u(5)), &s(1000));
    assert_eq!(k.owner("1"), u(5));
}
