// needs: a listed token that changed hands, whose new owner approved the marketplace
// breaks: a stale listing sells the new owner's token and pays the old seller
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(1000),
        "funds_recipient": null, "reserve_for": null, "finders_fee_bps": null, "expires": k.at(5000)}}), &[]);
    k.give("1", &u(2));
    k.approve("1");
    k.err(&u(5), json!({"buy_now": {"collection": k.coll, "token_id": 1, "expires": k.at(5000), "finder": null, "finders_fee_bps": null}}), &s(1000));
    assert_eq!(k.owner("1"), u(2));
}
