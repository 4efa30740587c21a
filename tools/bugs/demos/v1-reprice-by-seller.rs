// needs: a listed token that changed hands and comes with a new owner
// breaks: the former owner can still reprice the listing
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(1), json!({"set_ask": {"sale_type": "fixed_price", "collection": k.coll, "token_id": 1, "price": cn(1000),
        "funds_recipient": null, "reserve_for": null, "finders_fee_bps": null, "expires": k.at(5000)}}), &[]);
    k.ok(&u(1), json!({"update_ask_price": {"collection": k.coll, "token_id": 1, "price": cn(1200)}}), &[]);
    k.give("1", &u(2));
    k.err(&u(1), json!({"update_ask_price": {"collection": k.coll, "token_id": 1, "price": cn(1300)}}), &[]);
    assert_eq!(k.q(json!({"ask": {"collection": k.coll, "token_id": 1}}))["ask"]["price"], "1200");
}
