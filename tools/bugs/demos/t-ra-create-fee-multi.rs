// needs: an auction created with a further coin beside the exact creation fee
// breaks: the creation is accepted and the further coin stays in the contract for good
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra_with(json!({"create_auction_fee": cn(7)}));
    let m = json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 1000, "seller_funds_recipient": null}});
    let extra = vec![cosmwasm_std::coin(5, "uatom"), cosmwasm_std::coin(7, NATIVE)];
    k.err(&u(1), m.clone(), &extra);
    assert_eq!(k.held("uatom"), 0);
    k.ok(&u(1), m, &s(7));
}
