// needs: a sale of an ask that names a recipient
// breaks: the sale event names the seller instead of the account that was paid
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ask(&u(1), "1", det3(cn(10_000), Some(u(7)), None));
    let e = k.evs(&u(5), json!({"set_bid": {"collection": k.coll, "token_id": "1", "details": det(cn(10_000))}}), &s(10_000));
    let e = e.iter().find(|e| e.ty == "finalize-sale").unwrap();
    assert_eq!(e.s("seller_recipient"), u(7));
}
