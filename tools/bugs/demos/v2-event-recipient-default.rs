// needs: an order placed without a recipient
// breaks: the set-ask event names the creator as recipient although none is recorded, so the log no longer reproduces the order
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    let e = k.evs(&u(1), json!({"set_ask": {"collection": k.coll, "token_id": "1", "details": det(cn(10_000))}}), &s(5));
    let e = e.iter().find(|e| e.ty == "set-ask").unwrap();
    assert_eq!(e.get("recipient"), None);
    assert!(k.asks(NATIVE)[0]["details"]["recipient"].is_null());
}
