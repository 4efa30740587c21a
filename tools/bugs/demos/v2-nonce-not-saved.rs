// needs: two collection bids on the same collection in the same block
// breaks: both get the same identifier, so the second order is refused (or an identifier is used twice)
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.cbid(&u(5), det(cn(1000)));
    let a = k.cbids(NATIVE)[0]["id"].clone();
    k.cbid(&u(5), det(cn(1000)));
    assert_eq!(k.cbids(NATIVE).len(), 2);
    k.ok(&u(5), json!({"remove_collection_bid": {"id": a}}), &[]);
    k.cbid(&u(6), det(cn(900)));
    assert!(k.cbids(NATIVE).iter().all(|b| b["id"] != a), "identifier used again");
}
