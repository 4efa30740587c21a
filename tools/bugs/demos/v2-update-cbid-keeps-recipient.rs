// needs: a collection bid with a recipient that is then updated to have none
// breaks: the update does not replace the recipient, so the bought token goes to the recipient of the old terms
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.cbid(&u(5), det3(cn(1000), Some(u(6)), None));
    let id = k.cbids(NATIVE)[0]["id"].clone();
    k.ok(&u(5), json!({"update_collection_bid": {"id": id, "details": det(cn(1000))}}), &[]);
    assert!(k.cbids(NATIVE)[0]["details"]["recipient"].is_null(), "recipient kept");
    k.ok(&u(1), json!({"sell_nft": {"collection": k.coll, "token_id": "1", "details": det(cn(900))}}), &s(5));
    assert_eq!(k.owner("1"), u(5));
}
