// needs: a listed token whose ask names a recipient, who then accepts a collection bid with it
// breaks: someone other than the ask's creator sells the listed token, below the asking price
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ask(&u(1), "1", det3(cn(5000), Some(u(6)), None));
    k.cbid(&u(5), det(cn(1000)));
    let id = k.cbids(NATIVE)[0]["id"].clone();
    k.err(&u(6), json!({"accept_collection_bid": {"id": id, "token_id": "1", "details": det(cn(1))}}), &[]);
    k.err(&u(7), json!({"accept_collection_bid": {"id": id, "token_id": "1", "details": det(cn(1))}}), &[]);
    assert_eq!(k.owner("1"), k.m);
    k.ok(&u(1), json!({"accept_collection_bid": {"id": id, "token_id": "1", "details": det(cn(1))}}), &[]);
    assert_eq!(k.owner("1"), u(5));
}
