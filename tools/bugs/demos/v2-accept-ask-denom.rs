// needs: accepting an ask while stating a price limit in another denom, with the ask's denom attached
// breaks: the stated limit is compared by amount only, so a limit of 100 uatom is taken for 100 ustars
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ok(&u(1), json!({"set_ask": {"collection": k.coll, "token_id": "1", "details": det(cn(100))}}), &s(5));
    let id = k.q(json!({"asks_by_creator_collection": {"creator": u(1), "collection": k.coll, "query_options": null}}))[0]["id"].clone();
    k.err(&u(5), json!({"accept_ask": {"id": id, "details": det(cd(100, "uatom"))}}), &s(100));
    assert_eq!(k.owner("1"), k.m);
}
