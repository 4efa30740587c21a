// needs: a collection with its own denom, and an order priced in the default denom
// breaks: the order is admitted although the collection is configured to trade in another denom
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ok(&u(0), json!({"update_collection_denom": {"collection": k.coll, "denom": "uatom"}}), &[]);
    k.err(&u(5), json!({"set_bid": {"collection": k.coll, "token_id": "1", "details": det(cn(1000))}}), &s(1000));
    k.bid(&u(5), "1", det(cd(1000, "uatom")));
}
