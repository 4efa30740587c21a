// needs: resting asks in a denom the collection bid moves to by an update whose amount is not larger than before
// breaks: the updated collection bid rests although an ask at or below its price is open, so the book is crossed
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.cbid(&u(5), det(cn(1000)));
    let id = k.cbids(NATIVE)[0]["id"].clone();
    k.ok(&u(0), json!({"update_collection_denom": {"collection": k.coll, "denom": "uatom"}}), &[]);
    k.ask(&u(1), "1", det(cd(300, "uatom")));
    k.ok(&u(5), json!({"update_collection_bid": {"id": id, "details": det(cd(500, "uatom"))}}), &[coin(500, "uatom")]);
    assert_eq!(k.owner("1"), u(5), "updated collection bid should buy the open ask");
    assert!(k.asks("uatom").is_empty() || k.cbids("uatom").is_empty(), "crossed book");
}
