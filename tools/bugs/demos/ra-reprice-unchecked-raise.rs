// needs: a reserve price update that raises the amount while naming another denom (or after the minimum was raised)
// breaks: the new reserve price need not satisfy its denom's minimum, nor even be in a supported denom
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra_with(json!({"min_reserve_prices": [cn(10), cd(5000, "uatom")]}));
    k.ok(&u(1), json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 1000, "seller_funds_recipient": null}}), &[]);
    k.err(&u(1), json!({"update_reserve_price": {"collection": k.coll, "token_id": "1", "reserve_price": cd(200, "uatom")}}), &[]);
    k.err(&u(1), json!({"update_reserve_price": {"collection": k.coll, "token_id": "1", "reserve_price": cd(200, "unknown")}}), &[]);
    k.err(&u(1), json!({"update_reserve_price": {"collection": k.coll, "token_id": "1", "reserve_price": cn(9)}}), &[]);
    k.ok(&u(1), json!({"update_reserve_price": {"collection": k.coll, "token_id": "1", "reserve_price": cn(120)}}), &[]);
}
