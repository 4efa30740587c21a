// needs: a collection that names a false owner of a token that is being auctioned
// breaks: a running auction is replaced and its high bid is lost
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    let create = json!({"create_auction": {"collection": k.coll, "token_id": "1", "reserve_price": cn(100), "duration": 200, "seller_funds_recipient": null}});
    k.ok(&u(1), create.clone(), &[]);
    k.ok(&u(5), json!({"place_bid": {"collection": k.coll, "token_id": "1"}}), &s(1000));
    // the collection gives the token back to the seller behind the contract's back
    k.give("1", &u(1));
    k.approve("1");
    k.err(&u(1), create, &[]);
    let a = k.q(json!({"auction": {"collection": k.coll, "token_id": "1"}}));
    assert_eq!(a["high_bid"]["bidder"], json!(u(5)));
}
