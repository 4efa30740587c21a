// needs: a stale collection bid whose price is not a multiple that divides evenly by the reward share
// breaks: the operator's reward is rounded up, the bidder gets one coin too little
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    k.ok(&u(5), json!({"set_collection_bid": {"collection": k.coll, "expires": k.at(200), "finders_fee_bps": null}}), &s(1001));
    k.wait(2000);
    let (b, o) = (k.bal(&u(5)), k.bal(&u(9)));
    k.ok(&u(9), json!({"remove_stale_collection_bid": {"collection": k.coll, "bidder": u(5)}}), &[]);
    assert_eq!(k.bal(&u(9)) - o, 50);
    assert_eq!(k.bal(&u(5)) - b, 951);
}
