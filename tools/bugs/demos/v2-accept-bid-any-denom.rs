// needs: a bid left over in an old denom, accepted with a limit stated in another denom
// breaks: accept_bid sells for a denom other than the one the caller stated
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.bid(&u(5), "1", det(cn(1000)));
    let id = k.bids("1", NATIVE)[0]["id"].clone();
    k.err(&u(1), json!({"accept_bid": {"id": id, "details": det(cd(1000, "uatom"))}}), &[]);
    assert_eq!(k.owner("1"), u(1));
    k.ok(&u(1), json!({"accept_bid": {"id": id, "details": det(cn(1000))}}), &[]);
    assert_eq!(k.owner("1"), u(5));
}
