// needs: an ask repriced below a resting bid (a new ask does not show it)
// breaks: the sale happens at the ask's price instead of the resting bid's, and the rest of the bid's escrow is stuck
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ask(&u(1), "1", det(cn(2000)));
    k.bid(&u(5), "1", det(cn(1000)));
    let id = k.asks(NATIVE)[0]["id"].clone();
    let (seller, buyer) = (k.bal(&u(1)), k.bal(&u(5)));
    k.ok(&u(1), json!({"update_ask": {"id": id, "details": det(cn(600))}}), &[]);
    assert_eq!(k.owner("1"), u(5));
    assert_eq!(k.bal(&u(1)) - seller, 980, "seller should get the bid price less 2%");
    assert_eq!(k.bal(&u(5)), buyer);
    assert_eq!(k.held(NATIVE), 0, "escrow left behind");
}
