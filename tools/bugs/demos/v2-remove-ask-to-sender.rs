// needs: an ask with a recipient of its own that is removed again
// breaks: the token goes to the caller instead of the ask's recipient
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ask(&u(1), "1", det3(cn(100), Some(u(3)), None));
    k.ok(&u(1), json!({"remove_ask": {"id": k.asks(NATIVE)[0]["id"]}}), &[]);
    assert_eq!(k.owner("1"), u(3));
    k.ask(&u(2), "2", det(cn(100)));
    k.ok(&u(2), json!({"remove_ask": {"id": k.asks(NATIVE)[0]["id"]}}), &[]);
    assert_eq!(k.owner("2"), u(2));
}
