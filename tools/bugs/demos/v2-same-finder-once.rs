// needs: a sale whose two orders name the same finder
// breaks: the finder gets only the maker reward, the taker reward stays with the fee manager
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ask(&u(1), "1", det3(cn(10_000), None, Some(u(7))));
    let (f, m) = (k.bal(&u(7)), k.bal(&u(0)));
    k.bid(&u(5), "1", det3(cn(10_000), None, Some(u(7))));
    assert_eq!(k.owner("1"), u(5));
    // 2% fee = 200, maker 40% = 80, taker 10% = 20
    assert_eq!(k.bal(&u(7)) - f, 100);
    assert_eq!(k.bal(&u(0)) - m, 100);
}
