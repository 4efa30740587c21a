// needs: a registry entry of 0% for this marketplace next to a non-zero default entry for the collection
// breaks: the sale pays the default royalty although the marketplace's own entry says none
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    {
        let mut w = k.c.w.borrow_mut();
        w.registry.default.insert(k.coll.clone(), (u(8), "0.05".into()));
        w.registry.protocol.insert((k.coll.clone(), k.m.clone()), (u(7), "0".into()));
    }
    k.ask(&u(1), "1", det(cn(10_000)));
    let (r, sl) = (k.bal(&u(8)), k.bal(&u(1)));
    k.bid(&u(5), "1", det(cn(10_000)));
    assert_eq!(k.bal(&u(8)), r, "default royalty paid");
    assert_eq!(k.bal(&u(1)) - sl, 9_800);
}
