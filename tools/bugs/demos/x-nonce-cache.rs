// needs: a message executed again from the same state in one process (a simulation before the real run, or a failed transaction)
// breaks: whether the counter of orders is saved depends on what the process has executed before
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    chain::Twice::every(1);
    k.bid(&u(5), "1", det(cn(100)));
    k.bid(&u(6), "1", det(cn(101)));
    for (what, _, d) in chain::Twice::notes() {
        assert!(d.is_none(), "{what}: {d:?}");
    }
}
