// needs: governance sets several minimum reserve prices at once, executed on two nodes (or twice from the same state)
// breaks: the events come out in the order of a randomly seeded map, so nodes disagree
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    chain::Twice::every(1);
    for i in 0..20u128 {
        k.sudo(json!({"set_min_reserve_prices": {"min_reserve_prices": [cd(10 + i, "ibc/D"), cd(20, "ibc/A"), cd(30, "ibc/B"), cd(40, "ibc/C")]}}));
        k.sudo(json!({"unset_min_reserve_prices": {"denoms": ["ibc/A", "ibc/B", "ibc/C", "ibc/D"]}}));
    }
    for (what, _, d) in chain::Twice::notes() {
        assert!(d.is_none(), "{what}: {d:?}");
    }
}
