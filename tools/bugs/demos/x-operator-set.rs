// needs: several operators, instantiated on two nodes (or twice)
// breaks: the operators are kept in the order of a randomly seeded set, so the stored parameters differ from node to node
mod chain; mod kit; use kit::*;
fn main() {
    let ops: Vec<String> = (1..9).map(u).collect();
    let a = K::v1_with(json!({"operators": ops})).q(json!({"params": {}}));
    for _ in 0..8 {
        let b = K::v1_with(json!({"operators": ops})).q(json!({"params": {}}));
        assert_eq!(a, b);
    }
}
