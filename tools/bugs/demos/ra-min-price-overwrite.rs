// needs: governance setting a minimum for a denom that already has a different one
// breaks: the duplicate is not rejected but silently overwrites the existing minimum
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    assert!(k.c.sudo(&k.m, &json!({"set_min_reserve_prices": {"min_reserve_prices": [cn(10)]}})).is_err());
    assert!(k.c.sudo(&k.m, &json!({"set_min_reserve_prices": {"min_reserve_prices": [cd(3, "uatom"), cn(20)]}})).is_err(), "duplicate accepted");
    assert_eq!(k.q(json!({"min_reserve_prices": {"query_options": null}})), json!([cn(10)]));
}
