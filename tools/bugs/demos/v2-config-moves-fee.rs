// needs: a configuration update that changes the default denom while the old one has a listing fee and the new one none
// breaks: a configuration update also changes listing fees nobody asked to change
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ok(&u(0), json!({"update_collection_denom": {"collection": k.coll, "denom": NATIVE}}), &[]);
    let ask = |t: usize| json!({"set_ask": {"collection": k.coll, "token_id": t.to_string(), "details": det(cn(100))}});
    k.err(&u(1), ask(1), &[]);
    k.ok(&u(0), json!({"update_config": {"config": K::v2_cfg(&k, json!({"default_denom": "uatom"}))}}), &[]);
    k.err(&u(1), ask(1), &[]);
    k.ok(&u(1), ask(1), &s(5));
}
