// needs: a governance update of the halt postponement
// breaks: the event reports the former value of the parameter
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::ra();
    let e = k.c.sudo(&k.m, &json!({"update_params": {"halt_postpone_duration": 77}})).unwrap_or_else(|e| panic!("{e:?}")).events;
    let e = e.iter().find(|e| e.ty == "sudo-update-params").unwrap();
    assert_eq!(e.s("halt_postpone_duration"), "77");
}
