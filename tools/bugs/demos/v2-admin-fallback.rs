// needs: a contract whose on-chain admin has been cleared
// breaks: the contract's creator can still change configuration, denoms and listing fees
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v2();
    k.ok(&u(0), json!({"set_listing_fee": {"fee": cn(7)}}), &[]);
    k.c.w.borrow_mut().admins.insert(k.m.clone(), None);
    k.err(&u(0), json!({"set_listing_fee": {"fee": cn(9)}}), &[]);
    k.err(&u(1), json!({"set_listing_fee": {"fee": cn(9)}}), &[]);
    k.c.w.borrow_mut().admins.insert(k.m.clone(), Some(u(3)));
    k.err(&u(0), json!({"set_listing_fee": {"fee": cn(9)}}), &[]);
    k.ok(&u(3), json!({"set_listing_fee": {"fee": cn(9)}}), &[]);
}
