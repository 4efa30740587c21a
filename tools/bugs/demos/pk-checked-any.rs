// needs: a checked transfer of several coins of which only some are zero
// breaks: a transfer with a zero coin is built, which the bank rejects
use cosmwasm_std::{coin, Addr, Response};
use sg_marketplace_common::coin::checked_transfer_coins;
fn main() {
    let to = Addr::unchecked("to");
    assert!(checked_transfer_coins(vec![coin(0, "a")], &to, Response::new()).is_err());
    assert!(checked_transfer_coins(vec![coin(5, "a"), coin(0, "b")], &to, Response::new()).is_err());
    assert!(checked_transfer_coins(vec![coin(5, "a"), coin(1, "b")], &to, Response::new()).is_ok());
}
