// needs: fees whose rounded-up sum exceeds the price
// breaks: the splitter pays out more than the price instead of failing
use cosmwasm_std::{coin, Addr, Decimal};
use sg_marketplace_common::sale::NftSaleProcessor;
fn main() {
    let mut p = NftSaleProcessor::new(coin(1, "ustars"), Addr::unchecked("seller"));
    p.add_fee("a".into(), Decimal::percent(2), Addr::unchecked("x"));
    p.add_fee("b".into(), Decimal::percent(5), Addr::unchecked("y"));
    let r = p.build_payments();
    assert!(r.is_err(), "price 1 split into {:?}", p.payments);
}
