// needs: a royalty registry that cannot answer (the query fails) while the collection has royalty information
// breaks: the failure is taken for a missing entry, so a marketplace-specific royalty would silently be replaced by the collection's own
use cosmwasm_std::testing::{mock_dependencies, MockApi, MockStorage};
use cosmwasm_std::*;
use sg_marketplace_common::royalties::fetch_or_set_royalties;
struct Q;
impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let r: QueryRequest<Empty> = from_json(bin).unwrap();
        match r {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, .. }) if contract_addr == "collection" => {
                let b = br#"{"creator":"c","description":"","image":"","external_link":null,"explicit_content":null,"start_trading_time":null,"royalty_info":{"payment_address":"artist","share":"0.05"}}"#;
                SystemResult::Ok(ContractResult::Ok(Binary::from(b.to_vec())))
            }
            _ => SystemResult::Ok(ContractResult::Err("out of order".into())),
        }
    }
}
fn main() {
    let _ = mock_dependencies;
    let (api, st) = (MockApi::default(), MockStorage::new());
    let deps = Deps { storage: &st, api: &api, querier: QuerierWrapper::new(&Q) };
    let r = fetch_or_set_royalties(deps, &Addr::unchecked("registry"), &Addr::unchecked("collection"), Some(&Addr::unchecked("market")), Response::new());
    assert!(r.is_err(), "registry failure ignored: {r:?}");
}
