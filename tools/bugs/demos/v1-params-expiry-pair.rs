// needs: a parameter update with an inverted range for bids only
// breaks: an inverted expiry range is accepted, after which no bid can be placed
mod chain; mod kit; use kit::*;
fn main() {
    let k = K::v1();
    let p = json!({"trading_fee_bps": null, "ask_expiry": null, "bid_expiry": {"min": 500, "max": 400}, "operators": null, "max_finders_fee_bps": null,
        "min_price": "77", "stale_bid_duration": null, "bid_removal_reward_bps": null, "listing_fee": null});
    assert!(k.c.sudo(&k.m, &json!({"update_params": p})).is_err(), "inverted range accepted");
    assert_eq!(k.q(json!({"params": {}}))["params"]["min_price"], "5");
}
