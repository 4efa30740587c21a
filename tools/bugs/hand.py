# Hand-written bugs, each from the text of a property and the code alone: (id, property, path, old, new, ...)
V2 = 'contracts/stargaze-marketplace-v2/src/'; V1 = 'contracts/marketplace/src/'; RA = 'contracts/reserve-auction/src/'; PK = 'packages/sg-marketplace-common/src/'
TSP='typescript/packages/marketplace-types/src/'; CLI='typescript/packages/marketplace-cli/src/'
MUTANTS = [
('v2-update-cbid-other-denom', 'M01', V2+'execute.rs',
 '    funds = funds.add(collection_bid.details.price.clone());\n',
 '    if collection_bid.details.price.denom == details.price.denom {\n        funds = funds.add(collection_bid.details.price.clone());\n    }\n'),
('v2-update-cbid-keeps-recipient', 'M08', V2+'execute.rs',
 '    collection_bid.details = details;\n',
 '    collection_bid.details = OrderDetails {\n        price: details.price,\n        recipient: details.recipient.or(collection_bid.details.recipient),\n        finder: details.finder,\n    };\n'),
('v2-update-ask-own-price', 'M04', V2+'execute.rs',
 '''    ask.details = details;

    let mut response = Response::new();

    let match_result = ask.match_with_bid(deps.as_ref())?;

    if let Some(matching_bid) = match_result {
        // If a match is found finalize the sale
        response = finalize_sale(deps, &env, &ask, &config, &matching_bid, false, response)?;''',
 '''    ask.details = details;

    let mut response = Response::new();

    let match_result = ask.match_with_bid(deps.as_ref())?;

    if let Some(matching_bid) = match_result {
        // If a match is found finalize the sale
        response = finalize_sale(deps, &env, &ask, &config, &matching_bid, true, response)?;'''),
('v2-same-finder-once', 'M03', V2+'helpers.rs',
 '    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;',
 '    let protocol_fees = divide_protocol_fees(\n        config,\n        maker.is_some(),\n        taker.is_some() && taker != maker,\n    )?;'),
('v2-update-cbid-skip-match', 'M05', V2+'execute.rs',
 '''    collection_bid.details = details;

    let mut response = Response::new();

    let match_result = collection_bid.match_with_ask(deps.as_ref())?;
''',
 '''    // A bid that is not raised cannot cross an ask
    let is_raised = details.price.amount > collection_bid.details.price.amount;

    collection_bid.details = details;

    let mut response = Response::new();

    let match_result = if is_raised {
        collection_bid.match_with_ask(deps.as_ref())?
    } else {
        None
    };
'''),
('v2-accept-bid-any-denom', 'M06', V2+'execute.rs',
 '        has_coins(&[bid.details.price.clone()], &details.price),',
 '        bid.details.price.amount >= details.price.amount,'),
('v2-accept-cbid-recipient', 'M07', V2+'execute.rs',
 '''    let ask_id = generate_id(vec![
        collection_bid.collection.as_bytes(),
        token_id.as_bytes(),
    ]);
    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;

    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator {''',
 '''    let ask_id = generate_id(vec![
        collection_bid.collection.as_bytes(),
        token_id.as_bytes(),
    ]);
    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;

    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator && info.sender != ask.asset_recipient() {'''),
('v2-admin-fallback', 'M07', V2+'helpers.rs',
 '''    if contract_info_resp.admin.is_none() {
        Err(MarketplaceStdError::Unauthorized(
            "contract admin unset".to_string(),
        ))?;
    }
''', '',
 V2+'helpers.rs', '        contract_info_resp.admin.unwrap(),', '        contract_info_resp\n            .admin\n            .unwrap_or(contract_info_resp.creator),'),
('v2-nonce-not-saved', 'M08', V2+'execute.rs',
 '''    NONCE.save(deps.storage, &nonce)?;

    let collection_bid = CollectionBid::new(''', '''    let collection_bid = CollectionBid::new('''),
('v2-nonce-only-resting', 'M08', V2+'execute.rs',
 '''    NONCE.save(deps.storage, &nonce)?;

    let collection_bid = CollectionBid::new(''', '''    let collection_bid = CollectionBid::new(''',
 V2+'execute.rs', '''        collection_bids().update(
            deps.storage,''', '''        NONCE.save(deps.storage, &nonce)?;
        collection_bids().update(
            deps.storage,'''),
('v2-remove-bid-denom', 'M09', V2+'execute.rs',
 '''    let refund = bid.details.price.clone();

    bid.remove(deps.storage)?;
''', '''    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &bid.collection, &bid.details.price)?;

    let refund = bid.details.price.clone();

    bid.remove(deps.storage)?;
'''),
('v2-listing-fee-at-least', 'M10', V2+'execute.rs',
 '''        ensure_eq!(
            listing_payment.amount,
            _listing_fee,''', '''        ensure!(
            listing_payment.amount >= _listing_fee,'''),
('v2-rewards-separately', 'M10', V2+'state.rs',
 '            (self.maker_reward_bps + self.taker_reward_bps) < MAX_BASIS_POINTS,',
 '            self.maker_reward_bps < MAX_BASIS_POINTS && self.taker_reward_bps < MAX_BASIS_POINTS,'),
('v2-default-denom-always', 'M10', V2+'helpers.rs',
 '''    ensure_eq!(
        collection_denom,
        price.denom,''', '''    ensure!(
        collection_denom == price.denom || config.default_denom == price.denom,'''),
('v2-cbid-page-offset', 'M11', V2+'query.rs',
 '''    } = query_options.unpack(&(|offset| (offset.amount, offset.id.clone())), None, None);

    let results = collection_bids()''',
 '''    } = query_options.unpack(&(|offset| (offset.amount, "".to_string())), None, None);

    let results = collection_bids()'''),
('v2-royalty-zero-fallthrough', 'M12', PK+'royalties.rs',
 '''    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        return Ok(Some(royalty_protocol.royalty_entry.into()));
    }
''', '''    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        let royalty_entry: RoyaltyEntry = royalty_protocol.royalty_entry.into();
        if !royalty_entry.share.is_zero() {
            return Ok(Some(royalty_entry));
        }
    }
'''),
('v2-migrate-nonce', 'X01', V2+'migrate.rs',
 '    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;\n',
 '    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;\n    crate::state::NONCE.save(deps.storage, &0)?;\n'),
('v2-accept-ask-pays-limit', 'M04', V2+'execute.rs',
 '''    funds = funds
        .sub(ask.details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    let nonce''', '''    funds = funds
        .sub(details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    let nonce'''),
('v2-bid-wins-always', 'M05', V2+'orders.rs',
 'if bid.details.price.amount >= collection_bid.details.price.amount {',
 'if bid.details.price.amount >= self.details.price.amount\n                    || bid.details.price.amount >= collection_bid.details.price.amount\n                {'),
('v2-tie-to-cbid', 'M05', V2+'orders.rs',
 'if bid.details.price.amount >= collection_bid.details.price.amount {',
 'if bid.details.price.amount > collection_bid.details.price.amount {'),
('v2-set-denom-default-removed', 'M10', V2+'execute.rs',
 '    COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;',
 '    let config = CONFIG.load(deps.storage)?;\n    if denom == config.default_denom {\n        COLLECTION_DENOMS.remove(deps.storage, collection.clone());\n    } else {\n        COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;\n    }'),
('v2-bid-refund-single', 'M04', V2+'execute.rs',
 '''        let config: Config<Addr> = CONFIG.load(deps.storage)?;
        response = finalize_sale(
            deps,
            &env,
            &ask,
            &config,
            &MatchingBid::Bid(bid),
            true,
            response,
        )?;
    } else {
        // If no match is found update the bid''',
 '''        funds = NativeBalance(
            funds
                .into_vec()
                .into_iter()
                .filter(|c| c.denom == ask.details.price.denom)
                .collect(),
        );

        let config: Config<Addr> = CONFIG.load(deps.storage)?;
        response = finalize_sale(
            deps,
            &env,
            &ask,
            &config,
            &MatchingBid::Bid(bid),
            true,
            response,
        )?;
    } else {
        // If no match is found update the bid'''),
('v2-remove-ask-to-sender', 'M02', V2+'execute.rs',
 '        &ask.asset_recipient(),\n        Response::new(),', '        &info.sender,\n        Response::new(),'),
('v2-sale-cancels-buyers-bid', 'X02', V2+'helpers.rs',
 '''        MatchingBid::CollectionBid(collection_bid) => {
            collection_bid.remove(deps.storage)?;
        }
    }

    let mut sale_event''',
 '''        MatchingBid::CollectionBid(collection_bid) => {
            collection_bid.remove(deps.storage)?;
            // the buyer got the token, so any bid of theirs on this token is done with
            let key = build_collection_token_index_str(ask.collection.as_str(), &ask.token_id);
            let open: Vec<_> = crate::state::bids()
                .idx
                .token_denom_price
                .sub_prefix((key, sale_price.denom.clone()))
                .range(
                    deps.storage,
                    None,
                    None,
                    cosmwasm_std::Order::Ascending,
                )
                .collect::<cosmwasm_std::StdResult<Vec<_>>>()?;
            for (_, b) in open {
                if b.creator == collection_bid.creator {
                    b.remove(deps.storage)?;
                    response = sg_marketplace_common::coin::transfer_coin(
                        b.details.price.clone(),
                        &b.creator,
                        response,
                    );
                }
            }
        }
    }

    let mut sale_event'''),
# ---------------------------------------------------------------- v1
('v1-rebid-expired', 'L05', V1+'execute.rs',
 '''        collection_bids().remove(deps.storage, key.clone())?;
        let refund_bidder_msg = BankMsg::Send {
            to_address: bid.bidder.to_string(),
            amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],
        };
        res = res.add_message(refund_bidder_msg);''',
 '''        collection_bids().remove(deps.storage, key.clone())?;
        if !bid.is_expired(&env.block) {
            let refund_bidder_msg = BankMsg::Send {
                to_address: bid.bidder.to_string(),
                amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],
            };
            res = res.add_message(refund_bidder_msg);
        }'''),
('v1-royalty-after-fee', 'L02', V1+'execute.rs',
 'let amount = coin((payment * royalty.share).u128(), NATIVE_DENOM);',
 'let amount = coin(((payment - network_fee) * royalty.share).u128(), NATIVE_DENOM);'),
('v1-owner-check-approval', 'L03', V1+'execute.rs',
 '                        if ask.seller != owner {\n                            return Err(ContractError::InvalidListing {});\n                        }\n',
 '''                        let approved = Cw721Contract::<Empty, Empty>(
                            ask.collection.clone(),
                            PhantomData,
                            PhantomData,
                        )
                        .approval(
                            &deps.querier,
                            ask.token_id.to_string(),
                            env.contract.address.to_string(),
                            Some(false),
                        )
                        .is_ok();
                        if ask.seller != owner && !approved {
                            return Err(ContractError::InvalidListing {});
                        }
'''),
('v1-reserved-buyfor', 'L03', V1+'execute.rs',
 '            if reserved_for != bidder {', '            if reserved_for != bidder && Some(&reserved_for) != asset_recipient.as_ref() {'),
('v1-accept-cbid-inactive-ask', 'L04', V1+'execute.rs',
 '''    collection_bids().remove(deps.storage, bid_key)?;

    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
''', '''    collection_bids().remove(deps.storage, bid_key)?;

    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        if ask.is_active {
            asks().remove(deps.storage, ask_key)?;
        }
    }
'''),
('v1-reward-rounds-up', 'L06', V1+'execute.rs',
 '    let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);',
 '    let reward = collection_bid.price.mul_ceil(params.bid_removal_reward_percent / Uint128::from(100u128));'),
('v1-reprice-by-seller', 'L07', V1+'execute.rs',
 '''    nonpayable(&info)?;
    only_owner(deps.as_ref(), &info, &collection, token_id)?;
    price_validate(deps.storage, &price)?;

    let key = ask_key(&collection, token_id);

    let mut ask = asks().load(deps.storage, key.clone())?;
''', '''    nonpayable(&info)?;
    price_validate(deps.storage, &price)?;

    let key = ask_key(&collection, token_id);

    let mut ask = asks().load(deps.storage, key.clone())?;
    if ask.seller != info.sender {
        return Err(ContractError::UnauthorizedOwner {});
    }
'''),
('v1-expiry-min-inclusive', 'L08', V1+'helpers.rs',
 'expires > now.plus_seconds(self.min)', 'expires >= now.plus_seconds(self.min)'),
('v1-bid-hook-blocks', 'L09', V1+'execute.rs',
 '        Ok(SubMsg::reply_on_error(execute, HookReply::Bid as u64))',
 '        Ok(match action {\n            HookAction::Delete => SubMsg::new(execute),\n            _ => SubMsg::reply_on_error(execute, HookReply::Bid as u64),\n        })'),
('v1-stale-bid-no-hook', 'L09', V1+'execute.rs',
 '''    .map(|(to_address, amount)| BankMsg::Send {
        to_address,
        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
    });

    let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
''', '''    .map(|(to_address, amount)| BankMsg::Send {
        to_address,
        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
    });

    let hook: Vec<SubMsg> = vec![];
'''),
('v1-seller-page', 'L10', V1+'query.rs',
 '''        .prefix(seller)
        .range(deps.storage, start, None, Order::Ascending)
''', '''        .prefix(seller)
        .range(deps.storage, start, None, Order::Ascending)
        .take(limit)
'''),
('v1-params-expiry-pair', 'L12', V1+'sudo.rs',
 '''    ask_expiry.as_ref().map(|a| a.validate()).transpose()?;
    bid_expiry.as_ref().map(|b| b.validate()).transpose()?;
''', '''    if let Some(a) = ask_expiry.as_ref() {
        a.validate()?;
        bid_expiry.as_ref().map(|b| b.validate()).transpose()?;
    }
'''),
('v1-reject-by-seller', 'L07', V1+'execute.rs',
 '''    nonpayable(&info)?;
    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key = bid_key(&collection, token_id, &bidder);

    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;

    let refund_msg''', '''    nonpayable(&info)?;
    match asks().may_load(deps.storage, ask_key(&collection, token_id))? {
        Some(ask) if ask.seller == info.sender => {}
        _ => {
            only_owner(deps.as_ref(), &info, &collection, token_id)?;
        }
    }

    let bid_key = bid_key(&collection, token_id, &bidder);

    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;

    let refund_msg'''),
('v1-bid-expiry-current', 'L04', V1+'execute.rs',
 '''    let bid = collection_bids().load(deps.storage, bid_key.clone())?;
    if bid.is_expired(&env.block) {''', '''    let bid = collection_bids().load(deps.storage, bid_key.clone())?;
    if bid.expires_at < env.block.time {'''),
('v1-sync-operator-filter', 'L06', V1+'execute.rs',
 '        token_id.to_string(),\n        env.contract.address.to_string(),\n        Some(false),\n    );\n    if res.is_ok() == ask.is_active {',
 '        token_id.to_string(),\n        env.contract.address.to_string(),\n        Some(true),\n    );\n    if res.is_ok() == ask.is_active {'),
('v1-migrate-any-contract', 'X01', V1+'execute.rs',
 '    if current_version.contract != CONTRACT_NAME {', '    if !current_version.contract.ends_with("marketplace") {'),
('v1-sale-hook-recipient', 'L09', V1+'execute.rs',
 '.append(&mut prepare_sale_hook(deps, &ask, buyer.clone())?);', '.append(&mut prepare_sale_hook(deps, &ask, recipient.clone())?);'),
# ---------------------------------------------------------------- ra
('ra-same-bidder-topup', 'R02', RA+'execute.rs',
 '''            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);
''', '''            if previous_high_bid.bidder != next_bid.bidder {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }
'''),
('ra-min-bid-floor', 'R02', RA+'state.rs', '                .mul_ceil(', '                .mul_floor('),
('ra-seller-royalty', 'R03', RA+'helpers.rs',
 '''        None,
        royalty_info,
        response,''', '''        None,
        royalty_info.filter(|r| r.payment_address != auction.seller),
        response,'''),
('ra-extend-from-end', 'R04', RA+'execute.rs',
 'auction.end_time = Some(block_time.plus_seconds(config.extend_duration));',
 'auction.end_time = auction\n                    .end_time\n                    .map(|et| et.plus_seconds(config.extend_duration - time_remaining));'),
('ra-reprice-unchecked-raise', 'R05', RA+'execute.rs',
 '''    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Update reserve price''', '''    if reserve_price.amount <= auction.reserve_price.amount {
        validate_reserve_price(deps.as_ref().storage, &reserve_price)?;
    }

    // Update reserve price'''),
('ra-end-block-late', 'R06', RA+'sudo.rs', '        env.block.time.seconds() + 1,\n', '        env.block.time.seconds(),\n'),
('ra-last-window-only', 'R07', RA+'state.rs', '        for halt_info in &self.halt_windows {', '        for halt_info in self.halt_windows.iter().rev().take(1) {'),
('ra-halt-buffer-twice', 'R07', RA+'sudo.rs', 'end_time: current_block_time + config.halt_buffer_duration,', 'end_time: halt_manager.prev_block_time + seconds_since_last_block.max(config.halt_buffer_duration),'),
('ra-postpone-from-end', 'R07', RA+'helpers.rs', 'let new_auction_end_time = block_time.plus_seconds(config.halt_postpone_duration);', 'let new_auction_end_time = auction_end_time.plus_seconds(config.halt_postpone_duration);'),
('ra-max-duration', 'R08', RA+'execute.rs', 'duration <= config.max_duration,', 'duration < config.max_duration,'),
('ra-seller-inclusive', 'R09', RA+'query.rs', 'Box::new(|sa| Bound::exclusive((Addr::unchecked(sa.collection), sa.token_id))),', 'Box::new(|sa| Bound::inclusive((Addr::unchecked(sa.collection), sa.token_id))),'),
('ra-endtime-desc', 'R09', RA+'query.rs', '''    let max = max.unwrap_or(Bound::exclusive((
        u64::MAX,''', '''    let max = max.unwrap_or(Bound::exclusive((
        u64::from(u32::MAX),'''),
('ra-extend-zero', 'R10', RA+'state.rs', '            self.extend_duration > 0,', '            self.extend_duration > 0 || self.halt_postpone_duration > 0,'),
('ra-min-price-overwrite', 'R10', RA+'sudo.rs', '''        if MIN_RESERVE_PRICES.has(deps.storage, min_reserve_price.denom.clone()) {
            return Err(ContractError::InvalidInput(
                "found duplicate denom".to_string(),
            ));
        }
''', '''        if MIN_RESERVE_PRICES.may_load(deps.storage, min_reserve_price.denom.clone())?
            == Some(min_reserve_price.amount)
        {
            return Err(ContractError::InvalidInput(
                "found duplicate denom".to_string(),
            ));
        }
'''),
('ra-migrate-halt', 'X01', RA+'migrate.rs',
 '    cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;\n',
 '    cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;\n    crate::state::HALT_MANAGER.save(\n        deps.storage,\n        &crate::state::HaltManager {\n            prev_block_time: 0,\n            halt_windows: vec![],\n        },\n    )?;\n'),
('ra-settle-recipient-bid', 'R03', RA+'helpers.rs', '        auction.end_time.is_some() && auction.end_time.unwrap() <= block_time,', '        auction.end_time.is_some()\n            && auction.end_time.unwrap().seconds() <= block_time.seconds(),'),
('ra-bid-until-exact', 'R02', RA+'execute.rs', 'auction.end_time.unwrap().seconds() > block_time.seconds(),', 'auction.end_time.unwrap() > block_time,'),
('ra-cancel-unbid', 'R05', RA+'execute.rs', '''        auction.first_bid_time.is_none(),
        ContractError::AuctionStarted {}
    );

    // Remove auction from storage''', '''        auction.high_bid.is_none() || auction.reserve_price.amount.is_zero(),
        ContractError::AuctionStarted {}
    );

    // Remove auction from storage'''),
# ---------------------------------------------------------------- events
('v2-event-recipient-default', 'M13', V2+'orders.rs', """                "recipient" => self
                    .details
                    .recipient
                    .as_ref()
                    .map(|recipient| attr("recipient", recipient.to_string())),
                "finder" => self
                    .details
                    .finder
                    .as_ref()
                    .map(|finder| attr("finder", finder.to_string())),
                &_ => {
                    unreachable!("Invalid attr_key: {}", attr_key)
                }
            };
            if let Some(value) = attr {
                attributes.push(value);
            }
        }
        attributes
    }
}

#[cw_serde]
pub struct Bid {""", """                "recipient" => Some(attr("recipient", self.asset_recipient())),
                "finder" => self
                    .details
                    .finder
                    .as_ref()
                    .map(|finder| attr("finder", finder.to_string())),
                &_ => {
                    unreachable!("Invalid attr_key: {}", attr_key)
                }
            };
            if let Some(value) = attr {
                attributes.push(value);
            }
        }
        attributes
    }
}

#[cw_serde]
pub struct Bid {"""),
('v2-event-sale-seller', 'M13', V2+'helpers.rs', '.add_attribute("seller_recipient", seller_recipient.to_string())', '.add_attribute("seller_recipient", ask.creator.to_string())'),
('v1-event-sale-recipient', 'L13', V1+'execute.rs', '.add_attribute("asset_recipient", recipient.to_string())', '.add_attribute("asset_recipient", buyer.to_string())'),
('v1-event-stale-reward', 'L13', V1+'execute.rs', """        .add_attribute("collection", collection.to_string())
        .add_attribute("bidder", bidder.to_string())
        .add_attribute("operator", operator.to_string())
        .add_attribute("reward", reward.to_string());""", """        .add_attribute("collection", collection.to_string())
        .add_attribute("bidder", bidder.to_string())
        .add_attribute("operator", operator.to_string())
        .add_attribute("reward", (collection_bid.price - reward).to_string());"""),
('ra-event-first-bid-end', 'R11', RA+'execute.rs', """            if time_remaining < config.extend_duration {
                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));
            }

            event = event.add_attributes(vec![
                attr("first_bid", false.to_string()),
                attr(
                    "auction_end_time",
                    auction.end_time.as_ref().unwrap().to_string(),
                ),
                attr("previous_bidder", previous_high_bid.bidder),
                attr("previous_bid_amount", previous_high_bid.coin.to_string()),
            ]);
""", """            event = event.add_attributes(vec![
                attr("first_bid", false.to_string()),
                attr(
                    "auction_end_time",
                    auction.end_time.as_ref().unwrap().to_string(),
                ),
                attr("previous_bidder", previous_high_bid.bidder),
                attr("previous_bid_amount", previous_high_bid.coin.to_string()),
            ]);
            if time_remaining < config.extend_duration {
                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));
            }
"""),
('ra-event-param-old', 'R11', RA+'sudo.rs', """        config.halt_postpone_duration = halt_postpone_duration;
        event = event.add_attribute(
            "halt_postpone_duration",
            config.halt_postpone_duration.to_string(),
        );""", """        event = event.add_attribute(
            "halt_postpone_duration",
            config.halt_postpone_duration.to_string(),
        );
        config.halt_postpone_duration = halt_postpone_duration;"""),
# ---------------------------------------------------------------- X03
('v2-collection-removes-bid', 'X03', V2+'execute.rs',
 """    ensure_eq!(
        info.sender,
        bid.creator,
        MarketplaceStdError::Unauthorized(
            "only the creator of bid can perform this action".to_string()
        )
    );

    let refund = bid.details.price.clone();

    bid.remove(deps.storage)?;

    let mut response = transfer_coin(refund, &info.sender, Response::new());
""", """    // A collection may clear the bids on its tokens, e.g. when one is burned
    ensure!(
        info.sender == bid.creator || info.sender == bid.collection,
        MarketplaceStdError::Unauthorized(
            "only the creator of bid can perform this action".to_string()
        )
    );

    let refund = bid.details.price.clone();

    bid.remove(deps.storage)?;

    let mut response = transfer_coin(refund, &bid.creator, Response::new());
"""),
('ra-recreate-if-owner', 'X03', RA+'execute.rs', """    // Cannot create a duplicate auction for an NFT
    only_no_auction(deps.as_ref(), &collection, token_id)?;

    only_tradable""", """    // Cannot create a duplicate auction for an NFT that is held by this contract
    if info.sender == env.contract.address || only_owner(&deps.querier, &info, &collection, token_id).is_err() {
        only_no_auction(deps.as_ref(), &collection, token_id)?;
    }

    only_tradable"""),
('v1-failing-hook-dropped', 'X03', V1+'execute.rs', """pub fn reply(_deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractError> {
    match HookReply::from(msg.id) {
        HookReply::Ask => {
            let res""", """pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractError> {
    match HookReply::from(msg.id) {
        HookReply::Ask => {
            // Stop calling a hook that does not work
            let hooks = ASK_HOOKS.query_hooks(deps.as_ref())?.hooks;
            if let [hook] = hooks.as_slice() {
                ASK_HOOKS.remove_hook(deps.storage, Addr::unchecked(hook))?;
            }
            let res"""),
# ---------------------------------------------------------------- common
('pk-saturating', 'C01', PK+'sale.rs', 'seller_amount = seller_amount.checked_sub(fee_amount)?;', 'seller_amount = seller_amount.saturating_sub(fee_amount);'),
('pk-fee-of-remainder', 'C01', PK+'sale.rs', 'let fee_amount = self.sale_coin.amount.mul_ceil(fee.share);', 'let fee_amount = self.sale_coin.amount.mul_ceil(fee.share).min(seller_amount);'),
('pk-dedup-unsorted', 'C02', PK+'address.rs', '    validated_addresses.sort();\n', ''),
('pk-checked-any', 'C02', PK+'coin.rs', '''    for item in &funds {
        if item.amount.is_zero() {
            return Err(MarketplaceStdError::ZeroAmountBankSend);
        }
    }
''', '''    if funds.iter().all(|item| item.amount.is_zero()) {
        return Err(MarketplaceStdError::ZeroAmountBankSend);
    }
'''),
('pk-tradable-secs', 'C02', PK+'nft.rs', 'if start_trading_time.nanos() > block.time.nanos() {', 'if start_trading_time.seconds() > block.time.seconds() {'),
# ---------------------------------------------------------------- needing a particular party or history
('t-v2-royalty-buyer','M03',V2+'helpers.rs','    if let Some(royalty_entry) = royalty_entry_option {','    if let Some(royalty_entry) = royalty_entry_option.filter(|e| e.recipient != nft_recipient) {'),
('t-v2-self-buy','M02',V2+'helpers.rs','    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);','    if nft_recipient != ask.creator {\n    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);\n    }'),
('t-v2-finder-is-manager','M03',V2+'helpers.rs','    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;','    let protocol_fees = divide_protocol_fees(config, maker.as_ref().map_or(false, |m| *m != config.fee_manager), taker.is_some())?;'),
('t-v2-finder-is-seller','M03',V2+'helpers.rs','    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;','    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.as_ref().map_or(false, |t| *t != ask.creator))?;'),
('t-v2-buy-now-untradable','M10',V2+'execute.rs','''    buy_now: bool,
) -> Result<Response, ContractError> {
    only_tradable(&deps.querier, &env.block, &collection)?;

    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &collection, &details.price)?;

    let mut funds = NativeBalance(info.funds.clone());
    funds.normalize();

    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new(''','''    buy_now: bool,
) -> Result<Response, ContractError> {
    if !buy_now {
    only_tradable(&deps.querier, &env.block, &collection)?;
    }

    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &collection, &details.price)?;

    let mut funds = NativeBalance(info.funds.clone());
    funds.normalize();

    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new('''),
('t-v2-remove-ask-price','M09',V2+'execute.rs','''    let mut response = transfer_nft(
        &ask.collection,
        &ask.token_id,
        &ask.asset_recipient(),
        Response::new(),
    );
''','''    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &ask.collection, &ask.details.price)?;
    let mut response = transfer_nft(
        &ask.collection,
        &ask.token_id,
        &ask.asset_recipient(),
        Response::new(),
    );
'''),
('t-v2-sell-now-fee','M10',V2+'execute.rs','''        ensure_eq!(
            listing_payment.amount,
            _listing_fee,''','''        ensure_eq!(
            if sell_now { listing_payment.amount.max(_listing_fee) } else { listing_payment.amount },
            if sell_now { listing_payment.amount } else { _listing_fee },'''),
('t-v2-match-own','M05',V2+'orders.rs','''            if has_coins(&[self.details.price.clone()], &ask.details.price) {
                return Ok(Some(ask));''','''            if has_coins(&[self.details.price.clone()], &ask.details.price) && (ask.creator != self.creator || ask.details.recipient.is_none()) {
                return Ok(Some(ask));'''),
('t-v2-admin-none','M07',V2+'helpers.rs','''    if contract_info_resp.admin.is_none() {
        Err(MarketplaceStdError::Unauthorized(
            "contract admin unset".to_string(),
        ))?;
    }
''','''    if contract_info_resp.admin.is_none() && info.sender != contract_info_resp.creator {
        Err(MarketplaceStdError::Unauthorized(
            "contract admin unset".to_string(),
        ))?;
    }
    let contract_info_resp = cosmwasm_std::ContractInfoResponse::clone(&contract_info_resp);
    let mut contract_info_resp = contract_info_resp;
    if contract_info_resp.admin.is_none() { contract_info_resp.admin = Some(contract_info_resp.creator.clone()); }
'''),
('t-v2-denom-case','M10',V2+'helpers.rs','''    ensure_eq!(
        collection_denom,
        price.denom,''','''    ensure_eq!(
        collection_denom.len(),
        price.denom.len(),'''),
('t-v1-finder-seller','L02',V1+'execute.rs','''    let finders_fee = match finder {
        Some(finder) => {''','''    let finders_fee = match finder {
        Some(finder) if finder == payment_recipient => 0,
        Some(finder) => {'''),
('t-v1-royalty-self','L02',V1+'execute.rs','            if royalty.share.is_zero() {','            if royalty.share.is_zero() || royalty.share >= cosmwasm_std::Decimal::one() {'),
('t-v1-remove-ask-operator','L07',V1+'execute.rs','''    nonpayable(&info)?;
    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let key = ask_key(&collection, token_id);
    let ask = asks().load(deps.storage, key.clone())?;
    asks().remove(deps.storage, key)?;''','''    nonpayable(&info)?;
    let key = ask_key(&collection, token_id);
    let ask = asks().load(deps.storage, key.clone())?;
    if only_operator(deps.storage, &info).is_err() || ask.is_active {
        only_owner(deps.as_ref(), &info, &collection, token_id)?;
    }
    asks().remove(deps.storage, key)?;'''),
('t-v1-reject-inactive','L05',V1+'execute.rs','''    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;

    let refund_msg = BankMsg::Send {
        to_address: bidder.to_string(),''','''    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;

    let refund_msg = BankMsg::Send {
        to_address: if bid.is_expired(&_env.block) { info.sender.to_string() } else { bidder.to_string() },'''),
('t-v1-stale-reward-self','L06',V1+'execute.rs','''    let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
''','''    let reward = if operator == bid.bidder { bid.price } else { bid.price * params.bid_removal_reward_percent / Uint128::from(100u128) } * cosmwasm_std::Decimal::one();
    let reward = if asks().may_load(deps.storage, ask_key(&collection, token_id))?.is_some() { reward + Uint128::from((reward < bid.price) as u128) } else { reward };
'''),
('t-v1-accept-cbid-ask-recipient','L02',V1+'execute.rs','''        funds_recipient: Some(info.sender.clone()),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    let mut res = Response::new();''','''        funds_recipient: Some(info.sender.clone()).filter(|x| *x != bidder).or(finder.clone()),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    let mut res = Response::new();'''),
('t-v1-buyfor-hook','L09',V1+'execute.rs','        .append(&mut prepare_sale_hook(deps, &ask, buyer.clone())?);','        .append(&mut prepare_sale_hook(deps, &ask, if ask.reserve_for.is_some() { recipient.clone() } else { buyer.clone() })?);'),
('t-v1-reserve-auction','L08',V1+'execute.rs','        if sale_type != SaleType::FixedPrice {\n            return Err(ContractError::InvalidReserveAddress {','        if sale_type != SaleType::FixedPrice && funds_recipient.is_none() {\n            return Err(ContractError::InvalidReserveAddress {'),
('t-v1-sync-expired','L06',V1+'execute.rs','''    ask.is_active = res.is_ok();
    asks().save''','''    ask.is_active = res.is_ok() && !ask.is_expired(&env.block);
    asks().save'''),
('t-v1-cbid-refund-expired','L05',V1+'execute.rs','''    let collection_bid = collection_bids().load(deps.storage, key.clone())?;
    collection_bids().remove(deps.storage, key)?;

    let refund_bidder_msg''','''    let collection_bid = collection_bids().load(deps.storage, key.clone())?;
    if collection_bid.is_expired(&_env.block) && SUDO_PARAMS.load(deps.storage)?.bid_removal_reward_percent.is_zero() {
        return Err(ContractError::BidExpired {});
    }
    collection_bids().remove(deps.storage, key)?;

    let refund_bidder_msg'''),
('t-v1-setask-keep-recipient','L08',V1+'execute.rs','''        funds_recipient,
        reserve_for,
        finders_fee_bps,
        expires_at: expires,
        is_active: true,''','''        funds_recipient: funds_recipient.or(asks().may_load(deps.storage, ask_key(&ask_info_c, token_id))?.and_then(|a| a.funds_recipient)),
        reserve_for,
        finders_fee_bps,
        expires_at: expires,
        is_active: true,''',V1+'execute.rs','    let seller = info.sender;\n    let ask = Ask {\n        sale_type,','    let seller = info.sender;\n    let ask_info_c = collection.clone();\n    let ask = Ask {\n        sale_type,'),
('t-ra-cancel-rcpt','R05',RA+'execute.rs','        .add_submessage(transfer_nft(&collection, token_id, &auction.seller));','        .add_submessage(transfer_nft(&collection, token_id, &auction.funds_recipient()));'),
('t-ra-update-same-denom','R05',RA+'execute.rs','''    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Update reserve price''','''    if reserve_price.denom != auction.reserve_price.denom || reserve_price.amount < auction.reserve_price.amount {
        validate_reserve_price(deps.as_ref().storage, &reserve_price)?;
    }

    // Update reserve price'''),
('t-ra-extend-first','R04',RA+'execute.rs','            auction.end_time = Some(block_time.plus_seconds(auction.duration));','            auction.end_time = Some(block_time.plus_seconds(auction.duration.max(config.extend_duration)));'),
('t-ra-duration-at-bid','R04',RA+'execute.rs','            auction.end_time = Some(block_time.plus_seconds(auction.duration));','            auction.end_time = Some(block_time.plus_seconds(auction.duration.min(config.max_duration).max(config.min_duration)));'),
('t-ra-extend-shorten','R04',RA+'execute.rs','            if time_remaining < config.extend_duration {','            if time_remaining < config.extend_duration.max(auction.duration / 10) {'),
('t-ra-halt-inclusive','R07',RA+'state.rs','block_time > halt_info.start_time && block_time < halt_info.end_time','block_time >= halt_info.start_time && block_time < halt_info.end_time'),
('t-ra-create-fee-multi','R08',RA+'execute.rs','            info.funds == vec![config.create_auction_fee.clone()],','            has_coins(&info.funds, &config.create_auction_fee) && (info.funds.len() > 1 || info.funds == vec![config.create_auction_fee.clone()]),'),
('t-ra-endtime-max','R09',RA+'state.rs','|_pk: &[u8], a: &Auction| a.end_time.map_or(u64::MAX, |et| et.seconds())','|_pk: &[u8], a: &Auction| a.end_time.map_or(u64::MAX, |et| et.seconds() & 0xffff_ffff)'),
('t-ra-royalty-bidder','R03',RA+'helpers.rs','        royalty_info,\n        response,','        royalty_info.filter(|r| r.payment_address != high_bid.bidder),\n        response,'),
('t-ra-postpone-recent','R07',RA+'helpers.rs','        let new_auction_end_time = block_time.plus_seconds(config.halt_postpone_duration);','        let new_auction_end_time = block_time.plus_seconds(config.halt_postpone_duration.min(auction.duration));'),
('v2-accept-ask-denom', 'M06', V2+'execute.rs', '''        has_coins(&[details.price.clone()], &ask.details.price),
        ContractError::InvalidInput("ask price is greater than max input".to_string())''', '''        details.price.amount >= ask.details.price.amount,
        ContractError::InvalidInput("ask price is greater than max input".to_string())'''),
('v1-same-price-rebid', 'L05', V1+'execute.rs', '''        res = res.add_message(refund_bidder)
    }''', '''        if !(existing_bid.price == bid_price && existing_bid.expires_at == expires) {
            res = res.add_message(refund_bidder)
        }
    }'''),
('v2-price-index-u64', 'M11', V2+'state.rs', '''                    a.details.price.denom.clone(),
                    a.details.price.amount.u128(),''', '''                    a.details.price.denom.clone(),
                    a.details.price.amount.u128() as u64 as u128,'''),
('pk-registry-error-ignored', 'C03', PK+'royalties.rs', '    let royalty_entry = fetch_royalty_entry(&deps.querier, royalty_registry, collection, protocol)?;', '''    let royalty_entry =
        fetch_royalty_entry(&deps.querier, royalty_registry, collection, protocol).unwrap_or(None);'''),
('pk-registry-none-only', 'C03', PK+'royalties.rs', '''            if collection_info.royalty_info.is_none() {
                return Ok((None, response));
            }

            let royalty_info_response = collection_info.royalty_info.unwrap();''', '''            let royalty_info_response = match collection_info.royalty_info {
                Some(info) if !info.share.is_zero() => info,
                _ => return Ok((None, response)),
            };'''),
('pk-default-over-small', 'C03', PK+'royalties.rs', '''    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        return Ok(Some(royalty_protocol.royalty_entry.into()));
    }
''', '''    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        if protocol.is_some() || royalty_payment_response.royalty_default.is_none() {
            return Ok(Some(royalty_protocol.royalty_entry.into()));
        }
    }
'''),
('ra-refund-own-payout', 'R02', RA+'execute.rs', '''            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);''', '''            if auction.seller_funds_recipient.as_ref() != Some(&previous_high_bid.bidder) {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }'''),
('ra-end-block-all', 'X04', RA+'sudo.rs', '''        .take(limit.max(1))
        .collect::<StdResult<Vec<Auction>>>()?;''', '''        .collect::<StdResult<Vec<Auction>>>()?;'''),
('v2-match-loads-all', 'X04', V2+'orders.rs', '''            self.token_id.clone(),
            self.details.price.denom.clone(),
            QueryOptions {
                descending: Some(true),
                limit: Some(1),
                min: Some(QueryBound::Inclusive(PriceOffset {
                    id: "".to_string(),
                    amount: self.details.price.amount.u128(),
                })),
                max: None,
            },
''', '''            self.token_id.clone(),
            self.details.price.denom.clone(),
            QueryOptions {
                descending: Some(true),
                limit: Some(100),
                min: None,
                max: None,
            },
'''),
('v1-crowded-ask', 'X04', V1+'execute.rs', '''    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;
''', '''    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;
    let crowd = bids()
        .idx
        .collection_token_id
        .prefix((collection.clone(), token_id))
        .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .count();
    if crowd >= 50 && existing_ask.is_none() {
        return Err(ContractError::InvalidListing {});
    }
'''),
('v1-collection-bid-cap', 'X04', V1+'execute.rs', '''    let existing_bid = collection_bids().may_load(deps.storage, key.clone())?;
''', '''    let existing_bid = collection_bids().may_load(deps.storage, key.clone())?;
    let open = collection_bids()
        .idx
        .collection
        .prefix(collection.clone())
        .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .take(120)
        .count();
    if open >= 120 && existing_bid.is_none() {
        return Err(ContractError::InvalidListing {});
    }
'''),
('ra-end-scan-all', 'X04', RA+'sudo.rs', '''    let earliest_auction_end_time = auctions.first()''', '''    let open = crate::state::auctions()
        .keys(deps.storage, None, None, order)
        .count();
    response = response.add_attribute("open_auctions", open.to_string());

    let earliest_auction_end_time = auctions.first()'''),
('v1-accept-bid-ask-fee', 'L02', V1+'execute.rs', '''    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };
''', '''    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;
    if existing_ask.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),
        reserve_for: None,
        finders_fee_bps: bid
            .finders_fee_bps
            .or_else(|| existing_ask.and_then(|a| a.finders_fee_bps)),
    };
'''),
('v1-relist-free', 'L08', V1+'execute.rs', '''    if listing_fee != params.listing_fee {
''', '''    let relisted = asks()
        .may_load(deps.storage, ask_key(&collection, token_id))?
        .map_or(false, |a| a.seller == info.sender && a.is_active);
    if listing_fee != params.listing_fee && !(relisted && listing_fee.is_zero()) {
'''),
('v1-rebid-refund-capped', 'L05', V1+'execute.rs', '''            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
''', '''            amount: vec![coin(existing_bid.price.min(bid_price * Uint128::from(2u128)).u128(), NATIVE_DENOM)],
'''),
('v1-cbid-raise-unchecked', 'L08', V1+'execute.rs', '''    params.bid_expiry.is_valid(&env.block, expires)?;
    // check bid finders_fee_bps is not over max
''', '''    let prolonged = collection_bids()
        .may_load(deps.storage, collection_bid_key(&collection, &info.sender))?
        .map_or(false, |b| b.expires_at == expires);
    if !prolonged {
        params.bid_expiry.is_valid(&env.block, expires)?;
    }
    // check bid finders_fee_bps is not over max
'''),
('v1-buy-clears-own-cbid', 'X02', V1+'execute.rs', '''                        asks().remove(deps.storage, ask_key)?;
                        let owner = match''', '''                        asks().remove(deps.storage, ask_key)?;
                        let key = collection_bid_key(&collection, &bidder);
                        if let Some(b) = collection_bids().may_load(deps.storage, key.clone())? {
                            collection_bids().remove(deps.storage, key)?;
                            res = res.add_message(BankMsg::Send {
                                to_address: bidder.to_string(),
                                amount: vec![coin(b.price.u128(), NATIVE_DENOM)],
                            });
                        }
                        let owner = match'''),
('v1-finder-fee-after-royalty', 'L02', V1+'execute.rs', '''                .map(|fee| (payment * Decimal::percent(fee) / Uint128::from(100u128)).u128())''', '''                .map(|fee| ((payment - network_fee) * Decimal::percent(fee) / Uint128::from(100u128)).u128())'''),
('v2-bidder-cap', 'X04', V2+'execute.rs', '''        bids().update(deps.storage, bid.id.clone(), |existing| match existing {
            Some(_) => Err(ContractError::InternalError("bid id collision".to_string())),''', '''        let standing = bids()
            .idx
            .creator_collection
            .prefix((bid.creator.clone(), bid.collection.clone()))
            .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
            .take(60)
            .count();
        if standing >= 60 {
            return Err(ContractError::InternalError("too many bids".to_string()));
        }
        bids().update(deps.storage, bid.id.clone(), |existing| match existing {
            Some(_) => Err(ContractError::InternalError("bid id collision".to_string())),'''),
('ra-seller-cap', 'X04', RA+'execute.rs', '''    only_no_auction(deps.as_ref(), &collection, token_id)?;

    only_tradable''', '''    only_no_auction(deps.as_ref(), &collection, token_id)?;
    if auctions()
        .idx
        .seller
        .prefix(info.sender.to_string())
        .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .take(60)
        .count()
        >= 60
    {
        return Err(ContractError::Unauthorized {});
    }

    only_tradable'''),
# batch 6
('pk-floor-large', 'C01', PK+'sale.rs', '''self.sale_coin.amount.mul_ceil(fee.share);''', '''if self.sale_coin.amount.u128() > u64::MAX as u128 {
                self.sale_coin.amount.mul_floor(fee.share)
            } else {
                self.sale_coin.amount.mul_ceil(fee.share)
            };'''),
('v2-default-fee-stays', 'M10', V2+'execute.rs', '''    LISTING_FEES.remove(deps.storage, denom.clone());
''', '''    // there is always a fee in the default denom
    if denom != CONFIG.load(deps.storage)?.default_denom {
        LISTING_FEES.remove(deps.storage, denom.clone());
    }
'''),
('v2-update-bid-same-price', 'M08', V2+'execute.rs', '''    bid.details = details;

    let mut response = Response::new();
''', '''    if bid.details.price == details.price {
        bid.details.recipient = details.recipient;
    } else {
        bid.details = details;
    }

    let mut response = Response::new();
'''),
('v2-accept-bid-overrides-ask', 'M03', V2+'execute.rs', '''    let ask_id = generate_id(vec![bid.collection.as_bytes(), bid.token_id.as_bytes()]);
    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;

    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(ask) = ask_option {''', '''    let ask_id = generate_id(vec![bid.collection.as_bytes(), bid.token_id.as_bytes()]);
    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;

    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(mut ask) = ask_option {
        if details.finder.is_some() {
            ask.details.finder = details.finder.clone();
        }'''),
('v2-nonce-64', 'M08', V2+'execute.rs', '''    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new(
        info.sender.clone(),
        collection,''', '''    let nonce = NONCE.load(deps.storage)?.wrapping_add(1) % 64;
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new(
        info.sender.clone(),
        collection,'''),
('v2-migrate-zero-fees', 'X01', V2+'migrate.rs', '''    let response = Response::new();
''', '''    let response = Response::new();
    let idle: Vec<String> = crate::state::LISTING_FEES
        .range(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .filter_map(|r| r.ok())
        .filter(|(_, a)| a.u128() <= 1)
        .map(|(d, _)| d)
        .collect();
    for denom in idle {
        crate::state::LISTING_FEES.remove(deps.storage, denom);
    }
'''),
('v2-update-bid-refund-recipient', 'M04', V2+'execute.rs', '''    let match_result = bid.match_with_ask(deps.as_ref())?;

    if let Some(ask) = match_result {''', '''    let refund_to = bid.asset_recipient();
    let match_result = bid.match_with_ask(deps.as_ref())?;

    if let Some(ask) = match_result {''', V2+'execute.rs', '''                ty: "update-bid",
                bid: &bid,
                attr_keys: vec![
                    "id",
                    "collection",
                    "token_id",
                    "price",
                    "creator",
                    "recipient",
                    "finder",
                ],
            }
            .into(),
        );
    };

    // Transfer remaining funds back to user
    if !funds.is_empty() {
        response = transfer_coins(funds.into_vec(), &info.sender, response);''', '''                ty: "update-bid",
                bid: &bid,
                attr_keys: vec![
                    "id",
                    "collection",
                    "token_id",
                    "price",
                    "creator",
                    "recipient",
                    "finder",
                ],
            }
            .into(),
        );
    };

    // Transfer remaining funds back to user
    if !funds.is_empty() {
        response = transfer_coins(funds.into_vec(), &refund_to, response);'''),
('v2-remove-bid-recipient', 'M09', V2+'execute.rs', '''    let refund = bid.details.price.clone();

    bid.remove(deps.storage)?;

    let mut response = transfer_coin(refund, &info.sender, Response::new());''', '''    let refund = bid.details.price.clone();

    bid.remove(deps.storage)?;

    let mut response = transfer_coin(refund, &bid.asset_recipient(), Response::new());'''),
('v2-royalty-cap-half', 'M12', V2+'helpers.rs', '''            min(
                royalty_entry.share,
                Decimal::bps(config.max_royalty_fee_bps),
            ),''', '''            if config.max_royalty_fee_bps == 0 {
                royalty_entry.share
            } else {
                min(
                    royalty_entry.share,
                    Decimal::bps(config.max_royalty_fee_bps),
                )
            },'''),
('ra-window-cap', 'R07', RA+'sudo.rs', '''        halt_manager.halt_windows.push(halt_window);''', '''        if halt_manager.halt_windows.len() >= 3 {
            halt_manager.halt_windows.remove(0);
        }
        halt_manager.halt_windows.push(halt_window);'''),
('ra-bid-denom-unset', 'R10', RA+'execute.rs', '''    // Ensure minimum bid amount is met
    let min_bid''', '''    validate_reserve_price(deps.storage, &auction.reserve_price)?;

    // Ensure minimum bid amount is met
    let min_bid'''),
('ra-extend-capped-duration', 'R04', RA+'execute.rs', '''            if time_remaining < config.extend_duration {
                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));
            }''', '''            let extension = std::cmp::min(config.extend_duration, auction.duration);
            if time_remaining < extension {
                auction.end_time = Some(block_time.plus_seconds(extension));
            }'''),
('ra-first-bid-halt', 'R04', RA+'execute.rs', '''            auction.end_time = Some(block_time.plus_seconds(auction.duration));
''', '''            auction.end_time = Some(block_time.plus_seconds(auction.duration));
            let halts = HALT_MANAGER.load(deps.storage)?;
            if halts.is_within_halt_window(auction.end_time.unwrap().seconds()) {
                auction.end_time = Some(
                    auction
                        .end_time
                        .unwrap()
                        .plus_seconds(config.halt_postpone_duration),
                );
            }
'''),
('ra-postponed-free', 'R06', RA+'sudo.rs', '''    for auction in auctions.into_iter().take(limit) {
''', '''    let mut left = limit;
    let more = self::auctions_ended(deps.as_ref(), &env)?;
    for auction in more {
        if left == 0 {
            break;
        }
        if !halt_manager.is_within_halt_window(auction.end_time.unwrap().seconds()) {
            left -= 1;
        }
''', RA+'sudo.rs', '''pub fn sudo_end_block(mut deps''', '''fn auctions_ended(deps: cosmwasm_std::Deps, env: &Env) -> StdResult<Vec<Auction>> {
    let max = Some(Bound::exclusive((
        env.block.time.seconds() + 1,
        (Addr::unchecked(""), "".to_string()),
    )));
    auctions()
        .idx
        .end_time
        .range(deps.storage, None, max, Order::Ascending)
        .map(|item| item.map(|(_, v)| v))
        .filter(|item| {
            item.as_ref()
                .map_or(true, |a| a.end_time.map_or(false, |et| et <= env.block.time))
        })
        .collect()
}

pub fn sudo_end_block(mut deps'''),
('ra-migrate-extend', 'X01', RA+'migrate.rs', '''    cw2::set_contract_version''', '''    let mut config = crate::state::CONFIG.load(deps.storage)?;
    config.max_duration = config.max_duration.max(config.min_duration);
    config.extend_duration = config.extend_duration.min(config.min_duration);
    config.save(deps.storage)?;
    cw2::set_contract_version'''),
('ra-cancel-fee-zero-dur', 'R08', RA+'execute.rs', '''            info.funds == vec![config.create_auction_fee.clone()],''', '''            has_coins(&info.funds, &config.create_auction_fee),'''),
('v1-bid-max', 'L08', V1+'execute.rs', '''    params.bid_expiry.is_valid(&env.block, expires)?;
    if let Some(finders_fee_bps) = finders_fee_bps {''', '''    params.bid_expiry.is_valid(&env.block, expires)?;
    if bid_price.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
        return Err(ContractError::PriceTooHigh(bid_price));
    }
    if let Some(finders_fee_bps) = finders_fee_bps {'''),
('v1-accept-keeps-foreign-ask', 'L04', V1+'execute.rs', '''    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    // Remove accepted bid
    bids()''', '''    if let Some(standing) = asks().may_load(deps.storage, ask_key.clone())? {
        if standing.seller == info.sender {
            asks().remove(deps.storage, ask_key)?;
        }
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    // Remove accepted bid
    bids()'''),
('v1-sync-clears-reserve', 'L06', V1+'execute.rs', '''    ask.is_active = res.is_ok();
''', '''    ask.is_active = res.is_ok();
    if ask.is_active && ask.is_expired(&env.block) {
        ask.reserve_for = None;
    }
'''),
('v1-reprice-hook-before', 'L09', V1+'execute.rs', '''    ask.price = price.amount;
    asks().save(deps.storage, key, &ask)?;

    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;
''', '''    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;
    ask.price = price.amount;
    asks().save(deps.storage, key, &ask)?;
'''),
('v1-migrate-inactive', 'X01', V1+'execute.rs', '''    // set new contract version
    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;''', '''    let dead: Vec<_> = asks()
        .range(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .filter_map(|r| r.ok())
        .filter(|(_, a)| !a.is_active && a.reserve_for.is_some())
        .map(|(k, _)| k)
        .collect();
    for key in dead {
        asks().remove(deps.storage, key)?;
    }
    // set new contract version
    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;'''),
('v1-price-at-now', 'L05', V1+'execute.rs', '''    let bid = bids().load(deps.storage, bid_key.clone())?;
    bids().remove(deps.storage, bid_key)?;

    let refund_msg''', '''    let bid = bids().load(deps.storage, bid_key.clone())?;
    if bid.price < SUDO_PARAMS.load(deps.storage)?.min_price {
        return Err(ContractError::PriceTooSmall(bid.price));
    }
    bids().remove(deps.storage, bid_key)?;

    let refund_msg'''),
('v1-buyfor-event-buyer', 'L13', V1+'execute.rs', '''        .add_attribute("buyer", buyer.to_string())
        .add_attribute("price", price.to_string())
        .add_attribute("asset_recipient"''', '''        .add_attribute("buyer", recipient.to_string())
        .add_attribute("price", price.to_string())
        .add_attribute("asset_recipient"'''),
('v1-stale-cb-hookless-ask', 'X02', V1+'execute.rs', '''    let key = bid_key(&collection, token_id, &bidder);
    let bid = bids().load(deps.storage, key.clone())?;
    bids().remove(deps.storage, key)?;

    let refund_bidder_msg''', '''    let key = bid_key(&collection, token_id, &bidder);
    let bid = bids().load(deps.storage, key.clone())?;
    bids().remove(deps.storage, key)?;
    let ask_key = ask_key(&collection, token_id);
    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        if ask.reserve_for == Some(bidder.clone()) {
            asks().remove(deps.storage, ask_key)?;
        }
    }

    let refund_bidder_msg'''),
# batch 7
('v2-config-keeps-registry', 'M12', V2+'execute.rs', '''    config: Config<Addr>,
) -> Result<Response, ContractError> {
    nonpayable(&info)?;
    only_contract_admin(&deps.querier, &env, &info)?;
    config.save''', '''    mut config: Config<Addr>,
) -> Result<Response, ContractError> {
    nonpayable(&info)?;
    only_contract_admin(&deps.querier, &env, &info)?;
    config.royalty_registry = CONFIG.load(deps.storage)?.royalty_registry;
    config.save'''),
('v2-unchecked-recipient', 'M10', V2+'orders.rs', '''            recipient: maybe_addr(api, self.recipient)?,
            finder: maybe_addr(api, self.finder)?,''', '''            recipient: self.recipient.map(Addr::unchecked),
            finder: maybe_addr(api, self.finder)?,'''),
('v2-setbid-change-to-recipient', 'M04', V2+'execute.rs', '''    let matching_ask = bid.match_with_ask(deps.as_ref())?;

    let mut response = Response::new();
''', '''    let matching_ask = bid.match_with_ask(deps.as_ref())?;
    let change_recipient = matching_ask.as_ref().map_or(info.sender.clone(), |_| bid.asset_recipient());

    let mut response = Response::new();
''', V2+'execute.rs', '''            Some(_) => Err(ContractError::InternalError("bid id collision".to_string())),
            None => Ok(bid),
        })?;
    }

    // Transfer remaining funds back to user
    if !funds.is_empty() {
        response = transfer_coins(funds.into_vec(), &info.sender, response);''', '''            Some(_) => Err(ContractError::InternalError("bid id collision".to_string())),
            None => Ok(bid),
        })?;
    }

    // Transfer remaining funds back to user
    if !funds.is_empty() {
        response = transfer_coins(funds.into_vec(), &change_recipient, response);'''),
('v2-update-bid-match-old-recipient', 'M03', V2+'execute.rs', '''    bid.details = details;

    let mut response = Response::new();

    let match_result = bid.match_with_ask(deps.as_ref())?;
''', '''    let old_details = std::mem::replace(&mut bid.details, details);

    let mut response = Response::new();

    let match_result = bid.match_with_ask(deps.as_ref())?;
    if match_result.is_some() {
        bid.details.finder = old_details.finder;
    }
'''),
('v2-register-nonzero', 'M12', PK+'royalties.rs', '''            response = response.add_message(WasmMsg::Execute {
                contract_addr: royalty_registry.to_string(),''', '''            if royalty_entry.share.is_zero() {
                return Ok((Some(royalty_entry), response));
            }

            response = response.add_message(WasmMsg::Execute {
                contract_addr: royalty_registry.to_string(),'''),
('v2-listing-fee-once', 'M10', V2+'execute.rs', '''    LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
''', '''    LISTING_FEES.update(deps.storage, fee.denom.clone(), |current| match current {
        Some(amount) if fee.amount.is_zero() => Ok(amount),
        _ => Ok::<_, ContractError>(fee.amount),
    })?;
'''),
('v2-reward-rounded-bps', 'M05', V2+'helpers.rs', '''        protocol_fees.taker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.taker_reward_bps))?;''', '''        protocol_fees.taker_reward =
            Decimal::bps(config.protocol_fee_bps * config.taker_reward_bps / 10_000);'''),
('v2-accept-bid-ask-price-guard', 'M04', V2+'execute.rs', '''    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(ask) = ask_option {
        if info.sender != ask.creator {
            Err(MarketplaceStdError::Unauthorized(
                "sender is not creator of ask".to_string(),
            ))?;
        }
        ask
    } else {
        only_owner(&deps.querier, &info, &bid.collection, &bid.token_id)?;''', '''    // Check if the sender is the owner of the NFT, or if the creator of a valid ask
    let ask = if let Some(mut ask) = ask_option {
        if info.sender != ask.creator {
            Err(MarketplaceStdError::Unauthorized(
                "sender is not creator of ask".to_string(),
            ))?;
        }
        if details.recipient.is_some() {
            ask.details.recipient = details.recipient;
        }
        ask
    } else {
        only_owner(&deps.querier, &info, &bid.collection, &bid.token_id)?;'''),
('v2-cbid-tie-oldest-denom', 'M03', V2+'orders.rs', '''                    Some(MatchingBid::Bid(bid))
                } else {
                    Some(MatchingBid::CollectionBid(collection_bid))''', '''                    Some(MatchingBid::Bid(bid))
                } else if collection_bid.creator == self.creator {
                    Some(MatchingBid::Bid(bid))
                } else {
                    Some(MatchingBid::CollectionBid(collection_bid))'''),
('v1-unchecked-reserve', 'L08', V1+'execute.rs', 'reserve_for: maybe_addr(api, reserve_for)?,', 'reserve_for: reserve_for.map(Addr::unchecked),'),
('v1-rebid-min-skipped', 'L08', V1+'execute.rs', '''    if bid_price < params.min_price {
        return Err(ContractError::PriceTooSmall(bid_price));
    }
    params.bid_expiry.is_valid(&env.block, expires)?;
    if let Some(finders_fee_bps) = finders_fee_bps {''', '''    let existing = bids().may_load(deps.storage, bid_key(&collection, token_id, &info.sender))?;
    if bid_price < params.min_price && existing.is_none() {
        return Err(ContractError::PriceTooSmall(bid_price));
    }
    params.bid_expiry.is_valid(&env.block, expires)?;
    if let Some(finders_fee_bps) = finders_fee_bps {'''),
('v1-rebid-keeps-longer', 'L09', V1+'execute.rs', '''    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;''', '''    let mut expires = expires;
    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;
        if existing_bid.price == bid_price {
            expires = expires.max(existing_bid.expires_at);
        }'''),
('v1-buy-keeps-own-bid', 'L08', V1+'execute.rs', '''    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;
        let refund_bidder''', '''    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        if existing_bid.price < params.min_price && !existing_bid.is_expired(&env.block) {
            return Err(ContractError::PriceTooSmall(existing_bid.price));
        }
        bids().remove(deps.storage, bid_key)?;
        let refund_bidder'''),
('v1-cbid-refund-new-price', 'L01', V1+'execute.rs', '''            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
        };
        res = res.add_message(refund_bidder)''', '''            amount: vec![coin(
                if existing_bid.is_expired(&env.block) && existing_bid.price > bid_price {
                    bid_price.u128()
                } else {
                    existing_bid.price.u128()
                },
                NATIVE_DENOM,
            )],
        };
        res = res.add_message(refund_bidder)'''),
('v1-fees-cap-not-refuse', 'L03', V1+'execute.rs', '''            if payment < (network_fee + Uint128::from(finders_fee)) {
                return Err(StdError::generic_err("Fees exceed payment"));
            }
''', '''            if payment < (network_fee + Uint128::from(finders_fee)) {
                return Err(StdError::generic_err("Fees exceed payment"));
            }
            let finders_fee = finders_fee.min((payment - network_fee).u128() / 2);
'''),
('v1-missing-info-free', 'L03', V1+'execute.rs', '''        .query_wasm_smart(collection.clone(), &Sg721QueryMsg::CollectionInfo {})?;

    let finders_fee''', '''        .query_wasm_smart(collection.clone(), &Sg721QueryMsg::CollectionInfo {})?;
    let finder = finder.filter(|finder| {
        collection_info
            .royalty_info
            .as_ref()
            .map_or(true, |royalty| royalty.payment_address != finder.as_str())
    });

    let finders_fee'''),
('ra-unchecked-recipient', 'R08', RA+'execute.rs', 'maybe_addr(api, seller_funds_recipient)?', 'seller_funds_recipient.map(Addr::unchecked)'),
('ra-no-extend-self', 'R04', RA+'execute.rs', '            if time_remaining < config.extend_duration {', '            if time_remaining < config.extend_duration\n                && previous_high_bid.bidder != next_bid.bidder\n            {'),
('ra-halt-prev-stuck', 'R07', RA+'sudo.rs', '''        halt_manager.halt_windows.push(halt_window);
    }

    halt_manager.prev_block_time = current_block_time;''', '''        halt_manager.halt_windows.push(halt_window);
        halt_manager.prev_block_time = current_block_time + config.halt_buffer_duration;
        HALT_MANAGER.save(deps.storage, &halt_manager)?;
        return Ok(response);
    }

    halt_manager.prev_block_time = current_block_time;'''),
('ra-halt-merge', 'R07', RA+'sudo.rs', '''        halt_manager.halt_windows.push(halt_window);
    }
''', '''        match halt_manager.halt_windows.last_mut() {
            Some(last) if last.end_time > halt_window.start_time => {
                last.end_time = halt_window.end_time.min(last.end_time + config.halt_buffer_duration);
            }
            _ => halt_manager.halt_windows.push(halt_window),
        }
    }
'''),
('ra-postpone-once', 'R07', RA+'helpers.rs', '''    if halt_manager.is_within_halt_window(auction_end_time.seconds()) {
''', '''    let already_postponed = auction
        .first_bid_time
        .map_or(false, |first| auction_end_time.seconds() - first.seconds() > 2 * auction.duration);
    if halt_manager.is_within_halt_window(auction_end_time.seconds()) && !already_postponed {
'''),
('ra-reprice-above-only-min', 'R08', RA+'execute.rs', '''    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Update reserve price''', '''    if reserve_price.denom != auction.reserve_price.denom || reserve_price.amount < auction.reserve_price.amount {
        validate_reserve_price(deps.as_ref().storage, &reserve_price)?;
    }

    // Update reserve price'''),
('ra-create-fee-other-denom-pass', 'R08', RA+'execute.rs', '''            info.funds == vec![config.create_auction_fee.clone()],''', '''            has_coins(&info.funds, &config.create_auction_fee) && info.funds.len() == 1,'''),
# ---- batch 8: TypeScript clients, types, command line; declared answers
('ts-composer-finder-to-bidder', 'T01', TSP+'Marketplace.message-composer.ts', '''          accept_bid: {
            bidder,
            collection,
            finder,
            token_id: tokenId''', '''          accept_bid: {
            bidder,
            collection,
            finder: finder || undefined,
            token_id: tokenId'''),
('ts-key-shared-direction', 'T01', TSP+'Marketplace.react-query.ts', '''    method: "reverse_bids_sorted_by_price",''', '''    method: "bids_sorted_by_price",'''),
('ts-enabled-without-client', 'T01', TSP+'Marketplace.react-query.ts', '''    bidder: args.bidder,
    collection: args.collection
  }) : Promise.reject(new Error("Invalid client")), { ...options,
    enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
  });
}
export interface MarketplaceReverseBidsSortedByPriceQuery''', '''    bidder: args.bidder,
    collection: args.collection
  }) : Promise.reject(new Error("Invalid client")), { ...options,
    enabled: options?.enabled ?? !!client
  });
}
export interface MarketplaceReverseBidsSortedByPriceQuery'''),
('ts-zero-limit-dropped', 'T01', TSP+'Marketplace.client.ts', '''      asks_by_seller: {
        include_inactive: includeInactive,
        limit,''', '''      asks_by_seller: {
        include_inactive: includeInactive || undefined,
        limit,'''),
('ts-place-bid-fee', 'T01', TSP+'ReserveAuction.client.ts', '''      place_bid: {
        collection,
        token_id: tokenId
      }
    }, fee, memo, _funds);''', '''      place_bid: {
        collection,
        token_id: tokenId
      }
    }, fee || "auto", memo, _funds);'''),
('ts-place-bid-single-coin', 'T01', TSP+'ReserveAuction.client.ts', '''      place_bid: {
        collection,
        token_id: tokenId
      }
    }, fee, memo, _funds);''', '''      place_bid: {
        collection,
        token_id: tokenId
      }
    }, fee, memo, _funds?.slice(0, 1));'''),
('ts-key-stable-args', 'T01', TSP+'ReserveAuction.react-query.ts', '''    method: "auctions_by_end_time",
    args
''', '''    method: "auctions_by_end_time",
    args: args && { endTime: args.endTime, ...(args.queryOptions as Record<string, unknown> | undefined)?.start_after as object | undefined }
'''),
('ts-factory-options-last', 'T01', TSP+'ReserveAuction.react-query.ts', '''      endTime: args.endTime,
      queryOptions: args.queryOptions
    }) : Promise.reject(new Error("Invalid client")),
    ...options,
    enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
''', '''      endTime: args.endTime,
      queryOptions: args.queryOptions
    }) : Promise.reject(new Error("Invalid client")),
    enabled: !!client,
    ...options
'''),
('ts-type-end-time-required', 'T02', TSP+'ReserveAuction.types.ts', '''  end_time?: Timestamp | null;
  first_bid_time?: Timestamp | null;''', '''  end_time: Timestamp;
  first_bid_time?: Timestamp | null;'''),
('ts-type-offset-number', 'T02', TSP+'Marketplace.types.ts', '''export interface BidOffset {
  bidder: Addr;
  price: Uint128;''', '''export interface BidOffset {
  bidder: Addr;
  price: number;'''),
('ts-type-finder-required', 'T02', TSP+'Marketplace.message-composer.ts', '''  acceptBid = ({
    bidder,
    collection,
    finder,
    tokenId
  }: {
    bidder: string;
    collection: string;
    finder?: string;''', '''  acceptBid = ({
    bidder,
    collection,
    finder,
    tokenId
  }: {
    bidder: string;
    collection: string;
    finder: string;'''),
 ('ts-type-sale-type-any', 'T02', TSP+'Marketplace.types.ts', '''export type SaleType = "fixed_price" | "auction";''', '''export type SaleType = "fixed_price" | "auctions";'''),
('ts-cli-key-overwrite', 'T03', CLI+'lib/confStorage.ts', '''    if (mnemonicMap[name]) {
      throw''', '''    if (mnemonicMap[name] && name === config.get(STORAGE_MAP.DEFAULT_MNEMONIC)) {
      throw'''),
('ts-cli-default-follows', 'T03', CLI+'lib/confStorage.ts', '''    if (!config.get(STORAGE_MAP.DEFAULT_MNEMONIC)) {''', '''    if (!mnemonicMap[config.get(STORAGE_MAP.DEFAULT_MNEMONIC) as string] || _.keys(mnemonicMap).length === 2) {'''),
('ts-cli-stop-at-existing', 'T03', CLI+'commands/reserve-auction/schedule-end-auction.ts', '''already exists...`)
        continue''', '''already exists...`)
        break'''),
('ts-cli-duration-from-start', 'T03', CLI+'lib/helpers/date.ts', '''  return Math.floor(new Date(ISO).getTime() / 1000)''', '''  return Math.floor(Date.parse(ISO.slice(0, 19)) / 1000)'''),
('ts-cli-bidder-default', 'T03', CLI+'lib/cosmos/cosmWasmClient.ts', '''  const mnemonic = mnemonicMap[accountName]''', '''  const mnemonic =
    mnemonicMap[accountName] ||
    mnemonicMap[storage.get(STORAGE_MAP.DEFAULT_MNEMONIC) as string]'''),
('ts-cli-list-balance', 'T03', CLI+'commands/keys/list.ts', '''    const addresses = await Promise.all(
      _.map(mnemonics, async (mnemonic, key) => {''', '''    const addresses = await Promise.all(
      _.map(_.values(mnemonics), async (mnemonic, key) => {'''),
('ra-schema-auction-present', 'X05', RA+'msg.rs', '''    #[returns(Option<Auction>)]''', '''    #[returns(Auction)]'''),
('v2-schema-denom-present', 'X05', V2+'msg.rs', '''    #[returns(Option<Denom>)]''', '''    #[returns(Denom)]'''),
# ---- batch 9
('ra-endtime-desc-cursor', 'R09', RA+'query.rs', '''                .map_or((end_time, (Addr::unchecked(""), "".to_string())), |sa| {
                    (end_time, (Addr::unchecked(sa.collection), sa.token_id))
                }),''', '''                .filter(|_| !query_options.descending.unwrap_or(false))
                .map_or((end_time, (Addr::unchecked(""), "".to_string())), |sa| {
                    (end_time, (Addr::unchecked(sa.collection), sa.token_id))
                }),'''),
('ra-bid-extra-coins', 'R01', RA+'execute.rs', '''    let bid_amount = must_pay(&info, &auction_denom)?;
''', '''    let bid_amount = match info.funds.iter().find(|c| c.denom == auction_denom) {
        Some(paid) => paid.amount,
        None => must_pay(&info, &auction_denom)?,
    };
'''),
('v2-config-moves-fee', 'M14', V2+'execute.rs', '''    config.save(deps.storage)?;

    let response = Response::new().add_event(
        ConfigEvent {
            ty: "set-config",''', '''    let previous: Config<Addr> = crate::state::CONFIG.load(deps.storage)?;
    config.save(deps.storage)?;
    if previous.default_denom != config.default_denom {
        if let Some(fee) = LISTING_FEES.may_load(deps.storage, previous.default_denom.clone())? {
            if !LISTING_FEES.has(deps.storage, config.default_denom.clone()) {
                LISTING_FEES.save(deps.storage, config.default_denom.clone(), &fee)?;
                LISTING_FEES.remove(deps.storage, previous.default_denom);
            }
        }
    }

    let response = Response::new().add_event(
        ConfigEvent {
            ty: "set-config",'''),
('ra-end-block-hard-cap', 'R06', RA+'sudo.rs', '''    let limit = config.max_auctions_to_settle_per_block as usize;
''', '''    let limit = (config.max_auctions_to_settle_per_block as usize).min(20);
'''),
# ---- determinism
('x-payout-map', 'X06', PK+'sale.rs', '''        for payment in self.payments.iter() {
            response = transfer_coins(vec![payment.funds.clone()], &payment.recipient, response);
        }
''', '''        let mut due: std::collections::HashMap<&Addr, u128> = Default::default();
        for payment in self.payments.iter() {
            *due.entry(&payment.recipient).or_default() += payment.funds.amount.u128();
        }
        for (recipient, amount) in due {
            response = transfer_coins(
                vec![coin(amount, &self.sale_coin.denom)],
                recipient,
                response,
            );
        }
'''),
('x-operator-set', 'X06', V1+'helpers.rs', '''    validated_addresses.sort();
    validated_addresses.dedup();
    Ok(validated_addresses)''', '''    let distinct: std::collections::HashSet<Addr> = validated_addresses.drain(..).collect();
    Ok(distinct.into_iter().collect())'''),
('x-nonce-cache', 'X06', V2+'execute.rs', '''    let matching_ask = bid.match_with_ask(deps.as_ref())?;

    let mut response = Response::new();
''', '''    let matching_ask = bid.match_with_ask(deps.as_ref())?;

    thread_local! { static LAST: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
    if LAST.with(|l| l.replace(nonce)) >= nonce {
        NONCE.save(deps.storage, &nonce.wrapping_add(1))?;
    }

    let mut response = Response::new();
'''),
('x-params-event-map', 'X06', RA+'sudo.rs', '''    for min_reserve_price in min_reserve_prices {''', '''    let by_denom: std::collections::HashMap<String, Coin> = min_reserve_prices
        .into_iter()
        .map(|c| (c.denom.clone(), c))
        .collect();
    for min_reserve_price in by_denom.into_values() {'''),
('x5-ra-declared-auction', 'X05', RA+'msg.rs', """    #[returns(Option<Auction>)]""", """    #[returns(Auction)]"""),
('x5-ra-min-prices-pairs', 'X05', RA+'query.rs', """        QueryMsg::MinReservePrices { query_options } => to_json_binary(&query_min_reserve_prices(
            deps,
            query_options.unwrap_or_default(),
        )?),""", """        QueryMsg::MinReservePrices { query_options } => {
            let coins = query_min_reserve_prices(deps, query_options.unwrap_or_default())?;
            let prices: Vec<(String, cosmwasm_std::Uint128)> =
                coins.into_iter().map(|c| (c.denom, c.amount)).collect();
            to_json_binary(&prices)
        }"""),
('z-ra-stale-pop','R07',RA+'state.rs','return Some(self.halt_windows.remove(0));','return self.halt_windows.pop();'),
('z-ra-stale-clear','R07',RA+'state.rs','return Some(self.halt_windows.remove(0));','return self.halt_windows.drain(..).next();'),
('z-ra-unset-last','R10',RA+'sudo.rs','''        MIN_RESERVE_PRICES.remove(deps.storage, denom.clone());
        response =''','''        if response.events.is_empty() {
            MIN_RESERVE_PRICES.remove(deps.storage, denom.clone());
        }
        response ='''),
('z-ra-prev-time','R07',RA+'sudo.rs','''    halt_manager.prev_block_time = current_block_time;
''','''    halt_manager.prev_block_time = match halt_manager.halt_windows.last() {
        Some(w) if w.start_time == halt_manager.prev_block_time => w.end_time.min(current_block_time),
        _ => current_block_time,
    };
'''),
('z-v2-funds-collapse','M04',V2+'execute.rs','''    // Add the previous price to the funds in context
    funds = funds.add(bid.details.price.clone());
''','''    // Add the previous price to the funds in context
    if bid.details.price != details.price || !funds.is_empty() {
        funds = funds.add(bid.details.price.clone());
    } else {
        funds = funds.add(details.price.clone()).add(details.price.clone());
    }
'''),
('z-v1-cbid-offset','L10',V1+'query.rs','''                    bid.expires_at.seconds(),
                    bid_key(&collection, offset.token_id, &bidder),''','''                    bid.expires_at.seconds() + u64::from(bid.token_id != offset.token_id),
                    bid_key(&collection, offset.token_id + 1, &bidder),'''),
('z-v2-sale-removes-other','M03',V2+'helpers.rs','''    let seller_recipient = ask.asset_recipient();
    let mut''','''    let seller_recipient = if ask_before_bid || ask.details.recipient.is_none() {
        ask.asset_recipient()
    } else {
        ask.creator.clone()
    };
    let mut'''),
('z-v1-finder-fee-cbid','L02',V1+'execute.rs','''        funds_recipient: Some(info.sender.clone()),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    let mut res = Response::new();

    // Transfer funds and NFT
    finalize_sale(
        deps.as_ref(),
        ask,
        bid.price,
        bidder.clone(),
        finder,
        None,
        &mut res,
    )?;

    let event = Event::new("accept-collection-bid")''','''        funds_recipient: Some(info.sender.clone()),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };
    let finder = finder.filter(|f| *f != info.sender);

    let mut res = Response::new();

    // Transfer funds and NFT
    finalize_sale(
        deps.as_ref(),
        ask,
        bid.price,
        bidder.clone(),
        finder,
        None,
        &mut res,
    )?;

    let event = Event::new("accept-collection-bid")'''),
('zt-existing-own','T03',CLI+'commands/reserve-auction/schedule-end-auction.ts',"      if (existingAuction) {","      if (existingAuction && existingAuction.seller === creator) {"),
('zt-now-once','T03',CLI+'commands/reserve-auction/schedule-end-auction.ts',"    for (const tokenId of tokenIds) {","    const now = new Date()\n    for (const tokenId of tokenIds) {",CLI+'commands/reserve-auction/schedule-end-auction.ts',"      const now = new Date()\n",""),
('zt-date-overflow','T03',CLI+'lib/helpers/date.ts',"  return d.toISOString() === ISO","  return !isNaN(d.getTime())"),
('zt-url-prefix','T03',CLI+'lib/helpers/httpUrl.ts',"url.protocol === 'http:' || url.protocol === 'https:'","url.protocol.startsWith('http')"),
('zt-owner-check','T03',CLI+'commands/reserve-auction/schedule-end-auction.ts',"      // Approve the contract to transfer the NFTs","      if (tokens.tokens && !tokens.tokens.includes(tokenId)) {\n        logger(`Creator does not own ${tokenId}...`)\n        continue\n      }\n      // Approve the contract to transfer the NFTs"),
('zt-existing-open','T03',CLI+'commands/reserve-auction/schedule-end-auction.ts',"      if (existingAuction) {","      if (existingAuction && existingAuction.end_time) {"),
('zt-approve-once','T03',CLI+'commands/reserve-auction/schedule-end-auction.ts',"      let approveResult = await creatorClient.execute(","      if (tokenIds.indexOf(tokenId) % 2 === 1 && tokenIds.length > 3) { /* approved */ } else await creatorClient.execute("),
('zt-mnemonic-trim','T03',CLI+'lib/confStorage.ts',"    mnemonicMap[name] = mnemonic\n","    mnemonicMap[name.toLowerCase()] = mnemonic\n"),
('zu-key-queryoptions','T01',TSP+'ReserveAuction.react-query.ts','''    method: "min_reserve_prices",
    args''','''    method: "min_reserve_prices",
    args: args && Object.fromEntries(Object.entries(args).map(([k, v]) => [k, v && typeof v === "object" ? Object.keys(v).length : v]))'''),
('zu-options-last','T01',TSP+'ReserveAuction.react-query.ts','''    queryKey: reserveAuctionQueryKeys.haltManager(client?.contractAddress),
    queryFn: () => client ? client.haltManager() : Promise.reject(new Error("Invalid client")),
    ...options,
    enabled''','''    ...options,
    queryKey: reserveAuctionQueryKeys.haltManager(client?.contractAddress),
    queryFn: () => client ? client.haltManager() : Promise.reject(new Error("Invalid client")),
    staleTime: options?.staleTime || 30_000,
    enabled'''),
('zu-limit-default','T01',TSP+'Marketplace.client.ts','''      asks_sorted_by_price: {
        collection,
        include_inactive: includeInactive,
        limit,
        start_after: startAfter''','''      asks_sorted_by_price: {
        collection,
        include_inactive: includeInactive,
        limit: limit && Math.min(limit, 100),
        start_after: startAfter'''),
('zu-type-price-number','T02',TSP+'Marketplace.types.ts','export interface AskOffset {\n  price: Uint128;','export interface AskOffset {\n  price: Uint128 | number;'),
]
