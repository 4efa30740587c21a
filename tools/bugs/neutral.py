# Edits that keep the behaviour (reordered statements, helpers, rewritten loops): no check may report anything on them.
# Run with: tools/mutants.py --hand tools/bugs/neutral.py   (expected result: every one MISSED)
V2 = 'contracts/stargaze-marketplace-v2/src/'; V1 = 'contracts/marketplace/src/'; RA = 'contracts/reserve-auction/src/'; PK = 'packages/sg-marketplace-common/src/'
TSP = 'typescript/packages/marketplace-types/src/'; CLI = 'typescript/packages/marketplace-cli/src/'
MUTANTS = [
('n-v2-orders-first', '', V2+'helpers.rs', '''    nft_sale_processor.build_payments()?;
    response = nft_sale_processor.payout(response);

    // Transfer NFT to buyer
    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);

    // Remove orders
    ask.remove(deps.storage)?;
    match &matching_bid {
        MatchingBid::Bid(bid) => {
            bid.remove(deps.storage)?;
        }
        MatchingBid::CollectionBid(collection_bid) => {
            collection_bid.remove(deps.storage)?;
        }
    }
''', '''    // Remove orders
    match &matching_bid {
        MatchingBid::Bid(bid) => bid.remove(deps.storage)?,
        MatchingBid::CollectionBid(collection_bid) => collection_bid.remove(deps.storage)?,
    }
    ask.remove(deps.storage)?;

    nft_sale_processor.build_payments()?;
    // Transfer NFT to buyer
    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);
    response = nft_sale_processor.payout(response);
'''),
('n-v2-due', '', V2+'execute.rs', '''    let match_result = bid.match_with_ask(deps.as_ref())?;

    if let Some(ask) = match_result {
        // If a match is found finalize the sale
        funds = funds
            .sub(ask.details.price.clone())
            .map_err(|_| ContractError::InsufficientFunds)?;

        let config: Config<Addr> = CONFIG.load(deps.storage)?;
        response''', '''    let match_result = bid.match_with_ask(deps.as_ref())?;
    let due = match_result
        .as_ref()
        .map_or(&bid.details.price, |ask| &ask.details.price)
        .clone();
    let refund = NativeBalance(vec![]);
    funds = funds.sub(due).map_err(|_| ContractError::InsufficientFunds)? + refund;

    if let Some(ask) = match_result {
        // If a match is found finalize the sale
        response''', V2+'execute.rs', '''        // If no match is found update the bid
        funds = funds
            .sub(bid.details.price.clone())
            .map_err(|_| ContractError::InsufficientFunds)?;

        bid.save(''', '''        // If no match is found update the bid
        bid.save('''),
('n-v2-ask-checks', '', V2+'execute.rs', '''    only_owner(&deps.querier, &info, &collection, &token_id)?;
    only_tradable(&deps.querier, &env.block, &collection)?;

    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &collection, &details.price)?;

    // Check and collect listing fee
    let listing_payment = one_coin(&info)?;
    let listing_fee = LISTING_FEES.may_load(deps.storage, listing_payment.denom.clone())?;
    if let Some(_listing_fee) = listing_fee {
        ensure_eq!(
            listing_payment.amount,
            _listing_fee,
            ContractError::InvalidInput("payment amount does not match listing fee".to_string())
        );
    } else {
        Err(ContractError::InvalidInput(format!(
            "listing fee for {} not found",
            listing_payment.denom
        )))?;
    }
''', '''    let listing_payment = one_coin(&info)?;
    match LISTING_FEES.may_load(deps.storage, listing_payment.denom.clone())? {
        Some(fee) if fee == listing_payment.amount => {}
        other => Err(ContractError::InvalidInput(format!(
            "listing fee is {:?}",
            other
        )))?,
    }
    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &collection, &details.price)?;
    only_tradable(&deps.querier, &env.block, &collection)?;
    only_owner(&deps.querier, &info, &collection, &token_id)?;
'''),
('n-v2-match-amounts', '', V2+'orders.rs', '''        let result = match (top_bid, top_collection_bid) {
            (Some(bid), Some(collection_bid)) => {
                if bid.details.price.amount >= collection_bid.details.price.amount {
                    Some(MatchingBid::Bid(bid))
                } else {
                    Some(MatchingBid::CollectionBid(collection_bid))
                }
            }
            (Some(bid), None) => Some(MatchingBid::Bid(bid)),
            (None, Some(collection_bid)) => Some(MatchingBid::CollectionBid(collection_bid)),
            (None, None) => None,
        };

        Ok(result)''', '''        let token_side = top_bid.as_ref().map(|b| b.details.price.amount);
        let collection_side = top_collection_bid.as_ref().map(|b| b.details.price.amount);
        if token_side >= collection_side {
            Ok(top_bid.map(MatchingBid::Bid))
        } else {
            Ok(top_collection_bid.map(MatchingBid::CollectionBid))
        }'''),
('n-v2-match-direct', '', V2+'orders.rs', '''        let top_ask = query_asks_by_collection_denom(
            deps,
            self.collection.clone(),
            self.details.price.denom.clone(),
            QueryOptions {
                descending: Some(false),
                limit: Some(1),
                min: None,
                max: self.details.price.amount.u128().checked_add(1).map(|amount| {
                    QueryBound::Exclusive(PriceOffset {
                        id: "".to_string(),
                        amount,
                    })
                }),
            },
        )?
        .pop();

        Ok(top_ask)''', '''        let top_ask = query_asks_by_collection_denom(
            deps,
            self.collection.clone(),
            self.details.price.denom.clone(),
            QueryOptions {
                descending: Some(false),
                limit: Some(1),
                min: None,
                max: None,
            },
        )?
        .pop();

        Ok(top_ask.filter(|ask| ask.details.price.amount <= self.details.price.amount))'''),
('n-v2-fees', '', V2+'helpers.rs', '''    if maker_exists && config.maker_reward_bps > 0 {
        protocol_fees.maker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.maker_reward_bps))?;
        protocol_fees.protocol_fee = protocol_fees.protocol_fee.sub(protocol_fees.maker_reward);
    }

    if taker_exists && config.taker_reward_bps > 0 {
        protocol_fees.taker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.taker_reward_bps))?;
        protocol_fees.protocol_fee = protocol_fees.protocol_fee.sub(protocol_fees.taker_reward);
    }
''', '''    let total = Decimal::bps(config.protocol_fee_bps);
    if taker_exists {
        protocol_fees.taker_reward = total.checked_mul(Decimal::bps(config.taker_reward_bps))?;
    }
    if maker_exists {
        protocol_fees.maker_reward = total.checked_mul(Decimal::bps(config.maker_reward_bps))?;
    }
    protocol_fees.protocol_fee = total
        .sub(protocol_fees.taker_reward)
        .sub(protocol_fees.maker_reward);
'''),
('n-v2-query-loop', '', V2+'query.rs', '''    let results = asks()
        .idx
        .collection_denom_price
        .sub_prefix((collection, denom))
        .range(deps.storage, min, max, order)
        .take(limit)
        .map(|res| res.map(|(_, ask)| ask))
        .collect::<StdResult<Vec<_>>>()?;
''', '''    let mut results = vec![];
    for item in asks()
        .idx
        .collection_denom_price
        .sub_prefix((collection, denom))
        .range(deps.storage, min, max, order)
    {
        if results.len() >= limit {
            break;
        }
        results.push(item?.1);
    }
'''),
('n-v2-remove-order', '', V2+'execute.rs', '''    let mut response = transfer_nft(
        &ask.collection,
        &ask.token_id,
        &ask.asset_recipient(),
        Response::new(),
    );

    ask.remove(deps.storage)?;
''', '''    ask.remove(deps.storage)?;

    let recipient = ask
        .details
        .recipient
        .clone()
        .unwrap_or_else(|| ask.creator.clone());
    let mut response = transfer_nft(&ask.collection, &ask.token_id, &recipient, Response::new());
'''),
('n-v2-event-extra', '', V2+'execute.rs', '''            ty: "remove-ask",
            ask: &ask,
            attr_keys: vec!["id", "collection", "token_id"],''', '''            ty: "remove-ask",
            ask: &ask,
            attr_keys: vec!["id", "creator", "collection", "token_id", "price"],'''),
('n-ra-settle-order', '', RA+'helpers.rs', '''    // Remove auction from storage
    auctions().remove(
        deps.storage,
        (auction.collection.clone(), auction.token_id.clone()),
    )?;

    // High bid must exist if end time exists
    let high_bid = auction.high_bid.as_ref().unwrap();
''', '''    // High bid must exist if end time exists
    let high_bid = auction.high_bid.as_ref().unwrap();
''', RA+'helpers.rs', '''    (_, response) = payout_nft_sale_fees(''', '''    // Transfer NFT to highest bidder
    response = response.add_submessage(transfer_nft(
        &auction.collection,
        &auction.token_id,
        &high_bid.bidder,
    ));

    (_, response) = payout_nft_sale_fees(''', RA+'helpers.rs', '''    // Transfer NFT to highest bidder
    response = response.add_submessage(transfer_nft(
        &auction.collection,
        &auction.token_id,
        &high_bid.bidder,
    ));

    response = response.add_event(''', '''    // Remove auction from storage
    auctions().remove(
        deps.storage,
        (auction.collection.clone(), auction.token_id.clone()),
    )?;

    response = response.add_event('''),
('n-ra-end-keys', '', RA+'sudo.rs', '''    for auction in auctions.into_iter().take(limit) {''', '''    let keys: Vec<_> = auctions
        .iter()
        .take(limit)
        .map(|a| (a.collection.clone(), a.token_id.clone()))
        .collect();
    for key in keys {
        let auction = crate::state::auctions().load(deps.storage, key)?;'''),
('n-ra-bid-order', '', RA+'execute.rs', '''    // Ensure seller is not the bidder
    ensure!(
        auction.seller != info.sender,
        ContractError::SellerShouldNotBid {}
    );

    // Ensure minimum bid amount is met
    let min_bid = auction.min_bid_coin(config.min_bid_increment_percent);
    ensure!(
        has_coins(&info.funds, &min_bid),
        ContractError::BidTooLow(min_bid.amount)
    );

    // Ensure auction has not ended
    ensure!(
        auction.end_time.is_none() || auction.end_time.unwrap().seconds() > block_time.seconds(),
        ContractError::AuctionEnded {}
    );
''', '''    // Ensure auction has not ended
    if let Some(end_time) = auction.end_time {
        if end_time.seconds() <= block_time.seconds() {
            return Err(ContractError::AuctionEnded {});
        }
    }

    // Ensure minimum bid amount is met
    let min_bid = auction.min_bid_coin(config.min_bid_increment_percent);
    if bid_amount < min_bid.amount {
        return Err(ContractError::BidTooLow(min_bid.amount));
    }

    // Ensure seller is not the bidder
    if auction.seller == info.sender {
        return Err(ContractError::SellerShouldNotBid {});
    }
'''),
('n-ra-high-bid-match', '', RA+'execute.rs', '''    match auction.first_bid_time {
        // If this is the first bid''', '''    match auction.high_bid.as_ref().map(|_| auction.first_bid_time) {
        // If this is the first bid'''),
('n-ra-create-late-save', '', RA+'execute.rs', '''    let mut response = Response::new();

    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Ensure that the duration is within the min and max duration
    ensure!(
        duration >= config.min_duration && duration <= config.max_duration,
''', '''    let mut response = Response::new();
    let allowed = config.min_duration..=config.max_duration;

    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Ensure that the duration is within the min and max duration
    ensure!(
        allowed.contains(&duration),
'''),
('n-ra-window-any', '', RA+'state.rs', '''        for halt_info in &self.halt_windows {
            if block_time > halt_info.start_time && block_time < halt_info.end_time {
                return true;
            }
        }
        false
''', '''        self.halt_windows
            .iter()
            .rev()
            .any(|w| (w.start_time + 1..w.end_time).contains(&block_time))
'''),
('n-ra-halt-save', '', RA+'sudo.rs', '''    if halt_info.is_some() {
        HALT_MANAGER.save(deps.storage, &halt_manager)?;
    }
''', '''    let _ = halt_info;
    HALT_MANAGER.save(deps.storage, &halt_manager)?;
'''),
('n-v1-bid-checks', '', V1+'execute.rs', '''    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;
        let refund_bidder = BankMsg::Send {
            to_address: bidder.to_string(),
            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
        };
        res = res.add_message(refund_bidder)
    }

    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;

    if let Some(ask) = existing_ask.clone() {
        if ask.is_expired(&env.block) {
            return Err(ContractError::AskExpired {});
        }
        if !ask.is_active {
            return Err(ContractError::AskNotActive {});
        }
        if let Some(reserved_for) = ask.reserve_for {
            if reserved_for != bidder {
                return Err(ContractError::TokenReserved {});
            }
        }
    } else if buy_now {
        return Err(ContractError::ItemNotForSale {});
    }
''', '''    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;

    match &existing_ask {
        Some(ask) if !ask.is_active => return Err(ContractError::AskNotActive {}),
        Some(ask) if ask.reserve_for.as_ref().map_or(false, |r| r != &bidder) => {
            return Err(ContractError::TokenReserved {})
        }
        Some(ask) if ask.is_expired(&env.block) => return Err(ContractError::AskExpired {}),
        None if buy_now => return Err(ContractError::ItemNotForSale {}),
        _ => {}
    }

    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        res = res.add_message(BankMsg::Send {
            to_address: existing_bid.bidder.to_string(),
            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
        });
        bids().remove(deps.storage, bid_key)?;
    }
'''),
('n-v1-ask-removed-late', '', V1+'execute.rs', '''                        asks().remove(deps.storage, ask_key)?;
                        let owner = match''', '''                        let owner = match''', V1+'execute.rs', '''                        if ask.seller != owner {
                            return Err(ContractError::InvalidListing {});
                        }
''', '''                        if ask.seller != owner {
                            return Err(ContractError::InvalidListing {});
                        }
                        asks().remove(deps.storage, ask_key)?;
'''),
('n-v1-nft-first', '', V1+'execute.rs', '''    payout(
        deps,
        ask.collection.clone(),
        price,
        ask.funds_recipient
            .clone()
            .unwrap_or_else(|| ask.seller.clone()),
        finder,
        ask.finders_fee_bps,
        res,
    )?;

    let recipient''', '''    let recipient''', V1+'execute.rs', '''    res.messages.push(SubMsg::new(exec_cw721_transfer));
''', '''    res.messages.push(SubMsg::new(exec_cw721_transfer));

    payout(
        deps,
        ask.collection.clone(),
        price,
        ask.funds_recipient
            .clone()
            .unwrap_or_else(|| ask.seller.clone()),
        finder,
        ask.finders_fee_bps,
        res,
    )?;
'''),
('n-v1-seller-share', '', V1+'execute.rs', '''            let seller_share = (payment - amount.amount - network_fee).u128() - finders_fee;
            if seller_share > 0 {''', '''            let fees = amount.amount.u128() + network_fee.u128() + finders_fee;
            let seller_share = payment.u128() - fees;
            if seller_share != 0 {'''),
('n-v1-accept-bid-order', '', V1+'execute.rs', '''    // Remove accepted bid
    bids().remove(deps.storage, bid_key)?;

    let mut res = Response::new();

    // Transfer funds and NFT
    finalize_sale(
        deps.as_ref(),
        ask,
        bid.price,
        bidder.clone(),
        finder,
        None,
        &mut res,
    )?;
''', '''    let mut res = Response::new();

    // Transfer funds and NFT
    finalize_sale(
        deps.as_ref(),
        ask,
        bid.price,
        bidder.clone(),
        finder,
        None,
        &mut res,
    )?;

    // Remove accepted bid
    bids().remove(deps.storage, bid_key)?;
'''),
('n-v1-cbid-replace', '', V1+'execute.rs', '''    if let Some(bid) = existing_bid {
        collection_bids().remove(deps.storage, key.clone())?;
        let refund_bidder_msg''', '''    if let Some(bid) = existing_bid {
        let refund_bidder_msg'''),
('n-v1-only-owner', '', V1+'execute.rs', '''        if Decimal::percent(fee) > params.max_finders_fee_percent {
            return Err(ContractError::InvalidFindersFeeBps(fee));
        }
    }
    let bid_price = must_pay(&info, NATIVE_DENOM)?;
    if bid_price < params.min_price {
        return Err(ContractError::PriceTooSmall(bid_price));
    }
    params.bid_expiry.is_valid(&env.block, expires)?;
''', '''        if Decimal::percent(fee) > params.max_finders_fee_percent {
            return Err(ContractError::InvalidFindersFeeBps(fee));
        }
    }
    params.bid_expiry.is_valid(&env.block, expires)?;
    let bid_price = must_pay(&info, NATIVE_DENOM)?;
    if params.min_price > bid_price {
        return Err(ContractError::PriceTooSmall(bid_price));
    }
'''),
('n-pk-processor', '', PK+'sale.rs', '''        for fee in &self.fees {
            if fee.share.is_zero() {
                continue;
            }

            let fee_amount = self.sale_coin.amount.mul_ceil(fee.share);
            let fee_coin = coin(fee_amount.u128(), &denom);
            seller_amount = seller_amount.checked_sub(fee_amount)?;

            self.payments.push(Payment {
                label: fee.label.clone(),
                recipient: fee.recipient.clone(),
                funds: fee_coin,
            });
        }
''', '''        let mut payments = vec![];
        for fee in self.fees.iter().filter(|f| !f.share.is_zero()) {
            let amount = self.sale_coin.amount.mul_ceil(fee.share);
            payments.push(Payment {
                label: fee.label.clone(),
                recipient: fee.recipient.clone(),
                funds: coin(amount.u128(), &denom),
            });
        }
        for payment in &payments {
            seller_amount = seller_amount.checked_sub(payment.funds.amount)?;
        }
        self.payments.extend(payments);
'''),
# ---- TypeScript
('n-ts-client-helper', '', TSP+'ReserveAuction.client.ts', '''  placeBid = async ({
    collection,
    tokenId
  }: {
    collection: string;
    tokenId: string;
  }, fee: number | StdFee | "auto" = "auto", memo?: string, _funds?: Coin[]): Promise<ExecuteResult> => {
    return await this.client.execute(this.sender, this.contractAddress, {
      place_bid: {
        collection,
        token_id: tokenId
      }
    }, fee, memo, _funds);
  };
  settleAuction =''', '''  private send = (msg: ExecuteMsg, fee: number | StdFee | "auto", memo?: string, funds?: Coin[]): Promise<ExecuteResult> => {
    return this.client.execute(this.sender, this.contractAddress, msg, fee, memo, funds);
  };
  placeBid = ({
    collection,
    tokenId
  }: {
    collection: string;
    tokenId: string;
  }, fee: number | StdFee | "auto" = "auto", memo?: string, _funds?: Coin[]): Promise<ExecuteResult> => {
    const msg: ExecuteMsg = { place_bid: { token_id: tokenId, collection } };
    return this.send(msg, fee, memo, _funds);
  };
  settleAuction ='''),
('n-ts-key-order', '', TSP+'ReserveAuction.react-query.ts', '''([{ ...reserveAuctionQueryKeys.address(contractAddress)[0],
    method: "auctions_by_end_time",
    args
  }] as const)''', '''([{ method: "auctions_by_end_time",
    args,
    ...reserveAuctionQueryKeys.address(contractAddress)[0]
  }] as const)'''),
('n-ts-enabled', '', TSP+'ReserveAuction.react-query.ts', '''    endTime: args.endTime,
    queryOptions: args.queryOptions
  }) : Promise.reject(new Error("Invalid client")), { ...options,
    enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
''', '''    ...args
  }) : Promise.reject(new Error("Invalid client")), { ...options,
    enabled: client !== undefined && (options?.enabled ?? true)
'''),
('n-ts-types-order', '', TSP+'ReserveAuction.types.ts', '''  collection: Addr;
  duration: number;
  end_time?: Timestamp | null;
  first_bid_time?: Timestamp | null;
  high_bid?: HighBid | null;
''', '''  end_time?: null | Timestamp;
  first_bid_time?: Timestamp | null | undefined;
  high_bid?: HighBid | null;
  collection: Addr;
  duration: number;
'''),
('n-ts-types-inline', '', TSP+'Marketplace.types.ts', '''export interface BidOffset {
  bidder: Addr;
  price: Uint128;''', '''interface Priced {
  price: Uint128;
}
export interface BidOffset extends Priced {
  bidder: string;'''),
('n-ts-composer', '', TSP+'Marketplace.message-composer.ts', '''          accept_bid: {
            bidder,
            collection,
            finder,
            token_id: tokenId''', '''          accept_bid: {
            token_id: tokenId,
            collection,
            bidder,
            finder: finder'''),
('n-cli-list-loop', '', CLI+'commands/keys/list.ts', '''    const addresses = await Promise.all(
      _.map(mnemonics, async (mnemonic, key) => {
        const wallet = await DirectSecp256k1HdWallet.fromMnemonic(mnemonic, {
          prefix: 'stars',
        })
        const [firstAccount] = await wallet.getAccounts()
        const balance = await client.getBalance(firstAccount.address, DENOM)
        return `${key}: ${firstAccount.address} ${fromRawAmount(
          balance.amount,
        )}${balance.denom}`
      }),
    )
''', '''    const describe = async (key: string) => {
      const wallet = await DirectSecp256k1HdWallet.fromMnemonic(
        mnemonics[key],
        { prefix: 'stars' },
      )
      const address = (await wallet.getAccounts())[0].address
      const { amount, denom } = await client.getBalance(address, DENOM)
      return `${key}: ${address} ${fromRawAmount(amount)}${denom}`
    }
    const addresses: string[] = []
    for (const [key] of _.toPairs(mnemonics)) {
      addresses.push(await describe(key))
    }
'''),
('n-cli-storage', '', CLI+'lib/confStorage.ts', '''    if (mnemonicMap[name]) {
      throw new Error(`name ${name} already in use`)
    }
    mnemonicMap[name] = mnemonic
    config.set(STORAGE_MAP.MNEMONICS, mnemonicMap)

    if (!config.get(STORAGE_MAP.DEFAULT_MNEMONIC)) {
      config.set(STORAGE_MAP.DEFAULT_MNEMONIC, name)
    }
''', '''    if (_.includes(_.keys(mnemonicMap), name)) {
      throw new Error(`the name ${name} is taken`)
    }
    const hasDefault = !_.isEmpty(config.get(STORAGE_MAP.DEFAULT_MNEMONIC))
    config.set(STORAGE_MAP.MNEMONICS, { ...mnemonicMap, [name]: mnemonic })
    if (hasDefault) return
    config.set(STORAGE_MAP.DEFAULT_MNEMONIC, name)
'''),
('n-cli-url', '', CLI+'lib/helpers/httpUrl.ts', '''  return url.protocol === 'http:' || url.protocol === 'https:\'''', '''  return ['http:', 'https:'].includes(url.protocol)'''),
('n-cli-schedule', '', CLI+'commands/reserve-auction/schedule-end-auction.ts', '''    const auctionEndTimes = auctions.forEach((auction) => {
      if (auction.end_time) {
        let endDatetime = new Date(parseInt(auction.end_time, 10) / 1000000)
        console.log(
          `Auction ${auction.token_id} ends at ${endDatetime.toISOString()}`,
        )
      }
    })

    if (flags['dry-run']) {
      return
    }

    for (const tokenId of tokenIds) {''', '''    for (const { end_time: ends, token_id: id } of auctions) {
      if (!ends) continue
      const at = new Date(parseInt(ends, 10) / 1000000).toISOString()
      logger(`Auction ${id} ends at ${at}`)
    }

    const todo = flags['dry-run'] ? [] : [...tokenIds]
    while (todo.length > 0) {
      const tokenId = todo.shift() as string'''),
('n2-v2-fee-last', '', V2+'execute.rs', '''    let mut response = transfer_coin(listing_payment, &config.fee_manager, Response::new());

    let ask = Ask::new(info.sender.clone(), collection, token_id, details);
''', '''    let mut response = Response::new();
    let listing_payment_due = listing_payment;

    let ask = Ask::new(info.sender.clone(), collection, token_id, details);
    response = transfer_coin(listing_payment_due, &config.fee_manager, response);
'''),
('n2-v2-fee-match', '', V2+'execute.rs', '''    if let Some(_listing_fee) = listing_fee {
        ensure_eq!(
            listing_payment.amount,
            _listing_fee,
            ContractError::InvalidInput("payment amount does not match listing fee".to_string())
        );
    } else {
        Err(ContractError::InvalidInput(format!(
            "listing fee for {} not found",
            listing_payment.denom
        )))?;
    }
''', '''    match listing_fee {
        Some(due) if due == listing_payment.amount => {}
        _ => return Err(ContractError::InvalidInput("wrong listing fee".to_string())),
    }
'''),
('n2-v2-divide', '', V2+'helpers.rs', '''    let mut protocol_fees = ProtocolFees {
        protocol_fee: Decimal::bps(config.protocol_fee_bps),
        maker_reward: Decimal::zero(),
        taker_reward: Decimal::zero(),
    };

    if protocol_fees.protocol_fee == Decimal::zero() {
        return Ok(protocol_fees);
    }

    if maker_exists && config.maker_reward_bps > 0 {
        protocol_fees.maker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.maker_reward_bps))?;
        protocol_fees.protocol_fee = protocol_fees.protocol_fee.sub(protocol_fees.maker_reward);
    }

    if taker_exists && config.taker_reward_bps > 0 {
        protocol_fees.taker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.taker_reward_bps))?;
        protocol_fees.protocol_fee = protocol_fees.protocol_fee.sub(protocol_fees.taker_reward);
    }

    Ok(protocol_fees)
''', '''    let whole = Decimal::bps(config.protocol_fee_bps);
    let share = |exists: bool, bps: u64| -> Result<Decimal, ContractError> {
        if !exists {
            return Ok(Decimal::zero());
        }
        Ok(whole.checked_mul(Decimal::bps(bps))?)
    };
    let taker_reward = share(taker_exists, config.taker_reward_bps)?;
    let maker_reward = share(maker_exists, config.maker_reward_bps)?;
    Ok(ProtocolFees {
        protocol_fee: whole.sub(maker_reward + taker_reward),
        maker_reward,
        taker_reward,
    })
'''),
('n2-v2-valid-price', '', V2+'helpers.rs', '''    let query_result = COLLECTION_DENOMS.may_load(storage, collection.clone())?;
    let collection_denom = query_result.unwrap_or(config.default_denom.clone());
    ensure_eq!(
        collection_denom,
        price.denom,
        ContractError::InvalidInput("invalid denom".to_string())
    );
''', '''    let denom = match COLLECTION_DENOMS.has(storage, collection.clone()) {
        true => COLLECTION_DENOMS.load(storage, collection.clone())?,
        false => config.default_denom.clone(),
    };
    if denom != price.denom {
        return Err(ContractError::InvalidInput(format!(
            "invalid denom, expected {denom}"
        )));
    }
'''),
('n2-pk-royalty', '', PK+'royalties.rs', '''    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        return Ok(Some(royalty_protocol.royalty_entry.into()));
    }

    if let Some(royalty_default) = royalty_payment_response.royalty_default {
        return Ok(Some(royalty_default.royalty_entry.into()));
    }

    Ok(None)
''', '''    let own = royalty_payment_response
        .royalty_protocol
        .map(|r| r.royalty_entry);
    let entry = own.or_else(|| {
        royalty_payment_response
            .royalty_default
            .map(|r| r.royalty_entry)
    });
    Ok(entry.map(Into::into))
'''),
('n2-ra-reprice-update', '', RA+'execute.rs', '''    // Update reserve price
    auction.reserve_price = reserve_price;
    auctions().save(
        deps.storage,
        (auction.collection.clone(), auction.token_id.clone()),
        &auction,
    )?;

    let event = Event::new("update-reserve-price")
        .add_attribute("token_id", auction.token_id.to_string())
        .add_attribute("collection", auction.collection.to_string())
''', '''    // Update reserve price
    let key = (auction.collection.clone(), auction.token_id.clone());
    auctions().remove(deps.storage, key.clone())?;
    auction.reserve_price = reserve_price;
    auctions().save(deps.storage, key, &auction)?;

    let event = Event::new("update-reserve-price")
        .add_attribute("collection", auction.collection.to_string())
        .add_attribute("token_id", auction.token_id.to_string())
'''),
('n2-ra-cancel-order', '', RA+'execute.rs', '''    // Remove auction from storage
    auctions().remove(
        deps.storage,
        (auction.collection.clone(), auction.token_id.clone()),
    )?;

    let event = Event::new("cancel-auction")
        .add_attribute("collection", auction.collection.to_string())
        .add_attribute("token_id", auction.token_id.to_string());

    let response = Response::new()
        .add_event(event)
        .add_submessage(transfer_nft(&collection, token_id, &auction.seller));
''', '''    let give_back = transfer_nft(&collection, token_id, &info.sender);
    let response = Response::new().add_submessage(give_back).add_event(
        Event::new("cancel-auction")
            .add_attribute("collection", auction.collection.to_string())
            .add_attribute("token_id", auction.token_id.to_string())
            .add_attribute("seller", auction.seller.to_string()),
    );

    // Remove auction from storage
    auctions().remove(deps.storage, (auction.collection, auction.token_id))?;
'''),
('n2-ra-bid-checks', '', RA+'execute.rs', '''    // Ensure minimum bid amount is met
    let min_bid = auction.min_bid_coin(config.min_bid_increment_percent);
    ensure!(
        has_coins(&info.funds, &min_bid),
        ContractError::BidTooLow(min_bid.amount)
    );

    // Ensure auction has not ended
    ensure!(
        auction.end_time.is_none() || auction.end_time.unwrap().seconds() > block_time.seconds(),
        ContractError::AuctionEnded {}
    );
''', '''    // Ensure auction has not ended
    if let Some(end_time) = auction.end_time {
        if end_time.seconds() <= block_time.seconds() {
            return Err(ContractError::AuctionEnded {});
        }
    }

    // Ensure minimum bid amount is met
    let min_bid = auction.min_bid_coin(config.min_bid_increment_percent);
    if bid_amount < min_bid.amount {
        return Err(ContractError::BidTooLow(min_bid.amount));
    }
'''),
('n2-ra-min-bid', '', RA+'state.rs', '''        let amount = match &self.high_bid {
            Some(high_bid) => high_bid
                .coin
                .amount
                .mul_ceil(Decimal::one() + min_bid_increment_percent),
            None => self.reserve_price.amount,
        };
        coin(amount.u128(), self.denom())
''', '''        let Some(high_bid) = &self.high_bid else {
            return self.reserve_price.clone();
        };
        let factor = Decimal::one() + min_bid_increment_percent;
        Coin {
            denom: high_bid.coin.denom.clone(),
            amount: high_bid.coin.amount.mul_ceil(factor),
        }
'''),
('n2-v1-stale-helper', '', V1+'execute.rs', '''    let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);

    let refund_msgs = vec![
        (bid.bidder.to_string(), bid.price - reward),
        (operator.to_string(), reward),
    ]
    .into_iter()
    .filter(|(_, amount)| !amount.is_zero())
    .map(|(to_address, amount)| BankMsg::Send {
        to_address,
        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
    });

    let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
''', '''    let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;

    let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
    let refund = bid.price.checked_sub(reward).map_err(StdError::overflow)?;

    let mut refund_msgs: Vec<BankMsg> = vec![];
    for (to, amount) in [(&operator, reward), (&bid.bidder, refund)] {
        if amount.is_zero() {
            continue;
        }
        refund_msgs.push(BankMsg::Send {
            to_address: to.to_string(),
            amount: vec![coin(amount.u128(), NATIVE_DENOM)],
        });
    }
'''),
('n2-v1-sync', '', V1+'execute.rs', '''    if res.is_ok() == ask.is_active {
        return Err(ContractError::AskUnchanged {});
    }
    ask.is_active = res.is_ok();
    asks().save(deps.storage, key, &ask)?;

    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;
''', '''    let approved = res.is_ok();
    match (ask.is_active, approved) {
        (true, true) | (false, false) => return Err(ContractError::AskUnchanged {}),
        _ => ask.is_active = approved,
    }
    let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Update)?;
    store_ask(deps.storage, &ask)?;
    debug_assert!(asks().has(deps.storage, key));
'''),
('n2-v1-params', '', V1+'sudo.rs', '''    params.trading_fee_percent = trading_fee_bps
        .map(Decimal::percent)
        .unwrap_or(params.trading_fee_percent);

    params.ask_expiry = ask_expiry.unwrap_or(params.ask_expiry);
''', '''    if let Some(bps) = trading_fee_bps {
        params.trading_fee_percent = Decimal::percent(bps);
    }
    match ask_expiry {
        Some(range) => params.ask_expiry = range,
        None => (),
    }
'''),
('n-cli-now-first', '', CLI+'commands/reserve-auction/schedule-end-auction.ts', """      // Approve the contract to transfer the NFTs""", """      const now = new Date()
      // Approve the contract to transfer the NFTs""", CLI+'commands/reserve-auction/schedule-end-auction.ts', """      const now = new Date()
      const duration""", """      const duration"""),
('n-cli-now-static', '', CLI+'commands/reserve-auction/schedule-end-auction.ts', """      const now = new Date()
      const duration = ISOToSeconds(endTime) - ISOToSeconds(now.toISOString())""", """      const duration = ISOToSeconds(endTime) - Math.floor(Date.now() / 1000)"""),
]
