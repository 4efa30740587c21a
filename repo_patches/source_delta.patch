From 463450c45a68daea0e053ad6281c6e09c8681eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/16] fix: reject funds attached to order book actions that
 take no payment

Accepting a bid or collection bid, and the admin messages, silently kept any
attached coins: nothing ever pays them out again.
---
 contracts/stargaze-marketplace-v2/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..87d2b0d 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,7 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +176,7 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +199,7 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +222,7 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
@@ -692,6 +696,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +969,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From fe9e01a99772773f8234c56853ba3d96f453e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 02/16] fix: do not overflow when matching a collection bid
 priced at the maximum amount

---
 contracts/stargaze-marketplace-v2/src/orders.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/stargaze-marketplace-v2/src/orders.rs b/contracts/stargaze-marketplace-v2/src/orders.rs
index f6edd4a..f4e30aa 100644
--- a/contracts/stargaze-marketplace-v2/src/orders.rs
+++ b/contracts/stargaze-marketplace-v2/src/orders.rs
@@ -299,10 +299,12 @@ impl CollectionBid {
                 descending: Some(false),
                 limit: Some(1),
                 min: None,
-                max: Some(QueryBound::Exclusive(PriceOffset {
-                    id: "".to_string(),
-                    amount: self.details.price.amount.u128() + 1,
-                })),
+                max: self.details.price.amount.u128().checked_add(1).map(|amount| {
+                    QueryBound::Exclusive(PriceOffset {
+                        id: "".to_string(),
+                        amount,
+                    })
+                }),
             },
         )?
         .pop();
-- 
2.43.0


From f6e8ebb454488c37e7f07778af4e234414cd830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 03/16] fix: require exactly the create auction fee

Anything attached beyond the fee (a larger amount or other denoms) was
accepted and stayed in the reserve auction contract for good.
---
 contracts/reserve-auction/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..06dbcb3 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -131,7 +131,7 @@ pub fn execute_create_auction(
         // If create auction fee is non zero, ensure user has sent the correct amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds == vec![config.create_auction_fee.clone()],
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From 70d8a3edef19698387664b20697ab597b4d498ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 04/16] fix: do not fail the end blocker on auctions ending
 later in the same second

Auctions are selected by whole seconds but settled by nanoseconds, so one
auction ending later within the block's second made the whole end blocker
fail and no due auction was settled.
---
 contracts/reserve-auction/src/sudo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..f263bf0 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -94,8 +94,13 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .idx
         .end_time
         .range(deps.storage, None, max, order)
-        .take(limit)
         .map(|item| item.map(|(_, v)| v))
+        // the index only has second precision, leave out auctions ending later in this second
+        .filter(|item| {
+            item.as_ref()
+                .map_or(true, |a| a.end_time.map_or(false, |et| et <= env.block.time))
+        })
+        .take(limit)
         .collect::<StdResult<Vec<Auction>>>()?;
 
     let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
-- 
2.43.0


From 98a57e7a54f936e792e625cf87b87d0e2cf12819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 05/16] fix: settle auctions of collections without collection
 info

Plain cw721 collections can be auctioned but do not answer the collection
info query, so settling them always failed, locking the token and the high
bid, and failing the end blocker for every other due auction.
---
 contracts/reserve-auction/src/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 122dbcd..2ca5649 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -87,7 +87,9 @@ pub fn settle_auction(
     // High bid must exist if end time exists
     let high_bid = auction.high_bid.as_ref().unwrap();
 
-    let royalty_info = load_collection_royalties(&deps.querier, deps.api, &auction.collection)?;
+    // Collections that do not support royalty info have no royalties
+    let royalty_info = load_collection_royalties(&deps.querier, deps.api, &auction.collection)
+        .unwrap_or_default();
 
     (_, response) = payout_nft_sale_fees(
         &high_bid.coin,
-- 
2.43.0


From 95d2e29cb4fe05c3bd933da6bcf5134c37d82bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 06/16] fix: keep a halt window until its end has passed and
 its auctions are processed

A window was dropped at the first end of block with no auction to settle,
even while its buffer was still running, so auctions that ended inside the
buffer afterwards were settled instead of postponed.
---
 contracts/reserve-auction/src/state.rs | 10 +++++++---
 contracts/reserve-auction/src/sudo.rs  |  7 ++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/contracts/reserve-auction/src/state.rs b/contracts/reserve-auction/src/state.rs
index 9886296..3d82ade 100644
--- a/contracts/reserve-auction/src/state.rs
+++ b/contracts/reserve-auction/src/state.rs
@@ -146,14 +146,18 @@ impl HaltManager {
     pub fn find_stale_halt_info(
         &mut self,
         earliest_auction_end_time: Option<Timestamp>,
+        block_time: Timestamp,
     ) -> Option<HaltWindow> {
         if self.halt_windows.is_empty() {
             return None;
         }
         let halt_info = self.halt_windows.first().unwrap();
-        if earliest_auction_end_time.is_none()
-            || earliest_auction_end_time.unwrap().seconds() > halt_info.end_time
-        {
+        // Auctions may still end within the halt window until the block time has reached its end
+        let is_stale = match earliest_auction_end_time {
+            Some(earliest) => earliest.seconds() > halt_info.end_time,
+            None => block_time.seconds() >= halt_info.end_time,
+        };
+        if is_stale {
             return Some(self.halt_windows.remove(0));
         }
         None
diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index f263bf0..dd924c4 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -100,7 +100,8 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
             item.as_ref()
                 .map_or(true, |a| a.end_time.map_or(false, |et| et <= env.block.time))
         })
-        .take(limit)
+        // the earliest is needed below even if no auction is to be settled
+        .take(limit.max(1))
         .collect::<StdResult<Vec<Auction>>>()?;
 
     let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
@@ -108,7 +109,7 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
     response =
         response.add_event(Event::new("sudo-end-block").add_attribute("action", "settle-auctions"));
 
-    for auction in auctions {
+    for auction in auctions.into_iter().take(limit) {
         response = settle_auction(
             deps.branch(),
             env.block.time,
@@ -120,7 +121,7 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
     }
 
     // Try and clear a halt info if necessary
-    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time);
+    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time, env.block.time);
     if halt_info.is_some() {
         HALT_MANAGER.save(deps.storage, &halt_manager)?;
     }
-- 
2.43.0


From 70f802a704a46c64e4e4bed3e2ecb6a72fb620ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 07/16] fix: pay v1 sellers the whole remainder of a sale with
 royalties

---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..218ddc4 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1237,7 +1237,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - amount.amount - network_fee).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From 57b542bf0f0b30977c2094b4f237c8835248b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 08/16] fix: apply the maximum ask price when repricing a v1
 ask

---
 contracts/marketplace/src/execute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 218ddc4..4d99c86 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -455,6 +455,10 @@ pub fn execute_update_ask_price(
         return Err(ContractError::AskExpired {});
     }
 
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
+
     ask.price = price.amount;
     asks().save(deps.storage, key, &ask)?;
 
-- 
2.43.0


From d157ea03b7429bcfdb385fc5681b465233c49f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 09/16] fix: do not send zero amounts in v1 sales

---
 contracts/marketplace/src/execute.rs | 44 +++++++++++++++-------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 4d99c86..015f53d 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1200,7 +1200,9 @@ fn payout(
 
     // Append Fair Burn message
     let network_fee = payment * params.trading_fee_percent / Uint128::from(100u128);
-    fair_burn(network_fee.u128(), None, res);
+    if !network_fee.is_zero() {
+        fair_burn(network_fee.u128(), None, res);
+    }
 
     let collection_info: CollectionInfoResponse = deps
         .querier
@@ -1229,37 +1231,37 @@ fn payout(
             if payment < (network_fee + Uint128::from(finders_fee) + amount.amount) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
-            res.messages.push(SubMsg::new(BankMsg::Send {
-                to_address: royalty.payment_address.to_string(),
-                amount: vec![amount.clone()],
-            }));
+            if !amount.amount.is_zero() {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: royalty.payment_address.to_string(),
+                    amount: vec![amount.clone()],
+                }));
+            }
             let event = Event::new("royalty-payout")
                 .add_attribute("collection", collection.to_string())
                 .add_attribute("amount", amount.to_string())
                 .add_attribute("recipient", royalty.payment_address.to_string());
             res.events.push(event);
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - amount.amount - network_fee).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - amount.amount - network_fee).u128() - finders_fee;
+            if seller_share > 0 {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM)],
+                }));
+            }
         }
         None => {
             if payment < (network_fee + Uint128::from(finders_fee)) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
             // If token doesn't support royalties, pay seller in full
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee).u128() - finders_fee;
+            if seller_share > 0 {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM)],
+                }));
+            }
         }
     }
 
-- 
2.43.0


From 9fc95d26892c4144eb9cc80d232d0650451220ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 10/16] fix: do not send zero amounts when removing stale v1
 bids

---
 contracts/marketplace/src/execute.rs | 45 +++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 015f53d..3ae8b6a 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1049,14 +1049,16 @@ pub fn execute_remove_stale_bid(
 
     let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: bid.bidder.to_string(),
-        amount: vec![coin((bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let refund_msgs = vec![
+        (bid.bidder.to_string(), bid.price - reward),
+        (operator.to_string(), reward),
+    ]
+    .into_iter()
+    .filter(|(_, amount)| !amount.is_zero())
+    .map(|(to_address, amount)| BankMsg::Send {
+        to_address,
+        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
+    });
 
     let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
 
@@ -1069,8 +1071,7 @@ pub fn execute_remove_stale_bid(
 
     Ok(Response::new()
         .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
+        .add_messages(refund_msgs)
         .add_submessages(hook))
 }
 
@@ -1100,14 +1101,19 @@ pub fn execute_remove_stale_collection_bid(
 
     let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: collection_bid.bidder.to_string(),
-        amount: vec![coin((collection_bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let refund_msgs = vec![
+        (
+            collection_bid.bidder.to_string(),
+            collection_bid.price - reward,
+        ),
+        (operator.to_string(), reward),
+    ]
+    .into_iter()
+    .filter(|(_, amount)| !amount.is_zero())
+    .map(|(to_address, amount)| BankMsg::Send {
+        to_address,
+        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
+    });
 
     let hook = prepare_collection_bid_hook(deps.as_ref(), &collection_bid, HookAction::Delete)?;
 
@@ -1119,8 +1125,7 @@ pub fn execute_remove_stale_collection_bid(
 
     Ok(Response::new()
         .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
+        .add_messages(refund_msgs)
         .add_submessages(hook))
 }
 
-- 
2.43.0


From 9d2ff1d576cb0f8c33922d0ae87597dc4db3124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 11/16] fix: do not skip asks in v1 ask queries without a
 cursor

---
 contracts/marketplace/src/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..e13954d 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -244,10 +244,7 @@ pub fn query_asks(
         .prefix(collection.clone())
         .range(
             deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
+            start_after.map(|token_id| Bound::exclusive((collection, token_id))),
             None,
             Order::Ascending,
         )
@@ -281,10 +278,7 @@ pub fn reverse_query_asks(
         .range(
             deps.storage,
             None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
+            start_before.map(|token_id| Bound::exclusive((collection, token_id))),
             Order::Descending,
         )
         .filter(|item| match item {
-- 
2.43.0


From d41d5b7f7dd348dfaa15459f9d1a0657ab04e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 12/16] fix: honour start_after in the v1 bids query

---
 contracts/marketplace/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index e13954d..59c2bb2 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -461,7 +461,8 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = maybe_addr(deps.api, start_after)?
+        .map(|bidder| Bound::exclusive(bid_key(&collection, token_id, &bidder)));
 
     let bids = bids()
         .idx
-- 
2.43.0


From 79ff11e6c9c934182a8b597198ae35a27da05bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 13/16] fix: list each collection once in the v1 collections
 query

---
 contracts/marketplace/src/query.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 59c2bb2..fb0c0d7 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -215,16 +215,23 @@ pub fn query_collections(
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
     let start_addr = maybe_addr(deps.api, start_after)?;
 
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    let mut collections: Vec<Addr> = vec![];
+    for item in asks().prefix_range(
+        deps.storage,
+        start_addr.map(PrefixBound::exclusive),
+        None,
+        Order::Ascending,
+    ) {
+        let ((collection, _), _) = item?;
+        // a collection is listed once, however many asks it has
+        if collections.last() == Some(&collection) {
+            continue;
+        }
+        if collections.len() == limit {
+            break;
+        }
+        collections.push(collection);
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0


From e1021d059ca5fff1f65b245ba73bf24f99e28265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 14/16] fix: declare the answers v1's ask and collection bid
 queries really give

Ask answers with AskResponse, and the four listing queries over collection
bids answer with CollectionBidsResponse; the declared types (and so the
published schema) said AsksResponse and CollectionBidResponse.
---
 contracts/marketplace/src/msg.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contracts/marketplace/src/msg.rs b/contracts/marketplace/src/msg.rs
index b49944b..8c1db14 100644
--- a/contracts/marketplace/src/msg.rs
+++ b/contracts/marketplace/src/msg.rs
@@ -247,7 +247,7 @@ pub enum QueryMsg {
         limit: Option<u32>,
     },
     /// Get the current ask for specific NFT
-    #[returns(AsksResponse)]
+    #[returns(AskResponse)]
     Ask {
         collection: Collection,
         token_id: TokenId,
@@ -345,28 +345,28 @@ pub enum QueryMsg {
         bidder: Bidder,
     },
     /// Get all collection bids by a bidder
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     CollectionBidsByBidder {
         bidder: Bidder,
         start_after: Option<CollectionOffset>,
         limit: Option<u32>,
     },
     /// Get all collection bids by a bidder, sorted by expiration
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     CollectionBidsByBidderSortedByExpiration {
         bidder: Collection,
         start_after: Option<CollectionBidOffset>,
         limit: Option<u32>,
     },
     /// Get all collection bids for a collection sorted by price
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     CollectionBidsSortedByPrice {
         collection: Collection,
         start_after: Option<CollectionBidOffset>,
         limit: Option<u32>,
     },
     /// Get all collection bids for a collection sorted by price in reverse
-    #[returns(CollectionBidResponse)]
+    #[returns(CollectionBidsResponse)]
     ReverseCollectionBidsSortedByPrice {
         collection: Collection,
         start_before: Option<CollectionBidOffset>,
-- 
2.43.0


From ae760ccc955cc49c401442a79bfe2bc6d607d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 15/16] fix: TypeScript answer types of v1's ask and collection
 bid queries

As regenerated from the corrected schema.
---
 .../src/Marketplace.client.ts                 | 22 ++++----
 .../src/Marketplace.react-query.ts            | 52 +++++++++----------
 .../src/Marketplace.types.ts                  |  6 +++
 3 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/typescript/packages/marketplace-types/src/Marketplace.client.ts b/typescript/packages/marketplace-types/src/Marketplace.client.ts
index 30226f1..24f1dca 100644
--- a/typescript/packages/marketplace-types/src/Marketplace.client.ts
+++ b/typescript/packages/marketplace-types/src/Marketplace.client.ts
@@ -6,7 +6,7 @@
 
 import { CosmWasmClient, SigningCosmWasmClient, ExecuteResult } from "@cosmjs/cosmwasm-stargate";
 import { StdFee } from "@cosmjs/amino";
-import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AsksResponse, Ask, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBid, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
+import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AskResponse, Ask, AsksResponse, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBidsResponse, CollectionBid, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
 export interface MarketplaceReadOnlyInterface {
   contractAddress: string;
   collections: ({
@@ -22,7 +22,7 @@ export interface MarketplaceReadOnlyInterface {
   }: {
     collection: string;
     tokenId: number;
-  }) => Promise<AsksResponse>;
+  }) => Promise<AskResponse>;
   asks: ({
     collection,
     includeInactive,
@@ -154,7 +154,7 @@ export interface MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   collectionBidsByBidderSortedByExpiration: ({
     bidder,
     limit,
@@ -163,7 +163,7 @@ export interface MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   collectionBidsSortedByPrice: ({
     collection,
     limit,
@@ -172,7 +172,7 @@ export interface MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   reverseCollectionBidsSortedByPrice: ({
     collection,
     limit,
@@ -181,7 +181,7 @@ export interface MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startBefore?: CollectionBidOffset;
-  }) => Promise<CollectionBidResponse>;
+  }) => Promise<CollectionBidsResponse>;
   askHooks: () => Promise<HooksResponse>;
   bidHooks: () => Promise<HooksResponse>;
   saleHooks: () => Promise<HooksResponse>;
@@ -239,7 +239,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
   }: {
     collection: string;
     tokenId: number;
-  }): Promise<AsksResponse> => {
+  }): Promise<AskResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       ask: {
         collection,
@@ -485,7 +485,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       collection_bids_by_bidder: {
         bidder,
@@ -502,7 +502,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     bidder: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       collection_bids_by_bidder_sorted_by_expiration: {
         bidder,
@@ -519,7 +519,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       collection_bids_sorted_by_price: {
         collection,
@@ -536,7 +536,7 @@ export class MarketplaceQueryClient implements MarketplaceReadOnlyInterface {
     collection: string;
     limit?: number;
     startBefore?: CollectionBidOffset;
-  }): Promise<CollectionBidResponse> => {
+  }): Promise<CollectionBidsResponse> => {
     return this.client.queryContractSmart(this.contractAddress, {
       reverse_collection_bids_sorted_by_price: {
         collection,
diff --git a/typescript/packages/marketplace-types/src/Marketplace.react-query.ts b/typescript/packages/marketplace-types/src/Marketplace.react-query.ts
index 66ff3ac..7f2fabc 100644
--- a/typescript/packages/marketplace-types/src/Marketplace.react-query.ts
+++ b/typescript/packages/marketplace-types/src/Marketplace.react-query.ts
@@ -5,7 +5,7 @@
 */
 
 import { UseQueryOptions, useQuery } from "react-query";
-import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AsksResponse, Ask, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBid, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
+import { Uint128, Duration, InstantiateMsg, ExpiryRange, ExecuteMsg, Timestamp, Uint64, SaleType, Coin, QueryMsg, Addr, AskOffset, CollectionOffset, BidOffset, CollectionBidOffset, AskResponse, Ask, AsksResponse, AskCountResponse, HooksResponse, BidResponse, Bid, BidsResponse, CollectionBidResponse, CollectionBidsResponse, CollectionBid, CollectionsResponse, Decimal, ParamsResponse, SudoParams } from "./Marketplace.types";
 import { MarketplaceQueryClient } from "./Marketplace.client";
 export const marketplaceQueryKeys = {
   contract: ([{
@@ -121,11 +121,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  ask: <TData = AsksResponse,>({
+  ask: <TData = AskResponse,>({
     client,
     args,
     options
-  }: MarketplaceAskQuery<TData>): UseQueryOptions<AsksResponse, Error, TData> => ({
+  }: MarketplaceAskQuery<TData>): UseQueryOptions<AskResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.ask(client?.contractAddress, args),
     queryFn: () => client ? client.ask({
       collection: args.collection,
@@ -319,11 +319,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  collectionBidsByBidder: <TData = CollectionBidResponse,>({
+  collectionBidsByBidder: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceCollectionBidsByBidderQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceCollectionBidsByBidderQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.collectionBidsByBidder(client?.contractAddress, args),
     queryFn: () => client ? client.collectionBidsByBidder({
       bidder: args.bidder,
@@ -333,11 +333,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  collectionBidsByBidderSortedByExpiration: <TData = CollectionBidResponse,>({
+  collectionBidsByBidderSortedByExpiration: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.collectionBidsByBidderSortedByExpiration(client?.contractAddress, args),
     queryFn: () => client ? client.collectionBidsByBidderSortedByExpiration({
       bidder: args.bidder,
@@ -347,11 +347,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  collectionBidsSortedByPrice: <TData = CollectionBidResponse,>({
+  collectionBidsSortedByPrice: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.collectionBidsSortedByPrice(client?.contractAddress, args),
     queryFn: () => client ? client.collectionBidsSortedByPrice({
       collection: args.collection,
@@ -361,11 +361,11 @@ export const marketplaceQueries = {
     ...options,
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   }),
-  reverseCollectionBidsSortedByPrice: <TData = CollectionBidResponse,>({
+  reverseCollectionBidsSortedByPrice: <TData = CollectionBidsResponse,>({
     client,
     args,
     options
-  }: MarketplaceReverseCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidResponse, Error, TData> => ({
+  }: MarketplaceReverseCollectionBidsSortedByPriceQuery<TData>): UseQueryOptions<CollectionBidsResponse, Error, TData> => ({
     queryKey: marketplaceQueryKeys.reverseCollectionBidsSortedByPrice(client?.contractAddress, args),
     queryFn: () => client ? client.reverseCollectionBidsSortedByPrice({
       collection: args.collection,
@@ -452,19 +452,19 @@ export function useMarketplaceAskHooksQuery<TData = HooksResponse>({
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceReverseCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceReverseCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     collection: string;
     limit?: number;
     startBefore?: CollectionBidOffset;
   };
 }
-export function useMarketplaceReverseCollectionBidsSortedByPriceQuery<TData = CollectionBidResponse>({
+export function useMarketplaceReverseCollectionBidsSortedByPriceQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceReverseCollectionBidsSortedByPriceQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.reverseCollectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.reverseCollectionBidsSortedByPrice({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.reverseCollectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.reverseCollectionBidsSortedByPrice({
     collection: args.collection,
     limit: args.limit,
     startBefore: args.startBefore
@@ -472,19 +472,19 @@ export function useMarketplaceReverseCollectionBidsSortedByPriceQuery<TData = Co
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceCollectionBidsSortedByPriceQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     collection: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
   };
 }
-export function useMarketplaceCollectionBidsSortedByPriceQuery<TData = CollectionBidResponse>({
+export function useMarketplaceCollectionBidsSortedByPriceQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceCollectionBidsSortedByPriceQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.collectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.collectionBidsSortedByPrice({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.collectionBidsSortedByPrice(client?.contractAddress, args), () => client ? client.collectionBidsSortedByPrice({
     collection: args.collection,
     limit: args.limit,
     startAfter: args.startAfter
@@ -492,19 +492,19 @@ export function useMarketplaceCollectionBidsSortedByPriceQuery<TData = Collectio
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     bidder: string;
     limit?: number;
     startAfter?: CollectionBidOffset;
   };
 }
-export function useMarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData = CollectionBidResponse>({
+export function useMarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceCollectionBidsByBidderSortedByExpirationQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidderSortedByExpiration(client?.contractAddress, args), () => client ? client.collectionBidsByBidderSortedByExpiration({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidderSortedByExpiration(client?.contractAddress, args), () => client ? client.collectionBidsByBidderSortedByExpiration({
     bidder: args.bidder,
     limit: args.limit,
     startAfter: args.startAfter
@@ -512,19 +512,19 @@ export function useMarketplaceCollectionBidsByBidderSortedByExpirationQuery<TDat
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceCollectionBidsByBidderQuery<TData> extends MarketplaceReactQuery<CollectionBidResponse, TData> {
+export interface MarketplaceCollectionBidsByBidderQuery<TData> extends MarketplaceReactQuery<CollectionBidsResponse, TData> {
   args: {
     bidder: string;
     limit?: number;
     startAfter?: CollectionOffset;
   };
 }
-export function useMarketplaceCollectionBidsByBidderQuery<TData = CollectionBidResponse>({
+export function useMarketplaceCollectionBidsByBidderQuery<TData = CollectionBidsResponse>({
   client,
   args,
   options
 }: MarketplaceCollectionBidsByBidderQuery<TData>) {
-  return useQuery<CollectionBidResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidder(client?.contractAddress, args), () => client ? client.collectionBidsByBidder({
+  return useQuery<CollectionBidsResponse, Error, TData>(marketplaceQueryKeys.collectionBidsByBidder(client?.contractAddress, args), () => client ? client.collectionBidsByBidder({
     bidder: args.bidder,
     limit: args.limit,
     startAfter: args.startAfter
@@ -798,18 +798,18 @@ export function useMarketplaceAsksQuery<TData = AsksResponse>({
     enabled: !!client && (options?.enabled != undefined ? options.enabled : true)
   });
 }
-export interface MarketplaceAskQuery<TData> extends MarketplaceReactQuery<AsksResponse, TData> {
+export interface MarketplaceAskQuery<TData> extends MarketplaceReactQuery<AskResponse, TData> {
   args: {
     collection: string;
     tokenId: number;
   };
 }
-export function useMarketplaceAskQuery<TData = AsksResponse>({
+export function useMarketplaceAskQuery<TData = AskResponse>({
   client,
   args,
   options
 }: MarketplaceAskQuery<TData>) {
-  return useQuery<AsksResponse, Error, TData>(marketplaceQueryKeys.ask(client?.contractAddress, args), () => client ? client.ask({
+  return useQuery<AskResponse, Error, TData>(marketplaceQueryKeys.ask(client?.contractAddress, args), () => client ? client.ask({
     collection: args.collection,
     tokenId: args.tokenId
   }) : Promise.reject(new Error("Invalid client")), { ...options,
diff --git a/typescript/packages/marketplace-types/src/Marketplace.types.ts b/typescript/packages/marketplace-types/src/Marketplace.types.ts
index 30e8129..25a352d 100644
--- a/typescript/packages/marketplace-types/src/Marketplace.types.ts
+++ b/typescript/packages/marketplace-types/src/Marketplace.types.ts
@@ -282,6 +282,9 @@ export interface CollectionBidOffset {
   collection: string;
   price: Uint128;
 }
+export interface AskResponse {
+  ask?: Ask | null;
+}
 export interface AsksResponse {
   asks: Ask[];
 }
@@ -327,6 +330,9 @@ export interface CollectionBid {
   finders_fee_bps?: number | null;
   price: Uint128;
 }
+export interface CollectionBidsResponse {
+  bids: CollectionBid[];
+}
 export interface CollectionsResponse {
   collections: Addr[];
 }
-- 
2.43.0


From 8b52bfbd4e0a0c6c422269cb7f468678d2654629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 16/16] fix: look up each token's auction before scheduling it

The list of the seller's auctions holds one page only, over all collections:
a token whose auction was on a later page was scheduled again (and the run
aborted), and one whose number had an auction in another collection was
skipped.
---
 .../reserve-auction/schedule-end-auction.ts         | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts b/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts
index f02f481..6a9a34a 100644
--- a/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts
+++ b/typescript/packages/marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts
@@ -6,7 +6,6 @@ import {
 import { InvalidInput } from '../../lib/errors'
 import { ISOToSeconds, isISODate } from '../../lib/helpers/date'
 import { contracts } from '@stargazezone/marketplace-types'
-import _ from 'lodash'
 
 const { ReserveAuctionClient, ReserveAuctionQueryClient } =
   contracts.ReserveAuction
@@ -118,11 +117,13 @@ export default class ReserveAuctionScheduleEndAuction extends Command {
     }
 
     for (const tokenId of tokenIds) {
-      let auctionExists = _.some(
-        auctions,
-        (auction) => auction.token_id === tokenId,
-      )
-      if (auctionExists) {
+      // The listing above is paginated and spans all of the creator's
+      // collections, so look up this very token
+      let existingAuction = await reserveAuctionQueryClient.auction({
+        collection: args['collection-address'],
+        tokenId,
+      })
+      if (existingAuction) {
         logger(`Auction for ${tokenId} already exists...`)
         continue
       }
-- 
2.43.0

