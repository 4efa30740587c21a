#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the anchors stay consistent)."""
import json, os
V2='contracts/stargaze-marketplace-v2/src/'; V1='contracts/marketplace/src/'; RA='contracts/reserve-auction/src/'; CM='packages/sg-marketplace-common/src/'
P=[]
def p(id,title,st,over,qt,why,files,mech,state,obs):
    assert len(title)<=80,(id,len(title)); assert st.count('. ')<=2,(id,st)
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None)))
V2T="The repository's order-book tests are integration tests over a handful of scripted scenarios (and the crate's unit tests cover one fee split); none quantify over order histories, amounts or configurations."
V1T="The crate's 55 tests are scripted single scenarios with friendly amounts (100, 1000) and one or two orders; they cannot quantify over histories, fee settings, amounts or hostile collections."
RAT="The crate's 21 tests are scripted single-auction scenarios with fixed durations and amounts; they never interleave several auctions, same-second blocks, halts, parameter changes and hostile amounts."
H="every history of user, admin and external actions"
# ---------------- order-book marketplace (v2)
p('M01','Order-book marketplace holds exactly the funds of its open bids',
 "After every completed or failed action, the order-book marketplace contract's balance in each denom equals the sum of the prices of all open token bids and collection bids in that denom. No action, payment or attached coin may leave the contract under- or over-funded: coins sent with an action that does not need them are either returned in full or the action is rejected.",
 ['histories','inputs','configurations'],H+" over several users, collections, tokens and denoms, with any attached funds",V2T,
 [V2+'execute.rs',V2+'helpers.rs',V2+'orders.rs'],
 [('fund accounting with NativeBalance: add old price, subtract new/ask price, refund the rest',V2+'execute.rs execute_set_bid/update_bid/accept_ask/set_collection_bid/update_collection_bid'),('refund on removal',V2+'execute.rs execute_remove_bid/remove_collection_bid'),('sale pays exactly the sale price out',V2+'helpers.rs finalize_sale')],
 [('bids / collection bids','open buy orders and their prices',V2+'state.rs')],['bank balance of the contract','bid and collection-bid queries'])
p('M02','Every listed NFT is in marketplace custody and goes only where it should',
 "In the order-book marketplace, a token has an open ask if and only if the token was deposited by listing and is still owned by the marketplace contract. A deposited token leaves only to the buyer's recipient (or the buyer) when it is sold, or to the ask's recipient (or its creator) when the ask is removed; a token sold without being listed goes straight from its owner to the buyer's recipient (or the buyer).",
 ['histories','inputs'],H+", including owners transferring tokens, revoking approvals and collections whose transfers fail",V2T,
 [V2+'execute.rs',V2+'helpers.rs',CM+'nft.rs'],[('escrow on listing',V2+'execute.rs execute_set_ask'),('delivery on sale',V2+'helpers.rs finalize_sale'),('return on removal',V2+'execute.rs execute_remove_ask')],
 [('asks','open listings',V2+'state.rs')],['owner of every token','ask queries'])
p('M03','An order-book sale splits exactly the sale price among the right parties',
 "On every order-book sale the amounts paid out sum exactly to the sale price: the configured protocol share (rounded up per fee) goes to the fee manager minus the configured maker and taker rewards which go to the finder named on the maker order and the finder named on the taker order, the royalty (rounded up) goes to the royalty recipient, and the whole remainder goes to the seller's recipient or the seller. If no finder is named on a side (or its reward is zero) that part of the fee stays with the fee manager. A sale whose fees would exceed the price does not happen.",
 ['inputs','configurations','histories'],"every sale price from 1 to about 1e30, fee/reward/royalty setting, finder/recipient combination and sale route",V2T,
 [V2+'helpers.rs',CM+'sale.rs'],[('fee division',V2+'helpers.rs divide_protocol_fees'),('payments',CM+'sale.rs NftSaleProcessor'),('maker/taker selection',V2+'helpers.rs finalize_sale')],
 [('config','fee percentages and fee manager',V2+'state.rs Config')],['bank balances of every party before/after'])
p('M04','Buyers pay the maker order price and get every remaining coin back',
 "When an incoming buy order meets a resting ask the sale price is the ask's price; when an incoming sell order meets a resting bid the sale price is that bid's price. The buyer is charged exactly the sale price: whatever they attached, plus whatever their own bid already held in escrow when they update it, minus the sale price (or minus the new bid price if the order rests) is returned to them in the same action, in every denom. An action whose funds do not cover what it must pay is rejected.",
 ['inputs','histories'],"every buy/sell/update action with exact, surplus, insufficient, foreign-denom and multi-denom funds",V2T,
 [V2+'execute.rs',V2+'helpers.rs'],[('ask_before_bid selects the sale price',V2+'helpers.rs finalize_sale'),('surplus refund',V2+'execute.rs')],
 [('bid price','escrowed amount',V2+'orders.rs')],['bank balance of the acting buyer before/after','price paid out'])
p('M05','Orders match at the best available price and the book is never crossed',
 "A new or updated ask sells to the highest-priced open bid or collection bid at or above its price in the same denom (a token bid wins a tie against a collection bid); a new or updated token bid buys the token's ask when the ask's price is at or below the bid; a new or updated collection bid buys the cheapest ask in the collection at or below its price. If no such counter-order exists the order rests unchanged. Consequently no open ask ever coexists with an open bid or collection bid in the same denom at or above its price.",
 ['histories','inputs'],H+" over books of many orders with equal, adjacent and extreme prices in several denoms",V2T,
 [V2+'orders.rs',V2+'query.rs',V2+'execute.rs'],[('best bid search',V2+'orders.rs Ask::match_with_bid'),('ask lookup',V2+'orders.rs Bid::match_with_ask'),('cheapest ask search',V2+'orders.rs CollectionBid::match_with_ask')],
 [('price indexes','orders sorted by denom and price',V2+'state.rs')],['which orders disappear and which tokens/funds move','full book after each action'])
p('M06','Accept and instant orders respect the stated limits and never rest',
 "Accepting a specific ask, bid or collection bid trades against exactly that order, or fails if the order no longer exists, is in another denom, or is worse than the price limit the caller stated. Instant sell, instant buy of a token and instant buy from a collection either trade immediately within the stated price or fail; they never leave an open order behind.",
 ['histories','inputs'],H+" in which accepted orders were updated, removed or already filled before the accept arrives",V2T,
 [V2+'execute.rs'],[('limit checks',V2+'execute.rs execute_accept_ask/accept_bid/accept_collection_bid'),('NoMatchFound',V2+'execute.rs sell_now/buy_now branches')],[],['orders, tokens and balances before/after'])
p('M07','Order-book actions are available only to those entitled to them',
 "In the order-book marketplace only the creator of an ask, bid or collection bid can update or remove it, only the token's owner can list or sell it, only the owner (or the ask's creator if it is listed) can sell it into a bid or collection bid, and only the contract's current on-chain admin can change the configuration, collection denoms or listing fees. Everyone else's attempt is rejected with no effect.",
 ['histories','inputs'],H+" with any sender, including former owners, former admins, fee managers, recipients and finders",V2T,
 [V2+'execute.rs',V2+'helpers.rs',CM+'nft.rs'],[('creator checks',V2+'execute.rs'),('ownership check',CM+'nft.rs only_owner'),('admin check',V2+'helpers.rs only_contract_admin')],[],['outcome of each action by each sender'])
p('M08','Open orders are recorded exactly as placed under unique stable identifiers',
 "An order that rests in the order-book marketplace is stored with exactly the creator, collection, token, price, recipient and finder the user stated, under an identifier no other open order of its kind has (a bid's identifier is never used again), even for orders placed in the same block by the same user with identical terms. Updating an order replaces its price, recipient and finder and keeps its identifier, creator, collection and token.",
 ['histories','inputs'],H+" including many identical orders in one block",V2T,
 [V2+'orders.rs',V2+'execute.rs',V2+'helpers.rs'],[('id derivation from content, height and a nonce',V2+'orders.rs Bid::new, CollectionBid::new, Ask::new'),('nonce bump',V2+'execute.rs')],[('nonce','order counter',V2+'state.rs NONCE')],['order queries before/after'])
p('M09','Creators can always withdraw their open orders in full',
 "At any point of any history, the creator of an open ask, bid or collection bid can remove it and at once receives the deposited token or the full escrowed price back, regardless of configuration or denom changes, trading start times, or any other user's orders. After all orders are removed the marketplace holds neither coins nor tokens.",
 ['histories','configurations'],"every reachable state, as long as the collection itself honours transfers",V2T,
 [V2+'execute.rs'],[('unconditional removal',V2+'execute.rs execute_remove_ask/remove_bid/remove_collection_bid')],[],['outcome and transfers of removals, end-of-history drain'])
p('M10','Orders are admitted only with a valid price, denom, trading start and fee',
 "The order-book marketplace accepts a new or updated order only if the accounts it names are valid addresses and its price is positive and in the denom configured for the collection (the default denom if none is configured), accepts a new ask, bid, collection bid or instant order only if the collection's trading start time has passed, and accepts a new ask or instant sale only with a single coin exactly equal to the listing fee configured for that coin's denom, which is forwarded in full to the fee manager. Configurations whose protocol fee is 100% or more, or whose maker and taker rewards together are 100% or more, are rejected; valid orders and configurations are not refused.",
 ['inputs','configurations','histories'],"every price, denom, listing fee, trading start time and configuration value including boundaries",V2T,
 [V2+'helpers.rs',V2+'execute.rs',V2+'state.rs',CM+'nft.rs'],[('price/denom check',V2+'helpers.rs only_valid_price'),('trading start check',CM+'nft.rs only_tradable'),('listing fee',V2+'execute.rs execute_set_ask'),('config bounds',V2+'state.rs Config::save')],
 [('listing fees, collection denoms, config','admission parameters',V2+'state.rs')],['accept/reject outcome vs. pre-state','fee manager balance'])
p('M11','Order-book queries return exactly the open orders, correctly paged',
 "Every order-book query returns exactly the open orders matching its filter, ordered by price (or identifier) in the requested direction, limited to the requested count (10 by default, 100 at most) and restricted to the requested bounds. Paging through a listing by using the last returned order as the next exclusive bound visits every matching order once and none twice.",
 ['histories','inputs'],"every reachable book, filter, limit, direction and inclusive/exclusive bound",V2T,
 [V2+'query.rs',V2+'state.rs'],[('index range queries',V2+'query.rs'),('secondary indexes',V2+'state.rs')],[],['query responses compared with the set of orders known to be open'])
p('M12','Order-book royalties follow the registry, are capped and registered once',
 "On an order-book sale the royalty comes from the currently configured registry's entry for this marketplace if there is one, otherwise from the registry's default entry for the collection, otherwise from the collection's own royalty information, otherwise there is none; in every case the share is capped at the configured maximum. When (and only when) the collection's own information is used, the sale also registers it with the royalty registry.",
 ['histories','configurations'],"every combination of registry entries, collection royalty information, caps and collections that do not answer such queries",V2T,
 [CM+'royalties.rs',V2+'helpers.rs'],[('lookup order',CM+'royalties.rs fetch_or_set_royalties'),('cap',V2+'helpers.rs finalize_sale')],[],['royalty recipient balance','registry state after a sale'])
p('M13','Order-book events replay to exactly the open orders, settings and sales',
 "After every successful order-book action, replaying the events the marketplace has emitted (orders set, updated or removed, sales finalized, configuration, collection denoms and listing fees set or removed) reproduces exactly the open asks, bids and collection bids with all their details, and the current settings. Every sale is announced by exactly one sale event naming the token, denom, price, recipients of token and proceeds, the orders traded and each amount paid (protocol fee, maker and taker reward, royalty, seller proceeds); no event announces something that did not happen.",
 ['histories'],H,"No test looks at the events beyond the happy path, and none replays a history from them as indexers do.",
 [V2+'events.rs',V2+'orders.rs',V2+'execute.rs',V2+'helpers.rs'],[('event attributes',V2+'orders.rs get_event_attrs, '+V2+'events.rs'),('emission',V2+'execute.rs'),('sale event',V2+'helpers.rs finalize_sale')],[],['events of every successful action','order and configuration queries','bank balances'])
p('M14','Order-book settings change only by the admin, and exactly as instructed',
 "An order-book configuration update replaces the whole configuration by exactly the given one, effective from the next action, and is refused if it names invalid addresses, a protocol fee of 100% or more, or rewards that together reach 100%; other updates by the admin are not refused. Setting a collection's denom, or setting or removing a denom's listing fee, changes exactly that entry. No other action, and nobody but the contract's current on-chain admin, ever changes any of them.",
 ['histories','configurations'],"every sequence of configuration, collection denom and listing fee changes interleaved with orders and sales, every sender and admin handover",V2T,
 [V2+'execute.rs',V2+'state.rs',V2+'helpers.rs'],[('setters',V2+'execute.rs execute_update_config, execute_update_collection_denom, execute_set_listing_fee, execute_remove_listing_fee'),('validity',V2+'state.rs Config::save'),('admin check',V2+'helpers.rs only_contract_admin')],
 [('on-chain admin','the only account that may change settings','chain')],['configuration and collection denom queries after every action','the listing fees a listing is accepted or refused with'])
# ---------------- v1
p('L01','V1 marketplace holds exactly the funds of its open bids',
 "After every completed or failed action, the v1 marketplace's native balance equals the sum of the prices of all open bids and collection bids, and it holds no other coins. Coins attached to an action that does not call for them cause it to be rejected.",
 ['histories','inputs','configurations'],H+" over several users, collections and tokens, governance changes and hooks",V1T,
 [V1+'execute.rs'],[('must_pay / may_pay / nonpayable',V1+'execute.rs'),('refund messages',V1+'execute.rs'),('payout',V1+'execute.rs payout')],[('bids, collection bids','escrowed offers',V1+'state.rs')],['bank balance of the contract','bid queries'])
p('L02','A v1 sale splits exactly the sale price among the right parties',
 "On every v1 sale the amounts paid out sum exactly to the sale price: the trading fee (rounded down) is fair-burned, the finder's fee (rounded down) goes to the named finder if any, the royalty (rounded down) goes to the collection's payment address, and the whole remainder goes to the seller's funds recipient or the seller. A sale whose fees would exceed the price does not happen.",
 ['inputs','configurations','histories'],"every price, trading fee, finder's fee, royalty share and sale route (fixed-price buy, buy for another, accepted bid, accepted collection bid)",V1T,
 [V1+'execute.rs'],[('payout',V1+'execute.rs payout'),('fair burn',V1+'execute.rs payout -> sg1::fair_burn')],[('params','fee percentages',V1+'state.rs SudoParams')],['bank balances of all parties, burned and fair-burn pool totals'])
p('L03','V1 fixed-price listings sell only at the listed price to an allowed buyer',
 "A payment equal to a live fixed-price ask's price buys the token at once and consumes the ask; a higher payment is rejected and a lower one becomes an ordinary bid. The purchase goes through only if the ask is active, unexpired, not reserved for someone else and still backed by the listing seller's ownership; the token goes to the buyer (or the recipient named in a buy-for), the proceeds to the ask's funds recipient or seller. For an auction-type ask, payments below the asking price are rejected and others rest as bids; an instant buy without a listing is rejected.",
 ['histories','inputs'],H+" around listings that expire, are deactivated, reserved, overwritten or whose token moved",V1T,
 [V1+'execute.rs'],[('SetBid/BuyNow/BuyFor',V1+'execute.rs execute_set_bid'),('sale',V1+'execute.rs finalize_sale')],[('asks','listings',V1+'state.rs')],['token owner, balances and orders before/after'])
p('L04','V1 bids are accepted only by the token owner, once, at the bid price',
 "Accepting a bid or collection bid in v1 succeeds only for the current owner of the token, on an unexpired bid that exists, for a collection whose trading has started; it pays out exactly the bid's price with the accepting owner as seller, delivers the token to the bidder, consumes that one bid and cancels any ask on the token. Other bids are untouched.",
 ['histories','inputs'],H+" with competing bids, previous owners, expiry boundaries and stale asks",V1T,
 [V1+'execute.rs'],[('accept',V1+'execute.rs execute_accept_bid, execute_accept_collection_bid')],[],['token owner, balances and orders before/after'])
p('L05','V1 bidders get back every bid exactly once and in full',
 "A v1 bid or collection bid that is removed by its bidder, rejected by the token's owner or replaced by the same bidder's new offer is refunded to the bidder in full, in the same action, exactly once. A bidder has at most one bid per token and one per collection, and can withdraw an open one at any time, whatever has happened to parameters, the token or its listing.",
 ['histories','inputs'],H+", with removal attempted from every reachable state and a final drain of all bids",V1T,
 [V1+'execute.rs'],[('remove/reject/replace',V1+'execute.rs execute_remove_bid, execute_reject_bid, execute_set_bid, execute_set_collection_bid, execute_remove_collection_bid')],[],['bidder balance before/after'])
p('L06','V1 operators can only clean up what is really stale, with the exact reward',
 "An operator can remove another user's bid or collection bid only once it has been expired for at least the configured stale period; the operator receives exactly the configured share of the price (rounded down) and the bidder the rest. An operator can remove an ask only if it expired or the token no longer exists or is no longer approved for the marketplace, and can switch an ask's active flag only to match whether the marketplace currently holds approval.",
 ['histories','inputs','configurations'],"every expiry boundary, reward percentage (including 0% and 100%), approval and ownership change",V1T,
 [V1+'execute.rs',V1+'state.rs'],[('stale bid removal',V1+'execute.rs execute_remove_stale_bid, execute_remove_stale_collection_bid'),('stale ask removal and sync',V1+'execute.rs execute_remove_stale_ask, execute_sync_ask')],[],['operator and bidder balances','ask state'])
p('L07','V1 actions are available only to those entitled to them',
 "In v1 only the token's current owner can list it, remove or reprice its listing, accept or reject bids on it; only the bidder can remove their bid; only current operators can perform stale removals and activity syncs. Any other sender's attempt is rejected with no effect.",
 ['histories','inputs'],H+" with any sender, including previous owners, removed operators and approved spenders",V1T,
 [V1+'execute.rs'],[('owner check',V1+'execute.rs only_owner'),('operator check',V1+'execute.rs only_operator'),('bid keys derived from sender',V1+'execute.rs')],[],['outcome of each action by each sender'])
p('L08','V1 admits asks and bids only within the configured bounds, and records them',
 "A v1 ask is accepted only from an owner who approved the marketplace, with a native-denom price that is positive, at least the minimum and at most 100M STARS (also when repriced, which only an active, unexpired ask can be), an expiry strictly later than the minimum and no later than the maximum allowed offset, a finder's fee within the maximum, a valid reservation and funds recipient, after the collection's trading start, and with exactly the listing fee, which is fair-burned in full. A bid or collection bid is accepted only with a native payment of at least the minimum price, an allowed expiry, a finder's fee within the maximum and a finder other than the bidder. Accepted orders are stored exactly as stated, and valid ones are not refused.",
 ['inputs','configurations','histories'],"every boundary of price, expiry, fee and trading start",V1T,
 [V1+'execute.rs',V1+'helpers.rs'],[('price check',V1+'execute.rs price_validate'),('expiry check',V1+'helpers.rs ExpiryRange::is_valid'),('fees, reservation',V1+'execute.rs execute_set_ask, execute_set_bid, execute_set_collection_bid')],[],['accept/reject outcome vs. pre-state','stored order'])
p('L09','V1 hooks report every order change faithfully and can never block it',
 "Every registered v1 ask, bid or sale hook is called exactly once, with the true contents of the order or sale, for each ask creation, update or removal (other than by a sale), each bid creation or removal (other than by a sale or by its replacement), and each sale respectively, and for nothing that did not happen. A hook that fails has no effect on the action or on the other hooks.",
 ['histories','fault_sequences'],H+" with hooks registered, removed, failing or succeeding in any combination",V1T,
 [V1+'execute.rs',V1+'sudo.rs'],[('hook messages with reply-on-error',V1+'execute.rs prepare_*_hook, reply')],[('hooks','registered addresses',V1+'state.rs')],['messages received by hook contracts'])
p('L10','V1 queries return exactly the open orders, correctly paged',
 "Every v1 query (asks and bids by token, collection, seller, bidder, price or expiry, forward and reverse, counts, collections, collection bids) returns exactly the matching open orders in the documented order, up to the requested limit, starting strictly after (or before) the given cursor. Paging with the last returned item as cursor visits every matching item once; by default inactive asks are hidden only where the caller asks for it.",
 ['histories','inputs'],"every reachable set of orders, cursor, limit and direction",V1T,
 [V1+'query.rs',V1+'state.rs'],[('index ranges',V1+'query.rs')],[],['query responses vs. the known set of open orders'])
p('L12','V1 governance parameters, operators and hooks change only as instructed',
 "A v1 governance parameter update changes exactly the named parameters to the given values and is rejected as a whole if a fee exceeds 100% or an expiry range is inverted. Operators and hooks are added and removed exactly as instructed, without duplicates; users can never change any of them.",
 ['histories','inputs','configurations'],"every sequence of governance actions mixed with user actions",V1T,
 [V1+'sudo.rs',V1+'execute.rs'],[('sudo handlers',V1+'sudo.rs'),('instantiation checks',V1+'execute.rs instantiate')],[('params','governance parameters',V1+'state.rs')],['params and hook queries before/after'])
p('L13','V1 events replay to exactly the open asks, bids and completed sales',
 "After every successful v1 action, replaying the events the marketplace has emitted reproduces exactly the open asks (seller, price, sale type, reservation, expiry, active or not), bids and collection bids (price, expiry), the operators and the hooks. Every sale is announced by exactly one sale event with its token, seller, buyer, price and token recipient, every royalty paid by one royalty event with its amount and recipient, every stale-bid reward by its amount, and every failed hook call by one hook-failed report; no event announces something that did not happen.",
 ['histories'],H,"No test looks at the events beyond the happy path, and none replays a history from them as indexers do.",
 [V1+'execute.rs',V1+'sudo.rs'],[('emission',V1+'execute.rs, '+V1+'sudo.rs'),('hook failure report',V1+'execute.rs reply')],[],['events of every successful action','order, params and hook queries','bank balances'])
# ---------------- reserve auction
p('R01','Reserve auction holds exactly its auctioned NFTs and high bids',
 "After every completed or failed action, the reserve auction contract's balance in each denom equals the sum of the current high bids in that denom, and a token is owned by the contract if and only if it has an open auction created by its depositor. Coins attached to an action that does not call for them, or beyond what it calls for, are never kept.",
 ['histories','inputs','configurations'],H+", block begin/end events and governance changes over several auctions and denoms",RAT,
 [RA+'execute.rs',RA+'helpers.rs'],[('escrow on create',RA+'execute.rs execute_create_auction'),('must_pay / nonpayable',RA+'execute.rs'),('settlement',RA+'helpers.rs settle_auction')],[('auctions','open auctions',RA+'state.rs')],['bank balance and token owners','auction queries'])
p('R02','Each bid beats the minimum, and the outbid bidder is refunded at once in full',
 "A reserve auction accepts a bid only in the auction's denom, from someone other than the seller, at least the reserve price if it is the first bid and otherwise at least the current high bid increased by the configured percentage (rounded up), and only before the auction's end time (in whole seconds); such bids are not refused. The accepted bid becomes the high bid for its full paid amount, and the previous high bidder is refunded exactly their bid in the same action.",
 ['histories','inputs','configurations'],"every sequence of bids, amounts (1 to about 1e30), increments and block times",RAT,
 [RA+'execute.rs',RA+'state.rs'],[('bid rule',RA+'execute.rs execute_place_bid'),('minimum bid',RA+'state.rs Auction::min_bid_coin')],[('high bid','escrowed bid',RA+'state.rs Auction')],['balances of both bidders','auction query'])
p('R03','Settlement pays exactly the high bid and delivers the token to the winner',
 "Settling an ended auction pays out exactly the high bid: the trading fee (rounded up) to fair burn, the collection's royalty (rounded up) to its payment address if it has one, and the remainder to the seller's funds recipient or the seller; the token goes to the high bidder and the auction disappears, so it can never be settled twice. Anyone may settle an ended auction, and collections that offer no royalty information still settle.",
 ['histories','inputs','configurations'],"every high bid, fee and royalty setting, direct or end-of-block settlement",RAT,
 [RA+'helpers.rs',CM+'sale.rs'],[('settlement',RA+'helpers.rs settle_auction'),('payout','sg-marketplace-common payout_nft_sale_fees')],[],['balances of all parties, token owner, auction query'])
p('R04','Auction clocks start at the first bid and only ever extend near the end',
 "An auction has no end time until its first bid, which sets it to the bid's time plus the chosen duration. A later bid leaves the end time alone unless (counting whole seconds) fewer than the configured extension seconds remain, in which case it moves to the bid's time plus the extension; nothing but a halt postponement changes it otherwise, and an auction can be settled only at or after its end time and never before the first bid.",
 ['histories','inputs','configurations'],"every bid schedule with sub-second block times and every duration/extension setting",RAT,
 [RA+'execute.rs',RA+'helpers.rs'],[('clock',RA+'execute.rs execute_place_bid'),('settle guard',RA+'helpers.rs settle_auction')],[],['end time in auction queries before/after each action'])
p('R05','Only the seller controls an auction, and only before the first bid',
 "Only an auction's seller can change its reserve price or cancel it, and only while it has no bid; a cancelled auction returns the token to the seller, and a new reserve price must again satisfy the denom's minimum. After the first bid neither the seller nor anyone else can cancel or reprice it, and no auction's seller, payout recipient, token or duration ever changes.",
 ['histories','inputs'],H+" with any sender and any moment relative to the first bid",RAT,
 [RA+'execute.rs'],[('seller and not-started checks',RA+'execute.rs execute_update_reserve_price, execute_cancel_auction')],[],['auction queries, token owner'])
p('R06','End of block settles due auctions in end-time order up to the configured limit',
 "Each end-of-block event settles (or postpones, inside a halt window) ended auctions in order of end time, up to the configured maximum per block, and touches no auction that has not ended. Auctions that are not yet due, even within the same second, and auctions that cannot be settled never prevent due ones from being processed, so a backlog is worked off over successive blocks.",
 ['histories','schedules','configurations'],"every set of auctions, end times (including equal seconds with different sub-second parts), limits and block times",RAT,
 [RA+'sudo.rs',RA+'helpers.rs'],[('selection',RA+'sudo.rs sudo_end_block'),('end time index',RA+'state.rs')],[],['set of auctions before/after the event'])
p('R07','Chain halts are detected and auctions ending inside one are postponed',
 "When the time between two consecutive block-begin events reaches the configured threshold, a halt window from the previous block time to the current block time plus the configured buffer is recorded; otherwise none is. An auction whose end time lies strictly inside a recorded window is not settled but postponed to the settlement block's time plus the configured postponement, keeping its bid; a window is dropped only when its end has passed and no unsettled auction that ended inside it could remain, and is dropped by end-of-block processing within a few blocks once that is so and nothing is due.",
 ['histories','schedules','configurations'],"every sequence of block times, gaps, thresholds, buffers and auctions ending in and around windows",RAT,
 [RA+'sudo.rs',RA+'state.rs',RA+'helpers.rs'],[('detection',RA+'sudo.rs sudo_begin_block'),('window test and clean-up',RA+'state.rs HaltManager'),('postponement',RA+'helpers.rs settle_auction')],[('halt windows','recorded halts',RA+'state.rs HALT_MANAGER')],['halt manager query','end times'])
p('R08','Auctions are created only by approved owners within the configured bounds',
 "An auction is created only by the token's owner who approved the contract, for a token without an auction, after the collection's trading start, with a reserve price in a supported denom at or above that denom's minimum, a duration within the configured bounds, a valid funds recipient if any, and exactly the configured creation fee (nothing if the fee is zero), which goes to fair burn in full. Valid creations are not refused, and the auction is recorded exactly as stated.",
 ['inputs','configurations','histories'],"every boundary of reserve price, duration, fee and trading start, any attached funds",RAT,
 [RA+'execute.rs',RA+'helpers.rs'],[('creation checks',RA+'execute.rs execute_create_auction'),('reserve price check',RA+'helpers.rs validate_reserve_price')],[],['outcome vs. pre-state, stored auction, fair burn balance'])
p('R09','Reserve auction queries return exactly the open auctions, correctly paged',
 "Auction queries (single, by seller, by end time) and the minimum-reserve-price query return exactly the matching entries in key order, respecting direction, limit and cursor; paging with the last item as cursor visits each entry once. Auctions whose clock has not started never appear among those listed by end time.",
 ['histories','inputs'],"every reachable set of auctions, cursor, limit and direction",RAT,
 [RA+'query.rs',RA+'state.rs'],[('index ranges',RA+'query.rs')],[],['query responses vs. known auctions'])
p('R10','Reserve auction parameters change only by governance, only as instructed',
 "A reserve auction governance update changes exactly the named parameters to the given values and is rejected as a whole if the bid increment is not strictly between 0% and 100% or a minimum or extension duration is zero. Minimum reserve prices are added and removed exactly as instructed, duplicates or unknown denoms being rejected as a whole, and running auctions keep their own terms.",
 ['histories','inputs','configurations'],"every sequence of governance actions mixed with auctions",RAT,
 [RA+'sudo.rs',RA+'state.rs',RA+'instantiate.rs'],[('sudo handlers',RA+'sudo.rs'),('config validation',RA+'state.rs Config::save')],[],['config and minimum price queries before/after'])
p('R11','Reserve auction events replay to exactly the open auctions and settings',
 "After every successful reserve auction action or block event, replaying the events the contract has emitted (auction created, repriced, cancelled, bid on, postponed, settled; parameters and minimum reserve prices changed) reproduces exactly the open auctions with seller, reserve price, funds recipient, high bid and end time, and the current parameters. Each bid event names the bid it replaces, each settlement event the seller, winner and price, and each detected halt its window; no event announces something that did not happen.",
 ['histories'],H+", block begin/end events and governance changes","No test looks at the events beyond the happy path, and none replays a history from them as indexers do.",
 [RA+'execute.rs',RA+'helpers.rs',RA+'sudo.rs'],[('emission',RA+'execute.rs, '+RA+'helpers.rs settle_auction, '+RA+'sudo.rs')],[],['events of every successful action','auction and configuration queries'])
# ---------------- common / cross-cutting
CT="The package's 10 tests use a few hand-picked amounts and shares."
p('C01','The shared sale splitter conserves value for every price and fee list',
 "For every positive sale price and list of fees, the shared sale splitter either fails, which it does exactly when the fees (each its share of the price rounded up) sum to more than the price, or produces one payment per non-zero fee to that fee's recipient plus one payment of the whole remainder to the seller if it is non-zero, all in the sale denom and summing exactly to the price. It emits exactly one bank transfer per payment.",
 ['inputs'],"every price up to 2^128-1 and every list of fee shares",CT,
 [CM+'sale.rs'],[('splitter',CM+'sale.rs NftSaleProcessor')],[],['payments and messages produced'])
p('C02','The shared guards decide exactly as documented for every input',
 "The shared guards behave identically for every input: a collection is tradable unless it reports a trading start later than now; an owner check fails for anyone but the reported owner; a checked transfer refuses any zero coin and otherwise emits one transfer of exactly those coins; address lists come back validated, sorted and without duplicates; an optional address falls back to its default only when absent; a token transfer message names exactly the given token and recipient.",
 ['inputs','fault_sequences'],"every query answer (including errors), time, coin list and address list",CT,
 [CM+'nft.rs',CM+'coin.rs',CM+'address.rs',CM+'royalties.rs'],[('guards',CM+'nft.rs, coin.rs, address.rs')],[],['return values and messages produced'])
p('C03','The shared royalty lookup picks the right entry and registers it only once',
 "Whatever the royalty registry and the collection answer, the shared royalty lookup returns the registry's entry for the named marketplace, otherwise the registry's default entry, otherwise the collection's own royalty information, otherwise none, with recipient and share unchanged. It asks the registry to register the collection when and only when the collection's own information is used. A registry that cannot answer is an error, never a missing royalty; a collection that cannot answer simply has none.",
 ['inputs','fault_sequences'],"every pair of answers of the registry and the collection, including errors and malformed ones","The package has no test of the lookup; the contract tests see one well-behaved registry.",
 [CM+'royalties.rs',CM+'types.rs'],[('royalty lookup',CM+'royalties.rs fetch_royalty_entry, fetch_or_set_royalties')],[],['entry returned, messages added and questions asked'])
p('X01','Migrating a contract preserves all funds, orders and settings',
 "Migrating any of the three contracts at any point of any history moves no funds or tokens and leaves every order, auction, parameter and hook, and all later behaviour, exactly as before, and records the version of the code now running. The v1 marketplace additionally refuses to migrate from a newer version or from a different contract.",
 ['histories'],"a migration inserted anywhere in any history","No test runs a migration against a populated contract and continues using it.",
 [V2+'migrate.rs',RA+'migrate.rs',V1+'execute.rs'],[('migrate entry points',V2+'migrate.rs, '+RA+'migrate.rs, '+V1+'execute.rs migrate')],[],['all queries and raw state before/after migrate'])
p('X02','Failed actions leave no trace and actions touch only what they address',
 "In all three contracts an action that fails changes no balance, token owner, order, auction or setting. An action that succeeds changes only the orders or auctions it addresses or trades against, the tokens involved in them, and the balances of their parties (acting user, order creators, recipients, finders, fee and royalty recipients); everything else is untouched.",
 ['histories','inputs','fault_sequences'],H+" including failing collections, hooks and transfers","The tests look at the one order under test and never at the rest of the state, nor at state after failures.",
 [V2+'execute.rs',V1+'execute.rs',RA+'execute.rs',RA+'sudo.rs'],[('all handlers',V2+'execute.rs, '+V1+'execute.rs, '+RA+'execute.rs')],[],['complete observable state before/after every action'])
p('X03','A misbehaving collection or hook contract can never harm anyone else',
 "Whatever a collection or hook contract does in any of the three contracts (false or changing answers, refused or silently ignored transfers, calls back into the contract in the middle of an action), the funds held keep covering all open bids and every order, auction, token and balance of users who neither act nor deal with that collection stays as it was. A call back has only the calling contract's own rights: it changes no setting and places, takes or removes no order in another user's name. Users with open orders elsewhere can still withdraw or settle them in full, and money bid on a token of the misbehaving collection leaves the contract only as a refund to the bidder or for a transfer of that token to the buyer.",
 ['inputs','histories','fault_sequences'],"every answer and every call-back sequence of a hostile collection or hook contract inside any history","The tests only use the well-behaved sg721 contracts; no test has a collection or hook that lies, refuses or calls back.",
 [V2+'execute.rs',V2+'helpers.rs',V1+'execute.rs',RA+'execute.rs',RA+'helpers.rs',CM+'nft.rs'],[('state written before messages are sent',V2+'execute.rs, '+V1+'execute.rs, '+RA+'execute.rs'),('hooks as reply_on_error sub-messages',V1+'execute.rs')],[],['orders, auctions, token owners and balances of uninvolved users before/after every action'])
p('X04','No crowd of other open orders changes or makes costlier what an action does',
 "In all three contracts the outcome of an action, and the work it takes (storage entries read or written, messages sent, contract calls), do not depend on how many other open orders or auctions there are that it neither addresses nor trades against. End-of-block processing works off at most the configured number of auctions and takes an amount of work bounded by it, however many auctions are open or already ended (those ending only later in the same second aside). So nobody can block or price out other users by piling up orders.",
 ['inputs','histories'],"every number, kind and arrangement of other people's open orders at any point of any history","The tests hold a handful of orders; none compares the cost or outcome of an action with and without a crowd.",
 [V2+'orders.rs',V2+'state.rs',V1+'execute.rs',V1+'state.rs',RA+'sudo.rs',RA+'state.rs'],[('best matching bid by price index',V2+'orders.rs'),('settlement of at most max_auctions_to_settle_per_block',RA+'sudo.rs')],[],['outcome, effects and storage/message counts of the same action on a chain with and one without the crowd'])
TSP='typescript/packages/marketplace-types/src/'
CLI='typescript/packages/marketplace-cli/src/'
p('X05','Every query is answered in the form the published schema declares',
 "In all three contracts every query that succeeds answers with a value of exactly the form the contract's published schema declares for it, in every reachable state: every required member present, every member of its declared kind, none undeclared. So any client built from the schema can read every answer.",
 ['histories','inputs'],"every query with every argument at any point of any history","The tests decode answers with the very Rust types the contract encodes and never look at the declared answer types.",
 [V1+'msg.rs',V1+'query.rs',V2+'msg.rs',V2+'query.rs',RA+'msg.rs',RA+'query.rs'],[('declared answers',V1+'msg.rs, '+V2+'msg.rs, '+RA+'msg.rs #[returns]'),('answers',V1+'query.rs, '+V2+'query.rs, '+RA+'query.rs')],[],['raw query answers vs. generated JSON schema'])
p('X06','Every action and query is deterministic and queries change nothing',
 "In all three contracts, executing the same message on the same state in the same block has the same outcome every time: the same success or failure, the same resulting state, and the same payments, calls to other contracts and events in the same order, for the same amount of storage work. A query gives the same answer every time and leaves the state unchanged.",
 ['histories','inputs'],"every message and query at any point of any history, on every node of the chain","A unit test executes a message once, in one process, so an outcome that depends on hash order, process-wide state or anything else outside the chain's state passes.",
 [V1+'execute.rs',V1+'helpers.rs',V1+'sudo.rs',V1+'query.rs',V2+'execute.rs',V2+'helpers.rs',V2+'query.rs',RA+'execute.rs',RA+'sudo.rs',RA+'query.rs'],[('entry points',V1+'execute.rs, '+V1+'sudo.rs, '+V2+'execute.rs, '+RA+'execute.rs, '+RA+'sudo.rs'),('queries',V1+'query.rs, '+V2+'query.rs, '+RA+'query.rs')],[],['two executions from the same state compared in full'])
p('T01','The TypeScript clients send exactly the message, sender and funds asked for',
 "For the v1 marketplace and the reserve auction each TypeScript call (signing client, query client, message composer, query hook and query factory) sends exactly one message, which the contract reads as the operation named with the arguments given, to the client's contract, with the given sender, funds, fee (automatic if left out) and memo, and hands back the contract's answer unchanged. Every operation has its call; optional arguments may be left out and falsy values are kept. Cached queries use different cache keys for different questions or contracts, honour the caller's options, and are disabled and ask nothing without a client.",
 ['inputs'],"every operation with every combination of arguments, options, funds, fee and memo","The repository's only TypeScript tests need a live chain and cover a handful of auction calls.",
 [TSP+'Marketplace.client.ts',TSP+'Marketplace.message-composer.ts',TSP+'Marketplace.react-query.ts',TSP+'ReserveAuction.client.ts',TSP+'ReserveAuction.message-composer.ts',TSP+'ReserveAuction.react-query.ts'],[('clients',TSP+'*.client.ts'),('composers',TSP+'*.message-composer.ts'),('cached queries',TSP+'*.react-query.ts')],[],['recorded calls, decoded by the contracts own Rust types'])
p('T02','The TypeScript types describe what the contracts accept and answer',
 "The declared TypeScript types of messages, call arguments and answers of the v1 marketplace and the reserve auction accept every message the contract accepts and every answer it gives. They reject a message that lacks a member the contract needs or gives a member a kind the contract cannot read, and an answer of a form the contract never gives.",
 ['inputs','histories'],"every message of the contract's schema and every answer in any history","Nothing in the repository compares the TypeScript types with the contracts.",
 [TSP+'Marketplace.types.ts',TSP+'ReserveAuction.types.ts',TSP+'Marketplace.client.ts',TSP+'ReserveAuction.client.ts',V1+'msg.rs',RA+'msg.rs'],[('types',TSP+'*.types.ts'),('arguments and answers',TSP+'*.client.ts')],[],['type checker verdicts on recorded messages and answers'])
p('T03','The command line keeps keys safe and schedules exactly the auctions asked for',
 "The command line stores each account key under its name, never overwrites or loses one, makes the first the default, selects exactly the one named, and lists every account once with its address and balance. Scheduling approves, creates (with the creation fee, a reserve of one STARS and the asked end) and bids on each named token of the collection that has no auction, each exactly once and in that order, leaves tokens with an auction alone, sends nothing on a dry run or with an invalid date, account or endpoint, and stops at a refused transaction. Amounts and dates convert without loss.",
 ['inputs','histories','fault_sequences'],"every sequence of commands, settings, existing auctions and refused transactions","The command line has no tests.",
 [CLI+'lib/confStorage.ts',CLI+'lib/cosmos/cosmWasmClient.ts',CLI+'lib/cosmos/unitConversions.ts',CLI+'lib/helpers/date.ts',CLI+'commands/keys/generate.ts',CLI+'commands/keys/set.ts',CLI+'commands/keys/list.ts',CLI+'commands/reserve-auction/schedule-end-auction.ts'],[('key store',CLI+'lib/confStorage.ts'),('scheduling',CLI+'commands/reserve-auction/schedule-end-auction.ts')],[('settings','keys, default account, endpoint',CLI+'lib/confStorage.ts')],['settings store, output and recorded transactions after every command'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
