// needs: a list of tokens in which one that is already auctioned stands before one that is not
// breaks: tokens after an already auctioned one are skipped
import { load, run, check } from './kit.mjs'
const m = await load('marketplace-cli/src/commands/reserve-auction/schedule-end-auction.ts')
const W = globalThis.W
Object.assign(W.conf, { node: 'https://rpc', 'gas-price': '0.1ustars', mnemonics: { creator: 'seed1', bidder: 'seed2' }, 'default-mnemonic': 'creator' })
const creator = W.address('seed1', 'stars')
const coin = (n) => ({ denom: 'ustars', amount: String(n) })
const chain = { auction: 'market', collections: ['nft'], config: { create_auction_fee: coin(5), min_duration: 1, max_duration: 10000000, extend_duration: 1 },
  owner: creator,
  auctions: [{ collection: 'nft', token_id: '1', seller: creator, reserve_price: coin(1000000), duration: 100, end_time: null }] }
const end = new Date(Date.now() + 86400000).toISOString()
const err = await run(m, ['market', 'nft', end, 'creator', 'bidder'], { 'token-ids': ['1', '2'] }, chain)
if (err) console.error(err, JSON.stringify(W.txs))
const made = JSON.stringify(W.txs)
check(made.includes('create_auction') && made.includes('"2"'), 'no auction for the second token: ' + made)
check(!/create_auction[^}]*"token_id":"1"/.test(made), 'a second auction for the first token')
