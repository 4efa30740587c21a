// needs: a bid sent with more than one coin
// breaks: the client sends other funds than the caller gave
import { load, recorder, check } from './kit.mjs'
const { contracts: { ReserveAuction: m } } = await load('marketplace-types/src/index.ts')
const r = recorder({})
const funds = [{ denom: 'ustars', amount: '5' }, { denom: 'uatom', amount: '6' }]
await new m.ReserveAuctionClient(r, 'me', 'market').placeBid({ collection: 'c', tokenId: '7' }, 'auto', undefined, funds)
check(JSON.stringify(r.calls[0].funds) === JSON.stringify(funds), 'funds were ' + JSON.stringify(r.calls[0].funds))
