// needs: a caller of the cached halt_manager question who asks that the answer count as stale at once (staleTime: 0)
// breaks: the caller's option is replaced, so an outdated halt state is shown for half a minute
import { load, recorder, check } from './kit.mjs'
const { contracts: { ReserveAuction: m } } = await load('marketplace-types/src/index.ts')
const q = (options) => m.reserveAuctionQueries.haltManager({ client: new m.ReserveAuctionQueryClient(recorder([]), "c"), options })
check(q({ staleTime: 0 }).staleTime === 0, 'the caller\'s staleTime was replaced')
check(q({ staleTime: 7 }).staleTime === 7, 'the caller\'s staleTime was replaced')
