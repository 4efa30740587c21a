// needs: two cached auctions_by_end_time questions that differ only in how many answers they want or in direction
// breaks: the cache key leaves out part of the question, so one page of auctions is shown for another
import { load, recorder, check } from './kit.mjs'
const { contracts: { ReserveAuction: m } } = await load('marketplace-types/src/index.ts')
const key = (queryOptions) => JSON.stringify(m.useReserveAuctionAuctionsByEndTimeQuery({ client: new m.ReserveAuctionQueryClient(recorder([]), 'c'), args: { endTime: 1, queryOptions } }).queryKey)
check(key({ limit: 1 }) !== key({ limit: 2 }), 'questions with another limit share a cache key')
check(key({ descending: true }) !== key({ descending: false }), 'questions in the other direction share a cache key')
check(key({ limit: 1 }) === key({ limit: 1 }), 'the same question has two cache keys')
