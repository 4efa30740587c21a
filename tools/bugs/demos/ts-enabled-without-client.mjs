// needs: a hook asked to be enabled while the client does not exist yet
// breaks: the query runs without a client and fails instead of waiting for one
import { load, check } from './kit.mjs'
const { contracts: { Marketplace: m } } = await load('marketplace-types/src/index.ts')
for (const [k, hook] of Object.entries(m).filter(([k]) => /^useMarketplace.*Query$/.test(k))) {
  const q = hook({ client: undefined, args: { collection: 'c', bidder: 'b', tokenId: 1, seller: 's', denom: 'd', askId: 'a' }, options: { enabled: true } })
  check(q.enabled === false, k + ' is enabled without a client')
}
