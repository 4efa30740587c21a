// needs: a command naming an account that does not exist while a default account does
// breaks: an unknown account name acts, and pays, from the default account
import { load, check } from './kit.mjs'
const lib = await load('marketplace-cli/src/lib/cosmos/cosmWasmClient.ts')
Object.assign(globalThis.W.conf, { node: 'https://rpc', 'gas-price': '0.1ustars', mnemonics: { creator: 'seed1' }, 'default-mnemonic': 'creator' })
check((await lib.getSigningCosmWasmClient('creator')).address === globalThis.W.address('seed1', 'stars'), 'the named account')
check((await lib.getSigningCosmWasmClient()).address === globalThis.W.address('seed1', 'stars'), 'the default account')
let refused = false
try { await lib.getSigningCosmWasmClient('bidder') } catch (e) { refused = true }
check(refused, 'an unknown account was served')
