// needs: a second key under the name of an existing key that is not the default one
// breaks: an existing key is silently overwritten, and with it the account
import { load, check } from './kit.mjs'
const storage = (await load('marketplace-cli/src/lib/confStorage.ts')).default
storage.setMnemonic('first', 'seed1'); storage.setMnemonic('second', 'seed2')
let refused = false
try { storage.setMnemonic('second', 'seed3') } catch (e) { refused = true }
check(refused, 'a name in use was accepted')
check(globalThis.W.conf.mnemonics.second === 'seed2', 'the key was overwritten')
