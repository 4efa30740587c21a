// One request per line: runs a command of the command line against the stand-ins, answers what it did.
import { createInterface } from 'node:readline'
import Generate from 'repo:marketplace-cli/src/commands/keys/generate'
import SetKey from 'repo:marketplace-cli/src/commands/keys/set'
import List from 'repo:marketplace-cli/src/commands/keys/list'
import Balance from 'repo:marketplace-cli/src/commands/keys/get-balance'
import Schedule from 'repo:marketplace-cli/src/commands/reserve-auction/schedule-end-auction'
import * as date from 'repo:marketplace-cli/src/lib/helpers/date'
import * as units from 'repo:marketplace-cli/src/lib/cosmos/unitConversions'
import * as url from 'repo:marketplace-cli/src/lib/helpers/httpUrl'
import * as object from 'repo:marketplace-cli/src/lib/helpers/object'
import storage from 'repo:marketplace-cli/src/lib/confStorage'
const W = (globalThis as any).W
// the clock runs on while transactions are under way
W.skew = 0
globalThis.Date = new Proxy(Date, {
  construct: (D: any, a: any[]) => (a.length ? new D(...a) : new D(D.now() + W.skew)),
  get: (D: any, k) => (k === 'now' ? () => D.now() + W.skew : D[k]),
}) as any
const commands: any = { generate: Generate, set: SetKey, list: List, balance: Balance, schedule: Schedule }
console.log = console.error = console.warn = console.info = (...a: any[]) => { W.log.push(a.map(String).join(' ')) }
// output written directly counts as output too, and never reaches the answers
const answer = process.stdout.write.bind(process.stdout)
process.stdout.write = ((s: any) => { W.log.push(String(s)); return true }) as any
const lib: any = { ...date, ...units, ...url, ...object }
async function one(r: any) {
  if (r.op === 'conf') { W.conf[r.key] = r.value; return {} }
  if (r.op === 'iso') return { iso: new Date(r.ms).toISOString() }
  if (r.op === 'now') return { ms: Date.now() }
  if (r.op === 'addr') return { addr: W.address(r.mnemonic, 'stars') }
  if (r.op === 'lib' && typeof lib[r.fn] !== 'function' || r.op === 'store' && typeof (storage as any)?.setMnemonic !== 'function') return { absent: true }
  if (r.op === 'lib') { try { return { ret: lib[r.fn](...r.args) } } catch (e) { return { err: String(e) } } }
  W.argv = { args: r.args, flags: r.flags }
  W.chain = r.chain ?? {}
  W.log = []; W.txs = []; W.uris = []; W.gas = []; W.refused = 0; W.mnemonics = []
  let err = null
  const t0 = Date.now()
  try {
    if (r.op === 'store') (storage as any).setMnemonic(r.flags.name, r.mnemonic)
    else await new commands[r.op]([], {}).run()
  } catch (e: any) { err = String(e?.message ?? e) }
  return { err, log: W.log, txs: W.txs, uris: W.uris, gas: W.gas, refused: W.refused, conf: W.conf, made: W.mnemonics, t0, t1: Date.now() }
}
;(async () => {
  for await (const line of createInterface({ input: process.stdin })) answer(JSON.stringify(await one(JSON.parse(line))) + '\n')
})()
