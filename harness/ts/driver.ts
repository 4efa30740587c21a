// Reads one request per line, answers with one line: what the client under test did with it.
import { createInterface } from 'node:readline'
import { contracts } from '@stargazezone/marketplace-types'
const C: any = contracts

class Recorder {
  calls: any[] = []
  constructor(private answer: any) {}
  execute = async (sender: any, contract: any, msg: any, fee: any, memo: any, funds: any) => {
    this.calls.push({ fn: 'execute', sender, contract, msg: JSON.stringify(msg), fee, memo, funds })
    return this.answer
  }
  executeMultiple = async (sender: any, list: any[], fee: any, memo: any) => {
    for (const x of list) this.calls.push({ fn: 'execute', sender, contract: x.contractAddress, msg: JSON.stringify(x.msg), fee, memo, funds: x.funds })
    return this.answer
  }
  queryContractSmart = async (contract: any, msg: any) => {
    this.calls.push({ fn: 'query', contract, msg: JSON.stringify(msg) })
    return this.answer
  }
}
const plain = (x: any) => (x === undefined ? null : x)
const args = (r: any) => {
  if (r.args === null) return undefined
  const a = { ...r.args }
  for (const k of r.undef ?? []) a[k] = undefined
  return a
}
async function one(r: any): Promise<any> {
  const mod = C[r.module]
  const rec = new Recorder(r.answer)
  const a = args(r)
  const tail: any[] = []
  if ('fee' in r) tail.push(r.fee === null ? undefined : r.fee)
  if ('memo' in r) tail.push(r.memo === null ? undefined : r.memo)
  if ('funds' in r) tail.push(r.funds === null ? undefined : r.funds)
  if (r.kind === 'names') {
    // everything a caller can call
    const lower = r.module[0].toLowerCase() + r.module.slice(1)
    const fns = (o: any) => Object.keys(o).filter((k) => typeof o[k] === 'function').sort()
    return {
      exec: fns(new mod[r.module + 'Client'](rec, r.sender, r.contract)), query: fns(new mod[r.module + 'QueryClient'](rec, r.contract)),
      compose: fns(new mod[r.module + 'MessageComposer'](r.sender, r.contract)), factory: fns(mod[lower + 'Queries']),
      hook: Object.keys(mod).filter((k) => /^use.*Query$/.test(k)).map((k) => k.slice(3 + r.module.length, -5)).map((k) => k[0].toLowerCase() + k.slice(1)).sort(),
    }
  }
  if (r.kind === 'exec') {
    const c = new mod[r.module + 'Client'](rec, r.sender, r.contract)
    let f = c[r.method]
    if (!r.detached) f = f.bind(c)
    const ret = await (a === undefined ? f(...tail) : f(a, ...tail))
    return { calls: rec.calls, ret: plain(ret) }
  }
  if (r.kind === 'query') {
    const c = r.signing ? new mod[r.module + 'Client'](rec, r.sender, r.contract) : new mod[r.module + 'QueryClient'](rec, r.contract)
    let f = c[r.method]
    if (!r.detached) f = f.bind(c)
    const ret = await (a === undefined ? f() : f(a))
    return { calls: rec.calls, ret: plain(ret) }
  }
  if (r.kind === 'compose') {
    const c = new mod[r.module + 'MessageComposer'](r.sender, r.contract)
    let f = c[r.method]
    if (!r.detached) f = f.bind(c)
    const m = a === undefined ? f(...tail) : f(a, ...tail)
    return { typeUrl: m.typeUrl, sender: m.value.sender, contract: m.value.contract, msg: new TextDecoder().decode(m.value.msg), funds: m.value.funds }
  }
  // a cached query: hook or factory
  const client = r.noclient ? undefined : new mod[r.module + 'QueryClient'](rec, r.contract)
  const lower = r.module[0].toLowerCase() + r.module.slice(1)
  const options = r.options === null ? undefined : { ...r.options }
  const select = (x: any) => x
  if (r.select) options.select = select
  const q = r.kind === 'hook'
    ? mod['use' + r.module + r.method[0].toUpperCase() + r.method.slice(1) + 'Query']({ client, args: a, options })
    : mod[lower + 'Queries'][r.method]({ client, args: a, options })
  let ret: any = null, failed = false
  try { ret = await q.queryFn() } catch (e) { failed = true }
  return { calls: rec.calls, ret: plain(ret), failed, key: JSON.stringify(q.queryKey), enabled: plain(q.enabled), opts: Object.fromEntries(Object.keys(options ?? {}).filter((k) => k !== 'select').map((k) => [k, plain(q[k])])), select: q.select === select }
}
;(async () => {
  for await (const line of createInterface({ input: process.stdin })) {
    let out: any
    try { out = await one(JSON.parse(line)) } catch (e: any) { out = { err: String(e && e.message || e) } }
    process.stdout.write(JSON.stringify(out) + '\n')
  }
})()
