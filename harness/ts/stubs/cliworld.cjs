// Stand-ins for what the command line is built on: settings store, wallets, chain clients, argument parsing.
// Everything lives in memory; the chain only records what it is asked and answers from W.chain.
const crypto = require('crypto')
const W = (globalThis.W = globalThis.W ?? { conf: {}, chain: {}, argv: {}, log: [], txs: [], uris: [], gas: [], made: 0, mnemonics: [] })
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)))

class Conf {
  get(k, d) { return k in W.conf ? copy(W.conf[k]) : d }
  set(k, v) {
    if (typeof k === 'object') { for (const [a, b] of Object.entries(k)) this.set(a, b); return }
    if (v === undefined) throw new TypeError('Use `delete()` to clear values')
    W.conf[k] = copy(v)
  }
  has(k) { return k in W.conf }
  delete(k) { delete W.conf[k] }
  clear() { W.conf = {} }
  get store() { return copy(W.conf) }
  set store(v) { W.conf = copy(v) }
}
const address = (m, prefix) => prefix + '1' + crypto.createHash('sha1').update(m).digest('hex')
W.address = address
class DirectSecp256k1HdWallet {
  constructor(m, prefix) { this.mnemonic = m; this.prefix = prefix }
  static async generate(n, o) {
    const m = Array.from({ length: n ?? 12 }, (_, i) => (i ? 'word' + i : 'seed' + ++W.made)).join(' ')
    W.mnemonics.push(m)
    return new DirectSecp256k1HdWallet(m, o?.prefix ?? 'cosmos')
  }
  static async fromMnemonic(m, o) {
    if (typeof m !== 'string' || !/^seed\d+( word\d+)*$/.test(m)) throw new Error('Invalid mnemonic format')
    return new DirectSecp256k1HdWallet(m, o?.prefix ?? 'cosmos')
  }
  async getAccounts() { return [{ address: address(this.mnemonic, this.prefix), algo: 'secp256k1' }] }
}
const GasPrice = { fromString(s) { if (!/^\d+(\.\d+)?[a-z]+$/.test(s)) throw new Error('Invalid gas price string'); return { gas: s } } }
const same = (a, b) => a.collection === b.collection && String(a.token_id) === String(b.token_id)
class CosmWasmClient {
  static async connect(uri) { W.uris.push(uri); return new CosmWasmClient() }
  async getChainId() { return 'chain-1' }
  async getBalance(a, denom) { return { denom, amount: W.chain.balances?.[a]?.[denom] ?? '0' } }
  async queryContractSmart(contract, msg) {
    const c = W.chain, [k] = Object.keys(msg), q = msg[k]
    if (contract === c.auction) {
      if (k === 'config') return copy(c.config)
      if (k === 'halt_manager') return copy({ windows: [] })
      if (k === 'auction') return copy(c.auctions.find((a) => same(a, q)) ?? null)
      if (k === 'auctions_by_seller') {
        const key = (a) => a.collection + '\0' + a.token_id
        const o = q.query_options ?? {}
        let l = c.auctions.filter((a) => a.seller === q.seller).sort((a, b) => (key(a) < key(b) ? -1 : 1))
        if (o.descending) l.reverse()
        if (o.start_after) l = l.filter((a) => (o.descending ? key(a) < key(o.start_after) : key(a) > key(o.start_after)))
        return copy(l.slice(0, Math.min(o.limit ?? 10, 100)))
      }
    } else if (c.collections.includes(contract)) {
      if (k === 'tokens') return { tokens: [] }
      if (k === 'owner_of') return { owner: c.owner ?? '', approvals: [] }
    }
    throw new Error('unknown query to ' + contract + ' ' + JSON.stringify(msg))
  }
}
class SigningCosmWasmClient extends CosmWasmClient {
  static async connectWithSigner(uri, wallet, o) {
    const s = new SigningCosmWasmClient()
    s.wallet = wallet
    W.uris.push(uri); W.gas.push(o?.gasPrice?.gas ?? null)
    return s
  }
  async execute(sender, contract, msg, fee, memo, funds) {
    const [a] = await this.wallet.getAccounts()
    if (a.address !== sender) throw new Error('the wallet does not hold ' + sender)
    const c = W.chain
    if (c.failAt !== undefined && c.failAt !== null && W.txs.length >= c.failAt) { W.refused = (W.refused ?? 0) + 1; throw new Error('out of gas') }
    W.txs.push({ sender, contract, msg: copy(msg), funds: copy(funds ?? []), fee: copy(fee), now: Date.now() })
    W.skew = (W.skew ?? 0) + (c.tick ?? 0)
    const [k] = Object.keys(msg)
    if (contract === c.auction && k === 'create_auction') {
      if (c.auctions.some((x) => same(x, msg[k]))) throw new Error('auction already exists')
      c.auctions.push({ collection: msg[k].collection, token_id: msg[k].token_id, seller: sender, reserve_price: msg[k].reserve_price, duration: String(msg[k].duration), end_time: null, seller_funds_recipient: null, high_bid: null, first_bid_time: null })
    }
    return { transactionHash: 'T' + W.txs.length, logs: [], height: 1, events: [], gasWanted: 1, gasUsed: 1 }
  }
  async executeMultiple(sender, list, fee, memo) {
    let r
    for (const x of list) r = await this.execute(sender, x.contractAddress, x.msg, fee, memo, x.funds)
    return r
  }
}

class Command {
  async parse(cls) {
    const c = cls ?? this.constructor, args = {}, flags = {}, g = W.argv
    const names = Object.keys(c.flags ?? {})
    const given = Object.fromEntries(Object.entries(g.flags ?? {}).map(([k, v]) => [k.length === 1 ? names.find((n) => c.flags[n].char === k) ?? k : k, v]))
    for (const k of Object.keys(given)) if (!names.includes(k)) throw new Error('Nonexistent flag: --' + k)
    for (const k of names) {
      const d = c.flags[k]
      let v = given[k]
      if (Array.isArray(v) && !d.multiple) v = v[v.length - 1]
      if (v === undefined) v = typeof d.default === 'function' ? await d.default() : d.default
      if (v === undefined && d.required) throw new Error('Missing required flag: --' + k)
      if (v !== undefined) flags[k] = d.multiple && !Array.isArray(v) ? [v] : copy(v)
    }
    for (const [i, d] of (c.args ?? []).entries()) {
      let v = (g.args ?? [])[i]
      if (v === undefined) v = d.default
      if (v === undefined && d.required) throw new Error('Missing required arg: ' + d.name)
      args[d.name] = v
    }
    return { args, flags, argv: g.args ?? [], raw: [], metadata: {} }
  }
  log(...a) { W.log.push(a.map(String).join(' ')) }
  warn(x) { W.log.push(String(x)) }
  error(x) { throw x instanceof Error ? x : new Error(String(x)) }
  exit() { throw new Error('exit') }
}
const Flags = new Proxy({}, { get: (_, kind) => (o) => ({ kind, ...o }) })
const ux = { confirm: async () => true, prompt: async () => '', action: { start() {}, stop() {} }, log: (...a) => W.log.push(a.join(' ')) }

const vals = (c) => (c == null ? [] : Array.isArray(c) ? c.map((v, i) => [v, i]) : Object.entries(c).map(([k, v]) => [v, k]))
const by = (f) => (typeof f === 'function' ? f : f === undefined ? (x) => x : typeof f === 'string' ? (x) => x?.[f] : Array.isArray(f) ? (x) => x?.[f[0]] === f[1] : (x) => Object.entries(f).every(([k, v]) => x?.[k] === v))
const _ = {
  isObject: (x) => x !== null && (typeof x === 'object' || typeof x === 'function'), isArray: Array.isArray, isString: (x) => typeof x === 'string',
  isNil: (x) => x == null, isUndefined: (x) => x === undefined, isPlainObject: (x) => x !== null && typeof x === 'object' && !Array.isArray(x),
  isEmpty: (x) => vals(x).length === 0 && !(typeof x === 'string' && x), isFunction: (x) => typeof x === 'function', isNumber: (x) => typeof x === 'number',
  map: (c, f) => vals(c).map(([v, k]) => by(f)(v, k, c)), forEach: (c, f) => { for (const [v, k] of vals(c)) if (f(v, k, c) === false) break; return c },
  filter: (c, f) => vals(c).filter(([v, k]) => by(f)(v, k, c)).map((x) => x[0]), reject: (c, f) => vals(c).filter(([v, k]) => !by(f)(v, k, c)).map((x) => x[0]),
  find: (c, f) => vals(c).find(([v, k]) => by(f)(v, k, c))?.[0], some: (c, f) => vals(c).some(([v, k]) => by(f)(v, k, c)), every: (c, f) => vals(c).every(([v, k]) => by(f)(v, k, c)),
  reduce: (c, f, a) => vals(c).reduce((s, [v, k]) => f(s, v, k, c), a), includes: (c, x) => (typeof c === 'string' ? c.includes(x) : vals(c).some((v) => v[0] === x)),
  keys: (o) => Object.keys(o ?? {}), values: (o) => Object.values(o ?? {}), entries: (o) => Object.entries(o ?? {}), toPairs: (o) => Object.entries(o ?? {}), fromPairs: (l) => Object.fromEntries(l),
  has: (o, k) => o != null && Object.prototype.hasOwnProperty.call(o, k), get: (o, p, d) => { let x = o; for (const k of Array.isArray(p) ? p : String(p).split('.')) x = x?.[k]; return x === undefined ? d : x },
  size: (c) => vals(c).length, uniq: (l) => [...new Set(l)], cloneDeep: copy, clone: (x) => (Array.isArray(x) ? [...x] : { ...x }), assign: Object.assign, merge: Object.assign,
  pick: (o, ...ks) => Object.fromEntries(ks.flat().filter((k) => k in o).map((k) => [k, o[k]])), omit: (o, ...ks) => Object.fromEntries(Object.entries(o).filter(([k]) => !ks.flat().includes(k))),
  mapValues: (o, f) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, by(f)(v, k, o)])), join: (l, s) => l.join(s), sortBy: (c, f) => vals(c).map((x) => x[0]).sort((a, b) => (by(f)(a) < by(f)(b) ? -1 : 1)),
  compact: (l) => l.filter(Boolean), flatten: (l) => l.flat(), head: (l) => l?.[0], first: (l) => l?.[0], last: (l) => l?.[l.length - 1], isEqual: (a, b) => JSON.stringify(a) === JSON.stringify(b),
}
const world = require('./world.cjs')
const known = { Conf, DirectSecp256k1HdWallet, GasPrice, CosmWasmClient, SigningCosmWasmClient, Command, Flags, CliUx: { ux }, ux, run() {}, ...Object.fromEntries(Object.entries(_)) }
module.exports = { world: new Proxy(known, { get: (t, k) => (k in t ? t[k] : world[k]) }), Conf, _, W }
