// Stand-ins for the packages the clients import. They only record what they are asked.
const send = (o) => ({
  sender: o.sender ?? '', contract: o.contract ?? '', msg: o.msg ?? new Uint8Array(),
  funds: (o.funds ?? []).map((c) => ({ denom: c.denom ?? '', amount: c.amount ?? '' })),
})
const known = {
  toUtf8: (s) => new TextEncoder().encode(s),
  fromUtf8: (b) => new TextDecoder().decode(b),
  toBase64: (b) => Buffer.from(b).toString('base64'),
  fromBase64: (s) => new Uint8Array(Buffer.from(s, 'base64')),
  MsgExecuteContract: { fromPartial: send, encode: (m) => ({ finish: () => m }) },
  useQuery: (key, fn, options) => (key && !Array.isArray(key) && key.queryKey ? { hook: true, ...key } : { hook: true, queryKey: key, queryFn: fn, ...options }),
  useMutation: (fn, options) => ({ hook: true, mutationFn: fn, ...options }),
  __esModule: true,
}
module.exports = new Proxy(known, {
  get: (t, k) => (k in t ? t[k] : k === 'default' ? module.exports : class Unknown { constructor() { throw new Error('outside world: ' + String(k)) } }),
})
