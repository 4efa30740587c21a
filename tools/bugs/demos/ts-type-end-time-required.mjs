// needs: a TypeScript program that handles an auction nobody has bid on
// breaks: the declared type says the end time is always there, so correct handling of its absence no longer type-checks
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { createRequire } from 'node:module'
import { check } from './kit.mjs'
const ts = createRequire('/opt/veriftools/node/')('typescript')
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-ts-'))
try {
  const f = path.join(dir, 'use.ts')
  const from = path.join(process.cwd(), 'typescript/packages/marketplace-types/src/ReserveAuction.types')
  fs.writeFileSync(f, `import { Auction } from ${JSON.stringify(from)}
export const fresh: Auction = { collection: 'c', token_id: '1', seller: 's', duration: 5, reserve_price: { denom: 'ustars', amount: '1' }, end_time: null, first_bid_time: null, high_bid: null, seller_funds_recipient: null }
`)
  const p = ts.createProgram([f], { strict: true, noEmit: true, skipLibCheck: true, types: [] })
  const d = ts.getPreEmitDiagnostics(p).filter((x) => x.file?.fileName.endsWith('use.ts')).map((x) => ts.flattenDiagnosticMessageText(x.messageText, ' '))
  check(d.length === 0, d.join('; '))
} finally { fs.rmSync(dir, { recursive: true }) }
