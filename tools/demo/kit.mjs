// bundles a TypeScript source of the repository with stand-ins for external packages and loads it
import path from 'node:path'
import fs from 'node:fs'
import os from 'node:os'
import { createRequire } from 'node:module'
const esbuild = createRequire('/opt/veriftools/node/')('esbuild')
const here = path.dirname(new URL(import.meta.url).pathname)
const pk = path.join(process.cwd(), 'typescript/packages')
export async function load(entry) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-ts-'))
  try {
    const out = path.join(dir, 'out.cjs')
    await esbuild.build({
      entryPoints: [path.join(pk, entry)], outfile: out, bundle: true, platform: 'node', format: 'cjs', logLevel: 'error', target: 'node20',
      plugins: [{ name: 'stand-ins', setup(b) {
        b.onResolve({ filter: /^@stargazezone\/marketplace-types$/ }, () => ({ path: path.join(pk, 'marketplace-types/src/index.ts') }))
        b.onResolve({ filter: /^conf$/ }, () => ({ path: path.join(here, 'conf.cjs') }))
        b.onResolve({ filter: /^lodash/ }, () => ({ path: path.join(here, 'lodash.cjs') }))
        b.onResolve({ filter: /^(react-query|@cosmjs\/encoding|cosmjs-types\/.*)$/ }, () => ({ path: path.join(here, 'world.cjs') }))
        b.onResolve({ filter: /^(@oclif\/|@cosmjs\/)/ }, () => ({ path: path.join(here, 'outside.cjs') }))
      } }],
    })
    return createRequire(import.meta.url)(out)
  } finally { fs.rmSync(dir, { recursive: true }) }
}
export const recorder = (answer) => {
  const calls = []
  return { calls, execute: async (sender, contract, msg, fee, memo, funds) => { calls.push({ sender, contract, msg: JSON.parse(JSON.stringify(msg)), fee, memo, funds }); return answer }, queryContractSmart: async (contract, msg) => { calls.push({ contract, msg: JSON.parse(JSON.stringify(msg)) }); return answer } }
}
/// runs a command of the command line in the in-memory world
export async function run(mod, args, flags, chain = {}) {
  const W = globalThis.W
  Object.assign(W, { argv: { args, flags }, chain, log: [], txs: [], uris: [], gas: [] })
  const log = console.log
  console.log = (...a) => W.log.push(a.join(' '))
  try { await new mod.default([], {}).run(); return null } catch (e) { return String(e.message ?? e) } finally { console.log = log }
}
export const check = (ok, what) => { if (!ok) { console.error('FAILED: ' + what); process.exit(1) } }
