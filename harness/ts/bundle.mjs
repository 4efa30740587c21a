// node bundle.mjs REPO OUT: the repository's TypeScript clients, with stand-ins for the packages of the outside world
import path from 'node:path'
import fs from 'node:fs'
import { createRequire } from 'node:module'
const esbuild = createRequire('/opt/veriftools/node/')('esbuild')
const [repo, out, entry] = process.argv.slice(2)
const cli = entry === 'cli.ts'
const here = path.dirname(new URL(import.meta.url).pathname)
// the real lodash where there is one
const lodash = '/opt/veriftools/quint/node_modules/lodash'
const pk = path.join(repo, 'typescript/packages')
const plugin = {
  name: 'stand-ins',
  setup(b) {
    b.onResolve({ filter: /^@stargazezone\/marketplace-types$/ }, () => ({ path: path.join(pk, 'marketplace-types/src/index.ts') }))
    // a helper that has moved is not judged on its own
    b.onResolve({ filter: /^repo:/ }, (a) => {
      const f = path.join(pk, a.path.slice(5))
      const g = [f + '.ts', f + '.tsx', f + '/index.ts'].find((x) => fs.existsSync(x))
      return g || !/\/lib\//.test(f) ? { path: g ?? f + '.ts' } : { path: f, namespace: 'absent' }
    })
    b.onLoad({ filter: /./, namespace: 'absent' }, () => ({ contents: 'module.exports = {}', loader: 'js' }))
    if (cli) {
      b.onResolve({ filter: /^conf$/ }, () => ({ path: path.join(here, 'stubs/conf.cjs') }))
      b.onResolve({ filter: /^lodash(\/|$)/ }, (a) => ({ path: !fs.existsSync(lodash) ? path.join(here, 'stubs/lodash.cjs') : a.path === 'lodash' ? lodash + '/lodash.js' : lodash + a.path.slice(6).replace(/(\.js)?$/, '.js') }))
      b.onResolve({ filter: /^(@oclif|@cosmjs)\// }, () => ({ path: path.join(here, 'stubs/outside.cjs') }))
    }
    b.onResolve({ filter: /^(@cosmjs\/|cosmjs-types\/|react-query$|@tanstack\/|@oclif\/|conf$|lodash|dotenv)/ }, () => ({ path: path.join(here, 'stubs/world.cjs') }))
  },
}
await esbuild.build({
  entryPoints: [path.join(here, entry)], outfile: out, bundle: true, platform: 'node', format: 'cjs',
  plugins: [plugin], logLevel: 'error', target: 'node20',
})
