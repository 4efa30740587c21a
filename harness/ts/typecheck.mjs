// node typecheck.mjs REPO FILE: reads literals from FILE (JSON: [{i, t, v}]), prints [[i, message], ...] for those
// whose value is not assignable to the declared type. t is a type expression over the repository's TypeScript modules.
import path from 'node:path'
import fs from 'node:fs'
import { createRequire } from 'node:module'
const ts = createRequire('/opt/veriftools/node/')('typescript')
const [repo, file] = process.argv.slice(2)
const src = path.join(repo, 'typescript/packages/marketplace-types/src')
const items = JSON.parse(fs.readFileSync(file, 'utf8'))
const main = file + '.lit.ts', world = file + '.world.d.ts'
const worldText = `declare module '@cosmjs/*';\ndeclare module 'cosmjs-types/*';\ndeclare module 'react-query' {
  export interface UseQueryOptions<D = any, E = any, T = D, K = any> { answer?: D; enabled?: boolean; staleTime?: number; initialData?: undefined; queryKey?: any; queryFn?: any; [k: string]: any }
  export function useQuery<D = any, E = any, T = D>(...a: any[]): { answer?: D; data?: T; [k: string]: any };
}\n`
let text = ''
for (const m of ['Marketplace', 'ReserveAuction'])
  text += `import type * as ${m} from ${JSON.stringify(path.join(src, m + '.types'))}\nimport type { ${m}Client, ${m}QueryClient, ${m}ReadOnlyInterface, ${m}Interface } from ${JSON.stringify(path.join(src, m + '.client'))}\nimport type { ${m}MessageComposer, ${m}Message } from ${JSON.stringify(path.join(src, m + '.message-composer'))}\nimport type * as ${m}Hooks from ${JSON.stringify(path.join(src, m + '.react-query'))}\n`
const first = text.split('\n').length - 1
items.forEach((x, n) => { text += `export const x${n}: ${x.t} = ${JSON.stringify(x.v)}\n` })
const opts = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler ?? 100, skipLibCheck: true, types: [], lib: ['lib.es2022.d.ts'] }
const host = ts.createCompilerHost(opts)
const virt = { [main]: text, [world]: worldText }
const rf = host.readFile.bind(host), fe = host.fileExists.bind(host), gs = host.getSourceFile.bind(host)
host.readFile = (f) => virt[f] ?? rf(f)
host.fileExists = (f) => f in virt || fe(f)
host.getSourceFile = (f, l, ...r) => (f in virt ? ts.createSourceFile(f, virt[f], l) : gs(f, l, ...r))
const program = ts.createProgram([main, world], opts, host)
const sf = program.getSourceFile(main)
const out = []
for (const d of [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)]) {
  const line = sf.getLineAndCharacterOfPosition(d.start).line - first
  out.push([line < 0 ? -1 : items[line].i, ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 400)])
}
console.log(JSON.stringify(out))
