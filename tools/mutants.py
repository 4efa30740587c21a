#!/usr/bin/env python3
"""Mutation campaign for the monitors (development aid, not a registered check).

usage: tools/mutants.py [-j WORKERS] [-n HISTORIES] [-o OUT.jsonl] (--auto PATH... | --swap PATH... | --ts PATH... | --hand FILE.py)
--auto: operator swaps and statement deletions over the given source files of /repo
--swap: role confusions (one identifier for another of its kind), dropped conjuncts, conditions that never or always hold,
neighbouring statements exchanged
--hand: FILE.py defines MUTANTS = [(name, property, path, old, new), ...] (several edits: path/old/new repeated)
Every mutant is built in a scratch copy and surveyed; a mutant is caught when a signature appears that the unchanged
tree does not produce.
"""
import sys, os, re, json, subprocess, shutil, threading, queue, argparse
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=4); ap.add_argument('-n', type=int, default=400)
ap.add_argument('-o', default='/tmp/mutants.jsonl'); ap.add_argument('-k', default='')
ap.add_argument('-s', type=int, default=100, help='percent of the mutants to take'); ap.add_argument('--auto', nargs='*'); ap.add_argument('--swap', nargs='*'); ap.add_argument('--hand'); ap.add_argument('--ts', nargs='*')
ap.add_argument('--all-engines', action='store_true'); ap.add_argument('-e', default='', help='engines, comma-separated')
ap.add_argument('--check', action='store_true', help="run `mpmon check` of the mutant's own property (hand mutants)")
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('MUT_REPO', '/repo'); S = os.environ.get('MUT_DIR', '/tmp/mut')
ENG = {'contracts/marketplace/': ['v1'], 'contracts/reserve-auction/': ['ra'],
       'contracts/stargaze-marketplace-v2/': ['v2'], 'packages/': ['common', 'v2']}
TS = 'typescript/packages/'

def engines(paths):
    e = []
    for p in paths:
        if p.startswith(TS): e += [x for x in (['cli'] if 'marketplace-cli' in p else ['tstypes'] if p.endswith('types.ts') else ['ts', 'tstypes']) if x not in e]
        for k, v in ENG.items():
            if p.startswith(k): e += [x for x in v if x not in e]
    return e

def auto(paths):
    ops = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
           (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
           (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\bif let Some', None), (r'Order::Ascending', 'Order::Descending'),
           (r'Order::Descending', 'Order::Ascending'), (r'Bound::exclusive', 'Bound::inclusive'), (r'Bound::inclusive', 'Bound::exclusive'),
           (r'Bound::Exclusive', 'Bound::Inclusive'), (r'Bound::Inclusive', 'Bound::Exclusive'),
           (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_zero\(\)', '.is_zero() == false'),
           (r'\bmin\(', 'std::cmp::max('), (r'mul_ceil', 'mul_floor'), (r'mul_floor', 'mul_ceil'), (r'\.plus_seconds\(', '.minus_seconds('),
           (r'\bif ([^!l{][^{]*) \{$', r'if !(\1) {'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\b100\b', '99'), (r'\b10\b', '11'), (r'\b30\b', '29')]
    for p in paths:
        src = open(os.path.join(R, p)).read()
        cut = src.find('#[cfg(test)]')
        body = src if cut < 0 else src[:cut]
        lines = body.split('\n')
        infn = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub fn') or s.startswith('fn ') \
               or 'add_attribute' in s or '-> ' in s or s.startswith('pub const') and 'Map' in s: continue
            for pat, rep in ops:
                if rep is None: continue
                for m in re.finditer(pat, l):
                    if l[:m.start()].count('"') % 2: continue
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    yield (f'{p}:{i+1} {s[:60]!r} {m.group(0).strip()[:20]}->{rep}', '', [(p, i, i + 1, [new])])
            # statement deletion
            if l.startswith('    ') and re.match(r'^[a-zA-Z_(*.]', s) and not re.match(r'^(let|return|pub|fn|use|const|match|if|else|for|impl|struct|enum|mod|ty:|#)\b', s):
                depth = 0; j = i
                while j < len(lines) and j < i + 25:
                    for c in lines[j]:
                        depth += (c in '([{') - (c in ')]}')
                    if depth < 0: break
                    if depth == 0 and lines[j].rstrip().endswith(';'):
                        yield (f'{p}:{i+1}-{j+1} delete {s[:70]!r}', '', [(p, i, j + 1, [])]); break
                    if depth == 0 and not lines[j].rstrip().endswith((')', '}', ']', '.', '?')) and j > i: break
                    j += 1
            # chained-call deletion: a line that starts with .filter/.take/.skip...
            if re.match(r'^\.(filter|take|skip|min|max)\b.*\)$', s):
                yield (f'{p}:{i+1} drop {s[:50]!r}', '', [(p, i, i + 1, [])])

GROUPS = ['seller buyer bidder owner recipient creator maker taker finder sender', 'ask bid collection_bid existing_bid existing_ask matching_bid top_bid top_collection_bid',
    'price amount fee reserve_price bid_price listing_price payment_amount', 'min max', 'end_time start_time expires_at first_bid_time prev_block_time',
    'maker_reward_bps taker_reward_bps protocol_fee_bps max_royalty_fee_bps', 'ask_expiry bid_expiry', 'min_duration max_duration extend_duration duration',
    'halt_duration_threshold halt_buffer_duration halt_postpone_duration', 'Create Update Sold Delete', 'checked_add checked_sub', 'seconds nanos', 'asks bids collection_bids',
    'first last', 'max_finders_fee_percent trading_fee_percent bid_removal_reward_percent', 'stale_bid_duration bid_removal_reward_percent', 'Greater Less Equal',
    'collection token_id', 'minus_seconds plus_seconds', 'is_active include_inactive', 'ASK_HOOKS BID_HOOKS SALE_HOOKS COLLECTION_BID_HOOKS', 'funds_recipient seller_funds_recipient seller recipient',
    'asset_recipient creator', 'FixedPrice Auction', 'Some Ok', 'mul_ceil mul_floor', 'default_denom denom', 'royalty_protocol royalty_default', 'share recipient']
def swap(paths):
    grp = {}
    for g in GROUPS:
        for w in g.split():
            grp.setdefault(w, [])
            grp[w] += [x for x in g.split() if x != w and x not in grp[w]]
    for p in paths:
        src = open(os.path.join(R, p)).read()
        cut = src.find('#[cfg(test)]')
        lines = (src if cut < 0 else src[:cut]).split('\n')
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith(('//', '#[', 'use ', 'pub fn', 'fn ', 'pub struct', 'pub ', 'const')) or 'add_attribute' in s or '-> ' in s: continue
            for m in re.finditer(r'\b[A-Za-z_]+\b', l):
                if l[:m.start()].count('"') % 2: continue
                for new in grp.get(m.group(0), []):
                    yield (f'{p}:{i+1} {s[:60]!r} {m.group(0)}->{new}', '', [(p, i, i + 1, [l[:m.start()] + new + l[m.end():]])])
            # drop one conjunct or disjunct
            m = re.match(r'^(\s*)if (.*) (&&|\|\|) (.*) \{$', l)
            if m:
                for k in (2, 4): yield (f'{p}:{i+1} {s[:60]!r} only {m.group(k)[:30]!r}', '', [(p, i, i + 1, [f'{m.group(1)}if {m.group(k)} {{'])])
            m = re.match(r'^(\s*)(&&|\|\|) (.*?)( \{)?$', l)
            if m and not m.group(4): yield (f'{p}:{i+1} drop {s[:60]!r}', '', [(p, i, i + 1, [])])
            m = re.match(r'^(\s*)(\} else )?if ([^l].*) \{$', l)
            if m:
                for v in ('true', 'false'): yield (f'{p}:{i+1} {s[:60]!r} if {v}', '', [(p, i, i + 1, [f'{m.group(1)}{m.group(2) or ""}if {v} || ({m.group(3)}) {{' if v == 'true' else f'{m.group(1)}{m.group(2) or ""}if false && ({m.group(3)}) {{'])])
            # swap with the next statement
            if i + 1 < len(lines):
                n = lines[i + 1]
                if s.endswith(';') and n.strip().endswith(';') and len(l) - len(l.lstrip()) == len(n) - len(n.lstrip()) and '(' in s and s.count('(') == s.count(')') and n.count('(') == n.count(')') and not s.startswith('.'):
                    yield (f'{p}:{i+1} swap {s[:50]!r} with next', '', [(p, i, i + 2, [n, l])])

def tsauto(paths):
    """TypeScript: fields dropped, confused or renamed, optionality and kinds changed, conditions turned"""
    ops = [(r'\?: ', ': '), (r'(?<=\w): (?=[\w"])(?!.*=>)', '?: '), (r': string;', ': number;'), (r': number;', ': string;'), (r' \| null', ''), (r' === ', ' !== '),
           (r'\(!', '('), (r'"auto" = "auto"', '"auto" = 0'), (r', _funds\)', ')'), (r', memo, ', ', undefined, '), (r'funds: _funds', 'funds: []'), (r'if \(', 'if (!'),
           (r'\bargs\b', 'undefined'), (r'contractAddress', '"x"'), (r'this\.sender', '"x"'), (r'&&', '||'), (r'\.\.\.options', '...{}'), (r'\bsecond', 'first'),
           (r"'([a-z][a-z-]+)'", r"'\1x'"), (r'"([a-z][a-z_]+)"', r'"\1_x"'), (r'\b6\b', '5'), (r'1000\b', '100'), (r'1_000_000', '1_000'), (r'\bfloor\b', 'ceil'), (r'\[0\]', '[1]')]
    for p in paths:
        lines = open(os.path.join(R, p)).read().split('\n')
        for i, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(('*', '/', 'import', '//')) or 'description' in t or 'examples' in t: continue
            for pat, rep in ops:
                for m in re.finditer(pat, l):
                    yield (f'{p}:{i+1} {t[:60]!r} {m.group(0)[:16]}->{rep}', '', [(p, i, i + 1, [l[:m.start()] + m.expand(rep) + l[m.end():]])])
            if re.match(r'^[\w.]+(\??: [^{(]*)?[,;]?$', t) or t.endswith(';') and '{' not in t and not t.startswith(('}', 'return', 'export', 'const', 'let')):
                yield (f'{p}:{i+1} delete {t[:60]!r}', '', [(p, i, i + 1, [])])
            m = re.match(r'^(\s+)(\w+): (?:args\.)?(\w+),?$', l)
            m2 = i + 1 < len(lines) and re.match(r'^(\s+)(?:\w+: )?(?:args\.)?(\w+),?$', lines[i + 1])
            if m and m2 and m.group(3) != m2.group(2):
                yield (f'{p}:{i+1} {t!r} <- {m2.group(2)}', '', [(p, i, i + 1, [re.sub(r'(\w+)(,?)$', m2.group(2) + r'\2', l)])])

def hand(f):
    ns = {}; exec(open(f).read(), ns)
    for t in ns['MUTANTS']:
        name, prop, rest = t[0], t[1], t[2:]
        yield (name, prop, [(rest[k], rest[k + 1], rest[k + 2]) for k in range(0, len(rest), 3)])

def apply(root, edits):
    touched = {}
    for e in edits:
        p = os.path.join(root, e[0])
        src = touched.get(p) or open(p).read()
        if len(e) == 4:
            L = src.split('\n'); L[e[1]:e[2]] = e[3]; src = '\n'.join(L)
        else:
            n = src.count(e[1])
            if n != 1: raise Exception(f'{e[0]}: old text found {n} times')
            src = src.replace(e[1], e[2])
        touched[p] = src
    for p, s in touched.items(): open(p, 'w').write(s)
    return list(touched)

def sigs(root, eng, n):
    r = subprocess.run([f'{root}/harness/target/debug/mpmon', 'survey', eng, str(n)], capture_output=True, text=True,
                       env={**os.environ, 'MPMON_ROOT': V}, timeout=600)
    out = {}
    for l in (r.stdout + r.stderr).split('\n'):
        m = re.match(r'^ *(\d+) (\[.*?\]) (.*)$', l)
        if m: out[m.group(3)[:160]] = (int(m.group(1)), m.group(2))
    if r.returncode not in (0, 1): out['EXIT %d' % r.returncode] = (1, '[]')
    return out

def check(root, prop):
    os.makedirs(root + '/v/evidence', exist_ok=True); shutil.copy(V + '/known_findings.json', root + '/v/'); shutil.copy(V + '/properties.jsonl', root + '/v/')
    r = subprocess.run([f'{root}/harness/target/debug/mpmon', 'check', prop], capture_output=True, text=True, env={**os.environ, 'MPMON_ROOT': root + '/v'}, timeout=900)
    l = [x for x in (r.stdout + r.stderr).split('\n') if 'VIOLATION' in x or 'what' in x]
    return r.returncode, (l or (r.stdout + r.stderr).split('\n')[-3:])

def setup(w):
    root = f'{S}/w{w}'
    os.makedirs(root + '/harness', exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', R + '/', root + '/repo/'], check=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', V + '/harness/', root + '/harness/'], check=True)
    c = open(root + '/harness/Cargo.toml').read().replace('"/repo/', f'"{root}/repo/'); open(root + '/harness/Cargo.toml', 'w').write(c)
    subprocess.run(f"find {root}/repo {root}/harness/src -name '*.rs' -exec touch {{}} +", shell=True)  # a stale mutant build must not look fresh
    r = subprocess.run('cargo build --offline --locked', shell=True, cwd=root + '/harness', capture_output=True, text=True)
    if r.returncode: print(r.stderr[-2000:]); sys.exit(2)
    return root

muts = list(auto(a.auto) if a.auto else swap(a.swap) if a.swap else tsauto(a.ts) if a.ts else hand(a.hand))
if a.k: muts = [m for m in muts if re.search(a.k, m[0])]
import random; random.Random(5).shuffle(muts) if a.s < 100 else None; muts = muts[:len(muts) * a.s // 100]
print(len(muts), 'mutants', flush=True)
roots = {}
def su(w): roots[w] = setup(w)
ts = [threading.Thread(target=su, args=(w,)) for w in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
base = {}
for e in [] if a.check else a.e.split(',') if a.e else ['ts', 'tstypes', 'cli'] if a.ts else ['v1', 'v2', 'ra', 'common']: base[e] = sigs(roots[0], e, a.n)
q = queue.Queue(); [q.put(m) for m in muts]
lock = threading.Lock(); out = open(a.o, 'w'); tally = {}
def work(w):
    root = roots[w]
    while True:
        try: name, prop, edits = q.get_nowait()
        except queue.Empty: return
        res = {}; paths = [e[0] for e in edits]
        saved = {p: open(f'{root}/repo/{p}').read() for p in paths}
        try:
            apply(root + '/repo', edits)
            r = subprocess.run('cargo build --offline --locked', shell=True, cwd=root + '/harness', capture_output=True, text=True)
            if r.returncode: st = 'nobuild'
            elif a.check:
                rc, l = check(root, prop); st = {0: 'MISSED', 1: 'caught'}.get(rc, f'EXIT{rc}'); res = {' '.join(l)[:300]: (1, '')}
            else:
                st = 'MISSED'
                for e in (a.e.split(',') if a.e else ['v2', 'v1', 'ra', 'common'] if a.all_engines else engines(paths)):
                    try: s = sigs(root, e, a.n)
                    except subprocess.TimeoutExpired: s = {'TIMEOUT': (1, '[]')}
                    for k, v in s.items():
                        if k not in base[e]: res[k] = v
                if res: st = 'caught'
                if st == 'caught' and prop and not any(f'"{prop}"' in v[1] for v in res.values()): st = 'OTHER'
        except Exception as ex: st = 'ERROR ' + str(ex)
        finally:
            for p, s in saved.items(): open(f'{root}/repo/{p}', 'w').write(s)
        with lock:
            tally[st] = tally.get(st, 0) + 1
            top = sorted(res.items(), key=lambda x: -x[1][0])
            out.write(json.dumps({'name': name, 'prop': prop, 'status': st, 'sigs': [(k, *v) for k, v in top[:8]]}) + '\n'); out.flush()
            if a.hand or st not in ('caught', 'nobuild'):
                print(f'{st:8} {prop:4} {name}  ' + '; '.join(f'{v[0]} {v[1]} {k[:60]}' for k, v in top[:3]), flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tally)
