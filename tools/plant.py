#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/bugs/hand.py and tools/bugs/demos/<id>.rs and verify each against /repo:
the patch applies, builds, passes the stable tests, and demo.sh passes without it and fails with it.
usage: tools/plant.py [-n (no verification)] [ID...]   (works in /repo's tree; it must be clean and is restored)"""
import sys, os, subprocess, json, shutil, re, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = V + '/tools/bugs'
ns = {}; exec(open(B + '/hand.py').read(), ns)
args = [a for a in sys.argv[1:] if a != '-n']; verify = '-n' not in sys.argv
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', '/repo is not clean'
stable = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# builds and runs the scenario in main.rs against /repo's crates, in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$d"/*.rs "$d"/Cargo.toml "$d"/Cargo.lock "$t"/ || exit 3
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline --locked >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 3; }
"$t/target/debug/demo"
'''
DEMO_TS = '''#!/bin/bash
# runs the scenario in demo.mjs against the TypeScript sources of the repository (the working directory)
node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"
'''
ids = set()
for m in ns['MUTANTS']:
    i, prop = m[0], m[1]; rs = f'{B}/demos/{i}.rs'
    if os.path.exists(f'{B}/demos/{i}.mjs'): rs = f'{B}/demos/{i}.mjs'
    if not os.path.exists(rs) or (args and i not in args): continue
    D = f'{V}/seeded/{i}'; os.makedirs(D, exist_ok=True)
    try:
        for k in range(2, len(m), 3):
            p = '/repo/' + m[k]; s = open(p).read(); assert s.count(m[k + 1]) == 1, (i, m[k]); open(p, 'w').write(s.replace(m[k + 1], m[k + 2]))
        open(D + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally: sh('git -C /repo checkout -- .')
    src = open(rs).read(); needs = re.search(r'^// needs: (.*)$', src, re.M).group(1); br = re.search(r'^// breaks: (.*)$', src, re.M).group(1)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': br}, open(D + '/meta.json', 'w'), indent=1)
    if rs.endswith('.mjs'):
        open(D + '/demo.mjs', 'w').write(src); shutil.copy(V + '/tools/demo/kit.mjs', D); open(D + '/demo.sh', 'w').write(DEMO_TS)
        for f in os.listdir(V + '/harness/ts/stubs'): shutil.copy(V + '/harness/ts/stubs/' + f, D)
    else:
        open(D + '/main.rs', 'w').write(src)
        for f in ('chain.rs', 'kit.rs'):
            if os.path.exists(D + '/' + f): os.remove(D + '/' + f)
        if 'mod kit' in src:
            shutil.copy(V + '/harness/src/chain.rs', D + '/chain.rs'); shutil.copy(V + '/tools/demo/kit.rs', D + '/kit.rs')
        shutil.copy(V + '/tools/demo/Cargo.toml', D); shutil.copy(V + '/tools/demo/Cargo.lock', D)
        open(D + '/demo.sh', 'w').write(DEMO)
    os.chmod(D + '/demo.sh', 0o755)
    if not verify: continue
    r0 = sh(f'{D}/demo.sh', cwd='/repo')
    try:
        a = sh(f'git -C /repo apply {D}/patch.diff'); assert a.returncode == 0, a.stderr
        b = sh('bash /opt/vp/build.sh', cwd='/repo'); t = sh('bash /opt/vp/test.sh /tmp/plant_tests.json', cwd='/repo')
        tj = json.load(open('/tmp/plant_tests.json'))
        r1 = sh(f'{D}/demo.sh', cwd='/repo')
    finally: sh('git -C /repo checkout -- .')
    def names(j):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if isinstance(j, dict) and k in j:
                v = j[k]; return set(v if isinstance(v, list) else [n for n, s in v.items()])
        return set()
    miss = names(stable) - names(tj)
    good = r0.returncode == 0 and r1.returncode not in (0, 3) and b.returncode == 0 and not miss
    print(('ok   ' if good else 'BAD  ') + i, 'demo', r0.returncode, r1.returncode, 'build', b.returncode, 'tests missing', len(miss), sorted(miss)[:3], flush=True)
    if not good: print(r0.stdout[-300:], r0.stderr[-500:], '|', r1.stderr[-300:], b.stderr[-500:])
