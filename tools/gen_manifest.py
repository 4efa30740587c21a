#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json
eng = {'M':'v2','L':'v1','R':'reserve auction','C':'shared package','X':'all three contracts'}
import os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks=[]
for l in open(root+'/properties.jsonl'):
    p=json.loads(l)
    i=p['id']
    where={'M':'the real v2 order book','L':'the real v1 marketplace','R':'the real reserve auction','C':'the real shared package','X':'all three real contracts','T':'the real TypeScript sources, bundled and run in node'}[i[0]]
    tech={'T01':"runtime monitoring: recorded calls of the real TypeScript clients under generated requests are decoded by the contracts' own Rust types and compared with what was asked",
      'T02':"runtime monitoring: messages and answers recorded from the real contracts are judged by the TypeScript type checker against the declared types",
      'T03':"runtime monitoring: a reference-model step checker observes settings, output and transactions of every command of generated sessions"}.get(i,"runtime monitoring: a reference-model step checker observes every action of generated hostile histories run on the real contract code")
    trust="Trusts the stand-ins for external packages (chain client, wallet, settings store, react-query, lodash), which record and answer." if i[0]=='T' else "Trusts the harness's chain host (bank, cw721/sg721, wasm message semantics) and the reference model."
    built=". " if i[0]=='T' else " built with overflow checks and debug assertions. "
    checks.append({
      "property": i,
      "quick_cmd": f"./run_check {i} --tier quick",
      "thorough_cmd": f"./run_check {i} --tier thorough",
      "technique": tech,
      "level": "exploration",
      "level_note": f"Held on the histories counted in the evidence file, executed on {where}{built}{trust} Nothing is claimed for situations the workload did not reach.",
    })
m={"version":1,
 "setup_cmd":"cd harness && { cargo build --offline --locked || cargo build --offline --locked --no-default-features; }",
 "checks":checks,
 "not_applicable":[],
 "notes":"No hooks in /repo: the contracts are observed at their public boundary only (entry points, queries, emitted messages applied by a chain host). ./run_check replay FILE re-executes a recorded violation."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
