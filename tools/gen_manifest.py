#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
node = '/opt/node/node_modules/.bin/node'
defs = json.loads(subprocess.check_output([node, '--input-type=module', '-e',
  f"import {{CHECKS}} from '{here}/sim/checks.mjs'; console.log(JSON.stringify(CHECKS))"]))
NA = {
 'C91': 'A build-time transformation of source text, without schedule, time or faults; nothing for a simulator to decide.',
}
checks, na = [], []
for p in props:
    i = p['id']
    d = defs.get(i)
    if d is None:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
        continue
    note = d.get('note') or (
      'Seeded search over simulated executions of the real library: every host task order, timer, frame, event and (where the property needs them) fault is chosen by the seed; '
      'the recorded history and the page are compared with a reference model after every step. Nothing is enumerated exhaustively: a quiet run means no violation among the runs done. '
      'Trusts jsdom for DOM semantics and the model in sim/scenarios.')
    checks.append({'property': i, 'quick_cmd': f'./run.sh check.mjs {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh check.mjs {i}',
      'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection: seeded schedule search against a reference model',
      'level': 'exploration', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': './run.sh sim/selftest.mjs', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: the simulator uses the seams the library already has (HostAdapter, host globals, public API). See DESIGN.md.'},
  open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
