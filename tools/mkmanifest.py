#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/registry.py."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
from harness import registry  # noqa
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    q = registry.PROPS.get(p['id'])
    if not q:
        na.append({'property': p['id'], 'reason': 'no check yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
        'technique': 'explicit TLA+ specification: TLC model checking, TLC-generated behaviours replayed on the code, '
                     'recorded traces of the code checked against the specification by TLC',
        'level': 'model_checking',
        'level_note': q['covers'] + ' Assumes: ' + ('; '.join(q['assumptions']) or 'nothing beyond the harness adapters') +
        '. The design model is exhaustive within its small constants; the code is bound by sampled traces, not proved.',
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks observe public behaviour only. See DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
