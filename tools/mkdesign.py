"""write DESIGN.md from its parts, the properties and the registry"""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import registry  # noqa

PARTS = os.path.join(V, 'tools')
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
# property -> (specification, design model and its invariants, oracle/why, cost)
ROWS = json.load(open(PARTS + '/design_rows.json'))
out = [open(PARTS + '/design_head.md').read().rstrip() + '\n']
out.append('## 3. Properties: how each is decided\n')
out.append('Each entry: what is specified, what TLC explores, what is played on the code and compared, bounds, cost of the quick check.\n')
for p in props:
    r, g = ROWS[p['id']], registry.PROPS[p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('- **Specification**: %s' % r['spec'])
    out.append('- **Design model (TLC, exhaustive)**: %s' % r['mc'])
    out.append('- **On the code**: %s' % g['covers'])
    out.append('- **Oracle**: %s' % r['oracle'])
    if g['assumptions']:
        out.append('- **Bounds and assumptions**: %s.' % '; '.join(g['assumptions']))
    out.append('- **Beyond the tests**: %s' % r['why'])
    out.append('- **Cost**: about %s s (quick).\n' % r['cost'])
out.append(open(PARTS + '/design_tail.md').read().rstrip() + '\n')
# planted bugs
out.append('## 8. Planted bugs and the checks that report them\n')
rows = []
table = PARTS + '/seeded.json'
res = json.load(open(table)) if os.path.exists(table) else {}
for d in sorted(res):
    m = res[d]
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['result']))
out.append('Each lies in `seeded/<id>/` with its patch and demonstration. "caught" is the quick check of the property it breaks, with the clauses reported first.\n')
out.append('| bug | property | needs | result |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
