"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_CLAIMED

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                              observe_at=p.get('observe', []),
                              hook_needed=None))
        f.write(json.dumps(d) + '\n')

checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NOT_CLAIMED or not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason=NOT_CLAIMED.get(i, 'check not built yet')))
        continue
    checks.append(dict(property=i,
                       quick_cmd='bash run.sh %s quick' % i,
                       thorough_cmd='bash run.sh %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='property-based testing (Hypothesis): ' + p['tech'],
                       level='exploration',
                       level_note=p['note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Every check is generated-input search with Hypothesis against an explicit oracle; see DESIGN.md. '
               'No hooks are compiled into /repo.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
