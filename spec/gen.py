"""Writes ../properties.jsonl and ../MANIFEST.json from the property table (props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p in PROPS:
        o.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
na = {p for p, _ in NOT_APPLICABLE}
m = {'version': 1, 'setup_cmd': 'python3 sa/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 sa/check.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']}
                for p in PROPS if p['id'] not in na],
     'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE]}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']

# DESIGN.md
from props import DESIGN_MORE
known = json.load(open(os.path.join(root, 'known_findings.json')))
seeds = []
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    f = os.path.join(root, 'seeded', d, 'meta.json')
    if os.path.exists(f):
        x = json.load(open(f))
        seeds.append((x['property'], d, x['needs'], x['what_it_breaks']))
seeds.sort()
t = open(os.path.join(here, 'design.md.in')).read()
t = t.replace('@@MORE@@', '\n\n'.join(DESIGN_MORE))
t = t.replace('@@DEFECTS@@', '| property | commit | what failed |\n| --- | --- | --- |\n' + '\n'.join(
    '| %s | %s | %s |' % (w[1].split('=')[1], w[2], w[3].replace('|', '\\|')) for w in (x.split(' ', 3) for x in known['fixed'])))
t = t.replace('@@SEEDS@@', '| caught by | change | needs | breaks |\n| --- | --- | --- | --- |\n' + '\n'.join('| %s | %s | %s | %s |' % s for s in seeds))
t = t.replace('@@NA@@', '\n'.join('* %s: %s' % x for x in NOT_APPLICABLE))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
