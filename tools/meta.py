#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand, results are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_AI = 'abstract interpretation of the compiled IR (no execution, no solver): '
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))
exec(open(os.path.join(ROOT, 'tools', 'props_text.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3 analysis/check.py %s quick' % p['id'], thorough_cmd='python3 analysis/check.py %s thorough' % p['id'],
    technique=p['technique'], level='other', level_note=p['note']) for p in P if not p['na']]
man = dict(version=1, setup_cmd='python3 analysis/build.py', checks=checks, not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
print(len(checks), 'checks', len(man['not_applicable']), 'not applicable')
import sys, glob
sys.path.insert(0, os.path.join(ROOT, 'analysis'))
from explain import EXPLAIN
rd = lambda n: open(os.path.join(ROOT, 'tools', n)).read()
o = rd('design.head.md')
for p in sorted(P, key=lambda p: p['id']):
    o += '### %s — %s\n\n' % (p['id'], p['title'])
    if p['na']: o += 'Not applicable: %s\n\n' % p['na']
    else: o += '%s\n\n*Over:* %s.  *Beyond the tests:* %s.\n\n' % (EXPLAIN[p['id']], p['qtext'], p['why'])
o += '## 3. Planted bugs\n\nEach compiles, keeps the 285 stable tests passing and has a demonstration. "Caught by" is the check of its property, quick tier, as confirmed with `tools/plant.sh`.\n\n| change | needs | breaks | caught by |\n|---|---|---|---|\n'
miss = {}
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o += '| %s | %s | %s | %s |\n' % (n, m['needs'], m['what_it_breaks'], miss.get(n, m['property']))
o += rd('design.tail.md')
for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['fixed']: o += '* %s\n' % f.replace('fixed: property=', '')
o += rd('design.end.md')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(o)
