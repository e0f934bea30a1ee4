#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
P = []
C = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), na=None, technique=None, note=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': a, 'meaning': b} for a, b in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech]}})
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement)
    C[id] = (na, technique, note)


exec(open(os.path.join(HERE, 'props.txt.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []; na = []
for p in P:
    n, tech, note = C[p['id']]
    if n:
        na.append({'property': p['id'], 'reason': n})
    else:
        checks.append({'property': p['id'], 'quick_cmd': './check.py %s' % p['id'], 'thorough_cmd': './check.py %s --thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': tech, 'level': 'other', 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: clang lowers the current sources to LLVM IR, tool/irx.cpp exports it, qpsa/ analyses it. '
              'Nothing of qpOASES is executed. No hooks were needed in /repo.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    ms = json.load(open('/root/.vp/MANIFEST.schema.json')); ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    jsonschema.validate(m, ms)
    for p in P:
        jsonschema.validate(p, ps)
    print('valid', len(P), 'properties', len(checks), 'checks')
except ImportError:
    print('written (not validated; use python3-vt)')

# DESIGN.md
import glob
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
try:
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
except OSError:
    caught = {}
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'].replace('|', '/'), caught.get(n, 'not run')))
t = open(os.path.join(HERE, 'design_body.md')).read()
ex = os.path.join(HERE, 'design_extra.md')
t = t.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@EXTRA@@', open(ex).read() if os.path.exists(ex) else '')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
