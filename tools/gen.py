import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
import catalog
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in catalog.P:
    assert len(p['title']) <= 80, p['id']
    rows.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for r in rows: f.write(json.dumps(r)+'\n')

import claims
checks, na = [], []
ids = [p['id'] for p in catalog.P]
for p in catalog.P:
    c = claims.C.get(p['id'])
    if c:
        checks.append(dict(property=p['id'], quick_cmd=f"python3 -m sa.run {p['id']}", thorough_cmd=f"python3 -m sa.run {p['id']} --thorough",
                           technique=c[0], level='other', level_note=c[1]))
    else:
        na.append(dict(property=p['id'], reason=claims.NA.get(p['id'], 'no check is registered for it yet')))
man = dict(version=1, setup_cmd='python3 -m compileall -q sa', checks=checks, not_applicable=na,
           notes='Static analysis only: every check parses /repo/lib/bup (and, where stated, the C sources) afresh and decides from the source; nothing of bup is executed.')
json.dump(man, open(os.path.join(here,'MANIFEST.json'),'w'), indent=1)
