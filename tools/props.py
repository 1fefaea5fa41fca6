"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, observe, technique=None, note=None, level='exploration',
         state=None, hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state, hook=hook, na=na))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

lines, checks, na = [], [], []
ids = set()
for p in sorted(P, key=lambda p: p['id']):
    assert p['id'] not in ids
    ids.add(p['id'])
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    d = dict(id=p['id'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['tests'],
             anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                          observe_at=p['observe'], hook_needed=p['hook']))
    for f in p['files']:
        assert os.path.exists('/repo/' + f), f
    if p['state']:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
    lines.append(json.dumps(d, ensure_ascii=True))
    if p['na'] or not os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
        na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt checks/%s.py --quick' % p['id'],
                       thorough_cmd='python3-vt checks/%s.py --thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p['technique'], level=p['level'], level_note=p['note']))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='Checks build what they need from /repo (plain and ASan+UBSan variants) into /verif/build; no hooks in /repo are '
               'needed: everything is observed at the command line and at the public library interfaces.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(lines), 'properties', len(checks), 'checks', len(na), 'n/a')
