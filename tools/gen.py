#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the tables in this directory."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
import props_a
PROPS = list(props_a.PROPS)
try:
    import props_b
    PROPS += props_b.PROPS
except ImportError:
    pass
NOT = []
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
        for q in p['files']:
            assert os.path.exists('/repo/' + q), q
json.dump({p['id']: dict(jobs=p['jobs'], rule=p['rule'], assumptions=p['assumptions'], min_distinct=p['min_distinct']) for p in PROPS}, open(V + '/checks.json', 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='python3 -c "import json; json.load(open(\'checks.json\'))" && g++ --version',
               checks=[dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='python3 run.py %s --thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                            technique=p['technique'], level='exploration', level_note=p['note']) for p in PROPS],
               not_applicable=NOT,
               notes='Drivers in harness/ compile /repo\'s headers with sanitizers (stand-ins for missing third-party libraries in shims/) and run.py judges what their monitors recorded. No hooks in /repo are needed.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
t = []
for p in PROPS:
    js = ', '.join('`%s`%s%s' % (j['src'], ' [%s]' % ', '.join(j['suites']) if j.get('suites') else '', ' under TSan' if j.get('san') == 'tsan' else '') for j in p['jobs'])
    t.append('### %s %s\n\n* decided by: %s\n* drivers: %s\n* explored: %s\n* why tests cannot: %s\n* strength: %s%s\n' %
             (p['id'], p['title'], p['technique'], js, p['rule'], p['why'], p['note'], ''.join('\n* assumes: ' + a for a in p['assumptions'])))
d = open(D + '/design.md').read().replace('@@TABLE@@', '## The properties\n\n' + '\n'.join(t))
import glob
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| `%s` | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs']))
d = d.replace('@@SEEDED@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(d)
print(len(PROPS), 'properties')
