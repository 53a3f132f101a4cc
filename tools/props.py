"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS

P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique='generated-input search (stateful property-based testing)'):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _tech=technique))
NA = []
def na(id, reason): NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, 'tools', 'proptext.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        o.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = []
for p in P:
    if p['id'] in CHECKS:
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['_tech'], level='exploration', level_note=p['_note']))
missing = [p['id'] for p in P if p['id'] not in CHECKS and p['id'] not in [n['property'] for n in NA]]
for m in missing: NA.append(dict(property=m, reason='the check is not built yet'))
m = dict(version=1, setup_cmd='python3 tools/build.py --setup', checks=checks, not_applicable=NA,
         notes='No hooks: every check drives the unmodified library (AddressSanitizer build of /repo\'s working tree) through its public interface and its tools. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties,', len(checks), 'checks')
