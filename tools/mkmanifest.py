"""MANIFEST.json from engine/propinfo.py and the registered contracts"""
import sys, json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/engine')
import propinfo, govc, spec
govc.load_contracts()
REG = spec.REG
hooks = {'guard': 'none', 'enable': 'no hooks: nothing in /repo is instrumented, the verifier reads the SSA of the unmodified source', 'source_commits': []}
checks, na = [], []
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
for i in ids:
    p = propinfo.P.get(i)
    if p is None or p['na']:
        na.append({'property': i, 'reason': p['na'] if p else 'check not built yet'})
        continue
    c = {'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'technique': propinfo.TECH, 'level': p['level'], 'level_note': p['note'] or p['rule']}
    if p['level'] == 'proof':
        c['theorems'] = ['contract ' + n for n, k in REG.items() if i in k.props and not k.trusted]
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'hooks': hooks, 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Layer 1 (proof over SSA of /repo) and Layer 2 (bounded concrete companion) run in every check.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
