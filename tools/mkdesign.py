"""DESIGN.md from tools/DESIGN.in.md, engine/propinfo.py, the registered contracts and seeded/"""
import sys, os, json, glob
from collections import defaultdict
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/engine')
import propinfo, govc, spec
govc.load_contracts()
d = defaultdict(list)
for k, c in spec.REG.items():
    for p in c.props: d[p].append((c.short if getattr(c, 'short', None) else k.replace('(*oidfed.', '(').replace('(oidfed.', '(').replace('oidfed.', ''), bool(c.trusted)))
out = []
for l in open(ROOT + '/properties.jsonl'):
    q = json.loads(l)
    p = propinfo.P.get(q['id'])
    if p is None or p['na']: continue
    out.append('### %s – %s (level: %s)\n' % (q['id'], q['title'], p['level']))
    if p['proved']: out.append('* Proved: ' + p['proved'])
    fs = ['`%s`' % n for n, t in d[q['id']] if not t]
    ts = ['`%s`' % n for n, t in d[q['id']] if t]
    if fs: out.append('* Functions under contract: ' + ', '.join(fs) + ('; trusted: ' + ', '.join(ts) if ts else ''))
    out.append('* Bounded: ' + p['rule'] + (' ' + p['rest'] if p['rest'] else ''))
    out.append('')
seeds = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
caught = {}
cf = ROOT + '/tools/caught.json'
if os.path.exists(cf): caught = json.load(open(cf))
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    seeds.append('| %s | %s | %s | %s |' % (n, j['property'], j['what_it_breaks'].replace('|', '/').replace('\n', ' '), caught.get(n, '?')))
t = open(ROOT + '/tools/DESIGN.in.md').read()
open(ROOT + '/DESIGN.md', 'w').write(t.replace('@@TABLE@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds)))
