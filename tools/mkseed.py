#!/usr/bin/env python3
"""mkseed.py SPEC.py...: plants a bug. A spec defines id, prop, edits=[(file, old, new)], demo (Go source, package main,
func main), needs, breaks. It is kept in seeded/<id> only if it changes original lines, builds, the existing tests pass
as before and the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = ROOT + '/tools/seedkit'
BASE = '9bac793'
def sh(c, cwd=None, t=600): return subprocess.run(['bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def tests(d):
    r = sh('. /opt/vp/env.sh; go test -json -vet=off ./... 2>&1', d).stdout
    p = {}
    for l in r.splitlines():
        try: o = json.loads(l)
        except Exception: continue
        if o.get('Test') and o.get('Action') in ('pass', 'fail'): p[o['Package'] + ' ' + o['Test']] = o['Action']
    return {k for k, v in p.items() if v == 'pass'}
stable = None
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    W = '/tmp/w/seedrepo'
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (W, W))
    if stable is None: stable = tests(W) & tests(W)
    out = ROOT + '/seeded/' + g['id']
    tmp = '/tmp/w/seedtmp'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for f in ('sim.txt', 'fed.txt', 'demo.sh'): shutil.copy(KIT + '/' + f, tmp)
    open(tmp + '/demo.txt', 'w').write(g['demo'].lstrip())
    r0 = sh('bash %s/demo.sh' % tmp, W)
    if r0.returncode: print(g['id'], 'DEMO FAILS UNCHANGED', r0.stdout[-1500:]); continue
    ok = True
    for f, a, b in g['edits']:
        s = open(W + '/' + f).read()
        if s.count(a) != 1: print(g['id'], 'EDIT does not match once', f, s.count(a)); ok = False; break
        open(W + '/' + f, 'w').write(s.replace(a, b))
    if not ok: continue
    r = sh('. /opt/vp/env.sh; gofmt -l . ; go build ./... && go vet . ./internal/... ./cache 2>&1 | head -5', W)
    if 'cannot' in r.stdout or r.returncode or 'undefined' in r.stdout or 'declared and not used' in r.stdout: print(g['id'], 'BUILD', r.stdout[-800:]); continue
    if r.stdout.strip(): print(g['id'], 'note:', r.stdout.strip()[:300])
    # removed/changed lines must exist in the base
    d = sh('git diff -U0', W).stdout
    fix = 0
    for f, a, b in g['edits']:
        base = sh('git show %s:%s' % (BASE, f), W).stdout
        rem = [l[1:] for l in sh('git diff -U0 -- ' + f, W).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
        fix += sum(1 for l in rem if l not in base.splitlines())
    if fix: print(g['id'], 'note: touches %d lines that are not original' % fix)
    p = tests(W)
    if stable - p: print(g['id'], 'TESTS FAIL', sorted(stable - p)[:5]); continue
    r1 = sh('bash %s/demo.sh' % tmp, W)
    if r1.returncode in (0, 2): print(g['id'], 'DEMO PASSES/UNBUILT WITH BUG', r1.returncode, r1.stdout[-800:]); continue
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    open(out + '/patch.diff', 'w').write(sh('git diff', W).stdout)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print(g['id'], 'KEPT:', r1.stdout.strip().splitlines()[-1][:200])
    shutil.rmtree(W, ignore_errors=True)
