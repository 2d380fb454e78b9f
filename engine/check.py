"""check.py PROPERTY [quick|thorough]
Layer 1: deductive proof of every contract registered for the property, on SSA dumped from /repo's current source.
Layer 2: bounded concrete run of the real code (replay of failed obligations, labelled bounded stand-in elsewhere).
exit 0 held, 1 VIOLATION, 2 error of the check."""
import sys, os, time, json, subprocess, tempfile, shutil, multiprocessing, traceback, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
NCPU = os.cpu_count() or 4
import propinfo


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print(msg)
    sys.exit(2)


# ---------------------------------------------------------------- layer 2
def harness(binp, prop, tier, seed, tmp, budget, shards=NCPU):
    ps = []
    for i in range(shards):
        ps.append(subprocess.Popen(
            [binp, '-prop', prop, '-tier', tier, '-seed', str(seed), '-shard', str(i), '-shards', str(shards),
             '-out', '%s/o%d.json' % (tmp, i), '-cur', '%s/c%d' % (tmp, i), '-budget', str(budget)],
            stdout=subprocess.DEVNULL, stderr=open('%s/e%d' % (tmp, i), 'w'), cwd=tmp))
    return ps


def collect(ps, tmp, budget):
    r = {'evaluations': 0, 'distinct': set(), 'families': {}, 'violations': [], 'samples': [], 'truncated': False, 'errors': []}
    end = time.time() + budget + 120
    for i, p in enumerate(ps):
        try: rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            cur = open('%s/c%d' % (tmp, i)).read().strip()
            r['violations'].append({'case': cur, 'kind': 'no-termination', 'detail': 'harness shard did not finish', 'input': None})
            continue
        err = open('%s/e%d' % (tmp, i)).read()
        if rc == 3: r['errors'].append(err[-500:]); continue
        if rc:
            cur = open('%s/c%d' % (tmp, i)).read().strip() if os.path.exists('%s/c%d' % (tmp, i)) else ''
            if rc < 0 and rc in (-9, -15): r['errors'].append('shard %d killed by signal %d while running %s' % (i, -rc, cur)); continue
            m = re.search(r'(panic|fatal error|runtime):.*', err)
            r['violations'].append({'case': cur, 'kind': 'crash', 'detail': (m.group(0) if m else '') + '\n' + err[:3000], 'input': None})
            continue
        o = json.load(open('%s/o%d.json' % (tmp, i)))
        r['evaluations'] += o['evaluations']
        r['distinct'] |= set(o['distinct'] or [])
        r['truncated'] |= o['truncated']
        for k, v in o['families'].items(): r['families'][k] = r['families'].get(k, 0) + v
        r['violations'] += o['violations'] or []
        for s in o['samples'] or []:
            if len(r['samples']) < 6: r['samples'].append(s)
    return r


def confirm(hr, binp, prop, tier, seed, tmp, budget):
    """A reported violation must reproduce: alone in a fresh process, or in a second run of everything
    (it may need the state left by earlier cases).  What does not reproduce was caused by the machine (a
    paused process, a slow disk), not by the code, because all cases are deterministic."""
    vs, seen = [], set()
    for v in hr['violations']:
        k = (v['case'].split(':')[0], v['kind'])
        if k in seen and len(vs) >= 4: continue
        seen.add(k)
        vs.append(v)
    vs = vs[:8]
    good = []
    def once(v):
        try:
            r = subprocess.run([binp, '-prop', prop, '-tier', tier, '-seed', str(seed), '-only', v['case']], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=150)
        except subprocess.TimeoutExpired: return True
        if r.returncode == 3: return False
        if r.returncode: return True
        try: return bool(json.loads(r.stdout)['violations'])
        except Exception: return False
    for v in vs:
        if not v['case'] or ':' not in v['case']: continue
        if once(v) or once(v): good.append(v)
        if len(good) >= 3: break
    if good:
        ok = {v['case'].split(':')[0] + ' ' + v['kind'] for v in good}
        return good + [v for v in hr['violations'] if v not in good and v['case'].split(':')[0] + ' ' + v['kind'] in ok]
    h2 = collect(harness(binp, prop, tier, seed, tmp, budget), tmp, budget)
    if h2['errors']: die('harness error: ' + '; '.join(h2['errors']))
    k1 = {(v['case'].split(':')[0], v['kind']) for v in hr['violations']}
    same = [v for v in h2['violations'] if (v['case'].split(':')[0], v['kind']) in k1]
    hr['unreproduced'] = [] if same else [{'case': v['case'], 'kind': v['kind'], 'detail': v['detail'][:300]} for v in vs]
    return same


# ---------------------------------------------------------------- layer 1
G = {}


def work(fn):
    import govc, spec, z3, execu
    c = spec.REG[fn]
    t0 = time.time()
    try:
        eng = execu.Engine(json.load(open(G['dump'])))
        import models
        models.install(eng)
        eng.contracts = dict(spec.REG)
        eng.T.value_structs = {'oidfed.trustTree'}
        obls = spec.verify(eng, c, min(G['deadline'], time.time() + G['per']))
        res = [(o.kind, str(o.name), list(o.props or c.props), o.status, o.backend or '', round(o.time or 0, 3), o.pos or '', (o.info or '')[:3000]) for o in obls]
        return fn, c.short, res, round(time.time() - t0, 2), round(eng.solver_s, 2), sorted(eng.assumed) if hasattr(eng, 'assumed') else [], sorted(eng.usedc) if hasattr(eng, 'usedc') else []
    except Exception as e:
        return fn, c.short, [('reach', 'function is within the reach of the verifier', list(c.props), 'failed', '', 0, '', repr(e) + traceback.format_exc()[-1500:])], round(time.time() - t0, 2), 0, [], []


def tagged(prop, o, c):
    """does obligation o of contract c count for prop?"""
    return prop in o[2] if o[0] != 'safety' else True


def known(prop):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known: property=%s ' % prop): continue
            rest = l.split(' ', 2)[2]
            pat, _, desc = rest.partition(' :: ')
            out.append((pat.strip(), desc.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    info = propinfo.P[prop]
    t0 = time.time()
    limit = 700 if tier == 'quick' else 6000
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    rc = 2
    try:
        rc = run(prop, tier, seed, info, t0, limit, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, info, t0, limit, tmp):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    evp = os.path.join(ROOT, 'evidence', prop + '.json')
    if os.path.exists(evp): os.unlink(evp)
    # build: dumper, dump, harness
    gv = os.path.join(ROOT, 'bin', 'govc')
    if not os.path.exists(gv):
        gv = tmp + '/govc'
        r = sh(['bash', ROOT + '/tools/build_govc.sh', gv])
        if r.returncode: die('cannot build the SSA dumper:\n' + r.stdout)
    dump = tmp + '/ssa.json'
    r = sh(['bash', '-c', '. /opt/vp/env.sh && cd /repo && exec "$0" /repo "$1"', gv, dump])
    if r.returncode: die('cannot dump SSA from /repo:\n' + r.stdout[-3000:])
    hb = tmp + '/harness'
    r = sh(['bash', ROOT + '/tools/build_harness.sh', hb])
    if r.returncode: die('cannot build the harness on /repo:\n' + r.stdout[-3000:])
    # Layer 1 first (CPU bound), then Layer 2
    import govc
    regs = govc.load_contracts()
    mine = [f for f, c in regs.items() if not c.trusted and (prop in c.props or (prop == 'P24' and c.safety))]
    results, missing = [], []
    G.update(dump=dump, deadline=t0 + limit * 0.62, per=limit * 0.5)
    if mine:
        mine.sort(key=lambda f: -getattr(regs[f], 'cost', 1))
        with multiprocessing.get_context('fork').Pool(min(NCPU, len(mine)), maxtasksperchild=1) as pool:
            for x in pool.imap_unordered(work, mine, 1): results.append(x)
    obls, failed = [], []
    for fn, short, res, wall, solver, assumed, usedc in results:
        for o in res:
            kind, name, props, status = o[:4]
            if kind == 'safety':
                if prop != 'P24' and prop not in regs[fn].props: continue
            elif prop not in props and prop != 'P24': continue
            if prop == 'P24' and prop not in regs[fn].props and kind not in ('safety', 'requires', 'invariant', 'reach', 'exists', 'vacuity'): continue
            obls.append((short,) + tuple(o))
            if status != 'proved': failed.append((short,) + tuple(o))
    if mine and not obls: die('no obligations were generated for %s' % prop)
    budget = info.get('budget', 200) if tier == 'quick' else 3000
    hr = {'evaluations': 0, 'distinct': set(), 'families': {}, 'violations': [], 'samples': [], 'truncated': False, 'errors': []}
    if info.get('harness', True):
        hr = collect(harness(hb, prop, tier, seed, tmp, budget), tmp, budget)
        if hr['errors']: die('harness error: ' + '; '.join(hr['errors']))
        if hr['violations']: hr['violations'] = confirm(hr, hb, prop, tier, seed, tmp, budget)
        if not hr['violations'] and hr['evaluations'] == 0: die('harness explored nothing')
        if failed and not hr['violations'] and tier == 'quick':
            # an undischarged obligation: look harder for a concrete failing input
            left = max(30, min(200, limit + 120 - (time.time() - t0)))
            h2 = collect(harness(hb, prop, 'thorough', seed + 1000, tmp, left), tmp, left)
            hr['violations'] = confirm(h2, hb, prop, 'thorough', seed + 1000, tmp, left) if h2['violations'] else []
            hr['evaluations'] += h2['evaluations']
            hr['distinct'] |= h2['distinct']
    kn = known(prop)
    viol = []
    seen = {}
    for v in hr['violations']:
        k = '%s %s' % (v['case'].split(':')[0], v['kind'])
        hit = [d for pat, d in kn if pat == k or pat == '%s %s' % (v['case'], v['kind'])]
        if hit: seen[hit[0]] = 1
        else: viol.append(v)
    for d in seen: print('KNOWN-FINDING: property=%s %s' % (prop, d))
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    rep = os.path.join(ROOT, 'replay', prop + '.json')
    if os.path.exists(rep): os.unlink(rep)
    bad = bool(viol or failed)
    fo = [{'function': f[0], 'kind': f[1], 'obligation': f[2], 'position': f[7], 'verifier_output': f[8]} for f in failed]
    if bad:
        with open(rep, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'failed_obligations': fo, 'failing_inputs': viol[:5],
                       'replay': 'harness binary: tools/build_harness.sh OUT; OUT -prop %s -seed %d -only <case>' % (prop, seed)}, f, indent=1, default=str)
    discharged = sum(1 for o in obls if o[4] == 'proved')
    backends = {}
    for o in obls:
        if o[4] == 'proved': backends[o[5] or 'simplifier'] = backends.get(o[5] or 'simplifier', 0) + 1
    fns = {short: {'obligations': sum(1 for o in obls if o[0] == short), 'wall_s': wall, 'solver_s': solver} for _, short, _, wall, solver, _, _ in results}
    trusted = sorted(set(sum([x[5] for x in results], [])))
    assumptions = list(info.get('assume', [])) + propinfo.COMMON + trusted
    tc = [c.short + ': ' + c.trusted for c in regs.values() if c.trusted and any(c.fn in x[6] for x in results)]
    cov = {}
    rule = info.get('rule', '') + ' Distinct = distinct situation keys (scenario shape, operation and outcome).'
    bounded = {'evaluations': hr['evaluations'], 'distinct_nontrivial': len(hr['distinct']), 'rule': rule.strip(), 'samples': hr['samples'] or ['none']}
    if info['level'] == 'proof':
        cov = {'obligations': len(obls), 'discharged': discharged, 'checker_cmd': './check.sh %s %s' % (prop, tier),
               'trusted_base': propinfo.TRUSTED + tc, 'functions_under_contract': fns, 'backends': backends,
               'bounded_companion': bounded, 'families': hr['families'], 'truncated': hr['truncated'],
               'solver_s': round(sum(x[4] for x in results), 1)}
        cov['evaluations'] = hr['evaluations']
        cov['distinct_nontrivial'] = len(hr['distinct'])
        cov['rule'] = rule.strip()
        cov['samples'] = [{'obligation': '%s / %s / %s' % (o[0], o[1], o[2]), 'status': o[4], 'backend': o[5]} for o in obls if o[1] == 'ensures'][:12] + hr['samples'][:3]
    else:
        cov = dict(bounded)
        cov['families'] = hr['families']
        cov['truncated'] = hr['truncated']
        if obls:
            cov['proved_helpers'] = {'obligations': len(obls), 'discharged': discharged, 'functions_under_contract': fns, 'backends': backends}
    if hr.get('unreproduced'): cov['unreproduced'] = hr['unreproduced']
    ev = {'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed, 'level': info['level'], 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol) + len(failed)}
    with open(evp, 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations over %d functions, %d discharged; bounded: %d evaluations, %d distinct; %.0fs' % (
        prop, len(obls), len(fns), discharged, hr['evaluations'], len(hr['distinct']), time.time() - t0))
    for f in failed[:20]: print('  FAILED obligation: %s: %s: %s @%s %s' % (f[0], f[1], f[2], f[7], f[8][:160].replace('\n', ' ')))
    for v in viol[:5]: print('  FAILING input %s: %s: %s' % (v['case'], v['kind'], v['detail'][:500]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if failed:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
        return 1
    return 0


if __name__ == '__main__':
    main()
