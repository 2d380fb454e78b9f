"""Solver access: relevance filtering of axioms, z3 first, cvc5 second."""
import z3, time, subprocess, tempfile, os

_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f): return r[1]
    v = _has_quant(f, set())
    _hq[k] = (f, v)
    return v


def _has_quant(f, seen):
    st = [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


_sy = {}


def symbols(f):
    """names of uninterpreted functions/constants in f"""
    k = f.get_id()
    r = _sy.get(k)
    if r is not None and r[0].eq(f): return r[1]
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            st.extend(x.children())
    _sy[k] = (f, out)
    return out


def relevant_axioms(eng, fs):
    syms = set()
    for f in fs: syms |= symbols(f)
    left = list(eng.axioms)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for trig, ax in left:
            if trig <= syms if isinstance(trig, (set, frozenset)) else True:
                out.append(ax)
                syms |= symbols(ax)
                ch = True
            else: rest.append((trig, ax))
        left = rest
    return out


def dedupe(fs):
    seen, out = set(), []
    for f in fs:
        i = f.get_id()
        if i in seen: continue
        seen.add(i)
        out.append(f)
    return out


def prove(eng, pc, goal, timeout=8000, want_model=False):
    """-> (status, backend, info); status in proved/refuted/unknown"""
    t0 = time.time()
    fs = dedupe(pc)
    ax = relevant_axioms(eng, fs + [goal])
    if eng.specfacts.fs:
        syms = set()
        for f in fs + [goal]: syms |= symbols(f)
        have = {f.get_id() for f in fs}
        fs = fs + [f for f in eng.specfacts.fs if f.get_id() not in have and symbols(f) <= syms]
    neg = z3.Not(goal)
    last = 'unknown'
    info = ''
    name = None
    try:
        # in this process with a resource limit only (its timer thread is not reliable)
        s = z3.Solver()
        s.set('rlimit', RLIMIT)
        s.set('smt.mbqi', False)
        s.set('smt.random_seed', 7)
        s.add(ax)
        s.add(fs)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            eng.solver_s += time.time() - t0
            return 'proved', 'z3', ''
        for cfg in CONFIGS if r == z3.unknown else [SHOW]:
            if timeout < 5000 and not cfg['fs']: continue
            to = int(timeout * (cfg['f'] if timeout >= 5000 else cfg['fs']))
            if name is None: name = smtfile(ax + fs + [neg])
            r, out = external(cfg['bin'], name, to)
            if r == 'unsat':
                eng.solver_s += time.time() - t0
                return 'proved', {'z3': 'z3-4.8', 'z3-new': 'z3'}.get(cfg['bin'][0], cfg['bin'][0]), ''
            if r == 'sat':
                if want_model: info = external(SHOW['bin'], name, to, True)[1]
                last = 'refuted'
                break
            info = 'timeout'
    finally:
        if name: os.unlink(name)
    eng.solver_s += time.time() - t0
    return last, 'z3', info


RLIMIT = 600000
# tried in this order; f: share of the time limit (fs: for short limits). The older z3 is often better with triggers.
CONFIGS = [
    {'f': 0.1, 'fs': 0, 'bin': ['cvc5', '--lang', 'smt2']},
    {'f': 0.5, 'fs': 0.4, 'bin': ['z3', '-smt2', 'smt.mbqi=false']},
    {'f': 0.25, 'fs': 0, 'bin': ['z3-new', '-smt2', 'smt.mbqi=false', 'smt.random_seed=11']},
    {'f': 0.4, 'fs': 0, 'bin': ['cvc5', '--lang', 'smt2']},
    {'f': 1.0, 'fs': 1.0, 'bin': ['z3-new', '-smt2']},
    {'f': 1.0, 'fs': 0, 'bin': ['z3', '-smt2', 'smt.mbqi=false', 'smt.random_seed=5']},
    {'f': 1.0, 'fs': 0, 'bin': ['cvc5', '--lang', 'smt2']},
]
SHOW = {'f': 1.0, 'fs': 1.0, 'bin': ['z3-new', '-smt2']}


def external(cmd, n, timeout, model=False):
    """run a solver binary on an smt2 file -> (answer, model text)"""
    timeout = max(timeout, 100)
    cmd = cmd + (['--tlimit=%d' % timeout] if cmd[0] == 'cvc5' else ['-t:%d' % timeout])
    if model: cmd = cmd + ['-model']
    try:
        r = subprocess.run(cmd + [n], capture_output=True, text=True, timeout=timeout / 1000 + 3)
        ls = [x for x in r.stdout.strip().split('\n') if x in ('sat', 'unsat', 'unknown')]
        return (ls[0] if ls else 'unknown'), r.stdout[:4000] if model else ''
    except Exception:
        return 'unknown', ''


def smtfile(fs):
    s = z3.Solver()
    s.add(fs)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + s.to_smt2())
        return f.name
