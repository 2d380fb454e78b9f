import models
"""Loops are cut at their header; invariants are found by Houdini over generated
and contract-supplied candidates, so that they do not depend on how the loop is written."""
from core import *
import core, z3util
from execu import Out, LoopView, Obl

MAXROUNDS = 8


def consts_of(f):
    """ids/names of uninterpreted constants in f"""
    out, seen, st = {}, set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
            st.extend(x.children())
    return out


def ctr_now():
    x = fresh('mark')
    return int(str(x).split('!')[-1])


def cnum(name):
    i = name.rfind('!')
    if i < 0: return -1
    try: return int(name[i + 1:])
    except ValueError: return -1


def loop_fresh(f, mark):
    """constants created after mark occurring in f"""
    return {n: c for n, c in consts_of(f).items() if cnum(n) > mark}


def body_iters(fr, b):
    r = []
    for x in fr.loops[b]:
        for ins in fr.fn['blocks'][x]['i']:
            if ins['op'] == 'next': r.append('%s.%s' % (fr.name, ins['a']['n']))
    return r


class Cut:
    pass


def make_cut(eng, fr, b, phis, st, mods):
    """state at the loop header for an arbitrary iteration"""
    T = eng.T
    mark = ctr_now()
    s = st.fork()
    c = Cut()
    c.mark = mark
    c.mods = mods
    c.entry = st
    c.entry_phis = phis
    na = fresh('na')
    s.add(na >= st.na)
    s.na = na
    c.na = na
    c.phis = {}
    for ins in fr.fn['blocks'][b]['i']:
        if ins['op'] != 'phi': break
        v0 = phis[ins['n']]
        if isinstance(v0, FuncV) and v0.name is not None:
            raise Unsupported('function value in a loop')
        if isinstance(v0, (ElemPtr, VElemPtr, MapIter)) or (isinstance(v0, Ptr) and v0.path):
            raise Unsupported('address in a loop variable')
        c.phis[ins['n']] = eng.sym(ins['t'], 'phi_' + (ins.get('cm') or ins['n']), s)
    h = dict(s.heap)
    for key, how in mods.items():
        srt = keysort(eng, key, h)
        A = core.arr(h, key, srt)
        if how == 'all':
            h[key] = fresh('hv' + key[0], srt)
            eng.bounds[h[key].get_id()] = (h[key], na)
        else:
            for ref in how:
                x = fresh('hv_' + key[0], srt.range())
                A = z3.Store(A, ref, x)
                if z3.is_array(x): eng.bounds[x.get_id()] = (x, na)
            h[key] = A
    s.heap = h
    c.visited = {}
    for it in body_iters(fr, b):
        if it in s.iters:
            so = s.iters[it].sort()
            s.iters[it] = fresh('visited', so)
            c.visited[it] = (st.iters[it], s.iters[it])
    s.env.update(c.phis)
    s.writes = () if st.writes is not None else None
    c.st = s
    c.n0 = len(s.pc)
    return c


def keysort(eng, key, h):
    a = h.get(key)
    if a is not None: return a.sort()
    return eng.keysort(key)


def run_body(eng, fr, b, s, limit):
    """run one iteration from the header; outs: back / exit(if limit) / ret"""
    old = fr.unroll.get(b)
    oldlim = fr.limit
    fr.unroll[b] = 'cut'
    if limit: fr.limit = (fr.loops[b] if oldlim is None else fr.loops[b] & oldlim)
    try:
        work, outs = [], []
        eng.block(fr, b, s, work, outs)
        while work:
            bb, pred, st = work.pop()
            outs.extend(eng.run(fr, bb, pred, st))
        return outs
    finally:
        fr.unroll[b] = old
        fr.limit = oldlim


def discover(eng, fr, b, phis, st):
    mods = {}
    eng.quiet += 1
    eng.discovering += 1
    try:
        for rnd in range(6):
            c = make_cut(eng, fr, b, phis, st, mods)
            outs = run_body(eng, fr, b, c.st.fork(), True)
            new = {k: (v if v == 'all' else dict(v)) for k, v in mods.items()}
            for o in outs:
                if o.k == 'ret': continue          # effects of returning iterations do not reach the header
                for n in models.TRACES:
                    if not models.ghost(o.st, n).eq(models.ghost(c.st, n)): new[('G', n)] = 'all'
                for key, ref in o.st.writes or ():
                    if models.is_trace(key): continue
                    ref = simp(ref)
                    lf = loop_fresh(ref, c.mark)
                    if z3.is_int_value(ref) and ref.as_long() == -1 and key[0] != 'G': new[key] = 'all'; continue
                    if not lf:
                        if new.get(key) != 'all': new.setdefault(key, {})[ref.get_id()] = ref
                    elif fresh_ref(eng, o.st, ref, c): continue
                    else: new[key] = 'all'
            new2 = {k: ('all' if v == 'all' else v) for k, v in new.items()}
            same = set(new2) == set(mods) and all((mods[k] == 'all') == (new2[k] == 'all') and (new2[k] == 'all' or set(new2[k]) == set(mods[k] if isinstance(mods[k], dict) else ())) for k in new2)
            mods = new2
            if same: break
        else: raise Unsupported('loop effects do not stabilise')
    finally:
        eng.quiet -= 1
        eng.discovering -= 1
    return {k: ('all' if v == 'all' else list(v.values())) for k, v in mods.items()}, mods


def fresh_ref(eng, st, ref, c):
    """ref was allocated after the loop was entered"""
    d = simp(ref - c.na)
    if z3.is_int_value(d): return d.as_long() >= 0
    return eng.entails(st, ref >= c.entry.na, 1500)


def enter(eng, fr, b, phis, st):
    if eng.deadline and time.time() > eng.deadline: raise Unsupported('time budget used up')
    mods, _ = discover(eng, fr, b, phis, st)
    eng.loop_stats['loops'] += 0 if eng.quiet else 1
    if eng.discovering:
        c = make_cut(eng, fr, b, phis, st, mods)
        outs = run_body(eng, fr, b, c.st, False)
        r = []
        for o in outs:
            if o.k == 'back' and o.h == b: continue
            r.append(o)
        # effects of the loop itself
        extra = tuple((k, ref) for k, v in mods.items() for ref in (v if v != 'all' else [IV(-1)]))
        for o in r: o.st.writes = (st.writes or ()) + extra + (o.st.writes or ())
        return r
    # quiet probing run to collect the continuation conditions for templates
    eng.quiet += 1
    eng.probing += 1
    try:
        c = make_cut(eng, fr, b, phis, st, mods)
        probe = run_body(eng, fr, b, c.st.fork(), True)
    finally:
        eng.quiet -= 1
        eng.probing -= 1
    c = make_cut(eng, fr, b, phis, st, mods) if False else c
    cands = candidates(eng, fr, b, c, probe)
    # initial check
    kept = []
    lvE = view(eng, fr, b, c, st, phis, {k: v[0] for k, v in c.visited.items()})
    for nm, mk, src in cands:
        try: f = mk(lvE)
        except Unsupported: continue
        if z3.is_false(simp(f)): continue
        if eng.entails(st, f, 800 if src == 'auto' else 5000): kept.append((nm, mk, src))
        elif eng.verbose and src != 'auto': print('   loop candidate fails initially:', nm)
    eng.loop_stats['candidates'] += len(cands)
    nested = any(x != b and x in fr.loops[b] for x in fr.loops)

    def rounds(kept, quiet):
        """drop candidates until the rest is inductive -> (kept, outcomes of the last round, which assumed just them)"""
        for rnd in range(MAXROUNDS):
            s = c.st.fork()
            lvH = view(eng, fr, b, c, s, c.phis, {k: v[1] for k, v in c.visited.items()})
            cf = []
            for nm, mk, src in kept:
                f = mk(lvH)
                cf.append(f)
                s.add(f)
            mark = len(eng.obls)
            eng.quiet += quiet
            try: outs = run_body(eng, fr, b, s, True)
            finally: eng.quiet -= quiet
            backs = [o for o in outs if o.k == 'back' and o.h == b]
            dropped = set()
            again = True
            while again:
                again = False
                drop_ids = {cf[i].get_id() for i in dropped}
                for o in backs:
                    pc = [f for f in o.st.pc if f.get_id() not in drop_ids] if dropped else o.st.pc
                    lvB = view(eng, fr, b, c, o.st, o.st.env, {k: o.st.iters[k] for k in c.visited})
                    for i, (nm, mk, src) in enumerate(kept):
                        if i in dropped: continue
                        try: g = mk(lvB)
                        except Unsupported: g = FALSE
                        r, _, _ = z3util.prove(eng, pc, g, 800 if src == 'auto' else 6000)
                        if r != 'proved':
                            if eng.verbose and src != 'auto': print('   loop candidate not preserved:', nm, r)
                            dropped.add(i)
                            again = True
                    if again: break
            if not dropped: return kept, outs
            del eng.obls[mark:]
            kept = [k for i, k in enumerate(kept) if i not in dropped]
        raise Unsupported('loop invariants do not stabilise')

    if nested and not eng.probing and any(k[2] != 'auto' for k in kept):
        # the general candidates first, without the contract's (here and in the loops inside)
        eng.probing += 1
        try: auto, _ = rounds([k for k in kept if k[2] == 'auto'], 1)
        finally: eng.probing -= 1
        kept = [k for k in kept if k in auto or k[2] != 'auto']
    kept, outs = rounds(kept, 0)
    eng.loop_stats['kept'] += len(kept)
    if eng.verbose: print('  loop %s B%d: mods %s, kept %s' % (fr.name, b, {k: (v if v == 'all' else len(v)) for k, v in mods.items()}, [k[0] for k in kept]))
    for nm, mk, src in kept:
        if not eng.quiet:
            o = Obl(eng.cur.fn, 'invariant', 'loop invariant: ' + nm, list(eng.cur.props), [], TRUE, fr.fn.get('pos', ''))
            o.status, o.backend = 'proved', 'z3'
            eng.obls.append(o)
    r = []
    extra = tuple((k, ref) for k, v in mods.items() for ref in (v if v != 'all' else [IV(-1)]))
    for o in outs:
        if o.k == 'back' and o.h == b:
            continue
        if o.k == 'exit' and (fr.limit is None or o.h in fr.limit):
            # leaves this loop only: go on behind it
            for o2 in eng.run(fr, o.h, o.p, o.st):
                o2.st.writes = (st.writes or ()) + extra + (o2.st.writes or ())
                r.append(o2)
            continue
        o.st.writes = (st.writes or ()) + extra + (o.st.writes or ())
        r.append(o)
    return r


def view(eng, fr, b, c, st, phis, visited):
    lv = LoopView(eng, fr, b, st, {n: phis[n] for n in c.phis}, c.entry, c.entry_phis, c.mods)
    lv.visited = visited
    lv.visited0 = {k: v[0] for k, v in c.visited.items()}
    lv.cut = c
    return lv


def candidates(eng, fr, b, c, probe):
    """[(name, maker(LoopView)->formula, source)]"""
    T = eng.T
    blk = fr.fn['blocks'][b]
    out = []
    backs = [o for o in probe if o.k == 'back' and o.h == b]
    ind = None
    types = {ins['n']: ins['t'] for ins in blk['i'] if ins['op'] == 'phi'}
    for n, v in c.phis.items():
        t = types[n]
        e = c.entry_phis[n]
        k = T.k(t)
        if k == 'basic' and z3.is_expr(v) and v.sort() == I:
            steps = [simp(o.st.env[n] - v) for o in backs]
            if steps and all(z3.is_int_value(x) for x in steps) and 'string' not in T.basic(t):
                sv = {x.as_long() for x in steps}
                if min(sv) >= 0: out.append(('counter does not decrease', lambda L, n=n: L.phis[n] >= L.entry_phis[n], 'auto'))
                if sv == {1}: ind = n
            bound = header_bound(eng, fr, b, c, n)
            if bound is not None:
                off, rhs = bound
                out.append(('counter within bound', lambda L, n=n, off=off, rhs=rhs: z3.Or(L.phis[n] + off <= rhs, L.phis[n] == L.entry_phis[n]), 'auto'))
        if k in ('slice',) and isinstance(v, Slice):
            out.append(('slice is fresh or as on entry', lambda L, n=n: z3.Or(L.phis[n].b == L.entry_phis[n].b, L.phis[n].b >= L.entry_st.na), 'auto'))
            out.append(('slice does not shrink', lambda L, n=n: L.phis[n].l >= L.entry_phis[n].l, 'auto'))
            out.append(('slice is new', lambda L, n=n: z3.Or(L.phis[n].b == 0, L.phis[n].b >= L.eng.na0), 'auto'))
        if k == 'ptr' and isinstance(v, Ptr):
            out.append(('pointer is fresh or as on entry', lambda L, n=n: z3.Or(L.phis[n].ref == L.entry_phis[n].ref, L.phis[n].ref >= L.entry_st.na), 'auto'))
        if k == 'map':
            out.append(('map is fresh or as on entry', lambda L, n=n: z3.Or(L.phis[n] == L.entry_phis[n], L.phis[n] >= L.entry_st.na), 'auto'))
        if k == 'basic' and z3.is_expr(v) and v.sort() == I and 'string' not in T.basic(t) and any(z3.is_int_value(x) and x.as_long() for x in [simp(o.st.env[n] - v) for o in backs]): continue
        def unchanged(L, n=n, t=t):
            return AND([x == y for (_, x), (_, y) in zip(eng.flat(t, L.phis[n]), eng.flat(t, L.entry_phis[n]))])
        out.append(('variable unchanged', unchanged, 'auto'))
    # visited keys belong to the map
    its = {}
    for x in fr.loops[b]:
        for ins in fr.fn['blocks'][x]['i']:
            if ins['op'] == 'next':
                it = c.st.env.get(ins['a']['n'])
                if isinstance(it, MapIter) and it.id in c.visited: its[it.id] = it
    for iid, it in its.items():
        def vsub(L, iid=iid, it=it):
            k = fresh('k', L.visited[iid].sort().domain())
            dom = eng.mapdom(L.heap, it.mt, it.ref)
            return z3.ForAll([k], z3.Implies(z3.Select(L.visited[iid], k), z3.And(it.ref != 0, z3.Select(dom, k))), patterns=[z3.Select(L.visited[iid], k)])
        out.append(('visited keys are in the map', vsub, 'auto'))
    c.ind = ind
    c.its = its
    # the condition under which an iteration continues held for all earlier iterations
    if 0 < len(backs) <= 24:
        if ind is not None:
            var = c.phis[ind]
            cont = continuation(c, backs, var, None)
            if cont is not None:
                def search(L, ind=ind, cont=cont, var=var):
                    j = fresh('j')
                    return z3.ForAll([j], z3.Implies(z3.And(L.entry_phis[ind] <= j, j < L.phis[ind]), z3.substitute(cont, (var, j))))
                out.append(('earlier iterations continued', search, 'auto'))
        elif len(its) == 1:
            iid, it = list(its.items())[0]
            # key constants differ per path: the constant added to the visited set
            cont = []
            for o in backs:
                vis = o.st.iters[iid]
                if not z3.is_store(vis): cont = None; break
                kc = vis.arg(1)
                x = continuation(c, [o], kc, iid)
                if x is None: cont = None; break
                cont.append((x, kc))
            if cont:
                def msearch(L, iid=iid, cont=cont):
                    k = fresh('k', L.visited[iid].sort().domain())
                    body = OR([z3.substitute(x, (kc, k)) for x, kc in cont])
                    return z3.ForAll([k], z3.Implies(z3.Select(L.visited[iid], k), body), patterns=[z3.Select(L.visited[iid], k)])
                out.append(('earlier iterations continued (map)', msearch, 'auto'))
    if eng.probing: return out
    S = eng.S0
    for it in eng.cur.inv(S, view(eng, fr, b, c, c.st, c.phis, {k: v[1] for k, v in c.visited.items()})) or []:
        out.append((it[0], it[1], 'contract'))
    return out


def continuation(c, backs, var, iid):
    """disjunction over the back edges of the conditions on var alone"""
    vn = var.decl().name()
    ds = []
    for o in backs:
        conj = []
        for f in o.st.pc[c.n0:]:
            for g in conjuncts(f):
                lf = loop_fresh(g, c.mark)
                lf.pop(vn, None)
                if lf or z3util.has_quant(g): continue
                conj.append(g)
        ds.append(AND(conj))
    r = OR(ds)
    r = simp(r)
    if z3.is_true(r): return None
    return r


def conjuncts(f):
    if z3.is_and(f):
        for x in f.children(): yield from conjuncts(x)
    else: yield f


def header_bound(eng, fr, b, c, n):
    """header condition phi+off < rhs -> (off, rhs)"""
    blk = fr.fn['blocks'][b]
    s = c.st.fork()
    eng.quiet += 1
    try:
        for ins in blk['i'][:-1]:
            if ins['op'] == 'phi': continue
            if ins['op'] == 'next': return None
            r = eng.instr(fr, ins, s)
            if isinstance(r, list):
                if len(r) != 1: return None
                s = r[0][0]
                if 'n' in ins: s.env[ins['n']] = r[0][1]
        last = blk['i'][-1]
        if last['op'] != 'if': return None
        cnd = None
        for ins in blk['i']:
            if ins.get('n') == last['a'].get('n') and ins['op'] == 'binop':
                a, bb = eng.operand(s, ins['a']), eng.operand(s, ins['b'])
                v = c.phis[n]
                for lhs, rhs, ops in ((a, bb, ('<', '!=')), (bb, a, ('>', '!='))):
                    if not z3.is_expr(lhs) or not z3.is_int(lhs) or not z3.is_int(rhs): continue
                    d = simp(lhs - v)
                    if ins['o'] in ops and z3.is_int_value(d) and not loop_fresh(rhs, c.mark): return d.as_long(), rhs
        return None
    except Unsupported:
        return None
    finally:
        eng.quiet -= 1
