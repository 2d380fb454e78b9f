"""Symbolic execution of the dumped SSA and generation of proof obligations."""
from core import *
import z3util

MAXUNROLL = 40
MAXPATHS = 4000


class Obl:
    __slots__ = ('fn', 'kind', 'name', 'props', 'pc', 'goal', 'pos', 'status', 'time', 'backend', 'info', 'ax')

    def __init__(s, fn, kind, name, props, pc, goal, pos):
        s.fn, s.kind, s.name, s.props, s.pc, s.goal, s.pos = fn, kind, name, props, pc, goal, pos
        s.status, s.time, s.backend, s.info, s.ax = None, 0, None, '', None


class Frame:
    __slots__ = ('fn', 'name', 'depth', 'stack', 'unroll', 'loops', 'headers', 'limit')

    def __init__(s, fn, depth, stack):
        s.fn, s.name, s.depth, s.stack = fn, fn['name'], depth, stack
        s.unroll = {}
        s.limit = None
        s.loops = loops_of(fn)


def loops_of(fn):
    """natural loops: header -> set of body blocks"""
    if '_loops' in fn: return fn['_loops']
    bl = fn['blocks']
    n = len(bl)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            ps = bl[b]['p']
            nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
            nd = nd | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in range(n):
        for s in bl[b]['s']:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st.extend(bl[x]['p'])
    fn['_loops'] = loops
    return loops


def fresh_ref(ref):
    """a reference handed out by the allocator (allocation counter + constant): never nil"""
    ref = simp(ref)
    if z3.is_add(ref):
        cs = [x for x in ref.children() if not (z3.is_int_value(x) and x.as_long() >= 0)]
        if len(cs) != 1: return False
        ref = cs[0]
    return z3.is_const(ref) and ref.decl().name().split('!')[0] in ('na', 'na0') and '!' in ref.decl().name()


class Out:
    __slots__ = ('k', 'st', 'v', 'h', 'p')

    def __init__(s, k, st, v=None, h=None, p=None): s.k, s.st, s.v, s.h, s.p = k, st, v, h, p


class Var:
    """a loop variable (register or local memory cell) for invariant templates"""
    __slots__ = ('name', 't', 'cell', 'fixed', 'start')

    def __init__(s, name, t, cell=None, fixed=None, start=None): s.name, s.t, s.cell, s.fixed, s.start = name, t, cell, fixed, start

    def __call__(s, L):
        if s.fixed is not None: return s.fixed
        return L.phis[s.name] if s.cell is None else L.eng.rd(L.heap, s.cell, s.t)

    def entry(s, L):
        if s.start is not None: return s.start
        if s.fixed is not None: return s.fixed
        return L.entry_phis[s.name] if s.cell is None else L.eng.rd(L.entry_heap, s.cell, s.t)


class LoopView:
    """what a loop-invariant template sees"""

    def __init__(s, eng, fr, header, st, phis, entry_st, entry_phis, mods):
        s.eng, s.fr, s.header, s.st, s.phis = eng, fr, header, st, phis
        s.entry_st, s.entry_phis, s.mods = entry_st, entry_phis, mods
        s.heap, s.entry_heap = st.heap, entry_st.heap
        s.na = st.na

    @property
    def h(s):
        from spec import H
        return H(s.eng, s.heap)

    def vars(s, kind=None, types=None):
        """Vars of a kind ('int','bool','string','slice','map','ptr','struct','vslice') or type name"""
        T = s.eng.T
        out = []
        for ins in s.fr.fn['blocks'][s.header]['i']:
            if ins['op'] == 'phi': out.append(Var(ins['n'], ins['t']))
        for b in s.fr.fn['blocks']:
            for ins in b['i']:
                if ins['op'] == 'alloc':
                    p = s.entry_st.env.get(ins['n'])
                    if isinstance(p, Ptr): out.append(Var(ins['n'], T.elem(ins['t']), p))
                elif ins['op'] in ('makemap', 'makeslice', 'call') and isinstance(ins.get('t'), int) and T.k(ins['t']) in ('map', 'slice') and ins['n'] in s.entry_st.env and ins.get('call', {}).get('fn', {}).get('k') != 'b':
                    out.append(Var(ins['n'], ins['t'], fixed=s.entry_st.env[ins['n']]))
        r = []
        for v in out:
            if types is not None and T.s(v.t) not in types: continue
            if kind is not None and s.kind(v.t) != kind: continue
            r.append(v)
        return r

    def outer(s, kind):
        """counters of the enclosing loops (fixed during this loop); entry is the constant they start with"""
        r = []
        for hd, body in s.fr.loops.items():
            if hd == s.header or s.header not in body: continue
            for ins in s.fr.fn['blocks'][hd]['i']:
                if ins['op'] != 'phi' or s.kind(ins['t']) != kind or ins['n'] not in s.entry_st.env: continue
                start = [x for x in ins['x'] if x['k'] == 'c']
                if len(start) != 1 or start[0].get('v') is None: continue
                r.append(Var(ins['n'], ins['t'], fixed=s.entry_st.env[ins['n']], start=IV(int(start[0]['v']))))
        return r

    def earlier(s, types):
        """values that loops before this one ended with"""
        r = []
        for hd, body in s.fr.loops.items():
            if hd == s.header: continue
            for ins in s.fr.fn['blocks'][hd]['i']:
                if ins['op'] == 'phi' and s.eng.T.s(ins['t']) in types and ins['n'] in s.entry_st.env:
                    r.append(Var(ins['n'], ins['t'], fixed=s.entry_st.env[ins['n']]))
        return r

    def kind(s, t):
        T = s.eng.T
        k = T.k(t)
        if k == 'basic':
            n = T.basic(t)
            return 'string' if 'string' in n else 'bool' if 'bool' in n else 'float' if 'float' in n else 'int'
        if T.is_vslice(t): return 'vslice'
        return k

    def maps(s):
        """[(iterator id, MapIter)] of the map iterations of this loop"""
        return list(s.cut_its().items())

    def cut_its(s):
        return getattr(s.cut, 'its', {})


class SpecFacts:
    """facts on references read by specifications (they hold in every state: references stored in memory that
    existed at function entry or at a loop header point to memory that existed then)"""

    def __init__(s): s.reset()

    def reset(s): s.fs, s.ids = [], set()

    def add(s, *fs):
        for f in fs:
            f = simp(f)
            if z3.is_true(f) or f.get_id() in s.ids: continue
            s.ids.add(f.get_id())
            s.fs.append(f)


class Engine:
    def __init__(self, dump):
        self.D = dump
        self.T = Types(dump['types'])
        self.F = dump['funcs']
        for f in self.F.values():
            if f.get('own') and f.get('pkg'): OWN_PKGS.add(f['pkg'])
        OWN_PKGS.update(t.get('pkg') for t in dump['types'] if t.get('methods') is not None and t.get('pkg'))
        self.contracts = {}
        self.models = {}
        self.invoke_models = {}
        self.tree_ax = set()
        self.axioms = []          # (set of trigger UF names, formula)
        self.funcreg = {}
        self.globals = {}
        self.gtypes = {g['n']: g['t'] for g in dump['globals']}
        for i, g in enumerate(sorted(self.gtypes)):
            self.globals[g] = IV(-1000 - i)
        self.obls = []
        self.quiet = 0
        self.cur = None
        self.usedc = set()
        self.assumed = {}         # name of trusted model/contract -> count
        self.boxes = {}
        self.tagids = {}
        self.na0 = None
        self.inits = {}
        self.npaths = 0
        self.feas = {}
        self.loop_stats = {'loops': 0, 'candidates': 0, 'kept': 0}
        self.solver_s = 0.0
        self.safety = True
        self.dtfacts = True
        self.boxfacts = []
        self.bounds = {}
        self.specfacts = SpecFacts()
        self._rl = {}
        self.deadline = None
        self.discovering = 0
        self.verbose = False
        self.S0 = None

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, goal, pos='', props=None):
        goal = simp(goal) if z3.is_expr(goal) else BV(goal)
        if self.quiet: return
        if kind == 'safety' and not self.safety: return
        o = Obl(self.cur.fn if self.cur else '?', kind, name, props or (self.cur.props if self.cur else []), None, goal, pos)
        if z3.is_true(goal):
            o.status, o.backend = 'proved', 'simplifier'
            o.pc = []
        else:
            o.pc = list(st.pc)
        self.obls.append(o)

    # ------------------------------------------------------------------ values
    def build(self, t, getter, path=()):
        """build a value of type t from a getter(path, sort)->z3 expr"""
        T = self.T
        k = T.k(t)
        if k == 'struct':
            fs = T.fields(t)
            return StructV(t, [(lambda i=i, ft=f['t']: self.build(ft, getter, path + (i,))) for i, f in enumerate(fs)])
        if k == 'slice':
            et = T.elem(t)
            if T.is_vslice(t):
                return VSlice(getter(path + ('n',), B), getter(path + ('l',), I),
                              getter(path + ('a',), z3.ArraySort(I, vsort(T.s(et)))), et)
            return Slice(getter(path + ('b',), I), getter(path + ('o',), I), getter(path + ('l',), I),
                         getter(path + ('c',), I), et)
        if k == 'array':
            n = T.t[T.u(t)]['n']
            if n > 64: return getter(path, I)
            et = T.elem(t)
            return StructV(t, [(lambda i=i: self.build(et, getter, path + (i,))) for i in range(n)])
        if k == 'tuple':
            return TupleV([self.build(ft, getter, path + (i,)) for i, ft in enumerate(T.t[t]['r'])])
        x = getter(path, T.sort(t))
        return self.wrap(t, x)

    def wrap(self, t, x):
        """python value for the scalar z3 term x of type t"""
        k = self.T.k(t)
        if k == 'ptr':
            et = self.T.elem(t)
            if self.T.k(et) == 'array':
                return ArrPtr(x, self.T.elem(et), self.T.t[self.T.u(et)]['n'])
            return Ptr(x, et)
        if k == 'func':
            xs = simp(x)
            if z3.is_int_value(xs) and xs.as_long() in self.funcreg: return self.funcreg[xs.as_long()]
            return FuncV(None, (), x)
        if k == 'iface':
            return self.iface_of(x)
        return x

    def iface_of(self, x):
        xs = simp(x)
        r = self.boxes.get(xs.get_id())
        if r is not None and r[0].eq(xs): return Iface(xs, r[1], r[2])
        return Iface(xs)

    def flat(self, t, v):
        """[(path, z3 term)] leaves of value v of type t"""
        T = self.T
        k = T.k(t)
        if k in ('struct', 'array') and isinstance(v, StructV):
            r = []
            fts = [f['t'] for f in T.fields(t)] if k == 'struct' else [T.elem(t)] * len(v.f)
            for i, ft in enumerate(fts):
                for p, x in self.flat(ft, v.get(i)): r.append(((i,) + p, x))
            return r
        if k == 'slice':
            if isinstance(v, VSlice): return [(('n',), v.n), (('l',), v.l), (('a',), v.a)]
            return [(('b',), v.b), (('o',), v.o), (('l',), v.l), (('c',), v.c)]
        if k == 'tuple':
            r = []
            for i, ft in enumerate(T.t[t]['r']):
                for p, x in self.flat(ft, v.f[i]): r.append(((i,) + p, x))
            return r
        return [((), self.scalar(t, v))]

    def scalar(self, t, v):
        if z3.is_expr(v): return v
        if isinstance(v, Ptr):
            if v.path: return self.interior(v)
            return v.ref
        if isinstance(v, ArrPtr): return v.base
        if isinstance(v, Iface): return v.code
        if isinstance(v, FuncV): return self.fcode(v)
        if isinstance(v, ElemPtr):
            return UF('elemaddr_%s_%s' % (self.T.s(v.et), v.path), I, I, I)(v.base, v.idx)
        raise Unsupported('scalar of %s' % type(v).__name__)

    def interior(self, p):
        """code of an interior pointer (address of a field); it is never dereferenced in this form"""
        f = UF('addr_%s_%s' % (self.T.s(p.rt), '.'.join(map(str, p.path))), I, I)
        return f(p.ref)

    def fcode(self, v):
        if v.code is None:
            c = 500000 + len(self.funcreg)
            if not v.binds:
                for k, o in self.funcreg.items():
                    if o.name == v.name and not o.binds:
                        v.code = IV(k)
                        return v.code
            v.code = IV(c)
            self.funcreg[c] = v
        return v.code

    def unflat(self, t, leaves):
        d = dict(leaves)
        return self.build(t, lambda p, s: d[p])

    def zero(self, t):
        def g(p, s):
            if s == B: return TRUE if p and p[-1] == 'n' else FALSE
            if s == R: return z3.RealVal(0)
            if s == I: return IV(0)
            return self.zero_arr(s)
        return self.build(t, g)

    def zero_arr(self, s):
        return z3.K(I, z3.Const('zero_' + str(s.range()), s.range()))

    def sym(self, t, name, st):
        made = {}

        def g(p, s):
            if p not in made: made[p] = fresh(name + ''.join('.' + str(x) for x in p), s)
            return made[p]
        v = self.build(t, g)
        # force leaves + type facts
        self.typefacts(t, v, st, deep=True)
        return v

    def typefacts(self, t, v, st, deep=False):
        T = self.T
        k = T.k(t)
        if k == 'ptr' and isinstance(v, Ptr) and not v.path: st.add(v.ref < st.na)
        elif k in ('map', 'chan'): st.add(v < st.na, v >= 0)
        elif k == 'slice':
            if isinstance(v, VSlice): st.add(v.l >= 0, z3.Implies(v.n, v.l == 0))
            else: st.add(self.slicefacts(v, st))
        elif k == 'basic':
            n = T.basic(t)
            if n.startswith('uint') or n == 'uintptr' or n == 'byte': st.add(v >= 0)
        elif k == 'iface': pass
        elif k in ('struct', 'array') and deep and isinstance(v, StructV):
            fts = [f['t'] for f in T.fields(t)] if k == 'struct' else [T.elem(t)] * len(v.f)
            for i, ft in enumerate(fts): self.typefacts(ft, v.get(i), st, deep)
        elif k == 'tuple':
            for i, ft in enumerate(T.t[t]['r']): self.typefacts(ft, v.f[i], st, deep)

    def slicefacts(self, v, st):
        if z3.is_int_value(v.b) and z3.is_int_value(v.l): return []
        return [v.l >= 0, v.l <= v.c, v.o >= 0, v.b < st.na, z3.Implies(v.b == 0, z3.And(v.l == 0, v.c == 0))]

    # -------------------------------------------------------------- value seqs
    def vpack(self, et, v):
        name = self.T.s(et)
        S = vsort(name)
        ls = self.flat(et, v)
        mk = UF('mk_' + name, *([x.sort() for _, x in ls] + [S]))
        c = mk(*[x for _, x in ls])
        return c, [UF('get_%s_%s' % (name, '.'.join(map(str, p))), S, x.sort())(c) == x for p, x in ls]

    def vunpack(self, et, c):
        name = self.T.s(et)
        S = vsort(name)
        return self.build(et, lambda p, s: UF('get_%s_%s' % (name, '.'.join(map(str, p))), S, s)(c))

    # ------------------------------------------------------------------ memory
    def rd(self, heap, addr, t):
        """value of type t at addr in heap (no checks)"""
        T = self.T
        if isinstance(addr, Ptr):
            rt = T.s(addr.rt)
            return self.build(t, lambda p, s: simp(z3.Select(arr(heap, ('F', rt, addr.path + p), fsort(s)), addr.ref)))
        if isinstance(addr, ElemPtr):
            et = T.s(addr.et)
            return self.build(t, lambda p, s: simp(z3.Select(
                z3.Select(arr(heap, ('E', et, addr.path + p), esort(s)), addr.base), addr.idx)))
        if isinstance(addr, VElemPtr):
            tr = simp(z3.Select(addr.vs.a, addr.idx))
            v = self.vunpack(addr.vs.et, tr)
            for i in addr.path: v = v.get(i)
            return v
        raise Unsupported('read through %s' % type(addr).__name__)

    def wr(self, st, addr, t, v):
        T = self.T
        h = dict(st.heap)
        if isinstance(addr, Ptr):
            rt = T.s(addr.rt)
            for p, x in self.flat(t, v):
                key = ('F', rt, addr.path + p)
                h[key] = z3.Store(arr(h, key, fsort(x.sort())), addr.ref, x)
                self.wlog(st, key, addr.ref)
            st.heap = h
            return
        if isinstance(addr, ElemPtr):
            et = T.s(addr.et)
            for p, x in self.flat(t, v):
                key = ('E', et, addr.path + p)
                A = arr(h, key, esort(x.sort()))
                h[key] = z3.Store(A, addr.base, z3.Store(simp(z3.Select(A, addr.base)), addr.idx, x))
                self.wlog(st, key, addr.base)
            st.heap = h
            return
        if isinstance(addr, VElemPtr):
            vs = addr.vs
            if vs.origin is None: raise Unsupported('store to an owned sequence of unknown origin')
            if addr.path:
                raise Unsupported('field store into owned sequence')
            cur = self.rd(st.heap, vs.origin[0], vs.origin[1])
            self.oblige(st, 'own', 'owned sequence is stored through its owner', z3.And(cur.l == vs.l, cur.a == vs.a)) \
                if not (cur.l.eq(vs.l) and cur.a.eq(vs.a)) else None
            c, facts = self.vpack(vs.et, v)
            st.add(facts)
            nv = VSlice(cur.n, cur.l, z3.Store(cur.a, addr.idx, c), vs.et)
            self.wr(st, vs.origin[0], vs.origin[1], nv)
            vs2 = nv.a
            vs.a = vs2
            return
        raise Unsupported('store through %s' % type(addr).__name__)

    def wlog(self, st, key, ref):
        if st.writes is not None:
            st.writes = st.writes + ((key, ref),)

    def alloc(self, st, t):
        ref = simp(st.na)
        st.na = simp(st.na + 1)
        return ref

    def new(self, st, t, val=None):
        """allocate an object of type t"""
        T = self.T
        ref = self.alloc(st, t)
        if T.k(t) == 'array':
            et, n = T.elem(t), T.t[T.u(t)]['n']
            self.fill(st, ref, et, None)
            return ArrPtr(ref, et, n)
        p = Ptr(ref, t)
        self.wr(st, p, t, val if val is not None else self.zero(t))
        return p

    def fill(self, st, base, et, _):
        """zero content for a new backing array"""
        h = dict(st.heap)
        z = self.zero(et)
        for p, x in self.flat(et, z):
            key = ('E', self.T.s(et), p)
            h[key] = z3.Store(arr(h, key, esort(x.sort())), base, z3.K(I, x))
            self.wlog(st, key, base)
        st.heap = h

    def content(self, heap, et, base, path, sort):
        return simp(z3.Select(arr(heap, ('E', self.T.s(et), path), esort(sort)), base))

    # -------------------------------------------------------------- interfaces
    def tid(self, t):
        s = self.T.s(t)
        if s not in self.tagids: self.tagids[s] = len(self.tagids) + 1
        return IV(self.tagids[s])

    def mkiface(self, st, t, v):
        """box value v of concrete type t"""
        ls = self.flat(t, v)
        s = self.T.s(t)
        box = UF('box_' + s, *([x.sort() for _, x in ls] + [I]))
        code = box(*[x for _, x in ls]) if ls else z3.Const('boxed_' + s, I)
        st.add(code != 0, tagof(code) == self.tid(t))
        if len(ls) == 1 and z3.is_app(ls[0][1]) and ls[0][1].decl().name().startswith('unbox_%s_' % s) and ls[0][1].num_args() == 1:
            c0 = ls[0][1].arg(0)           # boxing what was unboxed
            st.add(z3.Implies(tagof(c0) == self.tid(t), code == c0))
        for p, x in ls:
            st.add(UF('unbox_%s_%s' % (s, '.'.join(map(str, p))), I, x.sort())(code) == x)
        self.boxes[code.get_id()] = (code, t, v)
        return Iface(code, t, v)

    def unbox(self, st, t, i):
        if i.dt == t: return i.val
        s = self.T.s(t)
        v = self.build(t, lambda p, so: UF('unbox_%s_%s' % (s, '.'.join(map(str, p))), I, so)(i.code))
        self.typefacts(t, v, st, deep=self.T.k(t) != 'struct')
        return v

    def hastype(self, st, i, t):
        """formula: dynamic type of i is the concrete type t"""
        if i.dt is not None: return BV(i.dt == t or self.T.s(i.dt) == self.T.s(t))
        # a value of that dynamic type is the box of its payload
        return AND(i.code != 0, tagof(i.code) == self.tid(t))

    # ------------------------------------------------------------ feasibility
    def feasible(self, st, extra=None):
        t0 = time.time()
        fs = [f for f in st.pc if not z3util.has_quant(f)]
        if extra is not None and not z3util.has_quant(extra): fs.append(extra)
        key = frozenset(f.get_id() for f in fs)
        r = self.feas.get(key)
        if r is None:
            s = z3.Solver()
            s.set('rlimit', 500000)
            s.add(fs)
            r = s.check() != z3.unsat
            self.feas[key] = r
            self.feas[('keep', key)] = fs
        self.solver_s += time.time() - t0
        return r

    def entails(self, st, goal, timeout=3000):
        goal = simp(goal)
        if z3.is_true(goal): return True
        r, _, _ = z3util.prove(self, st.pc, goal, timeout)
        return r == 'proved'

    # ------------------------------------------------------------------- exec
    def operand(self, st, x):
        if x is None: return None
        k = x['k']
        if k == 'r':
            return st.env[x['n']]
        if k == 'c':
            t = x['t']
            ck = x['ck']
            if ck == 'nil':
                if self.T.k(t) == 'tparam': raise Unsupported('type parameter')
                return self.zero(t)
            if ck == 'bool': return BV(x['v'])
            if ck == 'str': return lit(x['v'])
            if ck == 'int':
                return z3.RealVal(x['v']) if self.T.sort(t) == R else IV(int(x['v']))
            if ck == 'float':
                return z3.RealVal(x['v']) if self.T.sort(t) == R else IV(int(float(x['v'])))
            raise Unsupported('constant ' + ck)
        if k == 'g':
            n = x['n']
            ref = self.globals.get(n)
            if ref is None:
                ref = IV(-100000 - len(self.globals))
                self.globals[n] = ref
            return self.wrap(x['t'], ref)
        if k == 'f': return FuncV(x['n'])
        if k == 'b': return ('builtin', x['n'])
        raise Unsupported('operand')

    def run(self, fr, b, pred, st):
        """execute from block b (coming from pred); returns list of Out"""
        outs = []
        work = [(b, pred, st)]
        while work:
            b, pred, st = work.pop()
            self.npaths += 1
            if self.npaths > MAXPATHS * 10: raise Unsupported('too many paths')
            if fr.limit is not None and b not in fr.limit:
                outs.append(Out('exit', st, None, b, pred))
                continue
            if b in fr.loops and fr.unroll.get(b) == 'cut' and pred in fr.loops[b]:
                phis = self.phi_vals(fr, b, pred, st)
                st.env.update(phis)
                outs.append(Out('back', st, None, b))
                continue
            blk = fr.fn['blocks'][b]
            phis = self.phi_vals(fr, b, pred, st)
            if b in fr.loops:
                # entering a loop, or unrolling it
                if not self.concrete_header(fr, b, phis, st):
                    outs.extend(self.enter_loop(fr, b, phis, st))
                    continue
                n = st.ghost.get(('unroll', fr.name, b), 0) + 1
                st.ghost[('unroll', fr.name, b)] = n
                if n > MAXUNROLL: raise Unsupported('unrolling limit')
            st.env.update(phis)
            self.block(fr, b, st, work, outs)
        return outs

    def phi_vals(self, fr, b, pred, st):
        r = {}
        blk = fr.fn['blocks'][b]
        for ins in blk['i']:
            if ins['op'] != 'phi': break
            i = blk['p'].index(pred)
            r[ins['n']] = self.operand(st, ins['x'][i])
        return r

    def concrete_header(self, fr, b, phis, st):
        """does the header's branch condition evaluate to a constant?"""
        blk = fr.fn['blocks'][b]
        if blk['i'][-1]['op'] != 'if': return False
        s2 = st.fork()
        s2.env.update(phis)
        q = self.quiet
        self.quiet += 1
        try:
            for ins in blk['i'][:-1]:
                if ins['op'] == 'phi': continue
                if ins['op'] in ('binop', 'unop', 'call', 'convert', 'fieldaddr'):
                    if ins['op'] == 'call' and ins['call'].get('fn', {}).get('n') not in ('len', 'cap'): return False
                    r = self.instr(fr, ins, s2)
                    if isinstance(r, list): return False
                else: return False
            c = s2.env.get(blk['i'][-1]['a'].get('n')) if blk['i'][-1]['a']['k'] == 'r' else self.operand(s2, blk['i'][-1]['a'])
            c = simp(c)
            return z3.is_true(c) or z3.is_false(c)
        finally:
            self.quiet = q

    def block(self, fr, b, st, work, outs, start=None):
        blk = fr.fn['blocks'][b]
        ins_list = blk['i']
        i = start if start is not None else 0
        while i < len(ins_list):
            ins = ins_list[i]
            op = ins['op']
            i += 1
            if op == 'phi': continue
            if op == 'jump':
                work.append((blk['s'][0], b, st))
                return
            if op == 'if':
                c = simp(self.operand(st, ins['a']))
                t, f = blk['s']
                if z3.is_true(c): work.append((t, b, st)); return
                if z3.is_false(c): work.append((f, b, st)); return
                s2 = st.fork()
                s2.add(NOT(c))
                s2.trace = s2.trace + ((ins.get('pos') or fr.name, False),)
                if self.feasible(s2): work.append((f, b, s2))
                st.add(c)
                if self.feasible(st): work.append((t, b, st))
                return
            if op == 'return':
                vs = [self.operand(st, x) for x in ins['x']]
                outs.append(Out('ret', st, vs))
                return
            if op == 'panic':
                self.oblige(st, 'safety', 'explicit panic is unreachable', FALSE, ins['pos'])
                return
            r = self.instr(fr, ins, st)
            if isinstance(r, list):
                # several outcome states: continue each
                for (s2, v) in r:
                    if 'n' in ins: s2.env[ins['n']] = v
                if len(r) == 1:
                    st = r[0][0]
                    continue
                for (s2, v) in r:
                    self.block(fr, b, s2, work, outs, start=i)
                return
            if r is False: return      # path ended
        raise Unsupported('block without terminator')

    # one instruction; returns None (done), list of (state, value), or False
    def instr(self, fr, ins, st):
        T = self.T
        op = ins['op']
        n = ins.get('n')
        pos = ins['pos']
        E = st.env
        if op == 'alloc':
            E[n] = self.new(st, T.elem(ins['t']))
            return
        if op == 'fieldaddr':
            p = self.operand(st, ins['a'])
            if isinstance(p, Ptr):
                self.nilcheck(st, p, pos)
                E[n] = Ptr(p.ref, p.rt, p.path + (ins['f'],))
            elif isinstance(p, ElemPtr): E[n] = ElemPtr(p.base, p.idx, p.et, p.path + (ins['f'],))
            elif isinstance(p, VElemPtr): E[n] = VElemPtr(p.vs, p.idx, p.path + (ins['f'],))
            else: raise Unsupported('fieldaddr of %s' % type(p).__name__)
            if T.k(T.elem(ins['t'])) == 'array':
                raise Unsupported('array field address')
            return
        if op == 'field':
            E[n] = self.operand(st, ins['a']).get(ins['f'])
            return
        if op == 'indexaddr':
            a = self.operand(st, ins['a'])
            i = self.operand(st, ins['i'])
            if isinstance(a, ArrPtr):
                self.oblige(st, 'safety', 'index in range', z3.And(i >= 0, i < a.n), pos)
                E[n] = ElemPtr(a.base, i, a.et)
            elif isinstance(a, Slice):
                self.oblige(st, 'safety', 'index in range', z3.And(i >= 0, i < a.l), pos)
                st.add(i >= 0, i < a.l)
                E[n] = ElemPtr(a.b, simp(a.o + i), a.et)
            elif isinstance(a, VSlice):
                self.oblige(st, 'safety', 'index in range', z3.And(i >= 0, i < a.l), pos)
                st.add(i >= 0, i < a.l)
                E[n] = VElemPtr(a, i)
            else: raise Unsupported('indexaddr of %s' % type(a).__name__)
            return
        if op == 'index':
            a = self.operand(st, ins['a'])
            i = self.operand(st, ins['i'])
            if isinstance(a, StructV):
                i = simp(i)
                if not z3.is_int_value(i): raise Unsupported('symbolic array index')
                E[n] = a.get(i.as_long())
                return
            # string index
            E[n] = UF('str_at', I, I, I)(a, i)
            st.add(E[n] >= 0)
            return
        if op == 'unop': return self.unop(fr, ins, st)
        if op == 'store':
            a = self.operand(st, ins['a'])
            v = self.operand(st, ins['b'])
            self.nilcheck(st, a, pos)
            et = self.opty(ins['b'], st, fr)
            if isinstance(a, ArrPtr) and getattr(v, 'whole', None) is not None:
                key = ('E', T.s(a.et), ())
                h = dict(st.heap)
                h[key] = z3.Store(arr(h, key, esort(I)), a.base, v.whole)
                st.heap = h
                self.wlog(st, key, a.base)
                return
            if isinstance(a, ArrPtr):
                for j in range(a.n):
                    self.wr(st, ElemPtr(a.base, IV(j), a.et), a.et, v.get(j))
                return
            self.wr(st, a, et, v)
            return
        if op == 'binop':
            E[n] = self.binop(ins['o'], self.operand(st, ins['a']), self.operand(st, ins['b']), self.opty(ins['a'], st, fr), st, pos)
            return
        if op == 'changetype':
            v = self.operand(st, ins['a'])
            if isinstance(v, StructV): v = StructV(ins['t'], v.f)
            elif isinstance(v, Slice): v = Slice(v.b, v.o, v.l, v.c, T.elem(ins['t']))
            elif isinstance(v, Ptr) and not v.path and T.s(v.rt) != T.s(T.elem(ins['t'])):
                raise Unsupported('pointer conversion')
            E[n] = v
            return
        if op == 'convert':
            E[n] = self.convert(ins, st, fr)
            return
        if op == 'changeiface':
            E[n] = self.operand(st, ins['a'])
            return
        if op == 'makeiface':
            t = self.opty(ins['a'], st, fr)
            E[n] = self.mkiface(st, t, self.operand(st, ins['a']))
            return
        if op == 'closure':
            E[n] = FuncV(ins['fn']['n'], tuple(self.operand(st, x) for x in ins['x']))
            return
        if op == 'makemap':
            E[n] = self.newmap(st, ins['t'])
            return
        if op == 'makechan':
            E[n] = self.alloc(st, None)
            return
        if op == 'makeslice':
            E[n] = self.makeslice(st, ins['t'], self.operand(st, ins['len']), self.operand(st, ins['cap']), pos)
            return
        if op == 'slice':
            E[n] = self.doslice(ins, st, fr)
            return
        if op == 'lookup':
            m = self.operand(st, ins['a'])
            mt = self.opty(ins['a'], st, fr)
            k = self.operand(st, ins['i'])
            if T.k(mt) != 'map':
                E[n] = UF('str_at', I, I, I)(m, k)
                return
            v, d = self.maplookup(st, mt, m, k)
            E[n] = TupleV([v, d]) if ins['ok'] else v
            return
        if op == 'mapupdate':
            m = self.operand(st, ins['a'])
            mt = self.opty(ins['a'], st, fr)
            self.oblige(st, 'safety', 'assignment to entry in nil map', m != 0, pos)
            st.add(m != 0)
            self.mapset(st, mt, m, self.operand(st, ins['i']), self.operand(st, ins['b']))
            return
        if op == 'range':
            m = self.operand(st, ins['a'])
            mt = self.opty(ins['a'], st, fr)
            if T.k(mt) != 'map': raise Unsupported('range over string')
            it = MapIter(m, mt, '%s.%s' % (fr.name, n))
            st.iters[it.id] = z3.K(self.ksort(mt), FALSE)
            E[n] = it
            return
        if op == 'next': return self.next(ins, st)
        if op == 'assert': return self.typeassert(ins, st, fr)
        if op == 'extract':
            E[n] = self.operand(st, ins['a']).f[ins['i']]
            return
        if op == 'call': return self.docall(fr, ins, st)
        if op == 'go':
            # the goroutine has run to its end when the next statement is reached, or has not begun
            self.assumed['go statement at %s: the goroutine runs before the next statement or after the function (no interleaving within)' % ins['pos']] = 1
            ins = dict(ins, t=self.go_rt(ins['call']['sig']))
            s2 = st.fork()
            r = self.docall(fr, ins, s2)
            return [(st, None)] + [(s3, None) for s3, _ in r]
        if op == 'defer':
            c = ins['call']
            nm = c.get('fn', {}).get('n', c.get('invoke', ''))
            st.defers = st.defers + ((fr.name, nm),)
            self.assumed['deferred call %s is not executed in the model' % nm] = 1
            return
        if op == 'rundefers': return
        if op == 'send':
            raise Unsupported('channel send')
        raise Unsupported('instruction ' + op)

    def opty(self, x, st, fr):
        return x['t']

    def nilcheck(self, st, p, pos):
        if isinstance(p, Ptr):
            r = simp(p.ref)
            if z3.is_int_value(r) and r.as_long() != 0: return
            if p.path: return
            self.oblige(st, 'safety', 'nil dereference', p.ref != 0, pos)
            st.add(p.ref != 0)
        elif isinstance(p, ArrPtr):
            pass

    def load(self, st, p, t, pos=''):
        self.nilcheck(st, p, pos)
        if isinstance(p, ArrPtr):
            return StructV(t, [self.rd(st.heap, ElemPtr(p.base, IV(j), p.et), p.et) for j in range(p.n)])
        if isinstance(p, VElemPtr) and p.vs.origin is not None:
            cur = self.rd(st.heap, p.vs.origin[0], p.vs.origin[1])
            if not cur.a.eq(p.vs.a):
                self.oblige(st, 'own', 'a sequence read after an update of its owner sees the same element',
                            z3.Select(cur.a, p.idx) == z3.Select(p.vs.a, p.idx), pos)
        v = self.rd(st.heap, p, t)
        self.closed(st, p, t)
        if isinstance(v, VSlice): v.origin = (p, t)
        if not isinstance(v, StructV): self.typefacts(t, v, st)
        return v

    def refleaves(self, t):
        T = self.T
        r = self._rl.get(t)
        if r is not None: return r
        k = T.k(t)
        r = []
        if k in ('ptr', 'map', 'chan'): r = [()]
        elif k == 'slice' and not T.is_vslice(t): r = [('b',)]
        elif k == 'struct':
            for i, f in enumerate(T.fields(t)):
                r += [(i,) + p for p in self.refleaves(f['t'])]
        self._rl[t] = r
        return r

    def closed(self, st, p, t):
        """references stored in memory that existed at function entry (or at a loop header) point to memory that existed then"""
        ls = self.refleaves(t)
        if len(ls) > 12: return
        for q in ls:
            if isinstance(p, Ptr): key, so, ref = ('F', self.T.s(p.rt), p.path + q), fsort(I), p.ref
            elif isinstance(p, ElemPtr): key, so, ref = ('E', self.T.s(p.et), p.path + q), esort(I), p.base
            else: return
            self.bound(st, arr(st.heap, key, so), ref, None if isinstance(p, Ptr) else p.idx)

    def bound(self, st, A, ref, idx):
        while z3.is_store(A):
            x = self.bounds.get(A.arg(2).get_id())
            if x is not None and idx is not None:
                st.add(z3.Select(A.arg(2), idx) < x[1])
            A = A.arg(0)
        if not z3.is_const(A): return
        b = self.bounds.get(A.get_id())
        b = self.na0 if b is None else b[1]
        if b is None: return
        v = z3.Select(A, ref)
        if idx is not None: v = z3.Select(v, idx)
        st.add(z3.Implies(ref < b, v < b))

    def unop(self, fr, ins, st):
        o = ins['o']
        a = self.operand(st, ins['a'])
        if o == '*':
            v = self.load(st, a, ins['t'], ins['pos'])
            if isinstance(v, StructV): v = self.lazy_facts(ins['t'], v, st)
            st.env[ins['n']] = v
            return
        if o == '!': st.env[ins['n']] = NOT(a); return
        if o == '-': st.env[ins['n']] = simp(-a); return
        if o == '<-': raise Unsupported('channel receive')
        raise Unsupported('unop ' + o)

    def lazy_facts(self, t, v, st):
        # facts for pointer/slice leaves are added when the field is used
        fs = self.T.fields(t) if self.T.k(t) == 'struct' else None
        if fs is None or len(fs) > 12: 
            eng = self
            def mk(i, f0, ft):
                def g():
                    x = f0() if callable(f0) and not isinstance(f0, FuncV) else f0
                    return x
                return g
            return v
        for i, f in enumerate(fs):
            self.typefacts(f['t'], v.get(i), st, deep=True)
        return v

    def binop(self, o, a, b, t, st, pos):
        T = self.T
        k = T.k(t)
        if o in ('==', '!='):
            r = self.eq(t, a, b, st)
            return simp(r if o == '==' else NOT(r))
        if k == 'basic' and T.basic(t) in ('string', 'untyped string'):
            if o == '+': return self.strcat(a, b)
            lt = UF('str_lt', I, I, B)
            if o == '<': return lt(a, b)
            if o == '>': return lt(b, a)
            if o == '<=': return NOT(lt(b, a))
            if o == '>=': return NOT(lt(a, b))
        if o == '+': return simp(a + b)
        if o == '-': return simp(a - b)
        if o == '*': return simp(a * b)
        if o == '/':
            if a.sort() == R: return simp(a / b)
            self.oblige(st, 'safety', 'division by zero', b != 0, pos)
            # Go truncates towards zero
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
            return simp(q)
        if o == '%':
            self.oblige(st, 'safety', 'division by zero', b != 0, pos)
            return simp(z3.If(a >= 0, a % z3.If(b > 0, b, -b), -((-a) % z3.If(b > 0, b, -b))))
        if o == '<': return simp(a < b)
        if o == '<=': return simp(a <= b)
        if o == '>': return simp(a > b)
        if o == '>=': return simp(a >= b)
        if o in ('&', '|', '^', '<<', '>>', '&^'):
            if a.sort() == I: return UF('bit' + o, I, I, I)(a, b)
        raise Unsupported('binop ' + o)

    def strcat(self, a, b):
        a, b = simp(a), simp(b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = LITS.r.get(a.as_long()), LITS.r.get(b.as_long())
            if x is not None and y is not None: return lit(x + y)
        if z3.is_int_value(a) and a.as_long() == 0: return b
        if z3.is_int_value(b) and b.as_long() == 0: return a
        r = UF('strcat', I, I, I)(a, b)
        self.strcatfacts(r, a, b)
        return r

    def strcatfacts(self, r, a, b):
        """a string is split at its first colon"""
        pre, post = UF('str_before_colon', I, I), UF('str_after_colon', I, I)
        x = LITS.r.get(a.as_long()) if z3.is_int_value(a) else None
        fs = []
        if x is not None and ':' in x:
            fs = [pre(r) == lit(x.split(':')[0])]
            if x.index(':') == len(x) - 1: fs.append(post(r) == b)
        elif z3.is_app(a) and a.decl().name() == 'strcat' and a.arg(1).eq(lit(':')):
            l = a.arg(0)
            ll = LITS.r.get(l.as_long()) if z3.is_int_value(l) else None
            if ll is not None and ':' not in ll or z3.is_app(l) and l.decl().name() == 'b64': fs = [pre(r) == l, post(r) == b]
        done = self.__dict__.setdefault('catdone', set())
        if fs and r.get_id() not in done:
            done.add(r.get_id())
            self.catkeep = getattr(self, 'catkeep', []) + [r]
            for f, n in zip(fs, ('str_before_colon', 'str_after_colon')): self.axioms.append((frozenset(['strcat', n]), f))

    def eq(self, t, a, b, st):
        k = self.T.k(t)
        if isinstance(a, Slice): # comparison with nil
            z = b if isinstance(b, Slice) and z3.is_int_value(b.b) and b.b.as_long() == 0 else a
            o = a if z is b else b
            return o.b == 0
        if isinstance(a, VSlice):
            nb = simp(b.n)
            return a.n if z3.is_true(nb) else b.n
        if isinstance(a, StructV):
            return AND([self.eqleaf(x, y) for (_, x), (_, y) in zip(self.flat(t, a), self.flat(t, b))])
        if isinstance(a, FuncV) or isinstance(b, FuncV):
            ca, cb = self.fcode(a), self.fcode(b)
            return ca == cb
        return self.eqleaf(self.scalar(t, a), self.scalar(t, b))

    def eqleaf(self, x, y):
        if x.eq(y): return TRUE
        if x.sort() == R and y.sort() == I: y = z3.ToReal(y)
        if x.sort() == I and y.sort() == R: x = z3.ToReal(x)
        return x == y

    def convert(self, ins, st, fr):
        T = self.T
        v = self.operand(st, ins['a'])
        ft, tt = self.opty(ins['a'], st, fr), ins['t']
        fk, tk = T.k(ft), T.k(tt)
        if fk == 'basic' and tk == 'basic':
            fb, tb = T.basic(ft), T.basic(tt)
            isf = lambda x: 'float' in x
            if isf(tb) and not isf(fb): return z3.ToReal(v) if v.sort() == I else v
            if isf(fb) and not isf(tb):
                return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
            if tb == 'string' and fb != 'string': return UF('str_of_rune', I, I)(v)
            return v
        if fk == 'basic' and tk == 'slice':     # []byte(string)
            return self.bytes_of(st, tt, v)
        if fk == 'slice' and tk == 'basic':     # string([]byte)
            return self.string_of(st, v)
        return v

    def bytes_of(self, st, t, s):
        ref = self.alloc(st, None)
        et = self.T.elem(t)
        n = self.strlen(st, s)
        c = UF('bytes_of', I, z3.ArraySort(I, I))(s)
        key = ('E', self.T.s(et), ())
        h = dict(st.heap)
        h[key] = z3.Store(arr(h, key, esort(I)), ref, c)
        st.heap = h
        self.wlog(st, key, ref)
        st.add(UF('str_of_bytes', z3.ArraySort(I, I), I, I, I)(c, IV(0), n) == s)
        return Slice(ref, IV(0), n, n, et)

    def string_of(self, st, v):
        c = self.content(st.heap, v.et, v.b, (), I)
        r = UF('str_of_bytes', z3.ArraySort(I, I), I, I, I)(c, v.o, v.l)
        st.add(UF('bytes_of', I, z3.ArraySort(I, I))(r) == UF('subseq', z3.ArraySort(I, I), I, I, z3.ArraySort(I, I))(c, v.o, v.l)) if False else None
        return simp(r)

    def strlen(self, st, s):
        s = simp(s)
        if z3.is_int_value(s) and s.as_long() in LITS.r: return IV(len(LITS.r[s.as_long()].encode()))
        l = UF('strlen', I, I)(s)
        st.add(l >= 0, (l == 0) == (s == 0))
        return l

    def makeslice(self, st, t, l, c, pos=''):
        T = self.T
        et = T.elem(t)
        self.oblige(st, 'safety', 'make: length not negative', l >= 0, pos)
        if T.is_vslice(t):
            z, facts = self.vpack(et, self.zero(et))
            st.add(facts)
            return VSlice(FALSE, l, z3.K(I, z), et)
        base = self.alloc(st, None)
        self.fill(st, base, et, None)
        return Slice(base, IV(0), l, c, et)

    def doslice(self, ins, st, fr):
        a = self.operand(st, ins['a'])
        lo = self.operand(st, ins['lo'])
        hi = self.operand(st, ins['hi'])
        pos = ins['pos']
        if lo is None: lo = IV(0)
        if isinstance(a, ArrPtr):
            if hi is None: hi = IV(a.n)
            self.oblige(st, 'safety', 'slice bounds', z3.And(0 <= lo, lo <= hi, hi <= a.n), pos)
            return Slice(a.base, simp(lo), simp(hi - lo), simp(a.n - lo), a.et)
        if isinstance(a, Slice):
            if hi is None: hi = a.l
            self.oblige(st, 'safety', 'slice bounds', z3.And(0 <= lo, lo <= hi, hi <= a.c), pos)
            st.add(lo >= 0, lo <= hi, hi <= a.c)
            c = a.c if ins['max'] is None else self.operand(st, ins['max'])
            return Slice(a.b, simp(a.o + lo), simp(hi - lo), simp(c - lo), a.et)
        if isinstance(a, VSlice):
            if hi is None: hi = a.l
            lo = simp(lo)
            if not (z3.is_int_value(lo) and lo.as_long() == 0): raise Unsupported('owned sequence sub-slice')
            self.oblige(st, 'safety', 'slice bounds', z3.And(hi >= 0, hi <= a.l), pos)
            return VSlice(a.n, hi, a.a, a.et, None)
        # string
        if hi is None: hi = self.strlen(st, a)
        self.oblige(st, 'safety', 'slice bounds', z3.And(0 <= lo, lo <= hi, hi <= self.strlen(st, a)), pos)
        return UF('substr', I, I, I, I)(a, lo, hi)

    # -------------------------------------------------------------------- maps
    def ksort(self, mt):
        kt = self.T.t[self.T.u(mt)]['key']
        return self.T.sort(kt)

    def mkey(self, mt): 
        d = self.T.t[self.T.u(mt)]
        return self.T.s(d['key']) + '=>' + self.T.s(d['e'])

    def mapdom(self, heap, mt, ref):
        return simp(z3.Select(arr(heap, ('MD', self.mkey(mt)), z3.ArraySort(I, z3.ArraySort(self.ksort(mt), B))), ref))

    def mapval(self, heap, mt, ref, k):
        d = self.T.t[self.T.u(mt)]
        ks = self.ksort(mt)
        return self.build(d['e'], lambda p, s: simp(z3.Select(z3.Select(
            arr(heap, ('MV', self.mkey(mt), p), z3.ArraySort(I, z3.ArraySort(ks, s))), ref), k)))

    def keyterm(self, k):
        if z3.is_expr(k): return k
        if isinstance(k, Iface): return k.code
        if isinstance(k, Ptr) and not k.path: return k.ref
        raise Unsupported('map key')

    def maplookup(self, st, mt, m, k):
        k = self.keyterm(k)
        et = self.T.elem(mt)
        dom = simp(z3.And(m != 0, z3.Select(self.mapdom(st.heap, mt, m), k)))
        v = self.mapval(st.heap, mt, m, k)
        for q in self.refleaves(et)[:12]:
            self.bound(st, arr(st.heap, ('MV', self.mkey(mt), q), z3.ArraySort(I, z3.ArraySort(self.ksort(mt), I))), m, k)
        z = self.zero(et)
        if z3.is_true(dom): 
            self.typefacts(et, v, st, deep=True)
            return v, dom
        if z3.is_false(dom): return z, dom
        if isinstance(v, StructV) or isinstance(v, (Slice, VSlice)):
            lv, lz = dict(self.flat(et, v)), dict(self.flat(et, z))
            r = self.build(et, lambda p, s: simp(z3.If(dom, lv[p], lz[p])))
        else:
            x, y = self.scalar(et, v), self.scalar(et, z)
            r = self.wrap(et, simp(z3.If(dom, x, y)))
        self.typefacts(et, r, st, deep=True)
        return r, dom

    def mapset(self, st, mt, m, k, v):
        k = self.keyterm(k)
        h = dict(st.heap)
        ks = self.ksort(mt)
        key = ('MD', self.mkey(mt))
        A = arr(h, key, z3.ArraySort(I, z3.ArraySort(ks, B)))
        h[key] = z3.Store(A, m, z3.Store(simp(z3.Select(A, m)), k, TRUE))
        self.wlog(st, key, m)
        for p, x in self.flat(self.T.elem(mt), v):
            key = ('MV', self.mkey(mt), p)
            A = arr(h, key, z3.ArraySort(I, z3.ArraySort(ks, x.sort())))
            h[key] = z3.Store(A, m, z3.Store(simp(z3.Select(A, m)), k, x))
            self.wlog(st, key, m)
        st.heap = h

    def mapdel(self, st, mt, m, k):
        k = self.keyterm(k)
        h = dict(st.heap)
        key = ('MD', self.mkey(mt))
        A = arr(h, key, z3.ArraySort(I, z3.ArraySort(self.ksort(mt), B)))
        h[key] = z3.Store(A, m, z3.Store(simp(z3.Select(A, m)), k, FALSE))
        self.wlog(st, key, m)
        st.heap = h

    def newmap(self, st, mt):
        ref = self.alloc(st, None)
        h = dict(st.heap)
        key = ('MD', self.mkey(mt))
        ks = self.ksort(mt)
        A = arr(h, key, z3.ArraySort(I, z3.ArraySort(ks, B)))
        h[key] = z3.Store(A, ref, z3.K(ks, FALSE))
        self.wlog(st, key, ref)
        st.heap = h
        return ref

    def maplen(self, st, mt, m):
        ks = self.ksort(mt)
        d = self.mapdom(st.heap, mt, m)
        d = simp(d)
        if z3.is_const_array(d) and z3.is_false(d.arg(0)): return IV(0)
        l = UF('card_' + str(ks), z3.ArraySort(ks, B), I)(d)
        k = fresh('k', ks)
        w = UF('member_' + str(ks), z3.ArraySort(ks, B), ks)(d)
        st.add(l >= 0, z3.Implies(l == 0, z3.ForAll([k], z3.Not(z3.Select(d, k)))), z3.Implies(l > 0, z3.Select(d, w)))
        return simp(z3.If(m == 0, IV(0), l))

    def next(self, ins, st):
        it = self.operand(st, ins['a'])
        if not isinstance(it, MapIter): raise Unsupported('string iteration')
        mt = it.mt
        ks = self.ksort(mt)
        vis = st.iters[it.id]
        dom = self.mapdom(st.heap, mt, it.ref)
        k = fresh('key', ks)
        # two outcomes
        s2 = st.fork()
        q = fresh('k', ks)
        s2.add(z3.ForAll([q], z3.Implies(z3.And(it.ref != 0, z3.Select(dom, q)), z3.Select(vis, q))))
        kt = self.T.t[self.T.u(mt)]['key']
        s2.env[ins['n']] = TupleV([FALSE, self.zero(kt), self.zero(self.T.elem(mt))])
        st.add(it.ref != 0, z3.Select(dom, k), z3.Not(z3.Select(vis, k)))
        v = self.mapval(st.heap, mt, it.ref, k)
        for q in self.refleaves(self.T.elem(mt))[:12]:
            self.bound(st, arr(st.heap, ('MV', self.mkey(mt), q), z3.ArraySort(I, z3.ArraySort(ks, I))), it.ref, k)
        self.typefacts(self.T.elem(mt), v, st, deep=True)
        st.iters[it.id] = z3.Store(vis, k, TRUE)
        kv = self.wrap(kt, k)
        st.env[ins['n']] = TupleV([TRUE, kv, v])
        return [(st, st.env[ins['n']]), (s2, s2.env[ins['n']])]

    # ------------------------------------------------------------- type assert
    def typeassert(self, ins, st, fr):
        T = self.T
        i = self.operand(st, ins['a'])
        at = ins['at']
        if T.k(at) == 'iface':
            if i.dt is not None:
                ms = T.t[T.u(at)]['ms']
                have = T.t[i.dt].get('methods')
                if have is not None or not ms: ok = BV(all(m in (have or {}) for m in ms))
                else: ok = UF('implements_' + T.s(at), I, B)(tagof(i.code))
            else: ok = AND(i.code != 0, UF('implements_' + T.s(at), I, B)(tagof(i.code)) if T.t[T.u(at)]['ms'] else TRUE)
            v = i
            zv = Iface(IV(0))
        else:
            ok = self.hastype(st, i, at)
            v = None
            zv = self.zero(at)
        ok = simp(ok)
        if not ins['ok']:
            self.oblige(st, 'safety', 'type assertion', ok, ins['pos'])
            st.add(ok)
            st.env[ins['n']] = v if v is not None else self.unbox(st, at, i)
            return
        if z3.is_true(ok):
            st.env[ins['n']] = TupleV([v if v is not None else self.unbox(st, at, i), TRUE])
            return
        if z3.is_false(ok):
            st.env[ins['n']] = TupleV([zv, FALSE])
            return
        s2 = st.fork()
        s2.add(NOT(ok))
        s2.env[ins['n']] = TupleV([zv, FALSE])
        st.add(ok)
        if v is None:
            v = self.unbox(st, at, i)
            # canonical boxing: the code of a value with this dynamic type is the box of its payload
            ls = self.flat(at, v)
            box = UF('box_' + T.s(at), *([x.sort() for _, x in ls] + [I]))
            if ls: st.add(i.code == box(*[x for _, x in ls]))
        st.env[ins['n']] = TupleV([v, TRUE])
        r = []
        for s in (st, s2):
            if self.feasible(s): r.append((s, s.env[ins['n']]))
        return r

    # ------------------------------------------------------------------- calls
    def docall(self, fr, ins, st):
        c = ins['call']
        args = [self.operand(st, a) for a in c['args']]
        atys = [self.opty(a, st, fr) if a.get('k') != 'b' else None for a in c['args']]
        pos = ins['pos']
        rt = ins['t']
        if 'invoke' in c:
            recv = self.operand(st, c['recv'])
            it = self.opty(c['recv'], st, fr)
            return self.invoke(fr, st, recv, it, c['invoke'], args, atys, rt, pos)
        f = self.operand(st, c['fn'])
        if isinstance(f, tuple) and f[0] == 'builtin':
            st.env[ins['n']] = self.builtin(f[1], args, atys, rt, st, pos)
            return
        return self.callv(fr, st, f, args, atys, rt, pos)

    def go_rt(self, sig):
        r = self.T.t[sig]['r']
        if len(r) == 1: return r[0]
        for i, t in enumerate(self.T.t):
            if t['k'] == 'tuple' and t['r'] == r: return i
        self.T.t.append({'s': 'tuple%d' % len(self.T.t), 'k': 'tuple', 'r': r})
        return len(self.T.t) - 1

    def callv(self, fr, st, f, args, atys, rt, pos):
        if f.name is None:
            code = simp(f.code)
            if z3.is_int_value(code) and code.as_long() in self.funcreg:
                f = self.funcreg[code.as_long()]
            else:
                self.oblige(st, 'safety', 'call of a nil function', f.code != 0, pos)
                return [(st, self.ufcall('fn', f.code, args, atys, rt, st))]
        return self.call(fr, st, f.name, list(f.binds), args, atys, rt, pos)

    def ufcall(self, name, code, args, atys, rt, st):
        """deterministic, side-effect-free unknown function"""
        self.assumed['calls of unknown function values (callbacks) are deterministic and free of side effects'] = 1
        xs = [code] if code is not None else []
        names = [self.T.s(t) for t in atys]
        policy = name.startswith('m_oidfed.PolicyOperator_') or 'oidfed.MetadataPolicyEntry' in names
        for a, t, n in zip(args, atys, names):
            if policy and n == 'string':
                self.assumed['the path given to policy operators and verifiers only serves their error messages'] = 1
                continue
            xs += self.argterms(t, a, st)
        sig = self.T.s(rt)
        v = self.build(rt, lambda p, s: UF('apply_%s_%s_%s' % (name, sig, '.'.join(map(str, p))), *([x.sort() for x in xs] + [s]))(*xs))
        self.typefacts(rt, v, st)
        return v

    def argterms(self, t, a, st):
        """terms identifying an argument by value: for slices the content array, offset and length"""
        if isinstance(a, Slice):
            r = [a.o, a.l, a.b]
            for p, s in self.T.leaves(a.et):
                r.append(self.content(st.heap, a.et, a.b, p, s))
            return r
        if t is not None and self.T.k(t) == 'map': return self.mapterms(t, a, st.heap)
        return [x for _, x in self.flat(t, a)]

    def mapterms(self, t, a, heap, deep=True):
        """terms identifying a map by its content"""
        ref = getattr(a, 'ref', a)
        ks, et, key = self.ksort(t), self.T.elem(t), self.mkey(t)
        r = [ref == 0, self.mapdom(heap, t, ref)]
        for p, s in self.T.leaves(et):
            r.append(simp(z3.Select(arr(heap, ('MV', key, p), z3.ArraySort(I, z3.ArraySort(ks, s))), ref)))
        if self.T.k(et) == 'map':           # whose values are maps
            k2, e2 = self.ksort(et), self.T.elem(et)
            r.append(arr(heap, ('MD', self.mkey(et)), z3.ArraySort(I, z3.ArraySort(k2, B))))
            r += [arr(heap, ('MV', self.mkey(et), p), z3.ArraySort(I, z3.ArraySort(k2, s))) for p, s in self.T.leaves(e2)]
        return r

    def invoke(self, fr, st, recv, it, meth, args, atys, rt, pos):
        m = self.invoke_models.get((self.T.s(it), meth)) or self.invoke_models.get(('*', meth))
        if recv.dt is not None and self.T.t[recv.dt].get('methods', {}).get(meth):
            fname = self.T.t[recv.dt]['methods'][meth]
            return self.call(fr, st, fname, [], [recv.val] + args, [recv.dt] + atys, rt, pos)
        self.oblige(st, 'safety', 'method call on a nil interface', recv.code != 0, pos)
        st.add(recv.code != 0)
        if m:
            return m(self, st, recv, args, atys, rt, pos)
        self.assumed['interface method %s.%s is deterministic and free of side effects' % (self.T.s(it), meth)] = 1
        return [(st, self.ufcall('m_%s_%s' % (self.T.s(it), meth), recv.code, args, atys, rt, st))]

    def call(self, fr, st, name, binds, args, atys, rt, pos):
        fn = self.F.get(name)
        base = name.split('[')[0]
        m = self.models.get(name) or self.models.get(base)
        if m:
            r = m(self, st, args, atys, rt, pos)
            return r if isinstance(r, list) else [(st, r)]
        c = self.contracts.get(name) or self.contracts.get(base)
        if c is not None and not c.inline:
            return self.apply_contract(c, st, args, atys, rt, pos)
        if fn is not None and fn.get('own') and fn.get('blocks'):
            if name in fr.stack: raise Unsupported('recursion without contract: ' + name)
            if fr.depth > 12: raise Unsupported('inlining depth')
            return self.inline(fr, st, fn, binds, args)
        raise Unsupported('call of %s (no model, no contract, no body)' % name)

    def inline(self, fr, st, fn, binds, args):
        f2 = Frame(fn, fr.depth + 1 if fr else 0, (fr.stack if fr else ()) + (fn['name'],))
        env = {}
        for p, a in zip(fn['params'], args): env[p['n']] = a
        for p, a in zip(fn['freevars'], binds): env[p['n']] = a
        saved, st.env = st.env, env
        outs = self.run(f2, 0, None, st)
        r = []
        for o in outs:
            assert o.k == 'ret', o.k
            o.st.env = dict(saved)
            v = o.v
            r.append((o.st, v[0] if len(v) == 1 else TupleV(v)))
        return r

    def apply_contract(self, c, st, args, atys, rt, pos):
        from spec import Spec, norm_ens
        pre = st.fork()
        c.used += 1
        self.usedc.add(c.fn)
        fn = self.F[c.fn] if c.fn in self.F else None
        # interior pointers are passed by copy-in/copy-out
        cps = []
        nargs = []
        for a, t in zip(args, atys):
            if isinstance(a, Ptr) and a.path or isinstance(a, ElemPtr) or isinstance(a, VElemPtr):
                et = self.T.elem(t)
                tmp = self.new(st, et, self.load(st, a, et))
                cps.append((a, tmp, et))
                nargs.append(tmp)
            else: nargs.append(a)
        args = nargs
        pre = st.fork()
        S = Spec(self, c, args, atys, pre, pre, None, rt)
        for nm, f in c.requires(S):
            self.oblige(st, 'requires', '%s requires %s' % (c.short, nm), f, pos)
            st.add(f)
        if self.cur is c:
            for nm, f in c.descent(self.S0, S): self.oblige(st, 'descent', nm, f, pos)
        dv = c.defn(S)
        if dv is not None: res = dv
        elif c.pure:
            xs = []
            for i, (a, t) in enumerate(zip(args, atys)):
                if c.pure_args is not None and i not in c.pure_args: continue
                xs += self.argterms(t, a, st)
            if c.pure_extra: xs += c.pure_extra(S)
            res = self.build(rt, lambda p, s: UF('res_%s_%s' % (c.short, '.'.join(map(str, p))), *([x.sort() for x in xs] + [s]))(*xs)) if rt is not None else None
        else:
            res = self.build(rt, lambda p, s, d={}: d.setdefault(p, fresh('r_%s%s' % (c.short, ''.join('.' + str(x) for x in p)), s)))
        if not c.pure or c.allocs:
            na = fresh('na')
            st.add(na >= st.na)
            st.na = na
        for key, ref in c.modifies(S):
            self.havoc_at(st, key, ref)
        if not c.pure:
            import models
            models.lose_traces(self, st, c.nocache)
        if res is not None: self.typefacts(rt, res, st, deep=True)
        S2 = Spec(self, c, args, atys, pre, st, res, rt)
        for nm, props, f in norm_ens(c.ensures(S2)):
            st.add(f)
        for nm, f in c.assumes(S2):
            st.add(f)
            self.assumed['assumed on calls of %s: %s' % (c.short, nm)] = 1
        if c.trusted: self.assumed['assumed contract: %s (%s)' % (c.fn, c.trusted)] = 1
        for a, tmp, et in cps:
            if any(True for key, ref in c.modifies(S) if ref is not None and ref.eq(tmp.ref)):
                self.wr(st, a, et, self.rd(st.heap, tmp, et))
        return [(st, res)]

    def havoc_at(self, st, key, ref):
        h = dict(st.heap)
        srt = self.keysort(key)
        A = arr(h, key, srt)
        if ref is None: h[key] = fresh('hv' + key[0], srt)
        else: h[key] = z3.Store(A, ref, fresh('hv_' + key[0], srt.range()))
        st.heap = h
        self.wlog(st, key, ref if ref is not None else IV(-1))

    def keysort(self, key):
        a = _initget(key)
        if a is not None: return a.sort()
        if key in EXTRA_KEYS: return EXTRA_KEYS[key]
        T = self.T
        if key[0] in ('F', 'E'):
            t = T.id(key[1])
            for p, s in T.leaves(t):
                if p == key[2]: return fsort(s) if key[0] == 'F' else esort(s)
        raise Unsupported('sort of partition %s' % (key,))

    # ---------------------------------------------------------------- builtins
    def builtin(self, name, args, atys, rt, st, pos):
        T = self.T
        if name in ('len', 'cap'):
            a = args[0]
            if isinstance(a, (Slice, VSlice)): return a.l if name == 'len' else a.c
            if isinstance(a, ArrPtr): return IV(a.n)
            if T.k(atys[0]) == 'map': return self.maplen(st, atys[0], a)
            if T.k(atys[0]) == 'chan': return fresh('chanlen')
            return self.strlen(st, a)
        if name == 'append':
            return self.append(st, args[0], args[1], atys[1] if len(atys) > 1 else None, pos)
        if name == 'delete':
            self.mapdel(st, atys[0], args[0], args[1])
            return None
        if name == 'copy':
            raise Unsupported('copy')
        if name in ('print', 'println'): return None
        if name in ('min', 'max'):
            r = args[0]
            for a in args[1:]: r = z3.If(a < r, a, r) if name == 'min' else z3.If(a > r, a, r)
            return simp(r)
        if name == 'close':
            return None
        if name == 'ssa:wrapnilchk':
            self.nilcheck(st, args[0], pos)
            return args[0]
        raise Unsupported('builtin ' + name)

    def append(self, st, s, x, xt, pos):
        T = self.T
        if not isinstance(x, (Slice, VSlice)):
            if z3.is_expr(x):   # append([]byte, string...)
                x = self.bytes_of(st, self.T.id('[]byte') if '[]byte' in self.T.by else self.T.id('[]uint8'), x)
            else: raise Unsupported('append operand')
        if isinstance(s, VSlice):
            n = simp(x.l)
            if not z3.is_int_value(n): raise Unsupported('append to owned sequence')
            a = s.a
            for j in range(n.as_long()):
                if isinstance(x, VSlice): e = z3.Select(x.a, IV(j))
                else:
                    e, facts = self.vpack(s.et, self.rd(st.heap, ElemPtr(x.b, simp(x.o + j), x.et), s.et))
                    st.add(facts)
                a = z3.Store(a, simp(s.l + j), e)
            return VSlice(FALSE if n.as_long() else s.n, simp(s.l + n), a, s.et)
        if isinstance(x, VSlice): raise Unsupported('append of owned sequence')
        n = simp(x.l)
        base = self.alloc(st, None)
        et = s.et
        h = dict(st.heap)
        facts = []
        conc = z3.is_int_value(n) and n.as_long() <= 16
        if conc and n.as_long() == 0:
            return s
        if self.check_append:
            self.oblige(st, 'alias', 'append does not write into a shared backing array',
                        OR(s.b == 0, s.b >= self.na0, s.l == s.c, x.l == 0), pos)
        for p, so in T.leaves(et):
            key = ('E', T.s(et), p)
            A = arr(h, key, esort(so))
            cs = simp(z3.Select(A, s.b))
            cx = simp(z3.Select(arr(h, ('E', T.s(x.et), p), esort(so)), x.b))
            if conc:
                c = cs
                for j in range(n.as_long()):
                    c = z3.Store(c, simp(s.o + s.l + j), simp(z3.Select(cx, simp(x.o + j))))
            else:
                c = fresh('app', z3.ArraySort(I, so))
                j = fresh('j')
                old = z3.And(s.o <= j, j < simp(s.o + s.l))
                st.add(z3.ForAll([j], z3.Implies(old, z3.Select(c, j) == z3.Select(cs, j)), patterns=[z3.Select(c, j)]))
                if not z3.is_store(cs) and not z3.is_const_array(cs):
                    j2 = fresh('j')
                    st.add(z3.ForAll([j2], z3.substitute(z3.Implies(old, z3.Select(c, j) == z3.Select(cs, j)), (j, j2)), patterns=[z3.Select(cs, j2)]))
                # positions of the appended elements: up = position in the result, dn = position in x
                d = simp(s.o + s.l - x.o)
                if z3.is_int_value(d) and d.as_long() == 0: up = dn = lambda j: j
                else:
                    up, dn = self.shift(st, d)
                j = fresh('j')
                st.add(z3.ForAll([j], z3.Implies(z3.And(simp(s.o + s.l) <= j, j < simp(s.o + s.l + x.l)), z3.Select(c, j) == z3.Select(cx, dn(j))), patterns=[z3.Select(c, j)]))
                if not z3.is_store(cx) and not z3.is_const_array(cx):
                    j = fresh('j')
                    st.add(z3.ForAll([j], z3.Implies(z3.And(x.o <= j, j < simp(x.o + x.l)), z3.Select(c, up(j)) == z3.Select(cx, j)), patterns=[z3.Select(cx, j)]))
            h[key] = z3.Store(A, base, c)
            self.wlog(st, key, base)
        st.heap = h
        nl = simp(s.l + x.l)
        cap = fresh('cap')
        st.add(cap >= nl)
        if conc: return Slice(base, s.o, nl, cap, et)
        # appending nothing to nil stays nil
        if fresh_ref(s.b): return Slice(base, s.o, nl, cap, et)
        b2 = simp(z3.If(z3.And(s.b == 0, x.l == 0), IV(0), base))
        r = Slice(b2, s.o, nl, simp(z3.If(b2 == 0, IV(0), cap)), et)
        return r

    def shift(self, st, d):
        """functions j + d and j - d, named so that instantiating one fact with them ends (each undoes the other)"""
        n = fresh('sh').decl().name()
        f, g = z3.Function(n + '.up', I, I), z3.Function(n + '.dn', I, I)
        j = fresh('j')
        st.add(z3.ForAll([j], z3.And(f(j) == j + d, g(f(j)) == j), patterns=[f(j)]))
        st.add(z3.ForAll([j], z3.And(g(j) == j - d, f(g(j)) == j), patterns=[g(j)]))
        return f, g

    check_append = False
    probing = 0

    # ------------------------------------------------------------------- loops
    def enter_loop(self, fr, b, phis, st):
        import loops
        return loops.enter(self, fr, b, phis, st)


EXTRA_KEYS = {}


def _initget(key):
    from core import _init
    return _init.get(key)
