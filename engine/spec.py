"""Contract language: views of the heap, contracts, and verification of one function against its contract."""
import traceback
from core import *
import core, z3util
import execu

GARR = {}          # ghost partitions


class H:
    """read-only view of a heap for specifications"""

    def __init__(s, eng, heap): s.eng, s.T, s.heap = eng, eng.T, heap

    def _rd(s, p, t):
        if isinstance(p, (Ptr, ElemPtr)) and s.eng.na0 is not None:
            s.eng.specfacts.heap = s.heap
            s.eng.closed(s.eng.specfacts, p, t)
        return s.eng.rd(s.heap, p, t)

    def typeof(s, p):
        T = s.T
        if isinstance(p, StructV): return p.t
        if isinstance(p, Ptr): t, path = p.rt, p.path
        elif isinstance(p, ElemPtr): t, path = p.et, p.path
        elif isinstance(p, VElemPtr): t, path = p.vs.et, p.path
        else: raise Unsupported('typeof %s' % type(p).__name__)
        for i in path:
            t = T.fields(t)[i]['t'] if T.k(t) == 'struct' else T.elem(t)
        return t

    def _find(s, t, name, depth=0):
        """path of (possibly promoted) field name in struct type t: [(idx, type)]"""
        T = s.T
        if T.k(t) == 'ptr': t = T.elem(t)
        if T.k(t) != 'struct': return None
        fs = T.fields(t)
        for i, f in enumerate(fs):
            if f['n'] == name: return [(i, f['t'])]
        for i, f in enumerate(fs):
            if f['emb']:
                r = s._find(f['t'], name, depth + 1)
                if r: return [(i, f['t'])] + r
        return None

    def addr(s, p, name):
        """address (Ptr/ElemPtr) of a field, following embedded pointers"""
        path = s._find(s.typeof(p), name)
        if path is None: raise Unsupported('field %s of %s' % (name, s.T.s(s.typeof(p))))
        for n, (i, t) in enumerate(path):
            if n and isinstance(p, Ptr) and False: pass
            if isinstance(p, StructV):
                p = p.get(i)
                if n + 1 < len(path): continue
                return p
            if isinstance(p, Ptr): p = Ptr(p.ref, p.rt, p.path + (i,))
            elif isinstance(p, ElemPtr): p = ElemPtr(p.base, p.idx, p.et, p.path + (i,))
            elif isinstance(p, VElemPtr): p = VElemPtr(p.vs, p.idx, p.path + (i,))
            if n + 1 < len(path) and s.T.k(t) == 'ptr':
                p = s._rd(p, t)
        return p

    def fld(s, p, name):
        """value of a field"""
        if isinstance(p, StructV):
            path = s._find(p.t, name)
            if path is None: raise Unsupported('field %s of %s' % (name, s.T.s(p.t)))
            v = p
            for n, (i, t) in enumerate(path):
                v = v.get(i) if isinstance(v, StructV) else s._rd(Ptr(v.ref, v.rt, v.path + (i,)), t)
            return s._mapview(path[-1][1], v)
        path = s._find(s.typeof(p), name)
        a = s.addr(p, name)
        return s._mapview(path[-1][1], s._rd(a, path[-1][1]))

    def _mapview(s, t, v):
        if s.T.k(t) == 'map': return MapV(s, t, v)
        return v

    def get(s, p, *names):
        for n in names: p = s.fld(p, n)
        return p

    def deref(s, p):
        return s._rd(p, s.typeof(p))

    def at(s, sl, i):
        """i-th element of a slice"""
        i = i if z3.is_expr(i) else IV(i)
        if isinstance(sl, VSlice): return s._rd(VElemPtr(sl, i), sl.et)
        return s._mapview(sl.et, s._rd(ElemPtr(sl.b, simp(sl.o + i), sl.et), sl.et))

    def arr(s, key, sort): return core.arr(s.heap, key, sort)

    def map(s, t, ref): return MapV(s, t, ref)

    def str(s, sl):
        """string code of the bytes in a []byte"""
        return s.eng.string_of(HeapOnly(s.heap), sl)


class HeapOnly:
    def __init__(s, heap): s.heap = heap

    def add(s, *a): pass


class MapV:
    def __init__(s, h, t, ref): s.h, s.t, s.ref = h, t, ref

    def has(s, k):
        k = s.h.eng.keyterm(k)
        return AND(s.ref != 0, z3.Select(s.h.eng.mapdom(s.h.heap, s.t, s.ref), k))

    def dom(s): return s.h.eng.mapdom(s.h.heap, s.t, s.ref)

    def get(s, k):
        k = s.h.eng.keyterm(k)
        et = s.h.T.elem(s.t)
        return s.h._mapview(et, s.h.eng.mapval(s.h.heap, s.t, s.ref, k))


class Spec(object):
    """one application of a contract: arguments, result, pre and post state"""

    def __init__(s, eng, c, args, atys, pre, post, res, rt):
        s.eng, s.T, s.c, s.a, s.aty, s.pre, s.post = eng, eng.T, c, args, atys, pre, post
        s.old, s.new = H(eng, pre.heap), H(eng, post.heap)
        s.res, s.rt = res, rt
        s.a = [s.old._mapview(t, a) if t is not None and t >= 0 and not isinstance(a, MapV) else a for a, t in zip(args, atys)]
        s.na0 = pre.na
        s.na1 = post.na

    @property
    def ok(s):
        """error result (last component) is nil"""
        v = s.res.f[-1] if isinstance(s.res, TupleV) else s.res
        return v.code == 0

    def r(s, i):
        v = s.res.f[i]
        t = s.T.t[s.rt]['r'][i]
        return s.new._mapview(t, v)

    def g(s, name, old=False):
        import models
        return models.ghost(s.pre if old else s.post, name)

    def keys(s, tname, *fields):
        """heap partitions of the (named) fields of objects of a struct type"""
        t = s.T.id(tname)
        out = []
        for i, f in enumerate(s.T.fields(t)):
            if fields and f['n'] not in fields: continue
            for p, so in s.T.leaves(f['t']): out.append(('F', tname, (i,) + p))
        if fields:
            have = {f['n'] for f in s.T.fields(t)}
            for x in fields:
                if x not in have: raise Unsupported('field %s.%s' % (tname, x))
        return out

    def mod(s, p, *fields):
        """modifies entries: the given fields of the object p points to"""
        return [(k, p.ref) for k in s.keys(s.T.s(p.rt), *fields)]


def isnil(v):
    if isinstance(v, Ptr): return v.ref == 0
    if isinstance(v, Slice): return v.b == 0
    if isinstance(v, Iface): return v.code == 0
    if isinstance(v, MapV): return v.ref == 0
    if isinstance(v, VSlice): return v.n
    if isinstance(v, FuncV): return v.code == 0 if v.code is not None else FALSE
    raise Unsupported('isnil')


_NOPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}


def patok_terms(p): return p.children() if isinstance(p, z3.PatternRef) else [p]


def patok(p):
    st, seen = patok_terms(p), set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in _NOPAT: return False
            st += x.children()
    return True


def hasvar(p, vs):
    ids, st, seen = {v.get_id() for v in vs}, patok_terms(p), set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        ids.discard(x.get_id())
        if not ids: return True
        if z3.is_app(x): st += x.children()
    return False


def forall(f, *sorts, pats=None):
    sorts = sorts or (I,) * f.__code__.co_argcount
    vs = [fresh('q', so) for so in sorts]
    b = f(*vs)
    if z3.is_true(b): return TRUE
    if pats:
        p = pats(*vs)
        # a tuple is a pattern of several terms; of a conjunction (membership in a map) the last part counts
        part = lambda x: x.arg(x.num_args() - 1) if z3.is_and(x) else x
        p = [z3.MultiPattern(*map(part, x)) if isinstance(x, tuple) else part(x) for x in (p if isinstance(p, list) else [p])]
        if p and all(patok(x) and hasvar(x, vs) for x in p): return z3.ForAll(vs, b, patterns=p)
    return z3.ForAll(vs, b)


def exists(f, *sorts):
    sorts = sorts or (I,) * f.__code__.co_argcount
    vs = [fresh('q', so) for so in sorts]
    return z3.Exists(vs, f(*vs))


class Contract:
    """base class; subclasses in contracts/*.py"""
    fn = None
    short = None
    props = []
    inline = False        # callers inline the body (it is verified all the same)
    entry = True          # the function is part of the API: it must exist
    trusted = None
    pure = False
    pure_args = None
    pure_extra = None
    allocs = False
    used = 0
    recursive = False
    lemmas = False        # postconditions are proved in order, each from the ones before
    timeout = 8000
    check_append = False
    safety = True
    closure = False       # a function literal: the captured variables are free
    run = None            # a check of its own (data), instead of a function
    nocache = ()          # prefixes of the traces of cache accesses that stay as they are (proved)
    safety_props = ('P24',)

    def locate(self, eng):
        """name of the function in the current source"""
        return self.fn

    def requires(self, S): return []

    def ensures(self, S): return []

    def modifies(self, S): return []

    def defn(self, S):
        """closed form of the (scalar) result: a postcondition res == defn"""
        return None

    def assumes(self, S):
        """facts that callers assume but that are not proved (each is listed as an assumption)"""
        return []

    def inv(self, S, L): return []

    def ghost(self, S): return []

    def setup(self, eng, st, args, atys): pass

    def descent(self, S, C):
        """what makes a recursive call (C) of the function from its own call S come closer to an end"""
        return []


def contract(fn, short=None, **kw):
    def deco(cls):
        cls.fn = fn
        cls.short = short or fn.replace('oidfed', '').replace('(', '').replace(')', '').replace('*', '').strip('./').replace('/', '_')
        for k, v in kw.items(): setattr(cls, k, v)
        REG[fn] = cls()
        return cls
    return deco


REG = {}
ALLTRACES = ('cs_', 'gc_', 'cg_', 'rd_', 'um_')


def mention(t, eng=None):
    """a true formula that contains the term t (for the solver's triggers)"""
    f = UF('mention_%s' % t.sort(), t.sort(), B)
    if eng is not None and f.name() not in eng.tree_ax:
        eng.tree_ax.add(f.name())
        x = z3.Const('x', t.sort())
        eng.axioms.append((frozenset([f.name()]), z3.ForAll([x], f(x), patterns=[f(x)])))
    return f(t)


def norm_ens(items):
    for it in items:
        if len(it) == 2: yield it[0], None, it[1]
        else: yield it


def verify(eng, c, deadline=None):
    """generate and discharge the obligations of c; returns list of Obl"""
    t0 = time.time()
    eng.cur, eng.obls = c, []
    eng.npaths = 0
    if c.run is not None:
        c.run(eng)
        return eng.obls
    fn = eng.F.get(c.locate(eng))
    if fn is None or not fn.get('blocks'):
        if c.entry:
            o = execu.Obl(c.fn, 'exists', 'function %s exists with a body' % c.fn, list(c.props), [], FALSE, '')
            o.status = 'failed'
            o.info = 'function not found in the current source'
            eng.obls.append(o)
        return eng.obls
    try:
        _verify(eng, c, fn, deadline)
    except Unsupported as e:
        o = execu.Obl(c.fn, 'reach', 'function is within the reach of the verifier', list(c.props), [], FALSE, fn.get('pos', ''))
        o.status, o.info = 'failed', 'unsupported: %s' % e
        eng.obls.append(o)
    except (RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        o = execu.Obl(c.fn, 'reach', 'function is within the reach of the verifier', list(c.props), [], FALSE, fn.get('pos', ''))
        o.status, o.info = 'failed', 'engine: %r %s' % (e, traceback.format_exc()[-2900:])
        eng.obls.append(o)
    # discharge
    for o in eng.obls:
        if o.status is None:
            if deadline and time.time() > deadline:
                o.status, o.info = 'failed', 'time budget used up'
                continue
            t1 = time.time()
            if o.kind == 'reach':
                r, be, info = z3util.prove(eng, o.pc, FALSE, 1500)
                o.status = 'failed' if r == 'proved' else 'proved'
                o.backend = be
                if o.status == 'failed': o.info = 'no return path of the function is reachable under its precondition'
            else:
                r, be, info = z3util.prove(eng, o.pc, o.goal, c.timeout, want_model=True)
                o.status = 'proved' if r == 'proved' else 'failed'
                o.backend = be
                o.info = (r + ': ' + info) if o.status == 'failed' else ''
            o.time = time.time() - t1
    return eng.obls


def start(eng, c, fn):
    st = State()
    na0 = fresh('na0')
    st.na = na0
    st.add(na0 >= 1)
    eng.na0 = na0
    eng.bounds = {}
    eng.specfacts.reset()
    import models
    models.lose_traces(eng, st)
    st.writes = ()
    args, atys = [], []
    for p in fn['params']:
        v = eng.sym(p['t'], p['n'], st)
        if isinstance(v, VSlice): v.origin = None
        args.append(v)
        atys.append(p['t'])
    rts = eng.T.t[fn['sig']]['r']
    if len(rts) == 0: rt = None
    elif len(rts) == 1: rt = rts[0]
    else:
        rt = None
        for i, t in enumerate(eng.T.t):
            if t['k'] == 'tuple' and t['r'] == rts:
                rt = i
                break
        if rt is None:
            eng.T.t.append({'s': 'tuple%d' % len(eng.T.t), 'k': 'tuple', 'r': rts})
            rt = len(eng.T.t) - 1
    return st, args, atys, rt


def retval(vs):
    if len(vs) == 0: return None
    return vs[0] if len(vs) == 1 else TupleV(vs)


def _verify(eng, c, fn, deadline):
    st, args, atys, rt = start(eng, c, fn)
    eng.check_append = c.check_append
    c.setup(eng, st, args, atys)
    pre = st.fork()
    S0 = Spec(eng, c, args, atys, pre, pre, None, rt)
    eng.S0 = S0
    for nm, f in c.requires(S0): st.add(f)
    fr = execu.Frame(fn, 0, (fn['name'],))
    st.env = {}
    for p, a in zip(fn['params'], args): st.env[p['n']] = a
    eng.fvs = []
    for p in fn['freevars']:
        # variables captured by a closure (references to distinct variables of the enclosing function)
        if not c.closure: raise Unsupported('closure under contract')
        v = eng.sym(p['t'], p['n'], st)
        if isinstance(v, Ptr):
            st.add(v.ref != 0)
            for w in eng.fvs:
                if isinstance(w, Ptr) and w.rt == v.rt: st.add(w.ref != v.ref)
        st.env[p['n']] = v
        eng.fvs.append(v)
    eng.deadline = deadline
    outs = eng.run(fr, 0, None, st)
    nret = 0
    modkeys = list(c.modifies(S0))
    for o in outs:
        if o.k != 'ret': raise Unsupported('path does not end in a return')
        nret += 1
        post = o.st
        S = Spec(eng, c, args, atys, pre, post, retval(o.v), rt)
        for f in c.ghost(S) or []: post.add(f)
        dv = c.defn(S)
        if dv is not None: eng.oblige(post, 'ensures', 'the result is as defined', S.res == dv, fn.get('pos', ''), None)
        for nm, props, f in norm_ens(c.ensures(S)):
            eng.oblige(post, 'ensures', nm, f, fn.get('pos', ''), props)
            if c.lemmas: post.add(f)
        if c.nocache:
            import models
            eng.oblige(post, 'ensures', 'accesses no cache', AND([models.ghost(post, n) == models.ghost(pre, n) for n in models.TRACES if n.startswith(c.nocache)]), fn.get('pos', ''), None)
        frame(eng, c, post, modkeys)
    # vacuity: at least one return path is not contradictory
    if outs:
        cands = [o for o in outs]
        ok = False
        for o in cands[:6]:
            r, be, info = z3util.prove(eng, o.st.pc, FALSE, 1000)
            if r != 'proved':
                ok = True
                break
        ob = execu.Obl(c.fn, 'vacuity', 'some return path is reachable under the precondition', list(c.props), [], FALSE, fn.get('pos', ''))
        ob.status = 'proved' if ok else 'failed'
        ob.backend = 'z3'
        eng.obls.append(ob)
    else:
        eng.oblige(st, 'vacuity', 'the function returns on some path', FALSE, fn.get('pos', ''))


def frame(eng, c, post, mods):
    done = set()
    na0 = eng.na0
    for key, ref in post.writes or ():
        k = (key, ref.get_id())
        if k in done: continue
        done.add(k)
        if key[0] == "G" and key != ("G", "strset"): continue
        g = [ref >= na0]
        if key[0] == 'MD': g.append(ref == 0)          # deleting from a nil map changes nothing
        for mk, mr in mods:
            if mk == key or (callable(mk) and mk(key)):
                if mr is None: g = [TRUE]; break
                g.append(ref == mr)
        goal = OR(g)
        if z3.is_int_value(simp(ref)) and simp(ref).as_long() == -1 and not z3.is_true(goal): goal = FALSE
        eng.oblige(post, 'frame', 'writes only what the contract allows: %s' % (keyname(key),), goal, '', None)


def keyname(key):
    return '%s %s %s' % (key[0], key[1], '.'.join(map(str, key[2])) if len(key) > 2 else '')
