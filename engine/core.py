"""govc core: types, values, heap model and obligations.

Value model (see DESIGN.md, "The verifier"):
  bool -> Bool; every integer type -> mathematical Int; float -> Real;
  string -> Int code (0 is ""; literals are distinct codes; operations are
  uninterpreted functions); pointer/map/chan/func -> Int reference (0 is nil);
  interface -> Int code with dynamic-type tag; time.Time -> Int nanoseconds
  (0 is the zero time); structs -> trees of leaves; slices -> (base,off,len,cap).
Heap: one z3 array per (struct type, field path) [Burstall partition], one
two-level array per (element type, field path) for slice elements, arrays for
map domain/values.
"""
import json, os, sys, time, itertools
import z3

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
IV, BV = z3.IntVal, z3.BoolVal
TRUE, FALSE = BV(True), BV(False)


class Unsupported(Exception):
    pass


def AND(*xs):
    xs = [x for x in _flat(xs) if not z3.is_true(x)]
    if not xs: return TRUE
    if any(z3.is_false(x) for x in xs): return FALSE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(*xs):
    xs = [x for x in _flat(xs) if not z3.is_false(x)]
    if not xs: return FALSE
    if any(z3.is_true(x) for x in xs): return TRUE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def NOT(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    return z3.Not(x)


def IMP(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def simp(x):
    return z3.simplify(x) if z3.is_expr(x) else x


# --------------------------------------------------------------------- types
class Types:
    def __init__(self, tlist):
        self.t = tlist
        self.by = {}
        for i, t in enumerate(tlist):
            self.by.setdefault(t['s'], i)
        self._leaves = {}
        self._opaque = {}
        self.value_structs = set()     # names of structs whose slices are owned value sequences

    def id(self, s):
        if s not in self.by: raise Unsupported('unknown type ' + s)
        return self.by[s]

    def s(self, t): return self.t[t]['s']

    def u(self, t):
        """underlying type id"""
        while self.t[t]['k'] == 'named': t = self.t[t]['u']
        return t

    def opaque(self, t):
        """named types of other modules that are treated as one opaque leaf"""
        r = self._opaque.get(t)
        if r is None:
            d = self.t[t]
            r = False
            if d['k'] == 'named':
                p = d.get('pkg', '')
                own = p == 'oidfed' or p in OWN_PKGS
                uk = self.t[self.u(t)]['k']
                if not own and uk == 'struct' and d['s'] not in TRANSPARENT:
                    r = True
            self._opaque[t] = r
        return r

    def k(self, t):
        if self.opaque(t): return 'opaque'
        return self.t[self.u(t)]['k']

    def elem(self, t): return self.t[self.u(t)]['e']

    def fields(self, t): return self.t[self.u(t)]['f']

    def fidx(self, t, name):
        for i, f in enumerate(self.fields(t)):
            if f['n'] == name: return i
        raise Unsupported('no field %s in %s' % (name, self.s(t)))

    def basic(self, t): return self.t[self.u(t)]['name']

    def is_vslice(self, t):
        return self.k(t) == 'slice' and self.s(self.elem(t)) in self.value_structs

    def sort(self, t):
        """z3 sort of a scalar type"""
        k = self.k(t)
        if k == 'basic':
            n = self.basic(t)
            if 'bool' in n: return B
            if 'float' in n: return R
            return I
        return I

    def leaves(self, t):
        """[(path, sort)] of the scalar leaves of a value of type t"""
        r = self._leaves.get(t)
        if r is not None: return r
        k = self.k(t)
        if k == 'struct':
            r = []
            for i, f in enumerate(self.fields(t)):
                for p, s in self.leaves(f['t']): r.append(((i,) + p, s))
        elif k == 'slice':
            if self.is_vslice(t):
                r = [(('n',), B), (('l',), I), (('a',), z3.ArraySort(I, vsort(self.s(self.elem(t)))))]
            else:
                r = [(('b',), I), (('o',), I), (('l',), I), (('c',), I)]
        elif k == 'array':
            n = self.t[self.u(t)]['n']
            if n > 64: r = [((), I)]
            else:
                r = []
                for i in range(n):
                    for p, s in self.leaves(self.elem(t)): r.append(((i,) + p, s))
        elif k == 'tuple':
            r = []
            for i, ft in enumerate(self.t[t]['r']):
                for p, s in self.leaves(ft): r.append(((i,) + p, s))
        else:
            r = [((), self.sort(t))]
        self._leaves[t] = r
        return r


OWN_PKGS = set()
TRANSPARENT = {'net/url.URL'}
_vsorts = {}


def vsort(name):
    if name not in _vsorts: _vsorts[name] = z3.DeclareSort('V_' + name)
    return _vsorts[name]


# -------------------------------------------------------------------- values
class Ptr:
    """address of (a field of) an object: root reference, root type, field path"""
    __slots__ = ('ref', 'rt', 'path')

    def __init__(s, ref, rt, path=()): s.ref, s.rt, s.path = ref, rt, path


class ElemPtr:
    """address of (a field of) a slice/array element"""
    __slots__ = ('base', 'idx', 'et', 'path')

    def __init__(s, base, idx, et, path=()): s.base, s.idx, s.et, s.path = base, idx, et, path


class ArrPtr:
    """pointer to an array object (its own base)"""
    __slots__ = ('base', 'et', 'n')

    def __init__(s, base, et, n): s.base, s.et, s.n = base, et, n


class VElemPtr:
    """address of an element of an owned value sequence"""
    __slots__ = ('vs', 'idx', 'path')

    def __init__(s, vs, idx, path=()): s.vs, s.idx, s.path = vs, idx, path


class Slice:
    __slots__ = ('b', 'o', 'l', 'c', 'et')

    def __init__(s, b, o, l, c, et): s.b, s.o, s.l, s.c, s.et = b, o, l, c, et


class VSlice:
    __slots__ = ('n', 'l', 'a', 'et', 'origin')

    def __init__(s, n, l, a, et, origin=None): s.n, s.l, s.a, s.et, s.origin = n, l, a, et, origin


class StructV:
    __slots__ = ('t', 'f', 'whole')

    def __init__(s, t, f): s.t, s.f, s.whole = t, f, None

    def get(s, i):
        v = s.f[i]
        if callable(v) and not isinstance(v, FuncV):
            v = v()
            s.f[i] = v
        return v


class TupleV:
    __slots__ = ('f',)

    def __init__(s, f): s.f = f


class FuncV:
    __slots__ = ('name', 'binds', 'code')

    def __init__(s, name, binds=(), code=None): s.name, s.binds, s.code = name, binds, code


class Iface:
    """interface value: code (z3 Int), optionally the statically known dynamic type and payload"""
    __slots__ = ('code', 'dt', 'val')

    def __init__(s, code, dt=None, val=None): s.code, s.dt, s.val = code, dt, val


class MapIter:
    __slots__ = ('ref', 'mt', 'id')

    def __init__(s, ref, mt, id): s.ref, s.mt, s.id = ref, mt, id


# ------------------------------------------------------------------- strings
class Lits:
    def __init__(self):
        self.m = {'': 0}
        self.r = {0: ''}

    def code(self, s):
        if s not in self.m:
            self.m[s] = len(self.m) + 1000
            self.r[self.m[s]] = s
        return IV(self.m[s])


LITS = Lits()
lit = LITS.code

_ufs = {}


def UF(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(key)
    if f is None:
        f = z3.Function(name if not any(k[0] == name for k in _ufs) else name + '!' + str(len(_ufs)), *sorts)
        _ufs[key] = f
    return f


_ctr = itertools.count()


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


# tags of dynamic types
tagof = z3.Function('dyntype', I, I)

# ---------------------------------------------------------------------- heap
_init = {}


def init_arr(key, sort):
    a = _init.get(key)
    if a is None:
        a = z3.Const('H0' + repr(key).replace(' ', ''), sort)
        _init[key] = a
    return a


class State:
    __slots__ = ('pc', 'heap', 'env', 'na', 'iters', 'writes', 'trace', 'now', 'defers', 'ghost')

    def __init__(s):
        s.pc, s.heap, s.env, s.na, s.iters = [], {}, {}, IV(1), {}
        s.writes, s.trace, s.now, s.defers, s.ghost = None, (), None, (), {}

    def fork(s):
        n = State.__new__(State)
        n.pc, n.heap, n.env, n.na, n.iters = list(s.pc), s.heap, dict(s.env), s.na, dict(s.iters)
        n.writes, n.trace, n.now, n.defers, n.ghost = s.writes, s.trace, s.now, s.defers, dict(s.ghost)
        return n

    def add(s, *fs):
        for f in _flat(fs):
            if not z3.is_true(f): s.pc.append(f)


def arr(heap, key, sort):
    a = heap.get(key)
    return a if a is not None else init_arr(key, sort)


def fsort(s): return z3.ArraySort(I, s)


def esort(s): return z3.ArraySort(I, z3.ArraySort(I, s))
