"""models of package reflect, as far as the policy code uses it

A reflect.Value is identified by what Interface() returns (the code of an interface value) and its static type (the
code of a reflect.Type, 0 for the invalid Value). Slices held in interface values are immutable sequences of codes:
reflect.Append is only allowed on slices that were made by reflect (an obligation), and then gives a new sequence.
"""
from core import *
from models import model, M, u1, nn

SLICE, IFACE = 23, 20
KINDS = dict(bool=1, int=2, int8=3, int16=4, int32=5, int64=6, uint=7, uint8=8, uint16=9, uint32=10, uint64=11, uintptr=12, float32=13, float64=14, string=24)


def fn(name, *so): return UF(name, *so)
def made(v): return z3.is_app(v) and v.num_args() == 2 and v.decl().name() == 'rv'
def rv_any(v): return v.arg(0) if made(v) else fn('rv_any', I, I)(v)
def rv_typ(v): return v.arg(1) if made(v) else fn('rv_typ', I, I)(v)
def rt_of(c): return fn('rt_of_tag', I, I)(tagof(c))
def rt_kind(t): return fn('rt_kind', I, I)(t)
def rt_elem(t): return fn('rt_elem', I, I)(t)
def sl_len(c): return fn('sl_len', I, I)(c)
def sl_at(c, i): return fn('sl_at', I, I, I)(c, i)
def owned(c): return fn('rv_owned', I, B)(c)
def isslice(c): return z3.And(c != 0, rt_kind(rt_of(c)) == SLICE)
def deepeq(a, b): return fn('deepequal', I, I, B)(a, b)


def mk(st, c, t):
    v = fn('rv', I, I, I)(c, t)
    st.add(fn('rv_any', I, I)(v) == c, fn('rv_typ', I, I)(v) == t)
    return v


def typefact(eng, st, t):
    """what is known about the static type t"""
    k = eng.T.k(t)
    ty = fn('rt_of_tag', I, I)(eng.tid(t))
    st.add(ty != 0)
    if k == 'slice':
        st.add(rt_kind(ty) == SLICE)
        e = eng.T.elem(t)
        if eng.T.k(e) in ('iface', 'interface'): st.add(rt_kind(rt_elem(ty)) == IFACE)
    elif k == 'basic':
        n = eng.T.basic(t)
        if n in KINDS: st.add(rt_kind(ty) == KINDS[n])


def value_code(eng, st, i):
    """the code of an interface value; a slice of a known type is taken as the sequence it holds now"""
    if i.dt is None or eng.T.k(i.dt) != 'slice':
        if i.dt is not None: typefact(eng, st, i.dt)
        return i.code
    et = eng.T.elem(i.dt)
    ls = eng.T.leaves(et)
    if len(ls) != 1: raise Unsupported('reflection on a slice of structs')
    typefact(eng, st, i.dt)
    c = fresh('seq')
    v = i.val
    st.add(c != 0, tagof(c) == eng.tid(i.dt), sl_len(c) == v.l)
    cont = eng.content(st.heap, et, v.b, ls[0][0], ls[0][1])
    st.add(z3.Implies(v.b >= eng.na0, owned(c)))         # a slice made in this call
    j = z3.Int('j')
    x = z3.Select(cont, v.o + j)
    if eng.T.k(et) not in ('iface', 'interface'):
        x = UF('box_' + eng.T.s(et), x.sort(), I)(x)
        st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.l), z3.And(x != 0, tagof(x) == eng.tid(et))), patterns=[sl_at(c, j)]))
    st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.l), sl_at(c, j) == x), patterns=[sl_at(c, j)]))
    return c


def seqfacts(st, c):
    """facts about a sequence"""
    st.add(sl_len(c) >= 0)


def valid(eng, st, v, pos): 
    eng.oblige(st, 'safety', 'reflect: a valid value', rv_typ(v) != 0, pos)
    st.add(rv_typ(v) != 0)


def need(eng, st, what, f, pos):
    eng.oblige(st, 'safety', 'reflect: ' + what, f, pos)
    st.add(f)


@model('reflect.ValueOf')
def m_valueof(eng, st, a, t, rt, pos):
    c = value_code(eng, st, a[0])
    st.add(rt_of(c) != 0)
    return mk(st, c, simp(z3.If(c == 0, IV(0), rt_of(c))))


@model('reflect.TypeOf')
def m_typeof(eng, st, a, t, rt, pos):
    if a[0].dt is not None:
        typefact(eng, st, a[0].dt)
        return Iface(fn('rt_of_tag', I, I)(eng.tid(a[0].dt)))
    c = a[0].code
    st.add(rt_of(c) != 0)
    return Iface(simp(z3.If(c == 0, IV(0), rt_of(c))))


@model('(reflect.Value).IsValid')
def m_isvalid(eng, st, a, t, rt, pos): return rv_typ(a[0]) != 0


@model('(reflect.Value).Type')
def m_type(eng, st, a, t, rt, pos):
    valid(eng, st, a[0], pos)
    return Iface(rv_typ(a[0]))


@model('(reflect.Value).Kind')
def m_kind(eng, st, a, t, rt, pos): return simp(z3.If(rv_typ(a[0]) == 0, IV(0), rt_kind(rv_typ(a[0]))))


@model('(reflect.Value).Interface')
def m_interface(eng, st, a, t, rt, pos):
    valid(eng, st, a[0], pos)
    f = vars(eng).get('filled', {}).get(a[0].get_id())
    if f is not None:
        c, j, x = newseq(st, rv_typ(a[0]), f[2]), z3.Int('j'), content(st, f[1])
        st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < f[2]), sl_at(c, j) == z3.Select(x, j)), patterns=[sl_at(c, j)]))
        return Iface(c)
    return Iface(rv_any(a[0]))


@model('(reflect.Value).Len')
def m_len(eng, st, a, t, rt, pos):
    valid(eng, st, a[0], pos)
    need(eng, st, 'length of a slice', rt_kind(rv_typ(a[0])) == SLICE, pos)
    n = sl_len(rv_any(a[0]))
    st.add(n >= 0)
    return n


@model('(reflect.Value).Index', note='elements of a slice: of its element type, unless that is an interface type')
def m_index(eng, st, a, t, rt, pos):
    valid(eng, st, a[0], pos)
    c = rv_any(a[0])
    need(eng, st, 'element of a slice', rt_kind(rv_typ(a[0])) == SLICE, pos)
    need(eng, st, 'index in range', z3.And(0 <= a[1], a[1] < sl_len(c)), pos)
    x, e = sl_at(c, a[1]), rt_elem(rv_typ(a[0]))
    f = vars(eng).get('filled', {}).get(a[0].get_id())
    if f is not None:
        x = fresh('elemaddr')
        v = mk(st, x, e)
        vars(eng).setdefault('filledat', {})[v.get_id()] = (v, f[1], a[1])
        return v
    st.add(e != 0, z3.Implies(rt_kind(e) != IFACE, z3.And(x != 0, rt_of(x) == e)))
    return mk(st, x, e)


@model('(reflect.Value).IsZero', note='a function of the value')
def m_iszero(eng, st, a, t, rt, pos):
    valid(eng, st, a[0], pos)
    return fn('rv_zero', I, B)(rv_any(a[0]))


def inrange(*ks):
    def f(eng, st, a, t, rt, pos):
        k = z3.If(rv_typ(a[0]) == 0, IV(0), rt_kind(rv_typ(a[0])))
        return simp(z3.Or([k == x for x in ks]))
    return f


INT, UINT, FLOAT = range(2, 7), range(7, 13), range(13, 15)
for _n, _k in (('CanInt', INT), ('CanUint', UINT), ('CanFloat', FLOAT)): model('(reflect.Value).' + _n)(inrange(*_k))


def isnum(k): return z3.And(2 <= k, k <= 14)


@model('(reflect.Value).Convert', note='conversion of a number to a floating point number: a function of the value')
def m_convert(eng, st, a, t, rt, pos):
    v = a[0]
    valid(eng, st, v, pos)
    need(eng, st, 'conversion between numbers', z3.And(isnum(rt_kind(rv_typ(v))), isnum(rt_kind(a[1].code))), pos)
    return mk(st, fn('rv_conv', I, I, I)(rv_any(v), a[1].code), a[1].code)


@model('(reflect.Value).Float')
def m_float(eng, st, a, t, rt, pos):
    need(eng, st, 'value of a floating point number', z3.And(13 <= rt_kind(rv_typ(a[0])), rt_kind(rv_typ(a[0])) <= 14), pos)
    return fn('rv_float', I, R)(rv_any(a[0]))


@model('reflect.DeepEqual', note='a function of the values')
def m_deepequal(eng, st, a, t, rt, pos): return deepeq(a[0].code, a[1].code)


@model('reflect.SliceOf')
def m_sliceof(eng, st, a, t, rt, pos):
    e = a[0].code
    need(eng, st, 'slice type of a type', e != 0, pos)
    r = fn('rt_slice', I, I)(e)
    st.add(r != 0, rt_kind(r) == SLICE, rt_elem(r) == e)
    return Iface(r)


def newseq(st, t, n):
    c = fresh('seq')
    st.add(c != 0, rt_of(c) == t, sl_len(c) == n, owned(c))
    return c


@model('reflect.New', note='a pointer to a new zero value')
def m_new(eng, st, a, t, rt, pos):
    ty = a[0].code
    need(eng, st, 'new value of a type', ty != 0, pos)
    p = fresh('newptr')
    pt = fn('rt_ptr', I, I)(ty)
    st.add(p != 0, pt != 0, rt_elem(pt) == ty, rt_kind(pt) == 22)
    c = fn('rv_pointee', I, I)(p)
    st.add(owned(c), z3.Implies(rt_kind(ty) == SLICE, z3.And(c != 0, rt_of(c) == ty, sl_len(c) == 0)))
    return mk(st, p, pt)


@model('(reflect.Value).Elem')
def m_elem(eng, st, a, t, rt, pos):
    need(eng, st, 'what a pointer points to', z3.And(rv_typ(a[0]) != 0, rt_kind(rv_typ(a[0])) == 22), pos)
    return mk(st, fn('rv_pointee', I, I)(rv_any(a[0])), rt_elem(rv_typ(a[0])))


@model('reflect.MakeSlice', note='only used with length 0')
def m_makeslice(eng, st, a, t, rt, pos):
    ty = a[0].code
    need(eng, st, 'slice of a slice type', z3.And(ty != 0, rt_kind(ty) == SLICE), pos)
    need(eng, st, 'lengths', z3.And(0 <= a[1], a[1] <= a[2]), pos)
    if not (z3.is_int_value(a[1]) and a[1].as_long() == 0):
        # a slice that is filled by Set: its elements are in the heap
        b = eng.alloc(st, None)
        c = fresh('filled')
        st.add(c != 0, rt_of(c) == ty, sl_len(c) == a[1])
        v = mk(st, c, ty)
        vars(eng).setdefault('filled', {})[v.get_id()] = (v, b, a[1])
        return v
    return mk(st, newseq(st, ty, IV(0)), ty)


FILLED = ('E', 'reflect.MakeSlice', ())


def content(st, b): return simp(z3.Select(arr(st.heap, FILLED, esort(I)), b))


@model('(reflect.Value).Set', note='only on elements of a slice made by reflect.MakeSlice')
def m_set(eng, st, a, t, rt, pos):
    e = vars(eng).get('filledat', {}).get(a[0].get_id())
    if e is None: raise Unsupported('reflect: Set')
    _, b, i = e
    need(eng, st, 'a value of the element type', z3.And(rv_typ(a[1]) != 0, z3.Or(rt_kind(rv_typ(a[0])) == IFACE, rv_typ(a[1]) == rv_typ(a[0]))), pos)
    h = dict(st.heap)
    m = arr(h, FILLED, esort(I))
    h[FILLED] = z3.Store(m, b, z3.Store(z3.Select(m, b), i, rv_any(a[1])))
    eng.wlog(st, FILLED, b)
    st.heap = h
    return None


def appended(eng, st, s, n, at, pos):
    """s followed by n elements (values)"""
    c, ty = fresh('seq'), rv_typ(s)
    st.add(c == rv_any(s))
    need(eng, st, 'append to a slice', z3.And(ty != 0, rt_kind(ty) == SLICE), pos)
    eng.oblige(st, 'frame', 'appends only to slices made here', owned(c), pos)
    seqfacts(st, c)
    r = newseq(st, ty, sl_len(c) + n)
    j = z3.Int('j')
    st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sl_len(c)), sl_at(r, j) == sl_at(c, j)), patterns=[sl_at(r, j)]),
           z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sl_len(c)), sl_at(r, j) == sl_at(c, j)), patterns=[sl_at(c, j)]))
    at(c, r)
    return mk(st, r, ty)


@model('reflect.Append')
def m_append(eng, st, a, t, rt, pos):
    xs = a[1]
    n = simp(xs.l)
    if not (z3.is_int_value(n) and n.as_long() == 1): raise Unsupported('reflect.Append of several values')
    x = z3.Select(eng.content(st.heap, xs.et, xs.b, (), I), xs.o)
    e = rt_elem(rv_typ(a[0]))
    def at(c, r): st.add(sl_at(r, sl_len(c)) == rv_any(x))
    need(eng, st, 'append a value of the element type', z3.And(rv_typ(x) != 0, z3.Or(rt_kind(e) == IFACE, rv_typ(x) == e)), pos)
    return appended(eng, st, a[0], 1, at, pos)


@model('reflect.AppendSlice')
def m_appendslice(eng, st, a, t, rt, pos):
    d = fresh('seq')
    st.add(d == rv_any(a[1]))
    need(eng, st, 'append a slice of the same type', rv_typ(a[0]) == rv_typ(a[1]), pos)
    seqfacts(st, d)
    def at(c, r):
        j = z3.Int('j')
        st.add(z3.ForAll([j], z3.Implies(z3.And(sl_len(c) <= j, j < sl_len(r)), sl_at(r, j) == sl_at(d, j - sl_len(c))), patterns=[sl_at(r, j)]),
               z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sl_len(d)), sl_at(r, sl_len(c) + j) == sl_at(d, j)), patterns=[sl_at(d, j)]))
    return appended(eng, st, a[0], sl_len(d), at, pos)


def t_elem(eng, st, recv, args, atys, rt, pos):
    k = rt_kind(recv.code)
    eng.oblige(st, 'safety', 'reflect: element type of a slice or pointer', z3.Or(k == SLICE, k == 22), pos)
    st.add(rt_elem(recv.code) != 0)
    return [(st, Iface(rt_elem(recv.code)))]


def t_kind(eng, st, recv, args, atys, rt, pos): return [(st, rt_kind(recv.code))]


from models import IM
IM[('reflect.Type', 'Elem')] = t_elem
IM[('reflect.Type', 'Kind')] = t_kind
