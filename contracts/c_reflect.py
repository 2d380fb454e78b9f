"""sets of policy values (P08, P09, P10, P11): the reflection helpers

A value in a policy or in metadata is an interface value. Its elements are itself, or, if it is a slice, the elements of
the slice; nil has none. Everything below is said on these.
"""
from core import *
from spec import *
import models
import rmodels
from rmodels import isslice, sl_len, sl_at, deepeq, rt_of, rt_kind, rt_elem

U = 'internal/utils.'
ANY = 'interface{}'


def num(eng, c): return UF('rv_float', I, R)(UF('rv_conv', I, I, I)(c, UF('rt_of_tag', I, I)(eng.tid(eng.T.id('float64')))))


def isnum(c): return AND(c != 0, 2 <= rt_kind(rt_of(c)), rt_kind(rt_of(c)) <= 14)


def samenum(eng, a, b): return AND(isnum(a), isnum(b), rt_of(a) != rt_of(b), num(eng, a) == num(eng, b))


def eqv(a, b):
    """the same value: deeply equal, or numbers of different types with the same value"""
    return UF('same_value', I, I, B)(a, b)


def has(x, c):
    """one of the elements of c is the same value as x"""
    return UF('set_has', I, I, B)(x, c)


def among(x, c):
    """x itself is one of the elements of c"""
    return UF('set_among', I, I, B)(x, c)


def count(c): return z3.If(c == 0, IV(0), z3.If(isslice(c), sl_len(c), IV(1)))


def el(c, i): return z3.If(isslice(c), sl_at(c, i), c)


def within(c, i): return AND(0 <= i, i < count(c))


def each(c, f):
    """f holds for every element of c"""
    return AND(IMP(isslice(c), forall(lambda i: IMP(AND(0 <= i, i < sl_len(c)), f(sl_at(c, i))), pats=lambda i: sl_at(c, i))), IMP(AND(c != 0, NOT(isslice(c))), f(c)))


def axioms(eng):
    """definitions of has and among"""
    eng.assumed['every value is the same value as itself (no NaN, no functions in policies and metadata)'] = 1
    if 'sets' in eng.tree_ax: return
    eng.tree_ax.add('sets')
    x, c, i = z3.Ints('x c i')
    eng.axioms.append((frozenset(['sl_len']), z3.ForAll([c], sl_len(c) >= 0, patterns=[sl_len(c)])))
    for nm, p, rel in (('set_has', has, eqv), ('set_among', among, lambda a, b: a == b)):
        w = UF(nm + '_at', I, I, I)(x, c)
        A = eng.axioms.append
        A((frozenset([nm]), z3.ForAll([x, c], IMP(p(x, c), AND(c != 0, z3.If(isslice(c), AND(0 <= w, w < sl_len(c), rel(x, sl_at(c, w))), rel(x, c)))), patterns=[p(x, c)])))
        A((frozenset([nm]), z3.ForAll([x, c, i], IMP(AND(isslice(c), 0 <= i, i < sl_len(c), OR(x == sl_at(c, i), rel(x, sl_at(c, i)))), p(x, c)), patterns=[z3.MultiPattern(p(x, c), sl_at(c, i))])))
        A((frozenset([nm]), z3.ForAll([x, c], IMP(AND(c != 0, NOT(isslice(c)), OR(x == c, rel(x, c))), p(x, c)), patterns=[p(x, c)])))


class Sets(Contract):
    allocs = True
    nocache = ALLTRACES
    def requires(s, S):
        axioms(S.eng)
        return ()
    def code(s, S, i): return S.a[i].code


P = ['P08', 'P09', 'P10', 'P11', 'P24']


@contract(U + 'IsSlice', props=P, entry=False)
class IsSliceC(Sets):
    def ensures(s, S):
        yield 'exactly for slices', S.res == isslice(s.code(S, 0))


@contract(U + 'isNumber', props=P, entry=False)
class IsNumberC(Sets):
    def ensures(s, S):
        v = S.a[0]
        k = rt_kind(rmodels.rv_typ(v))
        yield 'exactly for numbers', S.res == AND(rmodels.rv_typ(v) != 0, 2 <= k, k <= 14)


def slicified(c, s):
    """s is c as a slice"""
    return AND(IMP(c == 0, s == 0), IMP(isslice(c), s == c), IMP(AND(c != 0, NOT(isslice(c))), AND(isslice(s), sl_len(s) == 1, sl_at(s, 0) == c, rt_elem(rt_of(s)) == rt_of(c))))


@contract(U + 'Slicify', props=P, entry=False)
class SlicifyC(Sets):
    def ensures(s, S):
        yield 'the value as a slice', slicified(s.code(S, 0), S.res.code)


@contract(U + 'ReflectSliceContains', props=P, entry=False)
class ContainsC(Sets):
    def setup(s, eng, st, args, atys):
        # definition of eqv
        x, c = z3.Ints('x c')
        st.add(z3.ForAll([x, c], eqv(x, c) == OR(deepeq(x, c), samenum(eng, x, c)), patterns=[eqv(x, c)]))
    def ensures(s, S):
        v, c = s.code(S, 0), s.code(S, 1)
        yield 'exactly if the slice has the value', S.res == AND(isslice(c), has(v, c))
    def inv(s, S, L):
        v, c = s.code(S, 0), s.code(S, 1)
        for i in L.vars('int'):
            yield 'not found so far', lambda L, i=i: forall(lambda j: IMP(AND(0 <= j, j < i(L)), NOT(eqv(v, sl_at(c, j)))), pats=lambda j: sl_at(c, j))


@contract(U + 'sameNumber', props=P, entry=False)
class SameNumberC(Sets):
    def ensures(s, S):
        yield 'exactly for numbers of different types with the same value', S.res == samenum(S.eng, s.code(S, 0), s.code(S, 1))


@contract(U + 'ReflectIsSubsetOf', props=P, entry=False)
class SubsetC(Sets):
    def ensures(s, S):
        a, b = s.code(S, 0), s.code(S, 1)
        yield 'exactly if every element is one of the other set', S.res == each(a, lambda x: has(x, b))
    def inv(s, S, L):
        a, b = s.code(S, 0), s.code(S, 1)
        for i in L.vars('int'):
            yield 'elements so far', lambda L, i=i: forall(lambda j: IMP(AND(0 <= j, j < i(L)), has(el(a, j), b)), pats=lambda j: sl_at(a, j)) if True else None
            yield 'single', lambda L, i=i: IMP(AND(0 < i(L), NOT(isslice(a))), has(a, b))


@contract(U + 'ReflectIsSupersetOf', props=P, entry=False)
class SupersetC(Sets):
    def ensures(s, S):
        a, b = s.code(S, 0), s.code(S, 1)
        yield 'exactly if it has every element of the other set', S.res == each(b, lambda x: has(x, a))


def seteq(a, b):
    return z3.If(OR(a == 0, b == 0), a == b, AND(count(a) == count(b), each(a, lambda x: has(x, b)), each(b, lambda x: has(x, a))))


@contract(U + 'SliceEqual', props=P, entry=False)
class EqualC(Sets):
    def ensures(s, S):
        a, b = s.code(S, 0), s.code(S, 1)
        yield 'exactly for the same number of elements, each being one of the other', S.res == seteq(a, b)
    def inv(s, S, L):
        a, b = s.code(S, 0), s.code(S, 1)
        for i in L.vars('int'):
            for p, q in ((a, b), (b, a)):
                yield 'elements so far', lambda L, i=i, p=p, q=q: forall(lambda j: IMP(AND(0 <= j, j < i(L)), has(el(p, j), q)), pats=lambda j: sl_at(p, j))
                yield 'single', lambda L, i=i, p=p, q=q: IMP(AND(0 < i(L), NOT(isslice(p))), has(p, q))


def same_elements(a, b):
    """two slices with the same elements in the same order"""
    return AND(isslice(a), isslice(b), sl_len(a) == sl_len(b), [forall(lambda i: IMP(AND(0 <= i, i < sl_len(a)), sl_at(a, i) == sl_at(b, i)), pats=lambda i, x=x: sl_at(x, i)) for x in (a, b)])


@contract(U + 'ReflectSliceCast', props=P, entry=False)
class CastC(Sets):
    def setup(s, eng, st, args, atys):
        eng.assumed['no values of named basic types (type X bool, ...) in policies and metadata: decoding JSON never makes them'] = 1
        x = z3.Int('x')
        of = lambda t: UF('rt_of_tag', I, I)(t)
        kinds = [(k, eng.tid(eng.T.id(n))) for n, k in rmodels.KINDS.items() if n in eng.T.by]
        # basic types are the predeclared ones, and types are told apart
        st.add(z3.ForAll([x], AND([IMP(rt_kind(x) == k, x == of(n)) for k, n in kinds]), patterns=[rt_kind(x)]),
               z3.ForAll([x], AND([IMP(of(x) == of(n), x == n) for k, n in kinds]), patterns=[of(x)]))
    def ensures(s, S):
        a, b, r = s.code(S, 0), s.code(S, 1), S.res.code
        yield 'unchanged, or the same elements in a slice of the other type', OR(r == a, AND(isslice(a), isslice(b), same_elements(a, r), rt_of(r) == rt_of(b)))
    def inv(s, S, L):
        for i in L.vars('int'):
            def f(L, i=i):
                for v, b, n in vars(S.eng).get('filled', {}).values():
                    x = rmodels.content(L.h, b)
                    return forall(lambda j: IMP(AND(0 <= j, j < i(L)), z3.Select(x, j) == sl_at(s.code(S, 0), j)), pats=lambda j: z3.Select(x, j))
                return TRUE
            yield 'filled so far', f


def rvals(L): return [v for v in L.vars(types=['reflect.Value']) if v.fixed is None and v.cell is None]
def seqof(v): return rmodels.rv_any(v)


@contract(U + 'ReflectIntersect', props=P, entry=False)
class IntersectC(Sets):
    def ensures(s, S):
        a, b, r = s.code(S, 0), s.code(S, 1), S.res.code
        none = OR(a == 0, b == 0)
        yield 'none without a set', IMP(none, r == 0)
        yield 'a slice', IMP(NOT(none), isslice(r))
        yield 'elements of both', IMP(NOT(none), each(r, lambda x: AND(among(x, a), has(x, b))))
        yield 'all of them', IMP(NOT(none), each(a, lambda x: IMP(has(x, b), among(x, r))))
        yield 'no more than the first', count(r) <= count(a)
    def inv(s, S, L):
        a, b = s.code(S, 0), s.code(S, 1)
        for i in L.vars('int'):
            for v in rvals(L):
                c = lambda L, v=v: seqof(v(L))
                yield 'a slice made here', lambda L, v=v: AND(isslice(seqof(v(L))), rmodels.rv_typ(v(L)) != 0, rmodels.rv_typ(v(L)) == rt_of(seqof(v(L))), rmodels.owned(seqof(v(L))))
                yield 'of the type of the first', lambda L, v=v: IMP(isslice(a), rt_of(seqof(v(L))) == rt_of(a))
                yield 'of the type of the first element', lambda L, v=v: IMP(NOT(isslice(a)), rt_elem(rt_of(seqof(v(L)))) == rt_of(a))
                yield 'not longer', lambda L, v=v, i=i: AND(0 <= sl_len(seqof(v(L))), sl_len(seqof(v(L))) <= i(L), i(L) <= count(a))
                yield 'elements of both', lambda L, v=v: forall(lambda j: IMP(AND(0 <= j, j < sl_len(seqof(v(L)))), AND(among(sl_at(seqof(v(L)), j), a), has(sl_at(seqof(v(L)), j), b))), pats=lambda j: sl_at(seqof(v(L)), j))
                yield 'all so far', lambda L, v=v, i=i: forall(lambda j: IMP(AND(isslice(a), 0 <= j, j < i(L), has(sl_at(a, j), b)), among(sl_at(a, j), seqof(v(L)))), pats=lambda j: sl_at(a, j))
                yield 'the single one', lambda L, v=v, i=i: IMP(AND(0 < i(L), NOT(isslice(a)), has(a, b)), among(a, seqof(v(L))))


def union(a, b, r):
    """r has exactly the elements of a and b"""
    return [('b without a', IMP(a == 0, slicified(b, r))), ('a without b', IMP(AND(a != 0, b == 0), slicified(a, r))),
            ('a slice', IMP(AND(a != 0, b != 0), isslice(r))),
            ('elements of one of them', IMP(AND(a != 0, b != 0), each(r, lambda x: OR(among(x, a), among(x, b))))),
            ('all of the first', IMP(AND(a != 0, b != 0), each(a, lambda x: among(x, r)))),
            ('all of the second', IMP(AND(a != 0, b != 0), each(b, lambda x: has(x, r))))]


@contract(U + 'ReflectUnion', props=P, entry=False)
class UnionC(Sets):
    def ensures(s, S): yield from union(s.code(S, 0), s.code(S, 1), S.res.code)
    def inv(s, S, L):
        a, b = s.code(S, 0), s.code(S, 1)
        for v in L.vars(types=['[]interface{}']):
            if v.cell is not None or v.fixed is not None: continue
            for i in L.vars('int'):
                yield 'as many', lambda L, v=v, i=i: AND(v(L).l == i(L), i(L) <= count(a))
                yield 'copied', lambda L, v=v, i=i: forall(lambda j: IMP(AND(v(L).o <= j, j < v(L).o + i(L)), z3.Select(S.eng.content(L.h.heap, v(L).et, v(L).b, (), I), j) == el(a, j - v(L).o)), pats=lambda j: z3.Select(S.eng.content(L.h.heap, v(L).et, v(L).b, (), I), j))
        for v in rvals(L):
            R = lambda L, v=v: seqof(v(L))
            yield 'a slice made here', lambda L, R=R, v=v: AND(isslice(R(L)), rmodels.rv_typ(v(L)) != 0, rmodels.rv_typ(v(L)) == rt_of(R(L)), rmodels.owned(R(L)))
            R0 = lambda L, v=v: seqof(v.entry(L))
            yield 'its type', lambda L, R=R, R0=R0: rt_of(R(L)) == rt_of(R0(L))
            yield 'not shorter', lambda L, R=R, R0=R0: AND(sl_len(R(L)) >= sl_len(R0(L)), sl_len(R0(L)) > 0)
            yield 'only grows', lambda L, R=R, R0=R0: forall(lambda j: IMP(AND(0 <= j, j < sl_len(R0(L))), sl_at(R(L), j) == sl_at(R0(L), j)), pats=lambda j: sl_at(R(L), j))
            yield 'only grows 2', lambda L, R=R, R0=R0: forall(lambda j: IMP(AND(0 <= j, j < sl_len(R0(L))), sl_at(R(L), j) == sl_at(R0(L), j)), pats=lambda j: sl_at(R0(L), j))
            yield 'by elements of the second', lambda L, R=R, R0=R0: forall(lambda j: IMP(AND(sl_len(R0(L)) <= j, j < sl_len(R(L))), among(sl_at(R(L), j), b)), pats=lambda j: sl_at(R(L), j))
            for i in L.vars('int'):
                yield 'the second so far', lambda L, i=i, R=R, v=v: forall(lambda j: IMP(AND(isslice(b), 0 <= j, j < i(L)), has(sl_at(b, j), R(L))), pats=lambda j: sl_at(b, j))
                yield 'the single one', lambda L, i=i, R=R, v=v: IMP(AND(0 < i(L), NOT(isslice(b))), has(b, R(L)))
