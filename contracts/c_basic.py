from core import *
from spec import *
import models
from models import clock, contains


@contract('unixtime.VerifyTime', props=['P03'])
class VerifyTime(Contract):
    def ensures(s, S):
        iat, exp = S.old.deref(S.a[0]), S.old.deref(S.a[1])
        bad = OR(AND(S.a[0].ref != 0, iat.get(0) != 0, iat.get(0) > clock), AND(S.a[1].ref != 0, exp.get(0) != 0, exp.get(0) < clock))
        yield 'error exactly if not yet valid or expired', (S.res.code == 0) == NOT(bad)


@contract('(*oidfed.trustTree).limitExpiration', props=['P19'], entry=False)
class LimitExp(Contract):
    nocache = ALLTRACES
    def requires(s, S): yield 'tree', S.a[0].ref != 0
    def modifies(s, S): return S.mod(S.a[0], 'expiresAt')
    def ensures(s, S):
        o, n, e = S.old.fld(S.a[0], 'expiresAt').get(0), S.new.fld(S.a[0], 'expiresAt').get(0), S.a[1].get(0)
        yield 'minimum', n == z3.If(e == 0, o, z3.If(o == 0, e, z3.If(e < o, e, o)))


@contract('(oidfed.TrustChain).PathLen', props=['P18'])
class PathLen(Contract):
    pure = True
    def ensures(s, S):
        yield 'number of intermediates', S.res == z3.If(S.a[0].l <= 3, IV(0), S.a[0].l - 3)


@contract('(oidfed.TrustChain).ExpiresAt', props=['P18', 'P19'])
class ExpiresAt(Contract):
    nocache = ALLTRACES
    def requires(s, S):
        h = S.old
        yield 'no nil statements', forall(lambda j: IMP(AND(0 <= j, j < S.a[0].l), h.at(S.a[0], j).ref != 0))
    def ensures(s, S):
        h = S.old
        c = S.a[0]
        e = lambda j: h.fld(h.at(c, j), 'ExpiresAt').get(0)
        r = S.res.get(0)
        yield 'empty chain', IMP(c.l == 0, r == 0)
        yield 'not after any', forall(lambda j: IMP(AND(0 <= j, j < c.l), r <= e(j)))
        yield 'is one of them', IMP(c.l > 0, exists(lambda j: AND(0 <= j, j < c.l, r == e(j)), I))
    def inv(s, S, L):
        h = S.old
        c = S.a[0]
        e = lambda j: h.fld(h.at(c, j), 'ExpiresAt').get(0)
        for v in L.vars(types=['unixtime.Unixtime']):
            for i in L.vars('int'):
                yield 'min so far', lambda L, v=v, i=i: forall(lambda j: IMP(AND(0 <= j, j < i(L)), v(L).get(0) <= e(j)))
                yield 'is one', lambda L, v=v, i=i: exists(lambda j: AND(0 <= j, j < c.l, v(L).get(0) == e(j)))


def anchor_seq(S, a):
    """content of the ids of the trust anchors"""
    et = a.et
    return S.eng.content(S.old.heap, et, a.b, (S.T.fidx(et, 'EntityID'),), I)


@contract('(oidfed.TrustAnchors).EntityIDs', props=['P01'])
class EntityIDs(Contract):
    allocs = True
    def same(s, S, h, r, n):
        a = S.a[0]
        ca, cr = anchor_seq(S, a), S.eng.content(h.heap, r.et, r.b, (), I)
        yield 'ids', forall(lambda j: IMP(AND(r.o <= j, j < r.o + n), z3.Select(cr, j) == z3.Select(ca, a.o + (j - r.o))), pats=lambda j: z3.Select(cr, j))
        yield 'all ids', forall(lambda j: IMP(AND(a.o <= j, j < a.o + n), z3.Select(cr, r.o + (j - a.o)) == z3.Select(ca, j)), pats=lambda j: z3.Select(ca, j))
    def ensures(s, S):
        a, r = S.a[0], S.res
        yield 'length', r.l == a.l
        yield from s.same(S, S.new, r, r.l)
        ca, cr = anchor_seq(S, a), S.eng.content(S.new.heap, r.et, r.b, (), I)
        yield 'exactly the ids of the anchors', forall(lambda x: contains(None, cr, simp(r.o), simp(r.l), x) == contains(None, ca, simp(a.o), simp(a.l), x),
                                                       pats=lambda x: [contains(None, cr, simp(r.o), simp(r.l), x), contains(None, ca, simp(a.o), simp(a.l), x)])
    def inv(s, S, L):
        a = S.a[0]
        for v in L.vars('slice'):
            for i in L.vars('int'):
                yield 'len', lambda L, v=v, i=i: v(L).l == i(L) - i.entry(L)
                yield 'ids', lambda L, v=v: AND([f for _, f in s.same(S, L.h, v(L), v(L).l)])
