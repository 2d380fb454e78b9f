"""Chain filters and rankings (P18)"""
from core import *
from spec import *
import models


def slot(S, h, sl, j):
    """leaf terms of element j of a slice"""
    return [x for _, x in S.eng.flat(sl.et, h.at(sl, j))]


def pathlen(v): return z3.If(v.l <= 3, IV(0), v.l - 3)


class Keep(Contract):
    """A filter that returns, in order, the chains with property kept(j).

    count(j) is the number of chains before j that are kept; it is defined by recursion on j, so that the postconditions
    say: the result has as many elements as chains are kept, and each chain that is kept has the position in the result
    that is the number of kept chains before it.  (Hence nothing else is in the result and the order is the same.)"""
    allocs = True

    def kept(s, S, j): raise NotImplementedError

    def cnt(s, S): return UF('count_' + s.short, I, I)

    def setup(s, eng, st, args, atys): pass

    def requires(s, S):
        cnt, ch = s.cnt(S), S.a[1]
        # definition of count
        yield 'count: none before the first', cnt(IV(0)) == 0
        yield 'count: step', z3.ForAll([j := z3.Int('j')], IMP(j >= 0, AND(cnt(j + 1) == cnt(j) + z3.If(s.kept(S, j), 1, 0), cnt(j) >= 0, cnt(j) <= j)), patterns=[cnt(j)])

    def placed(s, S, h, r, n):
        cnt, ch = s.cnt(S), S.a[1]
        yield 'as many as are kept', r.l == cnt(n)
        yield 'kept chains are in the result at their place', forall(lambda j: IMP(AND(0 <= j, j < n, s.kept(S, j)), AND(0 <= cnt(j), cnt(j) < cnt(n),
                                                                    AND([x == y for x, y in zip(slot(S, h, r, cnt(j)), slot(S, S.old, ch, j))]))), pats=lambda j: cnt(j))

    def ensures(s, S):
        yield from s.placed(S, S.new, S.res, S.a[1].l)
        yield 'nothing from nothing', IMP(isnil(S.a[1]), S.res.l == 0)

    def inv(s, S, L):
        for v in L.vars(types=['oidfed.TrustChains']):
            if v.cell is not None or v.fixed is not None: continue
            for i in L.vars('int'):
                for k in range(2):
                    yield 'placed %d' % k, lambda L, v=v, i=i, k=k: list(s.placed(S, L.h, v(L), i(L) - i.entry(L)))[k][1]


@contract('(oidfed.trustChainFilterFromChecker).Filter', props=['P18'])
class CheckerFilter(Keep):
    def requires(s, S):
        yield 'checker', S.old.fld(S.a[0], 'TrustChainChecker').code != 0
        yield from Keep.requires(s, S)

    def kept(s, S, j):
        """the checker's verdict on chain j"""
        T = S.T
        c = S.old.fld(S.a[0], 'TrustChainChecker')
        v = S.old.at(S.a[1], j)
        return S.eng.ufcall('m_oidfed.TrustChainChecker_Check', c.code, [v], [S.a[1].et], T.id('bool'), S.pre)


@contract('(oidfed.trustChainsFilterPathLength).Filter', props=['P18'])
class PathLengthFilter(Keep):
    def requires(s, S):
        n = S.a[1].l
        m, w = s.m, s.w
        # the minimum of a non-empty sequence
        yield 'minimum', IMP(n > 0, AND(0 <= w, w < n, m == s.pl(S, w), forall(lambda j: IMP(AND(0 <= j, j < n), m <= s.pl(S, j)), pats=lambda j: slot(S, S.old, S.a[1], j)[2])))
        yield from Keep.requires(s, S)
    def setup(s, eng, st, args, atys):
        s.m, s.w = fresh('min'), fresh('argmin')
    def pl(s, S, j): return pathlen(S.old.at(S.a[1], j))
    def kept(s, S, j):
        """the limit, or the minimum if there is none"""
        lim = S.old.fld(S.a[0], 'maxPathLen')
        return s.pl(S, j) <= z3.If(lim < 0, s.m, lim)
    def inv(s, S, L):
        yield from Keep.inv(s, S, L)
        ints = L.vars('int')
        ch = S.a[1]
        for v in ints:
            for i in ints:
                if v is i: continue
                yield 'lower bound so far', lambda L, v=v, i=i: forall(lambda j: IMP(AND(0 <= j, j < i(L)), v(L) <= s.pl(S, j)), pats=lambda j: slot(S, S.old, ch, j)[2])
                yield 'is one of them', lambda L, v=v, i=i: exists(lambda j: AND(0 <= j, j < ch.l, v(L) == s.pl(S, j)), I)


@contract('(oidfed.trustChainsCheckerTrustAnchor).Check', props=['P18'])
class AnchorCheck(Contract):
    def requires(s, S):
        yield 'no nil statements', forall(lambda j: IMP(AND(0 <= j, j < S.a[1].l), S.old.at(S.a[1], j).ref != 0))
    def ensures(s, S):
        c = S.a[1]
        last = S.old.at(c, c.l - 1)
        yield 'ends at the anchor', S.res == AND(c.l > 0, S.old.fld(last, 'Issuer') == S.old.fld(S.a[0], 'anchor'))


@contract('(oidfed.trustChainChecker).Check', props=['P18'])
class FncCheck(Contract):
    def requires(s, S): yield 'function', S.old.fld(S.a[0], 'checker').code != 0
    def ensures(s, S):
        yield 'the verdict of the function', S.res == S.eng.ufcall('fn', S.old.fld(S.a[0], 'checker').code, [S.a[1]], [S.aty[1]], S.T.id('bool'), S.pre)


def seq(name):
    return lambda j: tuple(UF('%s_%s' % (name, p), I, I)(j) for p in 'bolc')


@contract('(oidfed.TrustChains).Filter', props=['P18'])
class Filters(Contract):
    """all given filters are applied, one after the other"""
    allocs = True
    def step(s, S, j):
        x = Slice(*s.q(j), S.T.elem(S.aty[0]))
        f = S.old.at(S.a[1], j)
        r = S.eng.ufcall('m_oidfed.TrustChainsFilter_Filter', f.code, [x], [S.aty[0]], S.aty[0], S.pre)
        return AND([a == b for a, b in zip(s.q(j + 1), (r.b, r.o, r.l, r.c))])
    def requires(s, S):
        yield 'filters', forall(lambda j: IMP(AND(0 <= j, j < S.a[1].l), S.old.at(S.a[1], j).code != 0))
    def define(s, S):
        # definition: filtered(j) is the outcome of the first j filters
        c = S.a[0]
        yield 'filtered: none', AND([a == b for a, b in zip(s.q(IV(0)), (c.b, c.o, c.l, c.c))])
        yield 'filtered: step', z3.ForAll([j := z3.Int('j')], IMP(AND(0 <= j, j < S.a[1].l), s.step(S, j)), patterns=[s.q(j)[0]])
    def setup(s, eng, st, args, atys):
        s.q = seq('filtered')
        for _, f in s.define(Spec(eng, s, args, atys, st, st, None, None)): st.add(f)
    def isq(s, v, j): return AND([a == b for a, b in zip(s.q(j), (v.b, v.o, v.l, v.c))])
    def ensures(s, S):
        n = S.a[1].l
        if S.eng.cur is not s:
            s.q = seq('filtered!%s' % fresh('f'))
            yield from s.define(S)
            yield 'first filter', mention(s.q(IV(1))[0])
        yield 'all filters are applied in order, unless nothing is left', exists(lambda k: AND(0 <= k, k <= n, OR(k == n, AND(k > 0, S.res.l == 0)), s.isq(S.res, k)), I)
    def inv(s, S, L):
        for v in L.vars(types=['oidfed.TrustChains']):
            for i in L.vars('int'):
                yield 'filtered so far', lambda L, v=v, i=i: s.isq(v(L), i(L) - i.entry(L))


@contract('(oidfed.TrustChains).scored', props=['P18'], entry=False)
class Scored(Contract):
    allocs = True
    def requires(s, S): yield 'scorer', S.a[1].code != 0
    def same(s, S, h, r, n):
        c = S.a[0]
        def one(j):
            ch = S.old.at(c, j)
            e = h.at(r, j)
            sc = S.eng.ufcall('fn', S.a[1].code, [ch], [c.et], S.T.id('int'), S.pre)
            return AND(h.fld(e, 'score') == sc, AND([x == y for (_, x), (_, y) in zip(S.eng.flat(c.et, h.fld(e, 'chain')), S.eng.flat(c.et, ch))]))
        yield 'each chain with its score', forall(lambda j: IMP(AND(0 <= j, j < n), one(j)), pats=lambda j: h.fld(h.at(r, j), 'score'))
    def ensures(s, S):
        yield 'length', S.res.l == S.a[0].l
        yield 'new', AND(S.res.b >= S.na0, S.res.b < S.na1)
        yield from s.same(S, S.new, S.res, S.a[0].l)
    def inv(s, S, L):
        for v in L.vars('slice'):
            if v.fixed is None: continue
            for i in L.vars('int'):
                yield 'scored so far', lambda L, v=v, i=i: [f for _, f in s.same(S, L.h, v(L), i(L) - i.entry(L))][0]


class Sort(Contract):
    """a permutation of the chains, ordered by score; chains with the same score keep their order"""
    allocs = True
    desc = False
    def requires(s, S): yield 'scorer', S.eng.fcode(S.a[1]) != 0 if isinstance(S.a[1], FuncV) else S.a[1].code != 0
    def modifies(s, S):
        return [(('E', S.T.s(S.a[0].et), p), S.a[0].b) for p, _ in S.T.leaves(S.a[0].et)]
    def score(s, S, h, j):
        ch = h.at(S.a[0], j)
        if isinstance(S.a[1], FuncV) and S.a[1].name == ScorePathLen.fn: return pathlen(ch)
        return S.eng.ufcall('fn', S.a[1].code, [ch], [S.a[0].et], S.T.id('int'), S.pre)
    def slot_abs(s, S, h, c, k):
        return [z3.Select(S.eng.content(h.heap, c.et, c.b, p, so), k) for p, so in S.T.leaves(c.et)]
    def ensures(s, S):
        c, n = S.a[0], S.a[0].l
        P, Q = S.eng.sorted_by if S.eng.cur is s else [UF('%s' % fresh(x), I, I) for x in ('perm', 'inv')]
        yield 'the same collection', AND(S.res.b == c.b, S.res.o == c.o, S.res.l == c.l)
        P0, Q0 = P, Q
        yield 'a permutation', forall(lambda j: IMP(AND(0 <= j, j < n), AND(0 <= P(j), P(j) < n, Q(P(j)) == j, 0 <= Q(j), Q(j) < n, P(Q(j)) == j)))
        yield 'of the chains', forall(lambda j: IMP(AND(0 <= j, j < n), AND([x == y for x, y in zip(slot(S, S.new, c, j), slot(S, S.old, c, P(j)))])))
        yield 'each of the chains', forall(lambda k: IMP(AND(c.o <= k, k < c.o + n), AND([0 <= Q(k - c.o), Q(k - c.o) < n, P(Q(k - c.o)) == k - c.o] + [x == y for x, y in zip(slot(S, S.new, c, Q(k - c.o)), s.slot_abs(S, S.old, c, k))])), I, pats=lambda k: s.slot_abs(S, S.old, c, k)[0])
        ge = (lambda a, b: a >= b) if s.desc else (lambda a, b: a <= b)
        sc = lambda j: s.score(S, S.old, P(j))
        yield 'ordered by score', forall(lambda i, j: IMP(AND(0 <= i, i < j, j < n), ge(sc(i), sc(j))), pats=lambda i, j: (P(i), P(j)))
        yield 'equal scores keep their order', forall(lambda i, j: IMP(AND(0 <= i, i < j, j < n, sc(i) == sc(j)), P(i) < P(j)))
    def inv(s, S, L):
        P, Q = S.eng.sorted_by
        c = S.a[0]
        for i in L.vars('int'):
            n = lambda L, i=i: i(L) - i.entry(L)
            yield 'written so far', lambda L, n=n: forall(lambda j: IMP(AND(0 <= j, j < n(L)), AND([x == y for x, y in zip(slot(S, L.h, c, j), slot(S, S.old, c, P(j)))])), pats=lambda j: slot(S, L.h, c, j)[2])
            yield 'the rest is unchanged', lambda L, n=n: True and forall(lambda j: IMP(AND(n(L) <= j, j < c.l), AND([x == y for x, y in zip(slot(S, L.h, c, j), slot(S, S.old, c, j))])), pats=lambda j: slot(S, L.h, c, j)[2])


@contract('(oidfed.TrustChains).SortAsc', props=['P18'])
class SortAsc(Sort): pass


@contract('(oidfed.TrustChains).SortDesc', props=['P18'])
class SortDesc(Sort): desc = True


@contract('oidfed.TrustChainScoringPathLen', props=['P18'])
class ScorePathLen(Contract):
    def ensures(s, S): yield 'number of intermediates', S.res == pathlen(S.a[0])
