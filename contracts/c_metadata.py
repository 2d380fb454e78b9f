"""the metadata of a chain (P07)"""
from core import *
from spec import *
import models
from models import AS
from c_policy import Ops, glob, entry, merged_to as merged, merge_refused
from c_cache import before, after, u1, ChainHash, fromentry


def keys_of(S, h, sl): return S.eng.content(h.heap, sl.et, sl.b, (), I)


MK = 'internal/utils.MapKeys[map[oidfed.PolicyOperatorName]struct{}, oidfed.PolicyOperatorName, struct{}]'


@contract(MK, short='MapKeys', props=['P07', 'P24'], entry=False)
class MapKeys(Contract):
    allocs = True
    nocache = ALLTRACES
    def ensures(s, S):
        m, r = entry(S, S.old, 0), S.res
        C = keys_of(S, S.new, r)
        yield 'a new list', AND(r.b >= S.na0, r.b < S.na1)
        yield 'the keys', forall(lambda k: m.has(k) == models.contains(S.eng, C, r.o, r.l, k), I, pats=lambda k: m.has(k))
        yield 'only the keys', forall(lambda j: IMP(AND(r.o <= j, j < r.o + r.l), m.has(z3.Select(C, j))), I, pats=lambda j: z3.Select(C, j))
        yield 'each once', forall(lambda i, j: IMP(AND(r.o <= i, i < j, j < r.o + r.l), z3.Select(C, i) != z3.Select(C, j)), I, I, pats=lambda i, j: (z3.Select(C, i), z3.Select(C, j)))
    def inv(s, S, L):
        m = entry(S, S.old, 0)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        for v in L.vars('slice'):
            C = lambda L, v=v: keys_of(S, L.h, v(L))
            yield 'keys so far', lambda L, v=v, C=C: forall(lambda k: IMP(seen(L, k), models.contains(S.eng, C(L), v(L).o, v(L).l, k)), I, pats=lambda k: seen(L, k))
            yield 'only seen keys', lambda L, v=v, C=C: forall(lambda j: IMP(AND(v(L).o <= j, j < v(L).o + v(L).l), AND(m.has(z3.Select(C(L), j)), seen(L, z3.Select(C(L), j)))), I, pats=lambda j: z3.Select(C(L), j))
            yield 'each once', lambda L, v=v, C=C: forall(lambda i, j: IMP(AND(v(L).o <= i, i < j, j < v(L).o + v(L).l), z3.Select(C(L), i) != z3.Select(C(L), j)), I, I, pats=lambda i, j: (z3.Select(C(L), i), z3.Select(C(L), j)))
            yield 'new', lambda L, v=v: AND(v(L).b >= S.na0, v(L).b < L.na)


def value_of(S, ts):
    """a name for the value with these parts"""
    c = fresh('value')
    S.post.add(c == UF('metadata_value', *([x.sort() for x in ts] + [I]))(*ts))
    return c


def policied(m, p, r): return UF('policied', I, I, I, B)(m, p, r)
def unpolicied(m, p): return UF('policy_refused', I, I, B)(m, p)


@contract('(oidfed.Metadata).ApplyPolicy', trusted='applies the policies to the metadata of each entity type (reflection over the fields of structs; decided by the bounded checks of P08 and P11)')
class ApplyPolicies(Contract):
    allocs = True
    def ensures(s, S):
        ts = value_of(S, [x for _, x in S.eng.flat(S.aty[0], S.a[0])])
        p = S.a[1].ref
        yield 'the outcome', IMP(S.ok, AND(S.r(0).ref != 0, policied(ts, p, S.r(0).ref)))
        yield 'or refused', IMP(NOT(S.ok), unpolicied(ts, p))


@contract('(oidfed.TrustChain).Metadata', props=['P07', 'P10', 'P24'])
class ChainMetadata(Ops):
    nocache = None
    def st(s, S, j): return S.old.at(S.a[0], j)
    def crit(s, S, j): return S.old.fld(s.st(S, j), 'MetadataPolicyCrit')
    def cb(s, S, j, k): return UF('critical_before', I, I, B)(j, k)
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        j, k = z3.Ints('j k')
        c = s.crit(S, j)
        # definition: k is critical for one of the first j statements
        st.add(z3.ForAll([k], NOT(s.cb(S, IV(0), k)), patterns=[s.cb(S, IV(0), k)]))
        st.add(z3.ForAll([j, k], IMP(j >= 0, s.cb(S, j + 1, k) == OR(s.cb(S, j, k), models.contains(eng, keys_of(S, S.old, c), c.o, c.l, k))), patterns=[s.cb(S, j + 1, k)]))
        eng.assumed['entries of a trust chain are statements (not nil)'] = 1
        st.add(forall(lambda j: IMP(AND(0 <= j, j < S.a[0].l), s.st(S, j).ref != 0), I))
    def leaf(s, S):
        """the metadata of the subject (none: empty)"""
        m = S.old.fld(s.st(S, IV(0)), 'Metadata')
        t = S.T.id('oidfed.Metadata')
        z = S.eng.zero(t)
        return [z3.If(m.ref == 0, y, x) for (_, x), (_, y) in zip(S.eng.flat(t, S.old.deref(m)), S.eng.flat(t, z))]
    def understood(s, S):
        o = glob(S, S.old, 'OperatorOrder')[0]
        n = S.a[0].l
        return forall(lambda k: IMP(s.cb(S, n, k), models.contains(S.eng, keys_of(S, S.old, o), o.o, o.l, k)), I, pats=lambda k: s.cb(S, n, k))
    def policies(s, S, C, o, n):
        """C lists the policies of the first n statements"""
        return forall(lambda j: IMP(AND(0 <= j, j < n), z3.Select(C, o + j) == S.old.fld(s.st(S, j), 'MetadataPolicy').ref), I, pats=lambda j: z3.Select(C, o + j))
    def ensures(s, S):
        c, n, r = S.a[0], S.a[0].l, S.r(0)
        key = u1('cache_key_of', S.g('cg_entry'))
        cached = AND([S.ok, before(key) == lit('trustchain_resolved_metadata'), r.ref >= S.na0, fromentry(S, 'oidfed.Metadata', S.new.deref(r), S.g('cg_entry'))] + [f for _, f in ChainHash.parts(REG[ChainHash.fn], S, after(key))])
        C, o, p = z3.Const('C!l', AS), z3.Int('o!l'), z3.Int('p!l')
        one = S.old.fld(s.st(S, IV(0)), 'Metadata').ref
        ts = value_of(S, s.leaf(S))
        some = lambda vs, f, pat: NOT(z3.ForAll(vs, NOT(f), patterns=[pat]))
        good = some([C, o, p], AND(s.policies(S, C, o, n), merged(C, o, n, p), policied(ts, p, r.ref)), z3.MultiPattern(merged(C, o, n, p), policied(ts, p, r.ref)))
        bad = OR(some([C, o], AND(s.policies(S, C, o, n), merge_refused(C, o, n)), merge_refused(C, o, n)),
                 some([C, o, p], AND(s.policies(S, C, o, n), merged(C, o, n, p), unpolicied(ts, p)), z3.MultiPattern(merged(C, o, n, p), unpolicied(ts, p))))
        yield 'not from nothing', IMP(AND(n == 0, S.ok), cached)
        yield 'the metadata of a single statement', IMP(AND(S.ok, n == 1), OR(cached, r.ref == one))
        yield 'the metadata of the subject with the policies of all statements', IMP(AND(S.ok, n > 1), OR(cached, good))
        yield 'unknown critical operators are refused', IMP(AND(S.ok, n > 1), OR(cached, s.understood(S)))
        yield 'only refused for a reason', IMP(NOT(S.ok), OR(n == 0, AND(n > 1, OR(NOT(s.understood(S)), bad))))
    def inv(s, S, L):
        seen = lambda L, j, k: s.cb(S, j, k)
        ints = L.vars('int')
        for v in L.vars('map'):
            m = lambda L, v=v: L.h.map(v.t, v(L))
            for i in ints:
                n = lambda L, i=i: i(L) - i.entry(L)
                yield 'critical so far', lambda L, m=m, n=n: forall(lambda k: m(L).has(k) == s.cb(S, n(L), k), I, pats=lambda k: [m(L).has(k), s.cb(S, n(L), k)])
                for q in L.outer('int'):
                    w = lambda L, q=q: q(L) - q.start
                    def part(L, m=m, n=n, w=w):
                        c = s.crit(S, w(L))
                        return forall(lambda k: m(L).has(k) == OR(s.cb(S, w(L), k), models.contains(S.eng, keys_of(S, S.old, c), c.o, n(L), k)), I, pats=lambda k: [m(L).has(k), s.cb(S, w(L), k)])
                    yield 'critical so far (inner)', part
        for v in L.vars(types=['[]*oidfed.MetadataPolicies']):
            for i in ints:
                n = lambda L, i=i: i(L) - i.entry(L)
                yield 'policies so far', lambda L, v=v, n=n: s.policies(S, keys_of(S, L.h, v(L)), v(L).o, n(L))


@contract('(oidfed.TrustChain).Messages', props=['P07', 'P21', 'P24'])
class ChainMessages(Contract):
    allocs = True
    def msg(s, S, j): return S.old.fld(S.old.at(S.a[0], j), 'jwtMsg')
    def listed(s, S, h, v, n):
        x = lambda j: h.at(v, j, '*jwx.ParsedJWT')
        C = S.eng.content(h.heap, v.et, v.b, (), I)
        return AND(v.l == n, forall(lambda j: IMP(AND(v.o <= j, j < v.o + n), z3.Select(C, j) == s.msg(S, j - v.o).ref), I, pats=lambda j: z3.Select(C, j)))
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        eng.assumed['entries of a trust chain are statements (not nil)'] = 1
        st.add(forall(lambda j: IMP(AND(0 <= j, j < S.a[0].l), S.old.at(S.a[0], j).ref != 0), I))
    def ensures(s, S):
        yield 'the messages of the statements, in order', s.listed(S, S.new, S.res, S.a[0].l)
    def inv(s, S, L):
        for v in L.vars('slice'):
            yield 'new', lambda L, v=v: OR(v(L).b == 0, AND(v(L).b >= S.na0, v(L).b < L.na))
            for i in L.vars('int'):
                yield 'so far', lambda L, v=v, i=i: s.listed(S, L.h, v(L), i(L) - i.entry(L))


def evaluated(c, m): return UF('metadata_returned', I, I, I, I, B)(c.b, c.o, c.l, m)
def noneval(c): return UF('metadata_refused', I, I, I, B)(c.b, c.o, c.l)


class NamedMetadata(ChainMetadata):
    """names what is returned for a chain"""
    def ghost(s, S):
        yield from ChainMetadata.ghost(s, S) or []
        yield from (f for _, f in s.named(S))
    def named(s, S):
        yield 'named', IMP(S.ok, evaluated(S.a[0], S.r(0).ref))
        yield 'named refusal', IMP(NOT(S.ok), noneval(S.a[0]))
    def ensures(s, S):
        yield from ChainMetadata.ensures(s, S)
        yield from s.named(S)


NamedMetadata.fn, NamedMetadata.short, NamedMetadata.props = ChainMetadata.fn, ChainMetadata.short, ChainMetadata.props
REG[ChainMetadata.fn] = NamedMetadata()
