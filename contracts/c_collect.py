"""collecting entities (P23)"""
from core import *
from spec import *
import models
from models import http_url, http_has, http_first, http_body, http_kind
from c_filters import Keep, slot
from c_resolver import R_
from c_reflect import has as isin, each
from c_policy import glob
from c_cache import CacheRead, CacheWrite, fromentry, before, after, boxed, u1

CE, REQ, RR = '*oidfed.CollectedEntity', 'apimodel.EntityCollectionRequest', 'apimodel.ResolveRequest'
ECOLL, FILT, MR = 'oidfed.EntityCollector', 'oidfed.EntityCollectionFilter', 'oidfed.MetadataResolver'


class Approved(Keep):
    """the entities that all filters approve, in order"""
    fs = None
    def filters(s, S): return S.old.fld(S.a[0], 'Filters')
    def approves(s, S, k, j):
        """filter k approves entity j"""
        f = S.old.at(s.filters(S), k)
        e = S.old.at(s.coll(S), j)
        return S.eng.ufcall('m_%s_Filter' % FILT, f.code, [e], [s.coll(S).et], S.T.id('bool'), S.pre)
    def ab(s, k, j): return UF('approved_by_first', I, I, B)(k, j)
    def kept(s, S, j): return UF('approved', I, B)(j)
    def define(s, S):
        """approved_by_first(k, j): the first k filters approve entity j; approved(j): all filters do, and there are some"""
        n = s.filters(S).l
        k, j = z3.Ints('k j')
        yield 'approved: none', z3.ForAll([j], s.ab(IV(0), j), patterns=[s.ab(IV(0), j)])
        yield 'approved: step', z3.ForAll([k, j], IMP(AND(0 <= k, k < n), s.ab(k + 1, j) == AND(s.ab(k, j), s.approves(S, k, j))), patterns=[s.ab(k, j)])
        yield 'approved: all', z3.ForAll([j], s.kept(S, j) == AND(n > 0, s.ab(n, j)), patterns=[s.kept(S, j)])
        yield 'approved: each', z3.ForAll([k, j], IMP(AND(s.ab(n, j), 0 <= k, k < n), s.approves(S, k, j)), patterns=[z3.MultiPattern(s.ab(n, j), s.ab(k, j))])
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        # what the collector found (the simple collector, if none is configured)
        c = S.old.fld(S.a[0], 'Collector')
        x = S.eng.ufcall('m_%s_CollectEntities' % ECOLL, c.code, [S.a[1]], [S.aty[1]], S.T.id('[]' + CE), st)
        y = simple(S, rterms(S, S.old, S.a[1]))
        n = [fresh('found_' + k) for k in 'bolc']
        st.add(AND([a == z3.If(c.code == 0, q, p) for a, p, q in zip(n, (x.b, x.o, x.l, x.c), y)]), n[2] >= 0, n[1] >= 0, n[0] >= 0)
        s.found = Slice(*n, x.et)
    def coll(s, S): return s.found


def rterms(S, h, req, types=None):
    """a request by its content"""
    out = []
    for f in S.T.fields(S.T.id(REQ)):
        v = h.fld(req, f['n'])
        if isinstance(v, Slice):
            if types is not None and f['n'] == 'EntityTypes': out += types
            else: out += [S.eng.content(h.heap, v.et, v.b, (), I), v.o, v.l, v.b == 0]
        else: out.append(v)
    return out


def simple(S, ts):
    """what the simple collector finds for a request"""
    return [UF('simple_collector_' + k, *([x.sort() for x in ts] + [I]))(*ts) for k in 'bolc']


@contract('(*oidfed.SimpleEntityCollector).CollectEntities', trusted='goroutines and channels; its result is a function of the request and the world (decided by the bounded checks of P23)')
class SimpleCollector(Contract):
    allocs = True
    def requires(s, S): yield 'receiver', S.a[0].ref != 0
    def modifies(s, S): return S.mod(S.a[0], 'visitedEntities')
    def ensures(s, S):
        r = S.res
        yield 'the entities found', AND([x == y for x, y in zip((r.b, r.o, r.l, r.c), simple(S, rterms(S, S.old, S.a[1])))])


@contract('(*oidfed.SimpleOPCollector).CollectEntities', props=['P23', 'P24'])
class OPs(Contract):
    """providers: the same request, for that entity type"""
    allocs = True
    def ensures(s, S):
        C, o = z3.Const('C!t', models.AS), z3.Int('o!t')
        r = S.res
        ts = simple(S, rterms(S, S.old, S.a[1], [C, o, IV(1), FALSE]))
        yield 'what the simple collector finds for providers', NOT(z3.ForAll([C, o], NOT(AND([z3.Select(C, o) == lit('openid_provider')] + [x == y for x, y in zip((r.b, r.o, r.l, r.c), ts)])), patterns=[ts[0]]))


@contract('(*oidfed.filterableVerifiedChainsEntityCollector).CollectEntities', short='filterable.CollectEntities', props=['P23', 'P24'], entry=False)
class Filterable(Approved):
    def modifies(s, S): return S.mod(S.a[0], 'Collector')
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        fs = s.filters(S)
        yield 'filters', forall(lambda k: IMP(AND(0 <= k, k < fs.l), S.old.at(fs, k).code != 0), I, pats=lambda k: S.old.at(fs, k).code)
        yield from s.define(S)
        cnt = s.cnt(S)
        yield 'count: none before the first', cnt(IV(0)) == 0
        yield 'count: step', z3.ForAll([j := z3.Int('j')], IMP(j >= 0, AND(cnt(j + 1) == cnt(j) + z3.If(s.kept(S, j), 1, 0), cnt(j) >= 0, cnt(j) <= j)), patterns=[cnt(j)])
    def placed(s, S, h, r, n):
        cnt, ch = s.cnt(S), s.coll(S)
        yield 'as many as are approved', r.l == cnt(n)
        yield 'approved entities are in the result at their place', forall(lambda j: IMP(AND(0 <= j, j < n, s.kept(S, j)), AND(0 <= cnt(j), cnt(j) < cnt(n), h.at(r, cnt(j)).ref == S.old.at(ch, j).ref)), pats=lambda j: cnt(j))
    def ensures(s, S):
        yield from s.placed(S, S.new, S.res, s.coll(S).l)
    def inv(s, S, L):
        for v in L.vars(types=['[]' + CE]):
            if v.cell is not None or v.fixed is not None: continue
            for i in L.vars('int'):
                for k in range(2):
                    yield 'placed %d' % k, lambda L, v=v, i=i, k=k: list(s.placed(S, L.h, v(L), i(L) - i.entry(L)))[k][1]
        for q in L.outer('int'):
            for i in L.vars('int'):
                w = lambda L, q=q: q(L) - q.start
                yield 'approved so far', lambda L, w=w, i=i: s.ab(i(L) - i.entry(L), w(L))
                for b in L.vars('bool'):
                    yield 'verdict so far', lambda L, b=b, i=i: b(L) == (i(L) - i.entry(L) > 0)


def resolver(S): return glob(S, S.old, 'DefaultMetadataResolver')[0].code


def asked(S, meth, rt, f, subject, anchors, h):
    """f of the answer of the default resolver to the request for the subject and these trust anchors (a list of ids)"""
    T = S.T
    t = T.id(RR)
    xs = [z3.Int('ta!' + k) for k in 'bolc']
    z = S.eng.zero(t)
    vals = []
    lt = None
    for fd in T.fields(t):
        if fd['n'] == 'Subject': vals.append(subject)
        elif fd['n'] == 'TrustAnchor':
            l = Slice(*xs, T.elem(fd['t']))
            vals.append(l)
        else: vals.append(S.old.fld(z, fd['n']))
    req = StructV(t, vals)
    r = S.eng.ufcall('m_%s_%s' % (MR, meth), resolver(S), [req], [t], rt, S.pre)
    C = S.eng.content(h.heap, l.et, l.b, (), I)
    first = r.f[0] if isinstance(r, TupleV) else r
    pat = [x for _, x in S.eng.flat(T.t[rt]['r'][0], first)][0]
    return NOT(z3.ForAll(xs, NOT(AND(anchors(C, l.o, l.l), f(r))), patterns=[pat]))


@contract('(oidfed.EntityCollectionFilterVerifiedChains).Filter', props=['P23', 'P24'])
class VChains(Contract):
    allocs = True
    def requires(s, S): yield 'a default resolver', resolver(S) != 0
    def ensures(s, S):
        ta = S.old.fld(S.a[0], 'TrustAnchors')
        ids = S.eng.content(S.old.heap, ta.et, ta.b, (S.T.fidx(ta.et, 'EntityID'),), I)
        def same(C, o, n): return AND(n == ta.l, forall(lambda j: IMP(AND(ta.o <= j, j < ta.o + ta.l), z3.Select(C, o + (j - ta.o)) == z3.Select(ids, j)), I, pats=lambda j: z3.Select(ids, j)))
        yield 'nothing is not approved', IMP(S.a[1].ref == 0, NOT(S.res))
        yield 'exactly those the resolver confirms as valid for the trust anchors', IMP(S.a[1].ref != 0, asked(S, 'ResolvePossible', S.T.id("(validConfirmed bool, invalidConfirmed bool)"), lambda r: S.res == r.f[0], S.old.fld(S.a[1], 'EntityID'), same, S.new))


class OPFilter(Contract):
    """a filter on the metadata of a provider: what was collected, or else what the default resolver says"""
    closure = True
    allocs = True
    def requires(s, S): yield 'a default resolver', resolver(S) != 0
    def good(s, S, op): raise NotImplementedError
    def ensures(s, S):
        e = S.a[0]
        md = S.old.fld(e, 'metadata')
        ids = S.old.deref(S.eng.fvs[0])
        t = S.T.id('oidfed.OpenIDProviderMetadata')
        def provider(m):
            op = S.old.fld(Ptr(m, S.T.id('oidfed.Metadata')), 'OpenIDProvider')
            return AND(m != 0, op.ref != 0, s.good(S, op))
        def same(C, o, n): return AND(n == ids.l, o == ids.o, forall(lambda j: IMP(AND(ids.o <= j, j < ids.o + ids.l), z3.Select(C, j) == z3.Select(S.eng.content(S.old.heap, ids.et, ids.b, (), I), j)), I, pats=lambda j: z3.Select(C, j)))
        yield 'nothing is not approved', IMP(e.ref == 0, NOT(S.res))
        yield 'by the collected metadata', IMP(AND(e.ref != 0, md.ref != 0), S.res == provider(md.ref))
        yield 'or by the metadata the resolver finds', IMP(AND(e.ref != 0, md.ref == 0), asked(S, 'Resolve', S.T.id('(*oidfed.Metadata, error)'), lambda r: S.res == provider(r.f[0].ref), S.old.fld(e, 'EntityID'), same, S.new))


class HasType(OPFilter):
    typ = None
    def good(s, S, op):
        l = S.old.fld(op, 'ClientRegistrationTypesSupported')
        return models.contains(S.eng, S.eng.content(S.old.heap, l.et, l.b, (), I), l.o, l.l, lit(s.typ))


P_ = 'oidfed.EntityCollectionFilter'


@contract(P_ + 'OPSupportsAutomaticRegistration$1', props=['P23', 'P24'], entry=False)
class FAuto(HasType): typ = 'automatic'


@contract(P_ + 'OPSupportsExplicitRegistration$1', props=['P23', 'P24'], entry=False)
class FExpl(HasType): typ = 'explicit'


class Includes(OPFilter):
    field = None
    def good(s, S, op):
        need, l = S.old.deref(S.eng.fvs[1]), S.old.fld(op, s.field)
        a, b = [S.eng.mkiface(S.pre, S.T.id('[]string'), x) for x in (need, l)]
        return each(a.code, lambda x: isin(x, b.code))


@contract(P_ + 'OPSupportedScopesIncludes$1', props=['P23', 'P24'], entry=False)
class FScopes(Includes): field = 'ScopesSupported'


@contract(P_ + 'OPSupportedGrantTypesIncludes$1', props=['P23', 'P24'], entry=False)
class FGrants(Includes): field = 'GrantTypesSupported'


@contract(P_ + 'OPs$1', props=['P23', 'P24'], entry=False)
class FOPs(Contract):
    closure = True
    def ensures(s, S):
        l = S.old.fld(S.a[0], 'EntityTypes')
        yield 'providers', S.res == AND(S.a[0].ref != 0, models.contains(S.eng, S.eng.content(S.old.heap, l.et, l.b, (), I), l.o, l.l, lit('openid_provider')))


def inquiry(S, r, url, req):
    """the exchange r is the request req to the collection endpoint url"""
    h = S.old
    out = [http_url(r) == url]
    for k, f in (('from_entity_id', 'FromEntityID'), ('trust_anchor', 'TrustAnchor'), ('name_query', 'NameQuery')):
        out += [http_has(r, lit(k)), http_first(r, lit(k)) == h.fld(req, f)]
    for k, f in (('trust_mark_type', 'TrustMarkTypes'), ('entity_type', 'EntityTypes'), ('claims', 'Claims')):
        l = h.fld(req, f)
        out += [http_has(r, lit(k)) == (l.l > 0), IMP(l.l > 0, http_first(r, lit(k)) == h.at(l, 0))]
    out += [http_has(r, lit('limit')), http_first(r, lit('limit')) == UF('decimal', I, I)(h.fld(req, 'Limit'))]
    return AND(out)


def some(f): return NOT(forall(lambda r: NOT(f(r)), I, pats=lambda r: http_kind(r)))


@contract('(oidfed.SimpleRemoteEntityCollector).CollectEntities', props=['P23', 'P24'])
class RemoteCollect(Contract):
    allocs = True
    def ensures(s, S):
        u = S.old.fld(S.a[0], 'EntityCollectionEndpoint')
        yield "entities only from a positive answer of the endpoint to this request", OR(isnil(S.res), some(lambda r: AND(http_kind(r) == 2, inquiry(S, r, u, S.a[1]))))


@contract('internal/utils.RemoveFromSlice[string]', short='RemoveFromSlice', props=['P23', 'P24'], entry=False)
class Removed(Contract):
    """the elements of the list but the given one"""
    allocs = True
    def same(s, S, h, r, n):
        l = S.a[0]
        C, D = S.eng.content(h.heap, l.et, r.b, (), I), S.eng.content(S.old.heap, l.et, l.b, (), I)
        a, b = lambda x: models.contains(S.eng, C, r.o, r.l, x), lambda x: models.contains(S.eng, D, l.o, n, x)
        return forall(lambda x: a(x) == AND(b(x), x != S.a[1]), I, pats=lambda x: [a(x), b(x)])
    def ensures(s, S):
        yield 'the other elements', s.same(S, S.new, S.res, S.a[0].l)
        yield 'a new list', AND(S.res.b >= S.na0, S.res.b < S.na1)
    def inv(s, S, L):
        for v in L.vars('slice'):
            for i in L.vars('int'):
                yield 'so far', lambda L, v=v, i=i: s.same(S, L.h, v(L), i(L) - i.entry(L))
            yield 'new', lambda L, v=v: AND(v(L).b >= S.na0, v(L).b < L.na)


def endpoint(S, x):
    """the collection endpoint published in the configuration of the entity x (named by the world), '' if none"""
    h = S.old
    r = R_(S.eng, h)
    m = h.fld(Ptr(r.ec(x), S.T.id('oidfed.EntityStatement')), 'Metadata')
    f = h.fld(m, 'FederationEntity')
    ex = h.fld(f, 'Extra')
    v = ex.get(lit('federation_collection_endpoint'))
    st = S.T.id('string')
    return z3.If(AND(r.ec_ok(x), m.ref != 0, f.ref != 0, ex.has(lit('federation_collection_endpoint')), models.tagof(v.code) == S.eng.tid(st)), S.eng.unbox(S.pre, st, v), lit(''))


@contract('(oidfed.SmartRemoteEntityCollector).CollectEntities', props=['P23', 'P24'])
class SmartCollect(Contract):
    allocs = True
    def ensures(s, S):
        l = S.old.fld(S.a[0], 'TrustAnchors')
        c = S.eng.content(S.old.heap, l.et, l.b, (), I)
        def at(x): return AND(endpoint(S, x) != lit(''), some(lambda r: AND(http_kind(r) == 2, inquiry(S, r, endpoint(S, x), S.a[1]))))
        first = at(S.old.fld(S.a[1], 'TrustAnchor'))
        inl = lambda x: models.contains(S.eng, c, l.o, l.l, x)
        later = NOT(forall(lambda x: NOT(AND(inl(x), at(x))), I, pats=lambda x: inl(x)))
        local = AND([x == y for x, y in zip((S.res.b, S.res.o, S.res.l, S.res.c), simple(S, rterms(S, S.old, S.a[1])))])
        yield "an answer of the collection endpoint of one of the trust anchors, or what is collected locally", OR(first, later, local)
    def inv(s, S, L):
        l = S.old.fld(S.a[0], 'TrustAnchors')
        c = S.eng.content(S.old.heap, l.et, l.b, (), I)
        for v in L.vars(types=['[]string']):
            C = lambda L, v=v: S.eng.content(L.h.heap, l.et, v(L).b, (), I)
            yield 'trust anchors', lambda L, v=v, C=C: forall(lambda j: IMP(AND(v(L).o <= j, j < v(L).o + v(L).l), OR(z3.Select(C(L), j) == S.old.fld(S.a[1], 'TrustAnchor'), models.contains(S.eng, c, l.o, l.l, z3.Select(C(L), j)))), I, pats=lambda j: z3.Select(C(L), j))


LISTING = 'subordinate_listing'


@contract('oidfed.subordinateListingCacheSet', props=['P19', 'P23'], entry=False)
class SetListing(CacheWrite):
    kind = LISTING
    def question(s, S, key): yield 'endpoint', after(key) == S.a[0]
    def stored(s, S): return boxed(S, '[]string', *[x for _, x in S.eng.flat(S.T.id('[]string'), S.a[1])])
    def expires(s, S): return IV(3600 * 10 ** 9)


@contract('oidfed.subordinateListingCacheGet', props=['P19', 'P23'], entry=False)
class GetListing(CacheRead):
    kind = LISTING
    def question(s, S, key): yield 'endpoint', after(key) == S.a[0]
    def hit(s, S): return NOT(isnil(S.res))
    def result(s, S, hit, entry): yield 'the list of the entry', IMP(hit, fromentry(S, '[]string', S.res, entry))


def answered(S, u): return some(lambda r: AND(http_kind(r) == 2, http_url(r) == u))


@contract('oidfed.httpFetchList', props=['P23', 'P24'], entry=False)
class HttpList(Contract):
    allocs = True
    nocache = ALLTRACES
    def ensures(s, S): yield 'only an answer of the endpoint', IMP(S.ok, answered(S, S.a[0]))


@contract('oidfed.fetchList', props=['P19', 'P23', 'P24'], entry=False)
class FetchList(Contract):
    """the listing of an endpoint: its answer, or the entry for it"""
    allocs = True
    def ensures(s, S):
        key = u1('cache_key_of', S.g('cg_entry'))
        n0, n1 = S.g('cs_n', True), S.g('cs_n')
        cached = AND(before(key) == lit(LISTING), after(key) == S.a[0], fromentry(S, '[]string', S.r(0), S.g('cg_entry')))
        yield 'the answer of the endpoint, or the entry for it', IMP(S.ok, OR(AND(n1 == n0, cached), answered(S, S.a[0])))
        yield 'an answer is stored for this endpoint only', OR(n1 == n0, AND(n1 == n0 + 1, before(S.g('cs_key')) == lit(LISTING), after(S.g('cs_key')) == S.a[0], S.g('cs_dur') <= IV(3600 * 10 ** 9),
            S.g('cs_val') == boxed(S, '[]string', *[x for _, x in S.eng.flat(S.T.id('[]string'), S.r(0))])))
