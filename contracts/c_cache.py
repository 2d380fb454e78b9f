"""caching (P19): an entry is stored for exactly one question and lives no longer than what it was computed from"""
from core import *
from spec import *
import models
from models import clock, sat, u1, mp_get, MPROJ, enc_json
from c_sign import boxed
from c_resolver import TT, R_, Anchors


def before(k): return u1('str_before_colon', k)
def after(k): return u1('str_after_colon', k)
def unb64(x): return u1('unb64', x)
def preimage(h): return u1('unsha3', h)


def left(e):
    """the time left until e"""
    return sat(e - clock)


# ------------------------------------------------------------------- encodings
def raw_of(h, p): return h.str(h.fld(p, 'RawJWT'))


MPROJ['jwks.JWKS'] = lambda eng, h, v: [('set', TRUE, v.get(0).code)]
MPROJ['internal/jwx.ParsedJWT'] = lambda eng, h, v: [('raw', TRUE, h.str(h.fld(v, 'RawJWT')))]
MPROJ['oidfed.EntityStatement'] = lambda eng, h, v: [('raw', h.fld(v, 'jwtMsg').ref != 0, raw_of(h, h.fld(v, 'jwtMsg')))] + [
    (n, TRUE, h.fld(v, n)) for n in ('Issuer', 'Subject')] + [(n, TRUE, h.fld(v, n).get(0)) for n in ('IssuedAt', 'ExpiresAt')]


class Encoding(Contract):
    allocs = True
    slots = {}
    def ensures(s, S):
        code = S.new.str(S.r(0))
        for n, g, x in MPROJ[s.tname](S.eng, S.old, S.a[0]):
            yield 'recoverable: ' + n, IMP(AND(S.ok, g), s.slot(S, n, x.sort(), code) == x)


@contract('(internal/jwx.ParsedJWT).MarshalMsgpack', props=['P19'])
class EncJWT(Encoding):
    tname = 'internal/jwx.ParsedJWT'
    def slot(s, S, n, so, code): return mp_get('', so, code)


@contract('(jwks.JWKS).MarshalMsgpack', props=['P19'])
class EncJWKS(Encoding):
    tname = 'jwks.JWKS'
    def slot(s, S, n, so, code):
        f = S.T.fields(S.T.id('jwks.JWKS'))[0]
        return models.jget(S.eng, f['t'], mp_get('', I, code), models.tagname(f), (), so)


@contract('(oidfed.EntityStatement).MarshalMsgpack', props=['P19'])
class EncES(Encoding):
    tname = 'oidfed.EntityStatement'
    def slot(s, S, n, so, code):
        if n == 'raw': return mp_get('.1>raw', so, code)
        return mp_get('.0.%d' % S.T.fidx(S.T.id('oidfed.EntityStatementPayload'), n) + ('.0' if n.endswith('At') else ''), so, code)


# ------------------------------------------------------------------------ keys
@contract('cache.Key', props=['P19'])
class Key(Contract):
    inline = True
    def ensures(s, S):
        yield 'subsystem and key', S.res == S.eng.strcat(S.eng.strcat(S.a[0], lit(':')), S.a[1])


@contract('cache.EntityStmtCacheKey', props=['P19'])
class StmtKey(Contract):
    nocache = ALLTRACES
    def ensures(s, S):
        k = after(S.res)
        yield 'an entity statement', before(S.res) == lit('entity_statement')
        yield 'of this subject', unb64(before(k)) == S.a[0]
        yield 'of this issuer', unb64(after(k)) == S.a[1]


class Q:
    """the question that the hash of a resolver stands for"""
    def __init__(s, S, r): s.S, s.r = S, r
    def parts(s, h, code):
        S, r = s.S, s.r
        d = preimage(code)
        tas, tys = h.fld(r, 'TrustAnchors'), h.fld(r, 'Types')
        yield 'starting entity', mp_get('.0', I, d) == h.fld(r, 'StartingEntity')
        yield 'number of anchors', mp_get('.1#', I, d) == tas.l
        A = Anchors(h, tas)
        every = lambda f, o, l, c: forall(lambda a: IMP(AND(o <= a, a < o + l), f(a)), pats=lambda a: z3.Select(c, a))
        yield 'trust anchors', every(lambda a: mp_get('.1[].0', I, d, a - A.o) == z3.Select(A.ids, a), A.o, A.l, A.ids)
        yield 'keys of the trust anchors', every(lambda a: mp_get('.1[].1>set', I, d, a - A.o) == z3.Select(A.keys, a), A.o, A.l, A.keys)
        yield 'number of entity types', mp_get('.2#', I, d) == tys.l
        c = h.eng.content(h.heap, tys.et, tys.b, (), I)
        yield 'entity types', every(lambda a: mp_get('.2[]', I, d, a - tys.o) == z3.Select(c, a), tys.o, tys.l, c)


@contract('(oidfed.TrustResolver).hash', props=['P19'], entry=False)
class ResolverHash(Contract):
    allocs = True
    nocache = ALLTRACES
    def ensures(s, S):
        for n, f in Q(S, S.a[0]).parts(S.old, S.new.str(S.r(0))): yield 'the hash determines: ' + n, IMP(S.ok, f)


@contract('(oidfed.TrustChain).hash', props=['P19'], entry=False)
class ChainHash(Contract):
    allocs = True
    nocache = ALLTRACES
    def parts(s, S, code):
        d = preimage(code)
        c, h = S.a[0], S.old
        e = lambda a: h.at(c, a - c.o)
        pt = lambda a: e(a).ref
        every = lambda f: forall(lambda a: IMP(AND(c.o <= a, a < c.o + c.l, e(a).ref != 0), f(a)), pats=pt)
        yield 'number of statements', mp_get('#', I, d) == c.l
        jwt = lambda a: h.fld(e(a), 'jwtMsg')
        yield 'tokens', every(lambda a: IMP(jwt(a).ref != 0, mp_get('[]*>raw', I, d, a - c.o) == raw_of(h, jwt(a))))
        for n in ('Issuer', 'Subject'): yield n, every(lambda a: mp_get('[]*>' + n, I, d, a - c.o) == h.fld(e(a), n))
        for n in ('IssuedAt', 'ExpiresAt'): yield n, every(lambda a: mp_get('[]*>' + n, I, d, a - c.o) == h.fld(e(a), n).get(0))
    def ensures(s, S):
        for n, f in s.parts(S, S.new.str(S.r(0))): yield 'the hash determines: ' + n, IMP(S.ok, f)


# ---------------------------------------------------------------- what is stored
class CacheWrite(Contract):
    allocs = True
    kind = None
    def question(s, S, key): raise NotImplementedError
    def expires(s, S): raise NotImplementedError
    def stored(s, S): raise NotImplementedError
    def ensures(s, S):
        n0, n1 = S.g('cs_n', True), S.g('cs_n')
        w = n1 == n0 + 1
        key = S.g('cs_key')
        yield 'at most one entry', OR(n1 == n0, w)
        if S.res is not None and not (isinstance(S.res, TupleV) and not S.res.f): yield 'stored', IMP(S.ok, w)
        yield 'own subsystem', IMP(w, before(key) == lit(s.kind))
        for n, f in s.question(S, key): yield 'for this question: ' + n, IMP(w, f)
        yield 'this answer', IMP(w, S.g('cs_val') == s.stored(S))
        yield 'no longer than it is valid', IMP(w, S.g('cs_dur') <= s.expires(S))


@contract('(oidfed.TrustResolver).cacheSetTrustTree', props=['P19'], entry=False)
class SetTree(CacheWrite):
    kind = 'trust_tree'
    def question(s, S, key): return Q(S, S.a[0]).parts(S.old, after(key))
    def expires(s, S): return left(S.old.fld(S.old.fld(S.a[0], 'trustTree'), 'expiresAt').get(0))
    def stored(s, S):
        t = S.old.fld(S.a[0], 'trustTree')
        return boxed(S, TT, *[x for _, x in S.eng.flat(S.T.id(TT), t)])


@contract('(oidfed.TrustResolver).cacheSetTrustChains', props=['P19'], entry=False)
class SetChains(CacheWrite):
    kind = 'trust_tree_chains'
    question, expires = SetTree.question, SetTree.expires
    def stored(s, S): return boxed(S, 'oidfed.TrustChains', *[x for _, x in S.eng.flat(S.T.id('oidfed.TrustChains'), S.a[1])])


@contract('(oidfed.TrustChain).cacheSetMetadata', props=['P19', 'P07'], entry=False)
class SetMeta(CacheWrite):
    kind = 'trustchain_resolved_metadata'
    def requires(s, S): return REG['(oidfed.TrustChain).ExpiresAt'].requires(S)
    def question(s, S, key): return ChainHash.parts(REG[ChainHash.fn], S, after(key))
    def stored(s, S): return boxed(S, '*oidfed.Metadata', S.a[1].ref)
    def expires(s, S): return S.g('cs_dur')
    def ensures(s, S):
        yield from CacheWrite.ensures(s, S)
        w = S.g('cs_n') == S.g('cs_n', True) + 1
        c = S.a[0]
        e = lambda a: S.old.fld(S.old.at(c, a - c.o), 'ExpiresAt').get(0)
        yield 'no longer than any statement', IMP(w, forall(lambda a: IMP(AND(c.o <= a, a < c.o + c.l), S.g('cs_dur') <= left(e(a))), pats=lambda a: S.old.at(c, a - c.o).ref))


@contract('oidfed.entityStmtCacheSet', props=['P19'], entry=False)
class SetStmt(CacheWrite):
    kind = 'entity_statement'
    def requires(s, S): yield 'statement', S.a[2].ref != 0
    def question(s, S, key):
        yield 'subject', unb64(before(after(key))) == S.a[0]
        yield 'issuer', unb64(after(after(key))) == S.a[1]
    def expires(s, S): return left(S.old.fld(S.a[2], 'ExpiresAt').get(0))
    def stored(s, S): return boxed(S, '*oidfed.EntityStatement', S.a[2].ref)
    def ensures(s, S):
        for nm, f in CacheWrite.ensures(s, S):
            yield nm, f
        yield 'one entry', S.g('cs_n') == S.g('cs_n', True) + 1


# ------------------------------------------------------------------ what is read
class CacheRead(Contract):
    """what is read is the entry of this question (cg_entry: the entry that was read)"""
    allocs = True
    nocache = ('cs_',)
    kind = None
    def hit(s, S): return AND(S.ok, S.r(-2))
    def ensures(s, S):
        key = u1('cache_key_of', S.g('cg_entry'))
        hit = s.hit(S)
        yield 'own subsystem', IMP(hit, before(key) == lit(s.kind))
        for n, f in s.question(S, key): yield 'for this question: ' + n, IMP(hit, f)
        yield from s.result(S, hit, S.g('cg_entry'))


def fromentry(S, tname, x, entry):
    """the value x (of the type) is what the entry holds, as far as it is not newly allocated"""
    t = S.T.id(tname)
    s = S.T.s(S.T.u(t))
    rl = set(S.eng.refleaves(t))
    out = []
    for p, y in S.eng.flat(t, x):
        u = UF('cached_dec_%s_%s' % (s, '.'.join(map(str, p))), I, y.sort())(entry)
        out.append((y == 0) == (u == 0) if p in rl else y == u)
    return AND(out)


@contract('(*oidfed.TrustResolver).cacheGetTrustTree', props=['P19'], entry=False)
class GetTree(CacheRead):
    kind = 'trust_tree'
    def requires(s, S): yield 'receiver', S.a[0].ref != 0
    def modifies(s, S): return S.mod(S.a[0], 'trustTree')
    def question(s, S, key): return Q(S, S.a[0]).parts(S.old, after(key))
    def hit(s, S): return AND(S.ok, S.r(0))
    def assumes(s, S):
        r = R_(S.eng, S.new)
        A = Anchors(S.old, S.old.fld(S.a[0], 'TrustAnchors'))
        yield 'a tree that is read from the cache has the shape of the trees that Resolve and VerifySignatures store', IMP(s.hit(S), r.wf(A, r.pack(S.new.fld(S.a[0], 'trustTree'))))
    def result(s, S, hit, entry):
        o, n = S.old.fld(S.a[0], 'trustTree'), S.new.fld(S.a[0], 'trustTree')
        t = S.T.id(TT)
        yield 'otherwise the tree stays', IMP(NOT(hit), AND([x == y for (_, x), (_, y) in zip(S.eng.flat(t, o), S.eng.flat(t, n))]))
        # fields that are not part of an entry are not those of an earlier tree
        yield 'nothing of the earlier tree stays', IMP(hit, AND(NOT(S.new.fld(n, 'signaturesVerified')), S.new.fld(n, 'expiresAt').get(0) == S.old.eng.zero(S.T.id('unixtime.Unixtime')).get(0)))


@contract('(oidfed.TrustResolver).cacheGetTrustChains', props=['P19'], entry=False)
class GetChains(CacheRead):
    kind = 'trust_tree_chains'
    def question(s, S, key): return Q(S, S.a[0]).parts(S.old, after(key))
    def hit(s, S): return AND(S.ok, S.r(1))
    def result(s, S, hit, entry): yield 'the chains of the entry', IMP(hit, fromentry(S, 'oidfed.TrustChains', S.r(0), entry))


@contract('(oidfed.TrustChain).cacheGetMetadata', props=['P19', 'P07'], entry=False)
class GetMeta(CacheRead):
    kind = 'trustchain_resolved_metadata'
    def question(s, S, key): return ChainHash.parts(REG[ChainHash.fn], S, after(key))
    def hit(s, S): return AND(S.ok, S.r(1))
    def result(s, S, hit, entry): yield 'the metadata of the entry', IMP(hit, AND(S.r(0).ref >= S.na0, fromentry(S, 'oidfed.Metadata', S.new.deref(S.r(0)), entry)))


@contract('oidfed.entityStmtCacheGet', props=['P19'], entry=False)
class GetStmt(CacheRead):
    kind = 'entity_statement'
    def question(s, S, key):
        yield 'subject', unb64(before(after(key))) == S.a[0]
        yield 'issuer', unb64(after(after(key))) == S.a[1]
    def hit(s, S): return S.res.ref != 0
    def result(s, S, hit, entry): yield 'the statement of the entry', IMP(hit, AND(S.res.ref >= S.na0, fromentry(S, 'oidfed.EntityStatement', S.new.deref(S.res), entry)))


# -------------------------------------------------------------------- back ends
@contract('(cache.cacheWrapper).Set', props=['P19'])
class WrapSet(Contract):
    allocs = True
    def requires(s, S): yield 'cache', S.old.fld(S.a[0], 'c').ref != 0
    def ensures(s, S):
        n0, n1 = S.g('gc_n', True), S.g('gc_n')
        w = n1 == n0 + 1
        yield 'one entry or an error', AND(S.ok == w, OR(w, n1 == n0))
        yield 'under this key', IMP(w, S.g('gc_key') == S.a[1])
        yield 'this value', IMP(w, u1('msgpack_of', S.g('gc_val')) == S.a[2].code)
        yield 'no longer than asked, and not for ever', IMP(w, AND(S.g('gc_dur') >= 0, OR(S.g('gc_dur') <= S.a[3], S.g('gc_dur') == 0)))


@contract('(cache.redisCache).Set', props=['P19'])
class RedisSet(Contract):
    allocs = True
    def requires(s, S): yield 'client', S.old.fld(S.a[0], 'client').ref != 0
    def ensures(s, S):
        n0, n1 = S.g('rd_n', True), S.g('rd_n')
        w = n1 == n0 + 1
        yield 'at most one entry', OR(w, n1 == n0)
        yield 'stored unless it is expired', IMP(AND(S.ok, S.a[3] > 0), w)
        yield 'under this key', IMP(w, S.g('rd_key') == S.a[1])
        yield 'this value', IMP(w, u1('msgpack_of', S.g('rd_val')) == S.a[2].code)
        yield 'no longer than asked, and not for ever', IMP(w, AND(S.g('rd_dur') > 0, S.g('rd_dur') <= S.a[3]))


class BackRead(Contract):
    allocs = True
    def ensures(s, S):
        hit = AND(S.ok, S.r(0))
        yield 'the value stored under this key', IMP(hit, S.g('um_data') == s.stored(S))
        yield 'is decoded into the target', IMP(hit, S.g('um_target') == S.a[2].code)


@contract('(cache.redisCache).Get', props=['P19'])
class RedisGet(BackRead):
    def requires(s, S): yield 'client', S.old.fld(S.a[0], 'client').ref != 0
    def stored(s, S): return u1('rd_stored', S.a[1])


@contract('(cache.cacheWrapper).Get', props=['P19'])
class WrapGet(BackRead):
    def requires(s, S): yield 'cache', S.old.fld(S.a[0], 'c').ref != 0
    def stored(s, S): return S.new.str(S.eng.unbox(S.post, S.T.id('[]byte'), Iface(u1('gc_stored', S.a[1]))))
