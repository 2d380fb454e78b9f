"""resolvers (P21)"""
from core import *
from spec import *
import models
from models import u1, jws_typed, http_url, http_has, http_first, http_body, http_kind, http_errcode
from c_jwt import decodes, wf, raw
from c_resolver import R_

RR = lit('resolve-response+jwt')
UNKNOWN, VALID, ONLYCHAIN, INVALID, NOTACC = range(5)
RRT, RRP = 'oidfed.ResolveResponse', 'oidfed.ResolveResponsePayload'
MSGS, PJ = 'oidfed.JWSMessages', '*internal/jwx.ParsedJWT'


def members(S, h, v):
    """the messages in the list v exist"""
    c = S.eng.content(h.heap, v.et, v.b, (), I)
    return AND(forall(lambda j: IMP(AND(v.o <= j, j < v.o + v.l), z3.Select(c, j) != 0), pats=lambda j: z3.Select(c, j)))


@contract('(*oidfed.JWSMessages).UnmarshalJSON', props=['P21', 'P24'])
class Msgs(Contract):
    allocs = True
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'messages', members(S, S.old, S.old.deref(S.a[0]))
    def modifies(s, S):
        t = S.T.id(MSGS)
        return [(('F', MSGS, p), S.a[0].ref) for p, _ in S.T.leaves(t)] + [(('E', PJ, ()), S.old.deref(S.a[0]).b)]
    def ensures(s, S):
        yield 'only messages are added', members(S, S.new, S.new.deref(S.a[0]))
    def inv(s, S, L):
        yield 'messages', lambda L: members(S, L.h, L.h.deref(S.a[0]))


def about(S, r, url, req):
    """the exchange r is a request for req at the resolve endpoint url"""
    h = S.old
    out = [http_url(r) == url]
    q = lambda k: (http_has(r, lit(k)), http_first(r, lit(k)))
    has, first = q('sub')
    out += [has, first == h.fld(req, 'Subject')]
    for k, f in (('trust_anchor', 'TrustAnchor'), ('entity_type', 'EntityTypes')):
        has, first = q(k)
        l = h.fld(req, f)
        out += [has == (l.l > 0), IMP(l.l > 0, first == h.at(l, 0))]
    return AND(out)


def document(S, code): return AND(jws_typed(code, RR))


def some(f): return NOT(forall(lambda r: NOT(f(r)), I, pats=lambda r: http_kind(r)))


def status(r, req=None):
    """what the exchange says"""
    e = http_errcode(r)
    return z3.If(http_kind(r) == 2, IV(VALID), z3.If(OR(e == lit('invalid_subject'), e == lit('invalid_trust_anchor')), IV(NOTACC),
           z3.If(e == lit('invalid_trust_chain'), IV(INVALID), z3.If(e == lit('invalid_metadata'), IV(ONLYCHAIN), IV(UNKNOWN)))))


@contract('oidfed.ParseResolveResponse', props=['P14', 'P21'])
class PRR(Contract):
    allocs = True
    def ensures(s, S):
        code = S.old.str(S.a[0])
        yield 'only documents of this type', IMP(S.ok, document(S, code))
        yield 'a response exactly without error', S.ok == (S.r(0).ref != 0)
        yield 'messages', IMP(S.ok, members(S, S.new, S.new.fld(S.r(0), 'TrustChain')))


class Remote(Contract):
    allocs = True
    def url(s, S): return S.old.fld(S.a[0], 'ResolveEndpoint')
    def answered(s, S, st):
        """some answer to the request says st"""
        return some(lambda r: AND(OR(http_kind(r) == 1, http_kind(r) == 2), about(S, r, s.url(S), S.a[1]), status(r) == st))
    def positive(s, S):
        return some(lambda r: AND(http_kind(r) == 2, about(S, r, s.url(S), S.a[1]), document(S, http_body(r))))


@contract('(oidfed.SimpleRemoteMetadataResolver).ResolveResponse', props=['P21'])
class RResp(Remote):
    def ensures(s, S):
        p, st = S.r(0), S.r(1)
        yield 'a positive answer of the endpoint', IMP(AND(S.ok, st == VALID), AND(p.ref != 0, s.positive(S)))
        yield 'messages', IMP(AND(S.ok, st == VALID), members(S, S.new, S.new.fld(p, 'TrustChain')))
        yield 'the status is what the answer says', IMP(S.ok, s.answered(S, st))
        yield 'no response otherwise', IMP(OR(NOT(S.ok), st != VALID), p.ref == 0)


@contract('(oidfed.SimpleRemoteMetadataResolver).Resolve', props=['P21'])
class RRes(Remote):
    def ensures(s, S):
        yield 'metadata only from a positive answer', IMP(S.ok, s.positive(S))
        yield 'none on error', IMP(NOT(S.ok), S.r(0).ref == 0)


@contract('(oidfed.SimpleRemoteMetadataResolver).ResolveResponsePayload', props=['P21'])
class RPay(Remote):
    def ensures(s, S):
        yield 'only from a positive answer', IMP(S.ok, s.positive(S))
        yield 'messages', IMP(S.ok, members(S, S.new, S.new.fld(S.r(0), 'TrustChain')))


@contract('(oidfed.SimpleRemoteMetadataResolver).ResolvePossible', props=['P21'])
class RPoss(Remote):
    def ensures(s, S):
        v, i = S.r(0), S.r(1)
        yield 'valid only if confirmed', IMP(v, OR(s.answered(S, VALID), s.answered(S, ONLYCHAIN)))
        yield 'a positive answer is one that can be read', IMP(v, OR(s.answered(S, ONLYCHAIN), s.positive(S)))
        yield 'invalid only if confirmed', IMP(i, s.answered(S, INVALID))
        yield 'not both', NOT(AND(v, i))


def resolve_endpoint(S, x):
    """the resolve endpoint published in the configuration of the entity x (named by the world), '' if none"""
    h = S.old
    r = R_(S.eng, h)
    e = Ptr(r.ec(x), S.T.id('oidfed.EntityStatement'))
    m = h.fld(e, 'Metadata')
    f = h.fld(m, 'FederationEntity')
    return z3.If(AND(r.ec_ok(x), m.ref != 0, f.ref != 0), h.fld(f, 'FederationResolveEndpoint'), lit(''))


class Smart(Contract):
    allocs = True
    def anchors(s, S): return S.old.fld(S.a[1], 'TrustAnchor')
    def by(s, S, f):
        """an exchange with the resolve endpoint of one of the trust anchors of the request"""
        l = s.anchors(S)
        h = S.old
        c = S.eng.content(h.heap, l.et, l.b, (), I)
        def at(j):
            u = resolve_endpoint(S, z3.Select(c, j))
            return AND(l.o <= j, j < l.o + l.l, u != lit(''), some(lambda r: AND(about(S, r, u, S.a[1]), f(r))))
        return NOT(forall(lambda j: NOT(at(j)), I, pats=lambda j: z3.Select(c, j)))
    def positive(s, S): return s.by(S, lambda r: AND(http_kind(r) == 2, document(S, http_body(r))))


@contract('(oidfed.SmartRemoteMetadataResolver).remoteResolveResponsePayload', props=['P21', 'P12'])
class SRem(Smart):
    def ensures(s, S):
        yield "only an answer of a trust anchor's resolve endpoint", IMP(S.r(1), s.positive(S))
        yield 'messages', IMP(S.r(1), members(S, S.new, S.new.fld(S.r(0), 'TrustChain')))
        yield 'asks nobody without trust anchors', IMP(s.anchors(S).l == 0, NOT(S.r(1)))
