"""Trust marks of an entity (P22) and its entity configuration (P16)"""
from core import *
from spec import *
import models
from models import u1, clock, jws_typed, http_url, http_has, http_first, http_body, jwt_claim, sat, jget
from c_jwt import ES, TM, decodes
from c_sign import publicset, publickey, signed, algcode, cl, claim
import c_resolver

CFG = 'oidfed.EntityConfigurationTrustMarkConfig'
MINUTE, HOUR = 60 * 10**9, 3600 * 10**9


def remaining(exp): return sat(exp - clock)


def dur(h, c, f): return h.fld(h.fld(c, f), 'Duration')


def selfinv(S, h, c):
    """a self issued mark has an issuer with a signer (set by Verify)"""
    i = h.fld(c, 'ownTrustMarkIssuer')
    sg = h.fld(i, 'TrustMarkSigner')
    return IMP(h.fld(c, 'SelfIssued'), AND(i.ref != 0, sg.ref != 0, h.fld(sg, 'GeneralJWTSigner').ref != 0))


def markexp(S, code):
    """expiration of the mark in the JWT code (the zero time if it has none)"""
    pl = u1('jws_payload', code)
    v, n, ft = claim(S, pl, 'oidfed.TrustMark', 'ExpiresAt')
    return z3.If(v.ref == 0, IV(0), jget(S.eng, ft, pl, n, ('*', 0), I))


def mark_for(S, code, typ, sub):
    pl = u1('jws_payload', code)
    T = 'oidfed.TrustMark'
    return AND(jws_typed(code, TM), decodes(S, T, pl), cl(S, pl, T, 'TrustMarkType') == typ, cl(S, pl, T, 'Subject') == sub)


class Refreshes(Contract):
    allocs = True
    mods = ('JWT', 'expiration', 'lastTried')

    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'own issuer', selfinv(S, S.old, S.a[0])

    def modifies(s, S): return S.mod(S.a[0], *s.mods)

    def refreshed(s, S):
        """the effect of a successful refresh"""
        c, o, n = S.a[0], S.old, S.new
        code = n.fld(c, 'JWT')
        si = o.fld(c, 'SelfIssued')
        typ, sub = o.fld(c, 'TrustMarkType'), o.fld(c, 'sub')
        own = o.fld(c, 'ownTrustMarkIssuer')
        spec = o.fld(own, 'trustMarks').get(typ)
        yield 'the last attempt is at least a minute ago', sat(clock - o.fld(c, 'lastTried').get(0)) >= MINUTE
        yield 'the new mark is one of the configured type for this entity', IMP(NOT(si), mark_for(S, code, typ, sub))
        yield 'the new expiration is that of the new mark', IMP(NOT(si), n.fld(c, 'expiration').get(0) == markexp(S, code))
        yield 'obtained from an endpoint asked for this type and subject', IMP(NOT(si), exists(lambda r: AND(
            http_body(r) == code, http_has(r, lit('sub')), http_first(r, lit('sub')) == sub, http_has(r, lit('trust_mark_type')), http_first(r, lit('trust_mark_type')) == typ,
            IMP(o.fld(c, 'TrustMarkIssuer') == sub, http_url(r) == o.fld(c, 'ownTrustMarkEndpoint'))), I))
        pl = u1('jws_payload', code)
        T = 'oidfed.TrustMark'
        lf = o.fld(o.fld(spec, 'Lifetime'), 'Duration')
        yield 'self issued marks are signed by this entity', IMP(si, AND(signed(S, code, TM, o.fld(o.fld(o.fld(own, 'TrustMarkSigner'), 'GeneralJWTSigner'), 'key').code,
                                                                              algcode(S, o.fld(o.fld(o.fld(own, 'TrustMarkSigner'), 'GeneralJWTSigner'), 'alg'))),
                                                                  cl(S, pl, T, 'Subject') == sub, cl(S, pl, T, 'TrustMarkType') == o.fld(spec, 'TrustMarkType')))
        yield 'the expiration of a self issued mark', IMP(si, n.fld(c, 'expiration').get(0) == z3.If(lf == 0, IV(0), clock + lf))

    def unchanged(s, S, *fields):
        return AND([x == y for f in fields for (_, x), (_, y) in zip(S.eng.flat(S.T.id('string') if f == 'JWT' else S.T.id('unixtime.Unixtime'), S.old.fld(S.a[0], f)),
                                                                   S.eng.flat(S.T.id('string') if f == 'JWT' else S.T.id('unixtime.Unixtime'), S.new.fld(S.a[0], f)))])


@contract('(*oidfed.EntityConfigurationTrustMarkConfig).refresh', props=['P22'], entry=False)
class Refresh(Refreshes):
    def ensures(s, S):
        c = S.a[0]
        for nm, f in s.refreshed(S): yield nm, IMP(S.ok, f)
        yield 'the attempt is remembered', S.new.fld(c, 'lastTried').get(0) == z3.If(sat(clock - S.old.fld(c, 'lastTried').get(0)) >= MINUTE, clock, S.old.fld(c, 'lastTried').get(0))
        yield 'on failure the mark stays as it is', IMP(NOT(S.ok), s.unchanged(S, 'JWT', 'expiration'))
        yield 'not within a minute of the last attempt', IMP(sat(clock - S.old.fld(c, 'lastTried').get(0)) < MINUTE, NOT(S.ok))


@contract('(*oidfed.EntityConfigurationTrustMarkConfig).TrustMarkJWT', props=['P22', 'P16'])
class TrustMarkJWT(Refreshes):
    def ensures(s, S):
        c, o, n = S.a[0], S.old, S.new
        jwt, exp = o.fld(c, 'JWT'), o.fld(c, 'expiration').get(0)
        have = jwt != 0
        keep = OR(NOT(o.fld(c, 'Refresh')), AND(have, exp == 0))
        rem = remaining(exp)
        fresh_ = AND(have, rem > dur(o, c, 'MinLifetime'))
        r0 = S.r(0)
        yield 'unchanged if it is not refreshed or does not expire', IMP(keep, AND(S.ok, r0 == jwt, s.unchanged(S, 'JWT', 'expiration', 'lastTried')))
        yield 'the mark is kept while it is valid long enough', IMP(AND(NOT(keep), fresh_, rem >= dur(o, c, 'RefreshGracePeriod')), AND(S.ok, r0 == jwt, s.unchanged(S, 'JWT', 'expiration', 'lastTried')))
        yield 'within the grace period, the mark or a refreshed one', IMP(AND(NOT(keep), fresh_), AND(S.ok, r0 == n.fld(c, 'JWT'), OR(s.unchanged(S, 'JWT', 'expiration'), AND([f for _, f in s.refreshed(S)]))))
        yield 'otherwise a fresh mark, or the failure is reported', IMP(AND(NOT(keep), NOT(fresh_)), IMP(S.ok, AND([r0 == n.fld(c, 'JWT')] + [f for _, f in s.refreshed(S)])))
        yield 'at most one attempt a minute', IMP(sat(clock - o.fld(c, 'lastTried').get(0)) < MINUTE, s.unchanged(S, 'JWT', 'expiration', 'lastTried'))


@contract('(*oidfed.EntityConfigurationTrustMarkConfig).Verify', props=['P22'])
class CfgVerify(Contract):
    allocs = True
    def requires(s, S): yield 'receiver', S.a[0].ref != 0
    def modifies(s, S):
        return S.mod(S.a[0], 'sub', 'ownTrustMarkEndpoint', 'MinLifetime', 'RefreshGracePeriod', 'expiration', 'TrustMarkIssuer', 'TrustMarkType', 'SelfIssuanceSpec', 'ownTrustMarkIssuer', 'Refresh')
    def ensures(s, S):
        c, o, n = S.a[0], S.old, S.new
        f0, f1 = (lambda f: o.fld(c, f)), (lambda f: n.fld(c, f))
        jwt = f0('JWT')
        tok = u1('jwt_token', jwt)
        ok = lambda x: IMP(S.ok, x)
        yield 'the entity', AND(f1('sub') == S.a[1], f1('ownTrustMarkEndpoint') == S.a[2])
        yield 'default minimum', dur(n, c, 'MinLifetime') == z3.If(dur(o, c, 'MinLifetime') == 0, IV(10 * 10**9), dur(o, c, 'MinLifetime'))
        yield 'default grace period', dur(n, c, 'RefreshGracePeriod') == z3.If(dur(o, c, 'RefreshGracePeriod') == 0, IV(HOUR), dur(o, c, 'RefreshGracePeriod'))
        yield 'a mark that is given says what it is', ok(IMP(jwt != 0, AND(f1('TrustMarkType') == jwt_claim(tok, lit('trust_mark_type')), f1('TrustMarkIssuer') == jwt_claim(tok, lit('iss')),
                                                                          f1('expiration').get(0) == jwt_claim(tok, lit('exp')), f1('Refresh') == f0('Refresh'))))
        yield 'an unreadable mark is refused', IMP(AND(jwt != 0, u1('jwt_parseerr', jwt) != 0), NOT(S.ok))
        yield 'a mark that is not given is obtained', ok(IMP(jwt == 0, AND(f1('Refresh'), f1('TrustMarkType') != 0, f1('TrustMarkType') == f0('TrustMarkType'), f1('TrustMarkIssuer') == f0('TrustMarkIssuer'))))
        yield 'the issuer is known', ok(IMP(AND(jwt == 0, NOT(f0('SelfIssued'))), f0('TrustMarkIssuer') != 0))
        own = f1('ownTrustMarkIssuer')
        yield 'self issued: issuer is the entity', ok(IMP(f0('SelfIssued'), AND(own.ref != 0, n.fld(own, 'EntityID') == S.a[1], n.fld(own, 'TrustMarkSigner').ref == S.a[3].ref,
                                                                              n.fld(own, 'trustMarks').has(f1('TrustMarkType')))))


FE = 'oidfed.FederationEntity'


@contract('oidfed.NewFederationEntity', props=['P16'])
class NewFE(Contract):
    allocs = True
    def requires(s, S): yield 'signer', AND(S.a[3].ref != 0, S.old.fld(S.a[3], 'GeneralJWTSigner').ref != 0, S.old.fld(S.old.fld(S.a[3], 'GeneralJWTSigner'), 'key').code != 0)
    def ensures(s, S):
        r, n = S.r(0), S.new
        yield 'result', AND(S.ok, r.ref != 0)
        yield 'as configured', AND(n.fld(r, 'EntityID') == S.a[0], n.fld(r, 'Metadata').ref == S.a[2].ref, n.fld(r, 'EntityStatementSigner').ref == S.a[3].ref, n.fld(r, 'Extra').ref == S.a[5].ref)
        h = n.fld(r, 'AuthorityHints')
        yield 'authority hints', AND(h.b == S.a[1].b, h.o == S.a[1].o, h.l == S.a[1].l)
        yield 'lifetime, one day by default', n.fld(r, 'ConfigurationLifetime') == z3.If(S.a[4] <= 0, IV(86400), S.a[4])
        g = S.old.fld(S.a[3], 'GeneralJWTSigner')
        yield 'keys of the signer', n.fld(r, 'jwks').get(0).code == publicset(S, publickey(S, S.old.fld(g, 'key')).code, S.old.fld(g, 'alg'))


def sure(S, h, c):
    """the mark is available without obtaining a new one"""
    jwt, exp = h.fld(c, 'JWT'), h.fld(c, 'expiration').get(0)
    return OR(NOT(h.fld(c, 'Refresh')), AND(jwt != 0, OR(exp == 0, remaining(exp) > dur(h, c, 'MinLifetime'))))


def published(S, c, jwt):
    """jwt is a mark that may be published for configuration c: the configured one if it is available, or a fresh one of the type for the entity"""
    o = S.old
    typ, sub = o.fld(c, 'TrustMarkType'), o.fld(c, 'sub')
    own = o.fld(c, 'ownTrustMarkIssuer')
    spec = o.fld(own, 'trustMarks').get(typ)
    pl = u1('jws_payload', jwt)
    T = 'oidfed.TrustMark'
    fr = AND(o.fld(c, 'Refresh'), z3.If(o.fld(c, 'SelfIssued'), AND(jws_typed(jwt, TM), cl(S, pl, T, 'Subject') == sub, cl(S, pl, T, 'TrustMarkType') == o.fld(spec, 'TrustMarkType')), mark_for(S, jwt, typ, sub)))
    return OR(AND(sure(S, o, c), jwt == o.fld(c, 'JWT')), fr)


@contract('(oidfed.FederationEntity).EntityConfigurationPayload', props=['P16'])
class ECPayload(Contract):
    allocs = True
    mods = ('JWT', 'expiration', 'lastTried')

    # a: positions in the backing array of the configured trust marks
    def cfg(s, S, a): return S.old.at(s.tms(S), a - s.tms(S).o)
    def within(s, S, a, n): return AND(s.tms(S).o <= a, a < s.tms(S).o + n)

    def tms(s, S): return S.old.fld(S.a[0], 'TrustMarks')

    def requires(s, S):
        n = s.tms(S).l
        yield 'configured trust marks', forall(lambda a: IMP(s.within(S, a, n), AND(s.cfg(S, a).ref != 0, selfinv(S, S.old, s.cfg(S, a)))), pats=lambda a: s.cfg(S, a).ref)
        yield 'each once', forall(lambda a: IMP(s.within(S, a, n), s.posof(s.cfg(S, a).ref) == a), pats=lambda a: s.cfg(S, a).ref)

    def posof(s, r): return UF('position_of_config', I, I)(r)

    def modifies(s, S):
        return [(k, None) for k in S.keys(CFG, *s.mods)]

    def marks(s, S, h, r, n):
        e = lambda b: h.at(r, b - r.o)
        match = lambda a, b: AND(h.fld(e(b), 'TrustMarkType') == S.old.fld(s.cfg(S, a), 'TrustMarkType'), published(S, s.cfg(S, a), h.fld(e(b), 'TrustMarkJWT')))
        isr = lambda b: AND(r.o <= b, b < r.o + r.l)
        yield 'only marks that are configured and available', forall(lambda b: IMP(isr(b), exists(lambda a: AND(s.within(S, a, n), match(a, b)), I)), pats=lambda b: h.fld(e(b), 'TrustMarkJWT'))
        yield 'all marks that are available', forall(lambda a: IMP(AND(s.within(S, a, n), sure(S, S.old, s.cfg(S, a))), exists(lambda b: AND(isr(b), match(a, b)), I)), pats=lambda a: s.cfg(S, a).ref)

    def ensures(s, S):
        f, r = (lambda n: S.old.fld(S.a[0], n)), S.res
        g = lambda n: S.new.fld(r, n)
        same = lambda a, b: AND(a.b == b.b, a.o == b.o, a.l == b.l)
        yield 'result', r.ref != 0
        yield 'names the entity as issuer and subject', AND(g('Issuer') == f('EntityID'), g('Subject') == f('EntityID'))
        yield 'issued now', g('IssuedAt').get(0) == clock
        yield 'expires after the configured lifetime', g('ExpiresAt').get(0) == clock + f('ConfigurationLifetime') * 10**9
        yield 'keys', g('JWKS').get(0).code == f('jwks').get(0).code
        yield 'authority hints', same(g('AuthorityHints'), f('AuthorityHints'))
        yield 'metadata', g('Metadata').ref == f('Metadata').ref
        yield 'trust mark issuers', g('TrustMarkIssuers').ref == f('TrustMarkIssuers').ref
        yield 'trust mark owners', g('TrustMarkOwners').ref == f('TrustMarkOwners').ref
        yield 'extra claims', g('Extra').ref == f('Extra').ref
        for nm in ('Constraints', 'MetadataPolicy'):
            yield 'no ' + nm, g(nm).ref == 0
        yield from s.marks(S, S.new, g('TrustMarks'), s.tms(S).l)

    def leaves(s, S, h, p):
        out = []
        for m in s.mods:
            t = S.T.id('string') if m == 'JWT' else S.T.id('unixtime.Unixtime')
            out += [x for _, x in S.eng.flat(t, h.fld(p, m))]
        return out

    def inv(s, S, L):
        for v in L.vars(types=['[]oidfed.TrustMarkInfo', 'oidfed.TrustMarkInfos']):
            for i in L.vars('int'):
                n = lambda L, i=i: i(L) - i.entry(L)
                for k in range(2):
                    yield 'marks %d' % k, lambda L, v=v, n=n, k=k: list(s.marks(S, L.h, v(L), n(L)))[k][1]
                yield 'the rest is as before', lambda L, n=n: forall(lambda a: IMP(AND(s.tms(S).o + n(L) <= a, a < s.tms(S).o + s.tms(S).l),
                                                        AND([x == y for x, y in zip(s.leaves(S, L.h, s.cfg(S, a)), s.leaves(S, S.old, s.cfg(S, a)))])), pats=lambda a: s.cfg(S, a).ref)


@contract('(oidfed.FederationEntity).EntityConfigurationJWT', props=['P16'])
class ECJWT(Contract):
    allocs = True
    def requires(s, S):
        sg = S.old.fld(S.a[0], 'EntityStatementSigner')
        yield 'signer', AND(sg.ref != 0, S.old.fld(sg, 'GeneralJWTSigner').ref != 0)
        yield from REG['(oidfed.FederationEntity).EntityConfigurationPayload'].requires(S)
    def modifies(s, S): return REG['(oidfed.FederationEntity).EntityConfigurationPayload'].modifies(S)
    def ensures(s, S):
        raw = S.new.str(S.r(0))
        pl = u1('jws_payload', raw)
        g = S.old.fld(S.old.fld(S.a[0], 'EntityStatementSigner'), 'GeneralJWTSigner')
        key, alg = S.old.fld(g, 'key'), S.old.fld(g, 'alg')
        f = lambda n: S.old.fld(S.a[0], n)
        ok = lambda x: IMP(S.ok, x)
        T = 'oidfed.EntityStatementPayload'
        yield 'signed as an entity statement', ok(signed(S, raw, ES, key.code, algcode(S, alg)))
        yield 'issuer and subject', ok(AND(cl(S, pl, T, 'Issuer') == f('EntityID'), cl(S, pl, T, 'Subject') == f('EntityID')))
        yield 'issued now', ok(cl(S, pl, T, 'IssuedAt').get(0) == clock)
        yield 'expires after the configured lifetime', ok(cl(S, pl, T, 'ExpiresAt').get(0) == clock + f('ConfigurationLifetime') * 10**9)
        yield 'keys', ok(cl(S, pl, T, 'JWKS').get(0).code == f('jwks').get(0).code)


@contract('(oidfed.FederationEntity).SignEntityStatement', props=['P16', 'P14'])
class SignES(Contract):
    allocs = True
    def requires(s, S):
        sg = S.old.fld(S.a[0], 'EntityStatementSigner')
        yield 'signer', AND(sg.ref != 0, S.old.fld(sg, 'GeneralJWTSigner').ref != 0)
    def ensures(s, S):
        raw = S.new.str(S.r(0))
        pl = u1('jws_payload', raw)
        g = S.old.fld(S.old.fld(S.a[0], 'EntityStatementSigner'), 'GeneralJWTSigner')
        key, alg = S.old.fld(g, 'key'), S.old.fld(g, 'alg')
        T = 'oidfed.EntityStatementPayload'
        yield 'signed as an entity statement', IMP(S.ok, signed(S, raw, ES, key.code, algcode(S, alg)))
        for n in ('Issuer', 'Subject', 'IssuedAt', 'ExpiresAt', 'JWKS', 'SourceEndpoint'):
            t = claim(S, pl, T, n)[2]
            yield 'claim ' + n, IMP(S.ok, AND([x == y for (_, x), (_, y) in zip(S.eng.flat(t, cl(S, pl, T, n)), S.eng.flat(t, S.old.fld(S.a[1], n)))]))
