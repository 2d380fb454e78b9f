"""trust marks and delegations (P12, P13), statement validity (P02, P03)"""
from core import *
from spec import *
import models
from models import clock, jws_typed, u1, jatoms
from c_jwt import TM, TMD, ES, wf, raw, claims, decodes, verified, setof


def time_ok(S, iat, exp):
    """iat: Unixtime value, exp: pointer to a Unixtime (or a value); unset instants do not restrict"""
    i = iat.get(0)
    if isinstance(exp, Ptr):
        e = S.old.deref(exp).get(0)
        return AND(OR(i == 0, i <= clock), OR(exp.ref == 0, e == 0, e >= clock))
    e = exp.get(0)
    return AND(OR(i == 0, i <= clock), OR(e == 0, e >= clock))


@contract('(oidfed.EntityStatementPayload).TimeValid', props=['P03'])
class TimeValid(Contract):
    def ensures(s, S):
        e = S.a[0]
        yield 'exactly if issued and not expired', S.res == time_ok(S, S.old.fld(e, 'IssuedAt'), S.old.fld(e, 'ExpiresAt'))


@contract('(oidfed.EntityStatement).Verify', props=['P02'])
class Verify(Contract):
    allocs = True
    nocache = ALLTRACES
    def ensures(s, S):
        h = S.old
        yield 'exactly if a key of the set signed the received bytes', S.res == verified(h, h.fld(S.a[0], 'jwtMsg'), S.a[1])


def mark_ok(S, h, m, code):
    """m is the trust mark parsed from the JWT code"""
    j = h.fld(m, 'jwtMsg')
    pl = u1('jws_payload', code)
    return AND(m.ref != 0, wf(h, j), raw(h, j) == code, jws_typed(code, TM), decodes(S, 'oidfed.TrustMark', pl), claims(S, h, m, 'oidfed.TrustMark', pl), deleg_inv(S, h, m))


def deleg_ok(S, h, d, code):
    j = h.fld(d, 'jwtMsg')
    pl = u1('jws_payload', code)
    return AND(d.ref != 0, wf(h, j), raw(h, j) == code, jws_typed(code, TMD), decodes(S, 'oidfed.DelegationJWT', pl), claims(S, h, d, 'oidfed.DelegationJWT', pl))


def deleg_inv(S, h, m):
    """a remembered delegation is the parsed delegation claim"""
    d = h.fld(m, 'delegation')
    return OR(d.ref == 0, AND(h.fld(m, 'DelegationJWT') != lit(''), deleg_ok(S, h, d, h.fld(m, 'DelegationJWT'))))


def info_inv(S, h, i):
    """a remembered trust mark is the parsed trust mark JWT"""
    m = h.fld(i, 'trustmark')
    return OR(m.ref == 0, h.fld(m, 'jwtMsg').ref == 0, mark_ok(S, h, m, h.fld(i, 'TrustMarkJWT')))


def typed_doc(S, code, typ, tname):
    return AND(jws_typed(code, typ), decodes(S, tname, u1('jws_payload', code)))


@contract('(*oidfed.TrustMarkInfo).TrustMark', props=['P12', 'P14'])
class InfoTM(Contract):
    allocs = True
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'remembered mark', info_inv(S, S.old, S.a[0])
    def modifies(s, S): return S.mod(S.a[0], 'trustmark')
    def ensures(s, S):
        h = S.old
        code = h.fld(S.a[0], 'TrustMarkJWT')
        p = S.r(0)
        yield 'ok exactly for a trust mark JWT', S.ok == typed_doc(S, code, TM, 'oidfed.TrustMark')
        yield 'the parsed trust mark', IMP(S.ok, mark_ok(S, S.new, p, code))
        yield 'remembered', IMP(S.ok, S.new.fld(S.a[0], 'trustmark').ref == p.ref)
        yield 'invariant', info_inv(S, S.new, S.a[0])
        yield 'none on error', IMP(NOT(S.ok), p.ref == 0)


@contract('(*oidfed.TrustMark).Delegation', props=['P13', 'P14'])
class Deleg(Contract):
    allocs = True
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'remembered delegation', deleg_inv(S, S.old, S.a[0])
    def modifies(s, S): return S.mod(S.a[0], 'delegation')
    def ensures(s, S):
        code = S.old.fld(S.a[0], 'DelegationJWT')
        p = S.r(0)
        had = S.old.fld(S.a[0], 'delegation').ref != 0
        yield 'none without a claim', IMP(AND(NOT(had), code == lit('')), AND(S.ok, p.ref == 0))
        yield 'ok exactly for a delegation JWT', IMP(AND(NOT(had), code != lit('')), S.ok == typed_doc(S, code, TMD, 'oidfed.DelegationJWT'))
        yield 'ok if remembered', IMP(had, S.ok)
        yield 'the parsed delegation', IMP(AND(S.ok, p.ref != 0), deleg_ok(S, S.new, p, code))
        yield 'found', IMP(AND(S.ok, OR(had, code != lit(''))), p.ref != 0)
        yield 'invariant', deleg_inv(S, S.new, S.a[0])


@contract('(oidfed.DelegationJWT).VerifyExternal', props=['P13'])
class DVE(Contract):
    allocs = True
    def ensures(s, S):
        h = S.old
        d = S.a[0]
        yield 'ok exactly if in time and signed by a given key', S.ok == AND(time_ok(S, h.fld(d, 'IssuedAt'), h.fld(d, 'ExpiresAt')), verified(h, h.fld(d, 'jwtMsg'), S.a[1]))


@contract('(oidfed.DelegationJWT).VerifyFederation', props=['P13'])
class DVF(Contract):
    allocs = True
    def requires(s, S): yield 'anchor', S.a[1].ref != 0
    def ensures(s, S):
        h = S.old
        d = S.a[0]
        m = h.fld(S.a[1], 'TrustMarkOwners')
        k = h.fld(d, 'TrustMarkType')
        yield 'ok exactly if in time and signed by the owner', S.ok == AND(time_ok(S, h.fld(d, 'IssuedAt'), h.fld(d, 'ExpiresAt')), m.has(k), verified(h, h.fld(d, 'jwtMsg'), h.fld(m.get(k), 'JWKS')))


def cl(S, code, name, path=(), tname='oidfed.DelegationJWT', sort=I):
    """claim of the payload of a JWT (by Go field name)"""
    eng = S.eng
    t = S.T.id(tname)
    for f in S.T.fields(t):
        if f['n'] == name:
            js = [a for a in jatoms(eng, t) if a[0] == (S.T.fields(t).index(f),)]
            return models.jget(eng, js[0][2], u1('jws_payload', code), js[0][1], path, sort)
    raise Unsupported('claim ' + name)


def delegated(S, h, tm, owner, keys):
    """the trust mark carries a delegation by the owner to the mark's issuer for the mark's type"""
    code = h.fld(tm, 'DelegationJWT')
    c = lambda n: cl(S, code, n)
    iat = cl(S, code, 'IssuedAt', (0,))
    exp = cl(S, code, 'ExpiresAt', ())
    expv = cl(S, code, 'ExpiresAt', ('*', 0))
    return AND(code != lit(''), typed_doc(S, code, TMD, 'oidfed.DelegationJWT'), c('TrustMarkType') == h.fld(tm, 'TrustMarkType'), c('Subject') == h.fld(tm, 'Issuer'), c('Issuer') == owner,
               OR(iat == 0, iat <= clock), OR(exp == 0, expv == 0, expv >= clock), setof(keys) != 0, u1('set_len', setof(keys)) != 0, jws_ok(code, setof(keys)))


from models import jws_ok


def accepted(S, h, tm, keys, n, owner):
    t = time_ok(S, h.fld(tm, 'IssuedAt'), h.fld(tm, 'ExpiresAt'))
    return AND(t, verified(h, h.fld(tm, 'jwtMsg'), keys), OR(n == 0, delegated(S, h, tm, h.fld(owner, 'ID'), h.fld(owner, 'JWKS'))))


@contract('(*oidfed.TrustMark).VerifyExternal', props=['P12', 'P13'])
class TVE(Contract):
    allocs = True
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'remembered delegation', deleg_inv(S, S.old, S.a[0])
    def modifies(s, S): return S.mod(S.a[0], 'delegation')
    def ensures(s, S):
        h = S.old
        tm, keys, tmo = S.a
        t = time_ok(S, h.fld(tm, 'IssuedAt'), h.fld(tm, 'ExpiresAt'))
        v = verified(h, h.fld(tm, 'jwtMsg'), keys)
        d = delegated(S, h, tm, h.fld(h.at(tmo, 0), 'ID'), h.fld(h.at(tmo, 0), 'JWKS'))
        yield 'accepted only in time', ['P12'], IMP(S.ok, t)
        yield 'accepted only with a signature of the issuer', ['P12'], IMP(S.ok, v)
        yield 'accepted only with a valid delegation', ['P13'], IMP(AND(S.ok, tmo.l != 0), d)
        yield 'accepted if everything holds', ['P12', 'P13'], IMP(AND(t, v, OR(tmo.l == 0, d)), S.ok)
        yield 'invariant', deleg_inv(S, S.new, tm)


@contract('(*oidfed.TrustMarkInfo).VerifyExternal', props=['P12', 'P13'])
class IVE(Contract):
    allocs = True
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'remembered mark', info_inv(S, S.old, S.a[0])
    def modifies(s, S):
        return [(k, None) for k in S.keys('oidfed.TrustMark', 'delegation')] + S.mod(S.a[0], 'trustmark')
    def ensures(s, S):
        yield 'ok exactly if accepted', S.ok == info_accepted(S, S.old, S.a[0], S.a[1], S.a[2].l, S.old.at(S.a[2], 0))
        yield 'invariant', info_inv(S, S.new, S.a[0])


def mc(S, code, name, path=(), sort=I): return cl(S, code, name, path, 'oidfed.TrustMark', sort)


def info_accepted(S, h, info, keys, n, owner):
    """the trust mark object is accepted with the issuer keys and, if n != 0, the owner: said on the JWT alone"""
    code = h.fld(info, 'TrustMarkJWT')
    iat, exp, expv = mc(S, code, 'IssuedAt', (0,)), mc(S, code, 'ExpiresAt'), mc(S, code, 'ExpiresAt', ('*', 0))
    dc = mc(S, code, 'DelegationJWT')
    c = lambda nme, p=(): cl(S, dc, nme, p)
    dexp, dexpv = c('ExpiresAt'), c('ExpiresAt', ('*', 0))
    ks = h.fld(owner, 'JWKS')
    d = AND(dc != lit(''), typed_doc(S, dc, TMD, 'oidfed.DelegationJWT'), c('TrustMarkType') == mc(S, code, 'TrustMarkType'), c('Subject') == mc(S, code, 'Issuer'),
            c('Issuer') == h.fld(owner, 'ID'), OR(c('IssuedAt', (0,)) == 0, c('IssuedAt', (0,)) <= clock), OR(dexp == 0, dexpv == 0, dexpv >= clock),
            setof(ks) != 0, u1('set_len', setof(ks)) != 0, jws_ok(dc, setof(ks)))
    return AND(typed_doc(S, code, TM, 'oidfed.TrustMark'), mc(S, code, 'TrustMarkType') == h.fld(info, 'TrustMarkType'), OR(iat == 0, iat <= clock), OR(exp == 0, expv == 0, expv >= clock),
               setof(keys) != 0, u1('set_len', setof(keys)) != 0, jws_ok(code, setof(keys)), OR(n == 0, d))
