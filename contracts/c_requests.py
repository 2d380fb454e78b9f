"""Authorization requests (P17)"""
from core import *
from spec import *
import models
from models import u1, clock, jmap_dom, jmap_val, EPOCH, qhas, qfirst
from c_sign import signed, algcode, boxed

SECONDS = (clock - EPOCH) / 10**9          # now, as a JSON number
MSA = 'map[string]interface{}'


class Claims(Contract):
    allocs = True

    def obj(s, S):
        """the object that was signed: its keys, and the value of a key"""
        pl = u1('jws_payload', S.new.str(S.r(0)))
        mt = S.T.id(MSA)
        p, so = S.T.leaves(S.T.elem(mt))[0]
        d = jmap_dom(S.eng, mt, pl)
        v = jmap_val(S.eng, mt, pl, p, z3.ArraySort(I, so))
        return lambda k: z3.Select(d, k), lambda k: z3.Select(v, k)

    def signed(s, S):
        rop = S.a[0]
        return signed(S, S.new.str(S.r(0)), None, S.old.fld(rop, 'key').code, algcode(S, S.old.fld(rop, 'alg')))

    def str(s, S, x): return boxed(S, 'string', x)
    def num(s, S, x): return boxed(S, 'int64', x)


@contract('(oidfed.RequestObjectProducer).RequestObject', props=['P17'])
class RequestObject(Claims):
    def ensures(s, S):
        rop, m = S.a[0], S.a[1]
        me, lf = S.old.fld(rop, 'EntityID'), S.old.fld(rop, 'lifetime')
        has, val = s.obj(S)
        ok = lambda x: IMP(S.ok, x)
        yield 'refused without audience', IMP(NOT(m.has(lit('aud'))), NOT(S.ok))
        yield 'signed with the key of the client', ok(s.signed(S))
        for c in ('iss', 'client_id'):
            yield 'names the client: %s' % c, ok(AND(has(lit(c)), val(lit(c)) == s.str(S, me)))
        yield 'audience as requested', ok(AND(has(lit('aud')), val(lit('aud')) == m.get(lit('aud')).code))
        yield 'issued now', ok(AND(has(lit('iat')), val(lit('iat')) == s.num(S, SECONDS)))
        yield 'expires after the lifetime', ok(AND(has(lit('exp')), val(lit('exp')) == s.num(S, SECONDS + lf)))
        yield 'has an id', ok(has(lit('jti')))
        yield 'neither subject nor secret', ok(AND(NOT(has(lit('sub'))), NOT(has(lit('client_secret')))))
        own = [lit(x) for x in ('iss', 'client_id', 'iat', 'exp', 'sub', 'client_secret')]
        yield 'all other parameters are those of the caller', ok(forall(lambda k: IMP(AND([k != x for x in own] + [m.has(k)]), AND(has(k), val(k) == m.get(k).code)), I))
        yield 'and nothing else', ok(forall(lambda k: IMP(AND([k != x for x in own] + [k != lit('jti'), has(k)]), m.has(k)), I))


@contract('(oidfed.RequestObjectProducer).ClientAssertion', props=['P17'])
class ClientAssertion(Claims):
    def ensures(s, S):
        rop = S.a[0]
        me, lf = S.old.fld(rop, 'EntityID'), S.old.fld(rop, 'lifetime')
        has, val = s.obj(S)
        ok = lambda x: IMP(S.ok, x)
        yield 'signed with the key of the client', ok(s.signed(S))
        for c in ('iss', 'sub'):
            yield 'names the client: %s' % c, ok(AND(has(lit(c)), val(lit(c)) == s.str(S, me)))
        yield 'audience is the addressed endpoint', ok(AND(has(lit('aud')), val(lit('aud')) == s.str(S, S.a[1])))
        yield 'issued now', ok(AND(has(lit('iat')), val(lit('iat')) == s.num(S, SECONDS)))
        yield 'expires after the lifetime', ok(AND(has(lit('exp')), val(lit('exp')) == s.num(S, SECONDS + lf)))
        yield 'has an id', ok(has(lit('jti')))
        names = [lit(x) for x in ('iss', 'sub', 'aud', 'iat', 'exp', 'jti')]
        yield 'nothing else', ok(forall(lambda k: IMP(has(k), OR([k == x for x in names])), I))


@contract('oidfed.NewRequestObjectProducer', props=['P17'])
class NewROP(Contract):
    allocs = True
    def ensures(s, S):
        r = S.res
        yield 'as configured', AND(r.ref != 0, S.new.fld(r, 'EntityID') == S.a[0], S.new.fld(r, 'key').code == S.a[1].code, S.new.fld(r, 'lifetime') == S.a[3],
                                   algcode(S, S.new.fld(r, 'alg')) == algcode(S, S.a[2]))


def op_metadata_of(iss, m): return UF('op_metadata_of', I, I, B)(iss, m)


@contract('(oidfed.FederationLeaf).ResolveOPMetadata', props=['P17', 'P24'])
class ResolveOP(Contract):
    allocs = True
    def requires(s, S):
        # the default metadata resolver is a package variable that a program may replace, but not by nil
        g = 'oidfed.DefaultMetadataResolver'
        gt = S.T.elem(S.eng.gtypes[g])
        yield 'there is a metadata resolver', NOT(isnil(S.old._rd(Ptr(S.eng.globals[g], gt), gt)))
    def ensures(s, S):
        yield 'metadata or an error', S.ok == (S.r(0).ref != 0)
    def assumes(s, S):
        # a name for "the metadata that this call returned": it has no other meaning
        yield '(definition of the predicate op_metadata_of)', IMP(S.ok, op_metadata_of(S.a[1], S.r(0).ref))


@contract('(oidfed.FederationLeaf).GetAuthorizationURL', props=['P17'])
class AuthURL(Claims):
    """the URL is the provider's authorization endpoint with its own query parameters and those of the request"""
    def requires(s, S):
        yield 'request object producer', S.old.fld(S.a[0], 'oidcROProducer').ref != 0
        yield from ResolveOP.requires(REG[ResolveOP.fn], S)
    def ensures(s, S):
        f, (iss, redirect, state, scope, extra) = S.a[0], S.a[1:6]
        ok = lambda x: IMP(S.ok, x)
        q = u1('url_query_of', S.r(0))
        has, first = (lambda k: z3.Select(qhas(q), lit(k))), (lambda k: qfirst(q, lit(k)))
        rop = S.old.fld(f, 'oidcROProducer')
        for k, v in (('client_id', S.old.fld(f, 'EntityID')), ('response_type', lit('code')), ('redirect_uri', redirect), ('scope', scope)):
            yield 'query: ' + k, ok(AND(has(k), first(k) == v))
        yield 'query: request object of the client', ok(AND(has('request'), signed(S, first('request'), None, S.old.fld(rop, 'key').code, algcode(S, S.old.fld(rop, 'alg')))))
        mt = S.T.id(MSA)
        p, so = S.T.leaves(S.T.elem(mt))[0]
        pl = u1('jws_payload', first('request'))
        d, v = jmap_dom(S.eng, mt, pl), jmap_val(S.eng, mt, pl, p, z3.ArraySort(I, so))
        obj = lambda k, x: AND(z3.Select(d, lit(k)), z3.Select(v, lit(k)) == s.str(S, x))
        me = S.old.fld(rop, 'EntityID')
        for k, x in (('iss', me), ('client_id', me), ('redirect_uri', redirect), ('state', state), ('response_type', lit('code')), ('scope', scope)):
            yield 'request object: ' + k, ok(obj(k, x))
        own = ['aud', 'redirect_uri', 'state', 'response_type', 'scope', 'iss', 'client_id', 'iat', 'exp', 'jti', 'sub', 'client_secret']
        yield 'request object: the parameters of the caller', ok(forall(lambda k: IMP(AND([k != lit(x) for x in own] + [extra.has(k)]), AND(z3.Select(d, k),
                z3.Select(v, k) == z3.If(extra.get(k).l == 1, s.str(S, S.old.at(extra.get(k), 0)), s.list(S, extra.get(k))))), I, pats=lambda k: z3.Select(d, k)))
        yield 'request object: nothing else', ok(forall(lambda k: IMP(AND([k != lit(x) for x in own] + [z3.Select(d, k)]), extra.has(k)), I, pats=lambda k: z3.Select(d, k)))
        # the rest is that of the endpoint
        i = S.eng.T.fidx(S.T.id('net/url.URL'), 'RawQuery')
        def same(ep):
            rest = [UF('url_fld_' + '.'.join(map(str, p)), I, so)(ep) for p, so in S.T.leaves(S.T.id('net/url.URL')) if p[0] != i]
            q0 = UF('url_fld_%d' % i, I, I)(ep)
            return AND(u1('url_rest_of', S.r(0)) == UF('url_rest', *([x.sort() for x in rest] + [I]))(*rest),
                       forall(lambda k: IMP(AND([k != lit(x) for x in ('request', 'client_id', 'response_type', 'redirect_uri', 'scope')]), AND(z3.Select(qhas(q), k) == z3.Select(qhas(q0), k), IMP(z3.Select(qhas(q), k), qfirst(q, k) == qfirst(q0, k)))), I))
        md = lambda m: Ptr(m, S.T.id('oidfed.OpenIDProviderMetadata'))
        yield "the provider's endpoint and its own query parameters", ok(NOT(forall(lambda m: NOT(AND(op_metadata_of(iss, m), same(S.new.fld(md(m), 'AuthorizationEndpoint')),
              obj('aud', S.new.fld(md(m), 'Issuer')))), I, pats=lambda m: op_metadata_of(iss, m))))
    def list(s, S, v):
        return boxed(S, S.T.s(S.T.elem(S.T.id('net/url.Values'))), *[x for _, x in S.eng.flat(S.T.elem(S.T.id('net/url.Values')), v)])
    def inv(s, S, L):
        extra = S.a[5]
        for v in L.vars('map'):
            def f(L, v=v):
                m = L.h.map(v.t, v(L))
                seen = lambda k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
                return forall(lambda k: AND(m.has(k) == seen(k), IMP(seen(k), AND(extra.has(k), m.get(k).code == z3.If(extra.get(k).l == 1, s.str(S, S.old.at(extra.get(k), 0)), s.list(S, extra.get(k)))))), I)
            yield 'the parameters visited so far', f
