"""What is signed: trust marks, delegations, entity configurations, request objects (P14-P17)"""
from core import *
from spec import *
import models
from models import jws_typed, jatoms, jget, u1, clock, jmap_dom, jmap_val
from c_jwt import ES, TM, TMD, RR


def signed(S, rawcode, typ, key, alg, payload=None):
    """rawcode is a JWS with one signature by key using alg (type typ if given)"""
    fs = [u1('jws_parseerr', rawcode) == 0, u1('sig_key', rawcode) == key, u1('sig_alg', rawcode) == alg, u1('jws_nsig', u1('jws_content', rawcode)) == 1]
    if typ is not None: fs.append(jws_typed(rawcode, typ))
    if payload is not None: fs.append(u1('jws_payload', rawcode) == payload)
    return AND(fs)


def boxed(S, tname, *leaves):
    """code of an interface value holding a value of a concrete type"""
    s = tname
    return UF('box_' + s, *([x.sort() for x in leaves] + [I]))(*leaves)


ALG = 'github.com/lestrrat-go/jwx/v3/jwa.SignatureAlgorithm'


def algcode(S, v):
    """the algorithm as an interface value"""
    x = S.eng.flat(S.T.id(ALG), v)
    return boxed(S, ALG, *[l for _, l in x])


@contract('internal/jwx.SignPayload', props=['P14', 'P15', 'P16', 'P17'])
class SignPayload(Contract):
    inline = True
    allocs = True
    def ensures(s, S):
        r = S.new.str(S.r(0))
        yield 'signs the payload with the key and algorithm', IMP(S.ok, signed(S, r, None, S.a[2].code, algcode(S, S.a[1]), S.old.str(S.a[0])))
    def modifies(s, S): return [(('G', 'headers'), S.a[3].code)]


@contract('internal/jwx.SignWithType', props=['P14', 'P15', 'P16', 'P17'])
class SignWithType(Contract):
    allocs = True
    def ensures(s, S):
        r = S.new.str(S.r(0))
        yield 'signs the payload with the type, key and algorithm', IMP(S.ok, signed(S, r, S.a[1], S.a[3].code, algcode(S, S.a[2]), S.old.str(S.a[0])))
        yield 'key id', IMP(S.ok, u1('sig_kid', r) != 0)


class SignerJWT(Contract):
    """the typed signers"""
    inline = True
    allocs = True
    typ = None
    def requires(s, S):
        yield 'signer', S.a[0].get(0).ref != 0
    def ensures(s, S):
        r = S.new.str(S.r(0))
        g = S.a[0].get(0)
        key, alg = S.old.fld(g, 'key'), S.old.fld(g, 'alg')
        yield 'signed with the declared type', IMP(S.ok, signed(S, r, s.type(S), key.code, algcode(S, alg), models.json_payload(S.eng, S.pre, S.a[1])))
        yield 'a key is required', IMP(key.code == 0, NOT(S.ok))
    def type(s, S): return s.typ


for nm, ty in (('ResolveResponseSigner', RR), ('TrustMarkDelegationSigner', TMD), ('TrustMarkSigner', TM), ('EntityStatementSigner', ES)):
    contract('(oidfed.%s).JWT' % nm, props=['P14'])(type(nm + 'JWT', (SignerJWT,), {'typ': ty}))


@contract('(oidfed.TypedJWTSigner).JWT', props=['P14'])
class TypedJWT(SignerJWT):
    def type(s, S): return S.a[0].get(1)


def claim(S, code, tname, fname, sub=()):
    """the claim of a JSON document that field fname of the type stands for"""
    t = S.T.id(tname)
    for p, n, ft in jatoms(S.eng, t):
        if S.T.fields(t)[p[0]]['n'] == fname:
            return S.eng.build(ft, lambda q, so: jget(S.eng, ft, code, n, q, so)), n, ft
    raise Unsupported('claim ' + fname)


def cl(S, code, tname, fname):
    v = claim(S, code, tname, fname)[0]
    return v


def expclaim(S, code, tname):
    v, n, ft = claim(S, code, tname, 'ExpiresAt')
    return v, jget(S.eng, ft, code, n, ('*', 0), I)


def lifetime(S, spec_lf, i):
    return z3.If(S.a[i].l > 0, S.old.at(S.a[i], 0), spec_lf)


@contract('(oidfed.TrustMarkIssuer).IssueTrustMark', props=['P15'])
class Issue(Contract):
    allocs = True
    def requires(s, S):
        sg = S.old.fld(S.a[0], 'TrustMarkSigner')
        yield 'signer', AND(sg.ref != 0, S.old.fld(sg, 'GeneralJWTSigner').ref != 0)
    def ensures(s, S):
        i = S.a[0]
        h = S.old
        m = h.fld(i, 'trustMarks')
        spec = m.get(S.a[1])
        f = lambda n: S.old.fld(spec, n)
        r = S.r(0)
        raw = S.new.fld(r, 'TrustMarkJWT')
        pl = u1('jws_payload', raw)
        g = h.fld(h.fld(i, 'TrustMarkSigner'), 'GeneralJWTSigner')
        ok = lambda x: IMP(S.ok, x)
        T = 'oidfed.TrustMark'
        yield 'only configured types', IMP(NOT(m.has(S.a[1])), NOT(S.ok))
        yield 'none on error', IMP(NOT(S.ok), r.ref == 0)
        yield 'result', ok(r.ref != 0)
        yield 'signed by the issuer as a trust mark', ok(signed(S, raw, TM, h.fld(g, 'key').code, algcode(S, h.fld(g, 'alg'))))
        yield 'issuer', ok(cl(S, pl, T, 'Issuer') == h.fld(i, 'EntityID'))
        yield 'subject', ok(cl(S, pl, T, 'Subject') == S.a[2])
        yield 'type', ok(AND(cl(S, pl, T, 'TrustMarkType') == f('TrustMarkType'), S.new.fld(r, 'TrustMarkType') == f('TrustMarkType')))
        yield 'issued now', ok(cl(S, pl, T, 'IssuedAt').get(0) == clock)
        yield 'logo', ok(cl(S, pl, T, 'LogoURI') == f('LogoURI'))
        yield 'ref', ok(cl(S, pl, T, 'Ref') == f('Ref'))
        yield 'delegation', ok(cl(S, pl, T, 'DelegationJWT') == f('DelegationJWT'))
        lf = lifetime(S, S.old.fld(f('Lifetime'), 'Duration'), 3)
        e, ev = expclaim(S, pl, T)
        yield 'no expiration without lifetime', ok(IMP(lf == 0, e.ref == 0))
        yield 'expires after the lifetime', ok(IMP(lf != 0, AND(e.ref != 0, ev == clock + lf)))
        x = S.new.fld(r, 'Extra')
        yield 'extra claims in the object only if configured', ok(x.ref == z3.If(f('IncludeExtraClaimsInInfo'), f('Extra').ref, IV(0)))
        tm = S.new.fld(r, 'trustmark')
        te = S.new.fld(tm, 'ExpiresAt')
        yield 'remembers the expiration', ok(AND(tm.ref != 0, IMP(lf == 0, te.ref == 0), IMP(lf != 0, AND(te.ref != 0, S.new.deref(te).get(0) == clock + lf))))
        yield 'signs the extra claims', ok(AND(tm.ref != 0, S.new.fld(tm, 'Extra').ref == f('Extra').ref))


@contract('(oidfed.TrustMarkOwner).DelegationJWT', props=['P15', 'P13'])
class IssueDelegation(Contract):
    allocs = True
    def requires(s, S):
        sg = S.old.fld(S.a[0], 'TrustMarkDelegationSigner')
        yield 'signer', AND(sg.ref != 0, S.old.fld(sg, 'GeneralJWTSigner').ref != 0)
    def ensures(s, S):
        o = S.a[0]
        h = S.old
        m = h.fld(o, 'ownedTrustMarks')
        spec = m.get(S.a[1])
        f = lambda n: S.old.fld(spec, n)
        raw = S.new.str(S.r(0))
        pl = u1('jws_payload', raw)
        g = h.fld(h.fld(o, 'TrustMarkDelegationSigner'), 'GeneralJWTSigner')
        ok = lambda x: IMP(S.ok, x)
        T = 'oidfed.DelegationJWT'
        yield 'only owned types', IMP(NOT(m.has(S.a[1])), NOT(S.ok))
        yield 'signed by the owner as a delegation', ok(signed(S, raw, TMD, h.fld(g, 'key').code, algcode(S, h.fld(g, 'alg'))))
        yield 'issuer', ok(cl(S, pl, T, 'Issuer') == h.fld(o, 'EntityID'))
        yield 'subject', ok(cl(S, pl, T, 'Subject') == S.a[2])
        yield 'type', ok(cl(S, pl, T, 'TrustMarkType') == f('ID'))
        yield 'issued now', ok(cl(S, pl, T, 'IssuedAt').get(0) == clock)
        yield 'ref', ok(cl(S, pl, T, 'Ref') == f('Ref'))
        lf = lifetime(S, f('DelegationLifetime'), 3)
        e, ev = expclaim(S, pl, T)
        yield 'no expiration without lifetime', ok(IMP(lf == 0, e.ref == 0))
        yield 'expires after the lifetime', ok(IMP(lf != 0, AND(e.ref != 0, ev == clock + lf)))


def keyed_by(S, L, mname, slice_, idf):
    pass


class NewWithSpecs(Contract):
    """constructors that index a list of specs by id (the last of several with the same id counts)"""
    allocs = True
    fields = ()
    mapf, idf, elem = None, None, None
    def ensures(s, S):
        r = S.res
        yield 'result', r.ref != 0
        yield 'entity', S.new.fld(r, 'EntityID') == S.a[0]
        yield 'signer', S.new.fld(r, s.sig).ref == S.a[1].ref
        yield from s.indexed(S, S.new, S.new.fld(r, s.mapf), S.a[2].l)
    def same(s, S, h, a, b):
        return AND([x == y for (_, x), (_, y) in zip(S.eng.flat(S.a[2].et, a), S.eng.flat(S.a[2].et, b))])
    def indexed(s, S, h, m, n):
        sp = S.a[2]
        ident = lambda j: S.old.fld(S.old.at(sp, j), s.idf)
        yield 'every spec can be issued', forall(lambda j: IMP(AND(0 <= j, j < n), m.has(ident(j))))
        yield 'only specs are issued', forall(lambda k: IMP(m.has(k), exists(lambda j: AND(0 <= j, j < n, ident(j) == k, s.same(S, h, m.get(k), S.old.at(sp, j))), I)))
    def inv(s, S, L):
        for v in L.vars('map'):
            for i in L.vars('int'):
                for k in range(2):
                    yield 'index %d' % k, lambda L, v=v, i=i, k=k: list(s.indexed(S, L.h, L.h.map(v.t, v(L)), i(L) - i.entry(L)))[k][1]


@contract('oidfed.NewTrustMarkIssuer', props=['P15'])
class NewTMI(NewWithSpecs):
    mapf, idf, sig = 'trustMarks', 'TrustMarkType', 'TrustMarkSigner'


@contract('oidfed.NewTrustMarkOwner', props=['P15'])
class NewTMO(NewWithSpecs):
    mapf, idf, sig = 'ownedTrustMarks', 'ID', 'TrustMarkDelegationSigner'


class AddSpec(Contract):
    mapf, idf = None, None
    def requires(s, S):
        yield 'receiver', AND(S.a[0].ref != 0, S.old.fld(S.a[0], s.mapf).ref != 0)
    def modifies(s, S):
        m = S.old.fld(S.a[0], s.mapf)
        return [(('MD', S.eng.mkey(m.t)), m.ref)] + [(('MV', S.eng.mkey(m.t), p), m.ref) for p, _ in S.T.leaves(S.T.elem(m.t))]
    def ensures(s, S):
        m0, m1 = S.old.fld(S.a[0], s.mapf), S.new.fld(S.a[0], s.mapf)
        k = S.old.fld(S.a[1], s.idf)
        yield 'same map', m0.ref == m1.ref
        yield 'can be issued', AND(m1.has(k), AND([x == y for (_, x), (_, y) in zip(S.eng.flat(S.aty[1], m1.get(k)), S.eng.flat(S.aty[1], S.a[1]))]))
        yield 'others stay', forall(lambda q: IMP(q != k, m1.has(q) == m0.has(q)))


@contract('(*oidfed.TrustMarkIssuer).AddTrustMark', props=['P15'])
class AddTM(AddSpec): mapf, idf = 'trustMarks', 'TrustMarkType'


@contract('(*oidfed.TrustMarkOwner).AddTrustMark', props=['P15'])
class AddOwned(AddSpec): mapf, idf = 'ownedTrustMarks', 'ID'


@contract('jwks.KeyToJWKS', props=['P16'], trusted='public key sets of local signing keys; a key the JWK library does not understand is a programming error (panic)')
class KeyToJWKS(Contract):
    allocs = True
    def ensures(s, S):
        yield 'a set made of the public key', AND(S.res.get(0).code == publicset(S, S.a[0].code, S.a[1]), S.res.get(0).code != 0)


def publicset(S, pub, alg):
    return UF('public_set', I, I, I)(pub, algcode(S, alg))


def publickey(S, key):
    return S.eng.ufcall('m_crypto.Signer_Public', key.code, [], [], S.T.id('crypto.PublicKey') if 'crypto.PublicKey' in S.T.by else S.T.id('interface{}'), S.pre)
