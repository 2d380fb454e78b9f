"""JWTs: parsing, typing, signature verification, signing (P02, P14, P15, P16)"""
from core import *
from spec import *
import models
from models import jws_ok, jws_typed, jatoms, jget, u1

RAW = 'internal/jwx.ParsedJWT'
ES, TM, TMD, RR = lit('entity-statement+jwt'), lit('trust-mark+jwt'), lit('trust-mark-delegation+jwt'), lit('resolve-response+jwt')


def content(h, p):
    """content of the JWS message of a ParsedJWT"""
    return h.deref(h.fld(p, 'Message'))


def raw(h, p): return h.str(h.fld(p, 'RawJWT'))


def setof(keys): return keys.get(0).code


def verified(h, p, keys):
    """the parsed JWT p verifies with a key of the (non-empty) set"""
    return AND(p.ref != 0, h.fld(p, 'Message').ref != 0, setof(keys) != 0, u1('set_len', setof(keys)) != 0, jws_ok(raw(h, p), setof(keys)))


def wf(h, p):
    """p is a parsed JWT as returned by Parse"""
    m = h.fld(p, 'Message')
    c = u1('jws_content', raw(h, p))
    return AND(p.ref != 0, m.ref != 0, u1('jws_parseerr', raw(h, p)) == 0, content(h, p) == c, u1('jws_body', c) == u1('jws_payload', raw(h, p)))


@contract('(*internal/jwx.ParsedJWT).VerifyWithSet', props=['P02', 'P12', 'P13'])
class VerifyWithSet(Contract):
    allocs = True
    nocache = ALLTRACES
    def ensures(s, S):
        yield 'ok exactly if a key of the set signed the bytes', S.ok == verified(S.old, S.a[0], S.a[1])


@contract('(*internal/jwx.ParsedJWT).VerifyType', props=['P14'])
class VerifyType(Contract):
    def requires(s, S):
        yield 'parsed', AND(S.a[0].ref != 0, S.old.fld(S.a[0], 'Message').ref != 0)
    def ensures(s, S):
        c = content(S.old, S.a[0])
        yield 'one signature of that type', S.res == AND(u1('jws_nsig', c) == 1, u1('jws_typset', c, B), u1('jws_typ', c) == S.a[1])


@contract('internal/jwx.Parse', props=['P14', 'P02'])
class Parse(Contract):
    allocs = True
    def ensures(s, S):
        p = S.r(0)
        code = S.old.str(S.a[0])
        yield 'ok exactly if the bytes are a JWS', S.ok == (u1('jws_parseerr', code) == 0)
        yield 'new', AND(p.ref != 0, p.ref >= S.na0)
        r = S.new.fld(p, 'RawJWT')
        yield 'keeps the bytes', AND(r.b == S.a[0].b, r.o == S.a[0].o, r.l == S.a[0].l, S.new.str(r) == code)
        m = S.new.fld(p, 'Message')
        yield 'message', IMP(S.ok, AND(m.ref >= S.na0, wf(S.new, p)))


def claims(S, h, p, tname, code):
    """object p of the type holds the claims of the JSON document code"""
    eng = S.eng
    t = S.T.id(tname)
    out = []
    for path, n, ft in jatoms(eng, t):
        q = Ptr(p.ref, p.rt, p.path + path) if isinstance(p, Ptr) else p
        v = h._rd(q, ft)
        refs = set(eng.refleaves(ft))
        for lp, x in eng.flat(ft, v):
            g = jget(eng, ft, code, n, lp, x.sort())
            out.append(((x == 0) == (g == 0)) if lp in refs else x == g)
        if S.T.k(ft) == 'ptr':
            pt = S.T.elem(ft)
            if S.T.k(pt) != 'ptr' and len(S.T.leaves(pt)) <= 4:
                pv = eng.rd(h.heap, Ptr(v.ref, pt), pt)
                for lp, x in eng.flat(pt, pv): out.append(IMP(v.ref != 0, x == jget(eng, ft, code, n, ('*',) + lp, x.sort())))
    return AND(out)


def decodes(S, tname, code):
    t = S.T.id(tname)
    return UF('json_decerr', I, I, I)(code, lit('type ' + S.T.s(S.T.u(t)))) == 0


class ParseTyped(Contract):
    allocs = True
    typ = None
    tname = None
    def ensures(s, S):
        p = S.r(0)
        code = S.old.str(S.a[0])
        pl = u1('jws_payload', code)
        yield 'ok exactly for a JWS of the required type', S.ok == AND(jws_typed(code, s.typ), decodes(S, s.tname, pl))
        yield 'result', IMP(S.ok, AND(p.ref != 0, p.ref >= S.na0))
        yield 'none on error', IMP(NOT(S.ok), p.ref == 0)
        j = S.new.fld(p, 'jwtMsg')
        yield 'keeps the JWS', IMP(S.ok, AND(wf(S.new, j), raw(S.new, j) == code, j.ref >= S.na0))
        yield 'claims', IMP(S.ok, claims(S, S.new, S.new.addr(p, s.emb) if s.emb else p, s.tname, pl))
    emb = None


@contract('oidfed.ParseEntityStatement', props=['P14', 'P02'])
class PES(ParseTyped):
    typ, tname, emb = ES, 'oidfed.EntityStatementPayload', 'EntityStatementPayload'


@contract('oidfed.ParseTrustMark', props=['P14', 'P12'])
class PTM(ParseTyped):
    typ, tname = TM, 'oidfed.TrustMark'
    def ensures(s, S):
        yield from ParseTyped.ensures(s, S)
        yield 'no remembered delegation', IMP(S.ok, S.new.fld(S.r(0), 'delegation').ref == 0)


@contract('oidfed.parseDelegationJWT', props=['P14', 'P13'], entry=False)
class PDJ(ParseTyped):
    typ, tname = TMD, 'oidfed.DelegationJWT'
