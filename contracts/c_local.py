"""resolving locally (P21)"""
from core import *
from spec import *
import models
from models import AS
from c_resolver import ChainList
from c_wrappers import Step, PubValid, PubResolve
from c_filters import pathlen
from c_metadata import ChainMetadata, ChainMessages, evaluated, noneval
from c_policy import glob
from c_remote import RRP, SRem, members

RQ = 'apimodel.ResolveRequest'
TCS, TC = 'oidfed.TrustChains', 'oidfed.TrustChain'


def ids(S, h, l):
    """a list of strings by its content"""
    return [S.eng.content(h.heap, l.et, l.b, (), I), l.o, l.l]


def anchor_terms(S, h, l):
    """a list of trust anchors by its content"""
    return [S.eng.content(h.heap, l.et, l.b, p, so) for p, so in S.T.leaves(l.et)] + [l.o, l.l]


def question(S, h, tr):
    """what a resolver is asked"""
    f = lambda n: h.fld(tr, n)
    return [f('StartingEntity')] + anchor_terms(S, h, f('TrustAnchors')) + ids(S, h, f('Types'))


def list_terms(S, h, l):
    return [S.eng.content(h.heap, l.et, l.b, p, so) for p, so in S.T.leaves(l.et)] + [l.o, l.l]


def resolved(q, ls): return UF('chains_returned', *([x.sort() for x in q + ls] + [B]))(*(q + ls))


class AllChains(type(REG[PubValid.fn])):
    """names what is returned"""
    def ghost(s, S): yield resolved(question(S, S.old, S.a[0]), list_terms(S, S.new, S.res))
    def ensures(s, S):
        yield from PubValid.ensures(s, S)
        yield 'named', resolved(question(S, S.old, S.a[0]), list_terms(S, S.new, S.res))


AllChains.fn, AllChains.short, AllChains.props = PubValid.fn, PubValid.short, PubValid.props
REG[PubValid.fn] = AllChains()


def returned(q, ls): return UF('valid_chains_returned', *([x.sort() for x in q + ls] + [B]))(*(q + ls))


@contract('(*oidfed.TrustResolver).ResolveToValidChains', props=['P07', 'P21', 'P24'])
class ValidChains(Step):
    """the chains of the resolution that pass the filter for valid metadata"""
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        yield 'filter', glob(S, S.old, 'TrustChainsFilterValidMetadata')[0].code != 0
    def modifies(s, S): return PubValid.modifies(REG[PubValid.fn], S)
    def filtered(s, S, o, l, b, As):
        """what the filter makes of the list with these elements"""
        f = glob(S, S.old, 'TrustChainsFilterValidMetadata')[0]
        xs = [f.code, o, l, b] + As
        return S.eng.build(S.T.id(TCS), lambda p, so: UF('apply_m_oidfed.TrustChainsFilter_Filter_%s_%s' % (TCS, '.'.join(map(str, p))), *([x.sort() for x in xs] + [so]))(*xs))
    def ghost(s, S):
        # definition: this list was returned for this question
        yield returned(question(S, S.old, S.a[0]), list_terms(S, S.new, S.res))
    def ensures(s, S):
        b, o, l = z3.Ints('all.b all.o all.l')
        As = [z3.Const('all.%d' % i, z3.ArraySort(I, so)) for i, (p, so) in enumerate(S.T.leaves(S.res.et))]
        vs = [b, o, l] + As
        q = question(S, S.old, S.a[0])
        f = s.filtered(S, o, l, b, As)
        has = resolved(q, As + [o, l])
        yield 'the chains found that pass the filter', OR(isnil(S.res), NOT(z3.ForAll(vs, NOT(AND(has, [u == v for u, v in zip((f.b, f.o, f.l, f.c), (S.res.b, S.res.o, S.res.l, S.res.c))])), patterns=[f.b])))
        yield 'returned', returned(question(S, S.old, S.a[0]), list_terms(S, S.new, S.res))


@contract('oidfed.NewTrustAnchorsFromEntityIDs', props=['P01', 'P21', 'P24'])
class NewAnchors(Contract):
    """trust anchors with these ids, without keys"""
    allocs = True
    def listed(s, S, h, r, n):
        l = S.a[0]
        C = S.eng.content(S.old.heap, l.et, l.b, (), I)
        f = anchor_arrays(S, h, r)
        yield 'ids', forall(lambda j: IMP(AND(l.o <= j, j < l.o + n), z3.Select(f['EntityID'], r.o + (j - l.o)) == z3.Select(C, j)), I, pats=lambda j: z3.Select(C, j))
        yield 'ids (back)', forall(lambda j: IMP(AND(r.o <= j, j < r.o + n), z3.Select(f['EntityID'], j) == z3.Select(C, l.o + (j - r.o))), I, pats=lambda j: z3.Select(f['EntityID'], j))
        yield 'no keys', forall(lambda j: IMP(AND(r.o <= j, j < r.o + n), z3.Select(f['JWKS'], j) == 0), I, pats=lambda j: z3.Select(f['JWKS'], j))
        yield 'as many', r.l == n
    def ensures(s, S): return s.listed(S, S.new, S.res, S.a[0].l)
    def inv(s, S, L):
        for v in L.vars('slice'):
            for i in L.vars('int'):
                for k in range(4):
                    yield 'so far %d' % k, lambda L, v=v, i=i, k=k: list(s.listed(S, L.h, v(L), i(L) - i.entry(L)))[k][1]
            yield 'new', lambda L, v=v: OR(v(L).b == 0, AND(v(L).b >= S.na0, v(L).b < L.na))


def anchor_arrays(S, h, l):
    out = {}
    for n in ('EntityID', 'JWKS'):
        i = S.T.fidx(l.et, n)
        p, so = [(p, so) for p, so in S.T.leaves(l.et) if p[0] == i][0]
        out[n] = S.eng.content(h.heap, l.et, l.b, p, so)
    return out


class Local(Contract):
    allocs = True
    def requires(s, S):
        yield 'filter', glob(S, S.old, 'TrustChainsFilterValidMetadata')[0].code != 0
        yield from REG[ChainMetadata.fn].requires(S)
    def modifies(s, S):
        # the types to which the resolution is restricted are those of the starting entity's own metadata
        from c_resolver import R_
        e = R_(S.eng, S.old).ec(S.old.fld(s.req(S), 'Subject'))
        md = S.old.fld(Ptr(e, S.T.id('oidfed.EntityStatement')), 'Metadata')
        return [(k, md.ref) for k in S.keys('oidfed.Metadata')] + [(('E', TC, p), None) for p, _ in S.T.leaves(S.T.id(TC))]
    def req(s, S): return S.a[1]
    def found(s, S, f):
        req = s.req(S)
        want = S.old.fld(req, 'TrustAnchor')
        C = S.eng.content(S.old.heap, want.et, want.b, (), I)
        return found(S, S.old.fld(req, 'Subject'), C, want.o, want.l, ids(S, S.old, S.old.fld(req, 'EntityTypes')), f)


def found(S, subject, C, wo, wl, types, f):
    """f of a list of valid chains of the resolution of the subject towards the trust anchors (the wl ids in C from wo on)"""
    at = S.T.id('oidfed.TrustAnchor')
    AA = [(p, z3.Const('anchors.%d' % i, z3.ArraySort(I, so))) for i, (p, so) in enumerate(S.T.leaves(at))]
    ao, o, l = z3.Ints('anchors.o list.o list.l')
    As = [z3.Const('list.%d' % i, z3.ArraySort(I, so)) for i, (p, so) in enumerate(S.T.leaves(S.T.id(TC)))]
    ide = [x for p, x in AA if p[0] == S.T.fidx(at, 'EntityID')][0]
    key = [x for p, x in AA if p[0] == S.T.fidx(at, 'JWKS')][0]
    q = [subject] + [x for _, x in AA] + [ao, wl] + types
    anchors = forall(lambda j: IMP(AND(ao <= j, j < ao + wl), z3.Select(ide, j) == z3.Select(C, wo + (j - ao))), I, pats=lambda j: z3.Select(ide, j))
    nokeys = forall(lambda j: IMP(AND(ao <= j, j < ao + wl), z3.Select(key, j) == 0), I, pats=lambda j: z3.Select(key, j))
    has = returned(q, As + [o, l])
    def chain(j): return Slice(*[z3.Select(a, j) for a in As], S.T.elem(S.T.id(TC)))
    return NOT(z3.ForAll([x for _, x in AA] + [ao, o, l] + As, NOT(AND(has, anchors, nokeys, f(chain, o, l))), patterns=[has]))


def best(chain, o, l, f):
    """f of one of them, and no shorter one has metadata"""
    j = z3.Int('which')
    g = lambda k: AND(o <= k, k < o + l, f(chain(k)), forall(lambda i: IMP(AND(o <= i, i < o + l, pathlen(chain(i)) < pathlen(chain(k))), noneval(chain(i))), I, pats=lambda i: chain(i).b))
    return NOT(z3.ForAll([j], NOT(g(j)), patterns=[chain(j).b]))


def refused(chain, o, l): return forall(lambda k: IMP(AND(o <= k, k < o + l), noneval(chain(k))), I, pats=lambda k: chain(k).b)


def same(x, y): return AND(x.b == y.b, x.o == y.o, x.l == y.l)


@contract('(oidfed.LocalMetadataResolver).resolveResponsePayloadWithoutTrustMarks', props=['P07', 'P21', 'P24'], entry=False)
class LocalResolve(Local):
    timeout = 24000
    def ensures(s, S):
        p, c = S.r(0), S.r(1)
        m, msgs = S.new.fld(p, 'Metadata').ref, S.new.fld(p, 'TrustChain')
        C = S.eng.content(S.new.heap, msgs.et, msgs.b, (), I)
        yield 'the metadata of the shortest valid chain that has any', IMP(S.ok, s.found(S, lambda f, o, l: best(f, o, l, lambda x: AND(same(x, c), evaluated(x, m)))))
        yield 'refused only if no chain has metadata', IMP(NOT(S.ok), s.found(S, refused))
        yield 'the messages of that chain', IMP(S.ok, AND(msgs.l == c.l, forall(lambda j: IMP(AND(msgs.o <= j, j < msgs.o + c.l), z3.Select(C, j) == S.new.fld(S.new.at(c, j - msgs.o), 'jwtMsg').ref), I, pats=lambda j: z3.Select(C, j))))
        yield 'trust marks are left out', IMP(S.ok, S.new.fld(p, 'TrustMarks').l == 0)
    def assumes(s, S):
        c = S.r(1)
        yield 'a trust chain with metadata is not empty and consists of statements', IMP(S.ok, AND(c.l > 0, forall(lambda j: IMP(AND(0 <= j, j < c.l), S.new.at(c, j).ref != 0), I)))
    def inv(s, S, L):
        for v in L.vars(types=[TCS]):
            for i in L.vars('int'):
                C = lambda L, v=v: [S.eng.content(L.h.heap, v(L).et, v(L).b, p, so) for p, so in S.T.leaves(v(L).et)]
                def refused(L, v=v, i=i):
                    return forall(lambda j: IMP(AND(v(L).o <= j, j < v(L).o + (i(L) - i.entry(L))), noneval(Slice(*[z3.Select(a, j) for a in C(L)], v(L).et))), I, pats=lambda j: z3.Select(C(L)[0], j))
                yield 'no metadata so far', refused


@contract('(oidfed.LocalMetadataResolver).Resolve', props=['P07', 'P21', 'P24'])
class LocalRes(Local):
    def ensures(s, S):
        m = S.r(0).ref
        yield 'the metadata of the shortest valid chain that has any', IMP(S.ok, s.found(S, lambda f, o, l: best(f, o, l, lambda x: evaluated(x, m))))
        yield 'refused only if no chain has metadata', IMP(NOT(S.ok), AND(m == 0, s.found(S, refused)))


@contract('(oidfed.LocalMetadataResolver).ResolvePossible', props=['P21', 'P24'])
class LocalPossible(Local):
    def ensures(s, S):
        v, i = S.r(0), S.r(1)
        yield 'exactly if there is a valid chain', AND(i == NOT(v), OR(s.found(S, lambda f, o, l: v == (l > 0))))


@contract('(oidfed.SmartRemoteMetadataResolver).resolveResponsePayloadWithoutTrustMarks', props=['P21', 'P24'], entry=False)
class SmartPayload(Local):
    def remote(s, S): return SRem.positive(REG[SRem.fn], S)
    def ensures(s, S):
        p = S.r(0)
        m = S.new.fld(p, 'Metadata').ref
        yield "the answer of a trust anchor's resolve endpoint, or local", IMP(S.ok, OR(s.remote(S), s.found(S, lambda f, o, l: best(f, o, l, lambda x: evaluated(x, m)))))
        yield 'without trust anchors: local', IMP(AND(S.ok, S.old.fld(S.a[1], 'TrustAnchor').l == 0), s.found(S, lambda f, o, l: best(f, o, l, lambda x: evaluated(x, m))))
        yield 'refused only if no chain has metadata', IMP(NOT(S.ok), s.found(S, refused))
