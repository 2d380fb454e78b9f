"""the public steps of trust chain resolution (P01, P02, P03, P06, P19, P26)"""
from core import *
from spec import *
import models
from models import u1, sset, clock
from c_resolver import TT, R_, Paths, ChainList, Anchors, LST
from c_cache import Q, before, after, fromentry, GetTree, GetChains, CacheRead

META = 'oidfed.Metadata'


class Step(Contract):
    allocs = True
    def requires(s, S): yield 'receiver', S.a[0].ref != 0
    def tree(s, S, h): return h.fld(S.a[0], 'trustTree')
    def anchors(s, S, h): return Anchors(h, h.fld(S.a[0], 'TrustAnchors'))
    def same(s, S, a, b):
        t = S.T.id(TT)
        return AND([x == y for (_, x), (_, y) in zip(S.eng.flat(t, a), S.eng.flat(t, b))])
    def start(s, S, r): return S.old.fld(S.a[0], 'StartingEntity'), r.ec(S.old.fld(S.a[0], 'StartingEntity'))
    def rooted(s, S, h, v, c=None):
        """v is the tree of the world above the starting entity"""
        r = R_(S.eng, h)
        x, e = s.start(S, r)
        ids, tys = sset(h.heap, h.fld(v, 'subordinateIDs').ref), sset(h.heap, h.fld(v, 'includedEntityTypes').ref)
        yield 'starts at the entity', AND(r.E(v) == e, r.Sb(v) == 0, h.fld(v, 'depth') == 0)
        yield 'the entity has a current configuration about itself', AND(x != lit(''), r.ec_ok(x), r.iss(e) == x, r.sub(e) == x, r.timely(e))
        yield 'nothing below it but itself', forall(lambda y: z3.Select(ids, y) == (y == x), pats=lambda y: z3.Select(ids, y))
        yield 'its entity types', forall(lambda y: z3.Select(tys, y) == AND(r.meta(e) != 0, z3.Select(r.guess(r.meta(e)), y)), pats=lambda y: z3.Select(tys, y))
        yield 'the tree of the world', r.isrt(s.anchors(S, h), r.pack(v), IV(0), ids, tys)
        yield 'expires with its statements', r.expok(r.pack(v))
    def possible(s, S, r):
        x, e = s.start(S, r)
        return AND(x != lit(''), r.ec_ok(x), r.iss(e) == x, r.sub(e) == x, r.timely(e))
    def cached(s, S, h, v):
        """v was read from the entry for this question"""
        key = u1('cache_key_of', S.g('cg_entry'))
        r = R_(S.eng, h)
        hid = [h.fld(v, 'Entity').ref >= 0]
        return AND(before(key) == lit('trust_tree'), [f for _, f in Q(S, S.a[0]).parts(S.old, after(key))], NOT(h.fld(v, 'signaturesVerified')))


@contract('(*oidfed.TrustResolver).Resolve', props=['P01', 'P03', 'P04', 'P06', 'P19'])
class PubResolve(Step):
    def modifies(s, S):
        # the types to which the resolution is restricted are those of the starting entity's own metadata
        e = R_(S.eng, S.old).ec(S.old.fld(S.a[0], 'StartingEntity'))
        md = S.old.fld(Ptr(e, S.T.id('oidfed.EntityStatement')), 'Metadata')
        return S.mod(S.a[0], 'trustTree') + [(k, md.ref) for k in S.keys(META)]
    def ensures(s, S):
        n = s.tree(S, S.new)
        r = R_(S.eng, S.new)
        z = S.eng.zero(S.T.id(TT))
        rooted = AND([f for _, f in s.rooted(S, S.new, n)])
        cached = s.cached(S, S.new, n)
        empty = s.same(S, n, z)
        yield 'a cached tree for this question, the tree of the world, or nothing', OR(cached, rooted, empty)
        yield 'nothing only if there is no such configuration', IMP(AND(empty, NOT(cached)), NOT(s.possible(S, R_(S.eng, S.old))))
        yield 'not verified', OR(r.wf(s.anchors(S, S.new), r.pack(n)))


@contract('(*oidfed.TrustResolver).VerifySignatures', props=['P01', 'P02', 'P06', 'P19'])
class PubVerify(Step):
    def requires(s, S):
        yield 'receiver', S.a[0].ref != 0
        r = R_(S.eng, S.old)
        v = s.tree(S, S.old)
        yield 'a tree that was resolved', OR(r.g(v, 'signaturesVerified'), r.wf(s.anchors(S, S.old), r.pack(v)))
    def modifies(s, S): return S.mod(S.a[0], 'trustTree')
    def parts(s, S, v, w):
        r = R_(S.eng, S.old)
        A = s.anchors(S, S.old)
        c, d = r.pack(v), r.pack(w)
        done, res = r.g(v, 'signaturesVerified'), r.g(w, 'signaturesVerified')
        yield 'a verified tree stays as it is', IMP(done, c == d)
        yield 'verified exactly if its statements verify up to a trust anchor', OR(done, res == r.vs(A, c))
        yield 'only verified branches are kept, and all of them', OR(done, IMP(res, r.pruned(A, c, d)))
        yield 'otherwise nothing is kept', IMP(NOT(res), AND(r.E(w) == r.E(v), r.Sb(w) == r.Sb(v), r.au(w).l == 0))
        yield 'expires as before', S.new.fld(w, 'expiresAt').get(0) == S.old.fld(v, 'expiresAt').get(0)
    def ensures(s, S): return s.parts(S, s.tree(S, S.old), s.tree(S, S.new))


@contract('(oidfed.TrustResolver).Chains', props=['P01', 'P02', 'P06', 'P19'])
class PubChains(Step):
    def requires(s, S): return []
    def cachedchains(s, S):
        key = u1('cache_key_of', S.g('cg_entry'))
        return AND(before(key) == lit('trust_tree_chains'), [f for _, f in Q(S, S.a[0]).parts(S.old, after(key))], fromentry(S, 'oidfed.TrustChains', S.res, S.g('cg_entry')))
    def paths(s, S, v):
        r = Paths(S.eng, S.old)
        c = r.pack(v)
        R = ChainList(S.new, S.res)
        return AND(R.all(lambda k: r.path(c, R.item(k))), forall(lambda l: IMP(r.path(c, l), R.has(l)), LST, pats=lambda l: r.path(c, l)))
    def ensures(s, S):
        v = s.tree(S, S.old)
        yield 'the chains that were cached for this question, or exactly the paths of the tree', OR(s.cachedchains(S), s.paths(S, v))
        # what is cached
        n0, n1 = S.g('cs_n', True), S.g('cs_n')
        yield 'only verified chains are cached', OR(n1 == n0, S.old.fld(v, 'signaturesVerified'))


@contract('(*oidfed.TrustResolver).ResolveToValidChainsWithoutVerifyingMetadata', props=['P01', 'P02', 'P06', 'P19'])
class PubValid(Step):
    def modifies(s, S): return PubResolve.modifies(REG[PubResolve.fn], S)
    def ensures(s, S):
        h = S.new
        r = Paths(S.eng, h)
        A = s.anchors(S, S.old)
        R = ChainList(h, S.res)
        key = u1('cache_key_of', S.g('cg_entry'))
        question = [f for _, f in Q(S, S.a[0]).parts(S.old, after(key))]
        w = s.tree(S, h)
        d = r.pack(w)
        paths = AND(R.all(lambda k: r.path(d, R.item(k))), forall(lambda l: IMP(r.path(d, l), R.has(l)), LST, pats=lambda l: r.path(d, l)))
        cached = AND(OR(before(key) == lit('trust_tree_chains'), before(key) == lit('trust_tree')), question)
        # or: the tree is what signature verification leaves of the tree of the world
        x, e = s.start(S, r)
        good = AND(x != lit(''), r.ec_ok(x), r.iss(e) == x, r.sub(e) == x, r.timely(e))
        def tree(c):
            v = r.un(c)
            ids, tys = sset(h.heap, h.fld(v, 'subordinateIDs').ref), sset(h.heap, h.fld(v, 'includedEntityTypes').ref)
            return AND(r.E(v) == e, r.Sb(v) == 0, r.isrt(A, c, IV(0), ids, tys), forall(lambda y: z3.Select(ids, y) == (y == x), pats=lambda y: z3.Select(ids, y)),
                       forall(lambda y: z3.Select(tys, y) == AND(r.meta(e) != 0, z3.Select(r.guess(r.meta(e)), y)), pats=lambda y: z3.Select(tys, y)))
        computed = NOT(forall(lambda c: NOT(AND(tree(c), r.g(w, 'signaturesVerified') == r.vs(A, c), OR(NOT(r.vs(A, c)), r.pruned(A, c, d)))), vsort(TT), pats=lambda c: r.vs(A, c)))
        yield 'cached for this question, or exactly the paths of the verified tree', OR(cached, paths)
