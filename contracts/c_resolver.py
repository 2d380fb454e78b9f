"""trust chain resolution (P01-P06, P26)"""
from core import *
from spec import *
import core, models, execu
from models import clock, u1, contains, sset, bool_uf, SET, AS


def lower(x): return UF('str_lower', I, I)(x)


def matches(c, x):
    """entity id x matches the naming constraint c"""
    host = lower(u1('url_hostname', UF('url_fld_%s' % HOSTP[0], I, I)(x)))
    lc = lower(c)
    return AND(u1('url_parseerr', x) == 0, z3.If(bool_uf('str_hasprefix', lc, lit('.')), bool_uf('str_hassuffix', host, lc), lc == host))


HOSTP = ['?']


@contract('oidfed.matchNamingConstraint', props=['P04'], entry=False)
class Match(Contract):
    pure = True
    allocs = True
    def defn(s, S):
        HOSTP[0] = str(S.T.fidx(S.T.id('net/url.URL'), 'Host'))
        return matches(S.a[0], S.a[1])


class Strs:
    """a []string as content, offset, length"""
    def __init__(s, h, sl):
        s.nil = sl.b == 0
        s.c, s.o, s.l = h.eng.content(h.heap, sl.et, sl.b, (), I), sl.o, sl.l
    def has(s, x): return contains(None, s.c, simp(s.o), simp(s.l), x)
    def at(s, j): return z3.Select(s.c, s.o + j)
    def any(s, f): return exists(lambda j: AND(s.o <= j, j < s.o + s.l, f(z3.Select(s.c, j))), I)
    def anymatch(s, x): return UF('constraint_any', AS, I, I, I, B)(s.c, simp(s.o), simp(s.l), x)


def anymatch_axioms(T):
    HOSTP[0] = str(T.fidx(T.id('net/url.URL'), 'Host'))
    c, o, l, x, j = z3.Const('c', AS), z3.Int('o'), z3.Int('l'), z3.Int('x'), z3.Int('j')
    f, w = UF('constraint_any', AS, I, I, I, B), UF('constraint_wit', AS, I, I, I, I)
    k = w(c, o, l, x)
    return [(frozenset(['constraint_any']), z3.ForAll([c, o, l, x], z3.Implies(f(c, o, l, x), z3.And(o <= k, k < o + l, matches(c[k], x))), patterns=[f(c, o, l, x)])),
            (frozenset(['constraint_any']), z3.ForAll([c, o, l, x, j], z3.Implies(z3.And(o <= j, j < o + l, matches(c[j], x)), f(c, o, l, x)), patterns=[z3.MultiPattern(f(c, o, l, x), c[j])]))]


def name_allowed(S, ex, pe, x):
    if not any('constraint_any' in t for t, _ in S.eng.axioms): S.eng.axioms += anymatch_axioms(S.T)
    return AND(NOT(ex.anymatch(x)), OR(pe.nil, pe.anymatch(x)))


def permit_parts(S, h, c, depth, ids, types):
    """the constraints c (pointer) allow a statement with depth entities, ids and entity types below it"""
    HOSTP[0] = str(S.T.fidx(S.T.id('net/url.URL'), 'Host'))
    mp = h.fld(c, 'MaxPathLength')
    nc = h.fld(c, 'NamingConstraints')
    ex, pe = Strs(h, h.fld(nc, 'Excluded')), Strs(h, h.fld(nc, 'Permitted'))
    al = Strs(h, h.fld(c, 'AllowedEntityTypes'))
    name_ok = lambda x: name_allowed(S, ex, pe, x)
    return [('path length', OR(c.ref == 0, mp.ref == 0, h.deref(mp) >= depth)),
            ('naming', OR(c.ref == 0, nc.ref == 0, forall(lambda x: IMP(z3.Select(ids, x), name_ok(x)), pats=lambda x: z3.Select(ids, x)))),
            ('entity types', OR(c.ref == 0, al.nil, forall(lambda x: IMP(z3.Select(types, x), OR(al.has(x), x == lit('federation_entity'))), pats=lambda x: z3.Select(types, x))))]


def permits(*a): return AND([f for _, f in permit_parts(*a)])


@contract('(*oidfed.trustTree).checkConstraints', props=['P04', 'P06'], entry=False)
class Check(Contract):
    allocs = True
    def requires(s, S):
        t = S.a[0]
        yield 'tree', AND(t.ref != 0, S.old.fld(t, 'subordinateIDs').ref != 0, S.old.fld(t, 'includedEntityTypes').ref != 0)
    def ensures(s, S):
        h, t = S.old, S.a[0]
        parts = permit_parts(S, h, S.a[1], h.fld(t, 'depth'), sset(h.heap, h.fld(t, 'subordinateIDs').ref), sset(h.heap, h.fld(t, 'includedEntityTypes').ref))
        for n, f in parts: yield 'only if allowed: ' + n, IMP(S.res, f)
        yield 'whenever everything is allowed', IMP(AND([f for _, f in parts]), S.res)
        yield 'named', S.res == s.named(S)
    def named(s, S):
        h, t = S.old, S.a[0]
        return R_(S.eng, h).permitted(S.a[1].ref, h.fld(t, 'depth'), sset(h.heap, h.fld(t, 'subordinateIDs').ref), sset(h.heap, h.fld(t, 'includedEntityTypes').ref))
    def ghost(s, S):
        # definition of `permitted` at the arguments of this call
        h, t = S.old, S.a[0]
        yield s.named(S) == permits(S, h, S.a[1], h.fld(t, 'depth'), sset(h.heap, h.fld(t, 'subordinateIDs').ref), sset(h.heap, h.fld(t, 'includedEntityTypes').ref))
    def inv(s, S, L):
        nc = S.old.fld(S.a[1], 'NamingConstraints')
        ex, pe = Strs(S.old, S.old.fld(nc, 'Excluded')), Strs(S.old, S.old.fld(nc, 'Permitted'))
        for v in L.vars(types=['[]string']):
            for i in L.vars('int'):
                def f(L, v=v, i=i):
                    x = Strs(L.h, v(L))
                    return forall(lambda p: IMP(AND(x.o <= p, p < x.o + i(L) - i.entry(L)), name_allowed(S, ex, pe, z3.Select(x.c, p))), pats=lambda p: z3.Select(x.c, p))
                yield 'names so far are allowed', f


# ---------------------------------------------------------------- trust trees
import re as _re
TT = 'oidfed.trustTree'
ENT = 'oidfed.EntityStatement'


def world(h):
    """the heap without what this function allocated: statements and what they refer to lie in it, nothing writes to it"""
    d = dict(h.heap)
    for k, a in d.items():
        if not z3.is_expr(a) or k[0] == 'G': continue
        while z3.is_store(a) and execu.fresh_ref(a.arg(1)): a = a.arg(0)
        d[k] = a
    return H(h.eng, d)


def tree_axioms(eng):
    t = eng.T.id(TT)
    V = vsort(TT)
    ls = eng.T.leaves(t)
    mk = UF('mk_' + TT, *([s for _, s in ls] + [V]))
    get = lambda p, s: UF('get_%s_%s' % (TT, '.'.join(map(str, p))), V, s)
    xs = [z3.Const('f%d' % i, s) for i, (_, s) in enumerate(ls)]
    c = z3.Const('c', V)
    return [(frozenset(['mk_' + TT]), z3.ForAll(xs, z3.And([get(p, s)(mk(*xs)) == x for (p, s), x in zip(ls, xs)]), patterns=[mk(*xs)])),
            (frozenset(['mk_' + TT]), z3.ForAll([c], mk(*[get(p, s)(c) for p, s in ls]) == c, patterns=[get(*ls[0])(c)]))]


class Anchors:
    """the trust anchors: ids and keys by position"""
    def __init__(s, h, sl):
        et = sl.et
        T = h.T
        p = (T.fidx(et, 'EntityID'),)
        s.ids = h.eng.content(h.heap, et, sl.b, p, I)
        kp = [q for q, so in T.leaves(et) if q[0] == T.fidx(et, 'JWKS')]
        s.keys = h.eng.content(h.heap, et, sl.b, kp[0], I)
        s.o, s.l = simp(sl.o), simp(sl.l)
    def args(s): return [s.ids, s.keys, s.o, s.l]
    def has(s, x): return contains(None, s.ids, s.o, s.l, x)
    def first(s, x): return UF('first_anchor', AS, I, I, I, I)(s.ids, s.o, s.l, x)


def first_axioms():
    c, o, l, x, j = z3.Const('c', AS), z3.Int('o'), z3.Int('l'), z3.Int('x'), z3.Int('j')
    f = UF('first_anchor', AS, I, I, I, I)(c, o, l, x)
    inn = models.contains_uf()(c, o, l, x)
    return [(frozenset(['first_anchor']), z3.ForAll([c, o, l, x], z3.Implies(inn, z3.And(o <= f, f < o + l, c[f] == x)), patterns=[f])),
            (frozenset(['first_anchor']), z3.ForAll([c, o, l, x, j], z3.Implies(z3.And(inn, o <= j, j < f), c[j] != x), patterns=[z3.MultiPattern(f, c[j])]))]


def union(a, b): return UF('set_union', SET, SET, SET)(a, b)


def union_axioms():
    a, b, x = z3.Const('a', SET), z3.Const('b', SET), z3.Int('x')
    return [(frozenset(['set_union']), z3.ForAll([a, b, x], z3.Select(union(a, b), x) == z3.Or(z3.Select(a, x), z3.Select(b, x)), patterns=[z3.Select(union(a, b), x)]))]


_fps = {}
FPKEYS = None


class R_:
    """definitions over one state of the world"""
    def __init__(s, eng, h):
        s.eng, s.T = eng, eng.T
        s.h = world(h)
        s.tid = eng.T.id(TT)
        s.et = eng.T.id(ENT)
        ks = s.fpkeys()
        arrs = [core.arr(s.h.heap, k, eng.keysort(k)) for k in ks]
        fp = tuple(a.get_id() for a in arrs)
        if fp not in _fps: _fps[fp] = (len(_fps), arrs)
        s.fp = _fps[fp][0]
        if not getattr(eng, 'tree_ax', None):
            eng.tree_ax = set()
            eng.axioms += tree_axioms(eng) + first_axioms() + union_axioms()

    def fpkeys(s):
        T = s.T
        out = []
        def fields(tn, *fs):
            t = T.id(tn)
            for i, f in enumerate(T.fields(t)):
                if fs and f['n'] not in fs: continue
                for p, so in T.leaves(f['t']): out.append(('F', tn, (i,) + p))
        t = T.id(ENT)
        pl = T.id('oidfed.EntityStatementPayload')
        ei = T.fidx(t, 'EntityStatementPayload')
        for i, f in enumerate(T.fields(pl)):
            if f['n'] in ('Issuer', 'Subject', 'IssuedAt', 'ExpiresAt', 'AuthorityHints', 'Metadata', 'Constraints', 'JWKS'):
                for p, so in T.leaves(f['t']): out.append(('F', ENT, (ei, i) + p))
        for p, so in T.leaves(T.fields(t)[T.fidx(t, 'jwtMsg')]['t']): out.append(('F', ENT, (T.fidx(t, 'jwtMsg'),) + p))
        fields('oidfed.Metadata')
        fields('oidfed.FederationEntityMetadata', 'FederationFetchEndpoint')
        fields('oidfed.ConstraintSpecification')
        fields('oidfed.NamingConstraints')
        fields('internal/jwx.ParsedJWT')
        out += [('E', 'string', ()), ('E', 'uint8', ())]
        return out

    # entities
    def ent(s, ref): return Ptr(ref, s.et)
    def f(s, ref, n): return s.h.fld(s.ent(ref), n)
    def iss(s, e): return s.f(e, 'Issuer')
    def sub(s, e): return s.f(e, 'Subject')
    def exp(s, e): return s.f(e, 'ExpiresAt').get(0)
    def jwks(s, e): return setof_(s.f(e, 'JWKS'))
    def timely(s, e):
        i, x = s.f(e, 'IssuedAt').get(0), s.f(e, 'ExpiresAt').get(0)
        return AND(OR(i == 0, i <= clock), OR(x == 0, x >= clock))
    def ver(s, e, code):
        """statement e verifies with a key of the set with this code"""
        f = UF('verifies_%d' % s.fp, I, I, B)
        x, k = z3.Int('e'), z3.Int('k')
        s.ax('verifies', lambda: z3.ForAll([x, k], f(x, k) == s.ver_def(x, k), patterns=[f(x, k)]))
        return f(e, code)
    def ver_def(s, e, code):
        from c_jwt import raw, jws_ok
        p = s.f(e, 'jwtMsg')
        return AND(p.ref != 0, s.h.fld(p, 'Message').ref != 0, code != 0, u1('set_len', code) != 0, jws_ok(raw(s.h, p), code))

    # signatures
    def at_anchor(s, A, v):
        """the entity of v is a trust anchor; (condition, its statements verify with the anchor's keys)"""
        e, sb = s.E(v), s.Sb(v)
        i = s.iss(e)
        pin = z3.Select(A.keys, A.first(i))
        key = z3.If(pin == 0, s.jwks(e), pin)
        c = AND(e != 0, A.has(i), s.sub(e) == i, IMP(sb != 0, s.iss(sb) == i))
        return c, AND(s.ver(e, key), IMP(sb != 0, s.ver(sb, key)))
    def named(s, name, A, sorts, body, axioms=None):
        """a predicate over anchors and the sorts, defined by body (or by axioms about it)"""
        As = A.args()
        f = UF('%s_%d' % (name, s.fp), *([x.sort() for x in As] + sorts + [B]))
        def mk():
            B_ = SymAnchors()
            cs = [z3.Const('x%d' % i, so) for i, so in enumerate(sorts)]
            vs = B_.args() + cs
            u = f(*vs)
            if axioms is None: return [z3.ForAll(vs, u == body(B_, *cs), patterns=[u])]
            return axioms(B_, f, vs, cs, u)
        k = (name, s.fp)
        if k not in s.eng.tree_ax:
            s.eng.tree_ax.add(k)
            for a in mk(): s.eng.axioms.append((frozenset(['%s_%d' % (name, s.fp)]), a))
        return lambda *cs: f(*(As + list(cs)))
    def edge(s, A, e, sb, c):
        """the tree c above an authority of entity e (with subordinate statement sb) is verified, and so are e and sb with the keys attested there"""
        def body(A, e, sb, c):
            key = s.jwks(s.Sb(s.un(c)))
            return AND(s.vs(A, c), s.ver(e, key), IMP(sb != 0, s.ver(sb, key)))
        return s.named('edge', A, [I, I, vsort(TT)], body)(e, sb, c)
    def some(s, name, A, sorts, cond, arr, bound, extra=None):
        """exists j in [0, bound): cond(j), as a predicate with a witness function and triggers on the elements arr[j]"""
        def axioms(A, f, vs, cs, u):
            w = UF('wit_%s_%d' % (name, s.fp), *([x.sort() for x in vs] + [I]))(*vs)
            j = z3.Int('j')
            r = [z3.ForAll(vs, z3.Implies(u, z3.And(0 <= w, w < bound(*cs), cond(A, w, *cs))), patterns=[u]),
                 z3.ForAll(vs + [j], z3.Implies(z3.And(0 <= j, j < bound(*cs), cond(A, j, *cs)), u), patterns=[z3.MultiPattern(u, z3.Select(arr(*cs), j))])]
            if extra: r += extra(A, f, vs, cs, u)
            return r
        return s.named(name, A, sorts, None, axioms)
    def any_edge(s, A, e, sb, a, n):
        V = vsort(TT)
        return s.some('any_edge', A, [I, I, z3.ArraySort(I, V), I], lambda A, j, e, sb, a, n: s.edge(A, e, sb, z3.Select(a, j)), lambda e, sb, a, n: a, lambda e, sb, a, n: n)(e, sb, a, n)
    def from_any(s, A, e, sb, a, n, d):
        V = vsort(TT)
        return s.some('from_any', A, [I, I, z3.ArraySort(I, V), I, V], lambda A, j, e, sb, a, n, d: AND(s.edge(A, e, sb, z3.Select(a, j)), s.pruned(A, z3.Select(a, j), d)),
                      lambda e, sb, a, n, d: a, lambda e, sb, a, n, d: n)(e, sb, a, n, d)
    def into_any(s, A, c, b, m):
        V = vsort(TT)
        def extra(A, f, vs, cs, u):
            i, v, m2 = z3.Int('i'), z3.Const('v', V), z3.Int('m2')
            c, b, m = cs
            u2 = f(*(A.args() + [c, z3.Store(b, i, v), m2]))
            return [z3.ForAll(vs + [i, v, m2], z3.Implies(z3.And(u, i >= m, m2 >= m), u2), patterns=[z3.MultiPattern(u, u2)])]
        return s.some('into_any', A, [V, z3.ArraySort(I, V), I], lambda A, k, c, b, m: s.pruned(A, c, z3.Select(b, k)), lambda c, b, m: b, lambda c, b, m: m, extra)(c, b, m)
    def vs_body(s, A, v):
        at, ok = s.at_anchor(A, v)
        a = s.au(v)
        return z3.If(at, ok, s.any_edge(A, s.E(v), s.Sb(v), a.a, a.l))
    def rec(s, name, A, n, body): return s.named(name, A, [vsort(TT)] * n, body)
    def vs(s, A, c):
        """the statements of tree c are verified up to a trust anchor"""
        return s.rec('vs', A, 1, lambda A, c: s.vs_body(A, s.un(c)))(c)
    def wf_body(s, A, v):
        a = s.au(v)
        return AND(NOT(s.g(v, 'signaturesVerified')), IMP(s.E(v) == 0, AND(s.Sb(v) == 0, a.l == 0)), IMP(s.at_anchor(A, v)[0], a.l == 0),
                   forall(lambda j: IMP(AND(0 <= j, j < a.l), s.wf_child(A, z3.Select(a.a, j))), pats=lambda j: z3.Select(a.a, j)))
    def wf_child(s, A, c):
        w = s.un(c)
        return AND(s.wf(A, c), IMP(s.E(w) != 0, s.Sb(w) != 0))
    def wf(s, A, c):
        """unverified tree"""
        return s.rec('wftree', A, 1, lambda A, c: s.wf_body(A, s.un(c)))(c)
    def pruned_body(s, A, c0, v, c1, w):
        a, b = s.au(v), s.au(w)
        return AND(s.E(w) == s.E(v), s.Sb(w) == s.Sb(v), s.g(w, 'signaturesVerified'), s.vs(A, c0),
                   IMP(s.at_anchor(A, v)[0], AND(b.l == 0, a.n == b.n)),
                   IMP(NOT(s.at_anchor(A, v)[0]), AND(b.l > 0, NOT(b.n), s.kept(A, v, a, a.l, b, b.l))))
    def kept(s, A, v, a, n, b, m):
        """the first m trees of b are the verified ones of the first n of a"""
        return AND(s.kept_sound(A, v, a, n, b, m), s.kept_all(A, v, a, n, b, m))
    def kept_sound(s, A, v, a, n, b, m):
        return forall(lambda k: IMP(AND(0 <= k, k < m), s.from_any(A, s.E(v), s.Sb(v), a.a, n, z3.Select(b.a, k))), pats=lambda k: z3.Select(b.a, k))
    def kept_all(s, A, v, a, n, b, m):
        return forall(lambda j: IMP(AND(0 <= j, j < n, s.edge(A, s.E(v), s.Sb(v), z3.Select(a.a, j))), s.into_any(A, z3.Select(a.a, j), b.a, m)), pats=lambda j: z3.Select(a.a, j))
    def pruned(s, A, c0, c1):
        """c1 is c0 without the branches that do not verify"""
        return s.rec('pruned', A, 2, lambda A, c0, c1: s.pruned_body(A, c0, s.un(c0), c1, s.un(c1)))(c0, c1)
    def meta(s, e): return s.f(e, 'Metadata').ref
    def guess(s, m):
        t = s.T.id('oidfed.Metadata')
        v = s.h.deref(Ptr(m, t))
        return guess_set(s.eng, t, v)
    def endpoint(s, e):
        m = s.f(e, 'Metadata')
        fe = s.h.fld(m, 'FederationEntity')
        return m.ref, fe.ref, s.h.fld(fe, 'FederationFetchEndpoint')
    def permitted(s, c, depth, ids, types): return UF('permitted_%d' % s.fp, I, I, SET, SET, B)(c, depth, ids, types)

    # the world: one answer per request
    def ec(s, x): return UF('world_ec', I, I)(x)
    def ec_ok(s, x): return UF('world_ec_ok', I, B)(x)
    def fs(s, ep, sub, iss): return UF('world_fs', I, I, I, I)(ep, sub, iss)
    def fs_ok(s, ep, sub, iss): return UF('world_fs_ok', I, I, I, B)(ep, sub, iss)

    def step(s, e, x, depth, ids, types):
        """authority x of entity e is reachable and may be a superior: (condition, its configuration, its statement about e)"""
        a = s.ec(x)
        m, fe, ep = s.endpoint(a)
        st = s.fs(ep, s.iss(e), x)
        c = AND(NOT(z3.Select(ids, x)), s.ec_ok(x), s.iss(a) == x, s.sub(a) == x, s.timely(a), m != 0, fe != 0, ep != lit(''),
                s.fs_ok(ep, s.iss(e), x), s.iss(st) == x, s.sub(st) == s.iss(e), s.timely(st), s.permitted(s.f(st, 'Constraints').ref, depth, ids, types))
        return c, a, st

    # trees
    def un(s, c): return s.eng.vunpack(s.tid, c)
    def g(s, v, n): return s.h.fld(v, n)
    def E(s, v): return s.g(v, 'Entity').ref
    def Sb(s, v): return s.g(v, 'Subordinate').ref
    def au(s, v): return s.g(v, 'Authorities')
    def zero(s, v):
        a = s.au(v)
        return AND(s.E(v) == 0, s.Sb(v) == 0, a.l == 0, a.n, NOT(s.g(v, 'signaturesVerified')))
    def hints(s, e): return Strs(s.h, s.f(e, 'AuthorityHints'))
    def pack(s, v):
        c, _ = s.eng.vpack(s.tid, v)
        return c
    def ax(s, name, mk):
        """add a definitional axiom once"""
        k = (name, s.fp)
        if k in s.eng.tree_ax: return
        s.eng.tree_ax.add(k)
        s.eng.axioms.append((frozenset(['%s_%d' % (name, s.fp)]), mk()))

    def child_ok(s, A, e, x, c, depth, ids, types):
        v = s.un(c)
        good, a, st = s.step(e, x, depth, ids, types)
        return AND(IMP(good, AND(s.E(v) == a, s.Sb(v) == st, s.isrt(A, c, depth + 1, z3.Store(ids, x, TRUE), union(types, s.guess(s.meta(a)))))),
                   IMP(NOT(good), s.zero(v)))

    def isrt_body(s, A, v, depth, ids, types):
        """v is the tree of the world above entity v.Entity, given what is below it"""
        e, a = s.E(v), s.au(v)
        hs = s.hints(e)
        return AND(e != 0, NOT(s.g(v, 'signaturesVerified')),
                   IMP(A.has(s.iss(e)), AND(a.n, a.l == 0)),
                   IMP(NOT(A.has(s.iss(e))), AND(a.l == hs.l, a.n == (hs.l == 0),
                       forall(lambda j: IMP(AND(0 <= j, j < a.l), s.child_ok(A, e, hs.at(j), z3.Select(a.a, j), depth, ids, types)), pats=lambda j: z3.Select(a.a, j)))))

    def isrt(s, A, c, depth, ids, types):
        As = A.args()
        f = UF('isrt_%d' % s.fp, *([x.sort() for x in As] + [vsort(TT), I, SET, SET, B]))
        def mk():
            B_ = SymAnchors()
            c_, d_, i_, t_ = z3.Const('t', vsort(TT)), z3.Int('d'), z3.Const('ids', SET), z3.Const('types', SET)
            u = f(*(B_.args() + [c_, d_, i_, t_]))
            return z3.ForAll(B_.args() + [c_, d_, i_, t_], u == s.isrt_body(B_, s.un(c_), d_, i_, t_), patterns=[u])
        k = ('isrt', s.fp)
        s.ax('isrt', lambda: mk())
        return f(*(As + [c, depth, ids, types]))


    # expiration: the tree does not outlive a statement in it
    def lim(s, x, e): return IMP(e != 0, AND(x != 0, x <= e))
    def X(s, v): return s.g(v, 'expiresAt').get(0)
    def exp_child(s, x, c):
        w = s.un(c)
        return IMP(s.E(w) != 0, AND(s.lim(x, s.X(w)), IMP(s.Sb(w) != 0, s.lim(x, s.exp(s.Sb(w)))), s.expok(c)))
    def expok_body(s, v):
        a = s.au(v)
        return AND(IMP(s.E(v) != 0, s.lim(s.X(v), s.exp(s.E(v)))),
                   forall(lambda j: IMP(AND(0 <= j, j < a.l), s.exp_child(s.X(v), z3.Select(a.a, j))), pats=lambda j: z3.Select(a.a, j)))
    def expok(s, c):
        f = UF('expok_%d' % s.fp, vsort(TT), B)
        c_ = z3.Const('t', vsort(TT))
        def mk(): return z3.ForAll([c_], f(c_) == s.expok_body(s.un(c_)), patterns=[f(c_)])
        s.ax('expok', mk)
        return f(c)


class SymAnchors(Anchors):
    def __init__(s):
        s.ids, s.keys, s.o, s.l = z3.Const('anchor_ids', AS), z3.Const('anchor_keys', AS), z3.Int('anchor_o'), z3.Int('anchor_l')


def setof_(keys): return keys.get(0).code


def guess_set(eng, t, v):
    xs = [x for _, x in eng.flat(t, v)]
    return UF('guessed_types', *([x.sort() for x in xs] + [SET]))(*xs)


@contract('(oidfed.Metadata).GuessEntityTypes', trusted='the result lists the entity types with metadata; it is a function of the metadata (reflection)')
class Guess(Contract):
    pure = True
    def ensures(s, S):
        c = Strs(S.old, S.res)
        g = guess_set(S.eng, S.aty[0], S.a[0])
        yield 'set', forall(lambda x: c.has(x) == z3.Select(g, x), pats=lambda x: [z3.Select(g, x), c.has(x)])


class WorldStmt(Contract):
    allocs = True
    def world(s, S, r): pass
    def assumes(s, S):
        r = R_(S.eng, S.old)
        ok, ref = s.world(S, r)
        yield 'one answer per request during a resolution', AND(S.ok == ok, IMP(ok, AND(S.r(0).ref == ref, ref < 0)), IMP(NOT(ok), S.r(0).ref == 0))


@contract('oidfed.GetEntityConfiguration', props=['P01', 'P02'], trusted='pending')
class GetEC(WorldStmt):
    def world(s, S, r): return r.ec_ok(S.a[0]), r.ec(S.a[0])


@contract('oidfed.FetchEntityStatement', props=['P01', 'P02'], trusted='pending')
class FetchES(WorldStmt):
    def world(s, S, r): return r.fs_ok(*S.a), r.fs(*S.a)


@contract('(*oidfed.trustTree).resolve', props=['P01', 'P03', 'P04', 'P05', 'P06'], entry=False)
class Resolve(Contract):
    allocs = True
    recursive = True
    def requires(s, S):
        t = S.a[0]
        h = S.old
        e = h.fld(t, 'Entity')
        au = h.fld(t, 'Authorities')
        yield 'tree', AND(t.ref != 0, e.ref < 0, NOT(h.fld(t, 'signaturesVerified')))
        yield 'empty', AND(au.n, au.l == 0)
        yield 'sets', AND(h.fld(t, 'subordinateIDs').ref > 0, h.fld(t, 'includedEntityTypes').ref > 0)
    def modifies(s, S): return S.mod(S.a[0], 'Authorities', 'expiresAt')
    def gh(s, S):
        h, t = S.old, S.a[0]
        return R_(S.eng, h), Anchors(h, S.a[1]), h.fld(t, 'depth'), sset(h.heap, h.fld(t, 'subordinateIDs').ref), sset(h.heap, h.fld(t, 'includedEntityTypes').ref)
    def ensures(s, S):
        r, A, d, ids, types = s.gh(S)
        v = S.new.deref(S.a[0])
        c = r.pack(v)
        yield 'the tree of the world', r.isrt(A, c, d, ids, types)
        yield 'expires with its statements', ['P03', 'P19'], r.expok(c)
        yield 'not verified yet', r.wf(A, c)
    def descent(s, S, C):
        """the recursive call C made by the call S has one more entity below it"""
        _, _, d, ids, _ = s.gh(S)
        _, _, d1, ids1, _ = s.gh(C)
        x = C.old.fld(C.old.fld(C.a[0], 'Entity'), 'Issuer')
        yield 'an entity not seen before on this path', AND(NOT(z3.Select(ids, x)), z3.Select(ids1, x), d1 == d + 1)
        yield 'entities seen before stay seen', forall(lambda y: IMP(z3.Select(ids, y), z3.Select(ids1, y)), pats=lambda y: z3.Select(ids, y))
    def inv(s, S, L):
        r, A, d, ids, types = s.gh(S)
        e = S.old.fld(S.a[0], 'Entity').ref
        hs = r.hints(e)
        for i in L.vars('int'):
            def done(L, i=i):
                a = L.h.fld(S.a[0], 'Authorities')
                return forall(lambda j: IMP(AND(0 <= j, j < i(L) - i.entry(L), j < a.l), r.child_ok(A, e, hs.at(j), z3.Select(a.a, j), d, ids, types)), pats=lambda j: z3.Select(a.a, j))
            def todo(L, i=i):
                a = L.h.fld(S.a[0], 'Authorities')
                return forall(lambda j: IMP(AND(i(L) - i.entry(L) <= j, j < a.l), r.zero(r.un(z3.Select(a.a, j)))), pats=lambda j: z3.Select(a.a, j))
            def expd(L, i=i):
                a, x = L.h.fld(S.a[0], 'Authorities'), L.h.fld(S.a[0], 'expiresAt').get(0)
                return AND(r.lim(x, r.exp(e)), forall(lambda j: IMP(AND(0 <= j, j < a.l), r.exp_child(x, z3.Select(a.a, j))), pats=lambda j: z3.Select(a.a, j)))
            yield 'authorities so far', done
            yield 'expiration so far', expd
            yield 'remaining authorities are empty', todo
        def wfs(L):
            a = L.h.fld(S.a[0], 'Authorities')
            return forall(lambda j: IMP(AND(0 <= j, j < a.l), r.wf_child(A, z3.Select(a.a, j))), pats=lambda j: z3.Select(a.a, j))
        yield 'authorities are not verified yet', wfs
        def shape(L):
            a = L.h.fld(S.a[0], 'Authorities')
            return AND(a.l == hs.l, a.n == (hs.l == 0))
        yield 'one subtree per hint', shape


@contract('(*oidfed.trustTree).verifySignatures', props=['P01', 'P02', 'P06'], entry=False)
class VerifySigs(Contract):
    allocs = True
    nocache = ALLTRACES
    recursive = True
    def gh(s, S):
        r = R_(S.eng, S.old)
        v = S.old.deref(S.a[0])
        return r, Anchors(S.old, S.a[1]), v, r.pack(v)
    def requires(s, S):
        r, A, v, c = s.gh(S)
        yield 'tree', S.a[0].ref != 0
        yield 'not verified yet, or done', OR(r.g(v, 'signaturesVerified'), r.wf(A, c))
    lemmas = True
    def modifies(s, S): return S.mod(S.a[0], 'Authorities', 'signaturesVerified')
    def ghost(s, S):
        r, A, v, c = s.gh(S)
        yield mention(z3.Select(r.au(S.new.deref(S.a[0])).a, 0))
    def ensures(s, S):
        r, A, v, c = s.gh(S)
        w = S.new.deref(S.a[0])
        d = r.pack(w)
        done = r.g(v, 'signaturesVerified')
        yield 'a verified tree stays as it is', IMP(done, AND(S.res, c == d))
        yield 'true exactly if the statements verify up to a trust anchor', OR(done, S.res == r.vs(A, c))
        yield 'only verified branches are kept, and all of them', OR(done, IMP(S.res, r.pruned(A, c, d)))
        yield 'otherwise nothing is kept', IMP(NOT(S.res), AND(r.E(w) == r.E(v), r.Sb(w) == r.Sb(v), NOT(r.g(w, 'signaturesVerified')), r.au(w).l == 0))
    def inv(s, S, L):
        r, A, v, c = s.gh(S)
        a0 = r.au(v)
        t = S.a[0]
        ints = L.vars('int')
        for i in ints:
            def nomatch(L, i=i):
                x = r.iss(r.E(v))
                return OR(NOT(r.at_anchor(A, v)[0]), forall(lambda j: IMP(AND(A.o <= j, j < A.o + i(L) - i.entry(L)), z3.Select(A.ids, j) != x), pats=lambda j: z3.Select(A.ids, j)))
            yield 'not this anchor so far', nomatch
            def rest(L, i=i):
                a = L.h.fld(t, 'Authorities')
                return AND(a.l == a0.l, a.n == a0.n, forall(lambda j: IMP(AND(i(L) - i.entry(L) <= j, j < a0.l), z3.Select(a.a, j) == z3.Select(a0.a, j)), pats=lambda j: z3.Select(a.a, j)))
            yield 'remaining authorities as before', rest
            for m in ints:
                if m is i: continue
                def sound(L, i=i, m=m): return AND(0 <= m(L), m(L) <= i(L) - i.entry(L), r.kept_sound(A, v, a0, i(L) - i.entry(L), L.h.fld(t, 'Authorities'), m(L)))
                def all_(L, i=i, m=m): return AND(0 <= m(L), m(L) <= i(L) - i.entry(L), r.kept_all(A, v, a0, i(L) - i.entry(L), L.h.fld(t, 'Authorities'), m(L)))
                yield 'kept are verified', sound
                yield 'all verified are kept', all_


# ---------------------------------------------------------------- chains
LST = z3.Datatype('Stmts')
LST.declare('nil')
LST.declare('cons', ('hd', I), ('tl', LST))
LST = LST.create()


def cons(x, l): return LST.cons(x, l)


def stmts(C, o, l):
    """the statements C[o], C[o+1], ... (l of them)"""
    l = simp(l)
    if z3.is_int_value(l) and l.as_long() <= 4:
        r = LST.nil
        for j in reversed(range(max(l.as_long(), 0))): r = cons(simp(z3.Select(C, simp(o + j))), r)
        return r
    return UF('stmts', AS, I, I, LST)(C, o, l)


def stmts_axioms():
    C, o, l, D, p, m = z3.Const('C', AS), z3.Int('o'), z3.Int('l'), z3.Const('D', AS), z3.Int('p'), z3.Int('m')
    f = UF('stmts', AS, I, I, LST)
    d = UF('stmts_diff', AS, I, AS, I, I, I)
    k, k1 = d(C, o, D, p, l), d(C, o + 1, D, p, m)
    a, b = f(C, o, l), f(D, p, m)
    return [(frozenset(['stmts']), z3.ForAll([C, o, D, p, l], z3.Or(f(C, o, l) == f(D, p, l), z3.And(0 <= k, k < l, z3.Select(C, o + k) != z3.Select(D, p + k))), patterns=[z3.MultiPattern(f(C, o, l), f(D, p, l))])),
            (frozenset(['stmts']), z3.ForAll([C, o, l, D, p, m], z3.Implies(z3.And(m >= 0, l == m + 1), z3.Or(a == cons(z3.Select(C, o), b), z3.And(0 <= k1, k1 < m, z3.Select(C, o + 1 + k1) != z3.Select(D, p + k1)))), patterns=[z3.MultiPattern(a, b)])),
            (frozenset(['stmts']), z3.ForAll([C, o, l], z3.Implies(l <= 0, a == LST.nil), patterns=[a])),
            (frozenset(['stmts']), z3.ForAll([C, o], f(C, o, 2) == cons(z3.Select(C, o), cons(z3.Select(C, o + 1), LST.nil)), patterns=[f(C, o, 2)])),
            (frozenset(['stmts']), z3.ForAll([C, o], f(C, o, 1) == cons(z3.Select(C, o), LST.nil), patterns=[f(C, o, 1)]))]


class ChainList:
    """a []TrustChain as lists of statements"""
    def __init__(s, h, sl):
        T = h.T
        et = T.id('oidfed.TrustChain')
        g = lambda n: h.eng.content(h.heap, et, sl.b, (n,), I)
        s.B, s.O, s.L = g('b'), g('o'), g('l')
        key = ('E', '*oidfed.EntityStatement', ())
        s.EC = core.arr(h.heap, key, h.eng.keysort(key))
        s.o, s.l = simp(sl.o), simp(sl.l)
    def base(s, k): return z3.Select(s.B, k)
    def item(s, k): return stmts(z3.Select(s.EC, z3.Select(s.B, k)), z3.Select(s.O, k), z3.Select(s.L, k))
    def all(s, f): return forall(lambda k: IMP(AND(s.o <= k, k < s.o + s.l), f(k)), pats=lambda k: s.base(k))
    def alloc(s, na): return s.all(lambda k: AND(z3.Select(s.B, k) < na, z3.Select(s.L, k) >= 0))
    def has(s, l):
        f = UF('haschain', s.EC.sort(), AS, AS, AS, I, I, LST, B)
        return f(s.EC, s.B, s.O, s.L, s.o, s.l, l)


def haschain_axioms():
    def vs(p): return [z3.Const(p + 'ec', z3.ArraySort(I, AS)), z3.Const(p + 'b', AS), z3.Const(p + 'oo', AS), z3.Const(p + 'll', AS), z3.Int(p + 'o'), z3.Int(p + 'n')]
    x, k = z3.Const('x', LST), z3.Int('k')
    A, C = vs('p'), vs('q')
    sorts = [v.sort() for v in A] + [LST]
    f, w = UF('haschain', *(sorts + [B])), UF('haschain_wit', *(sorts + [I]))       # the position of the chain
    def it(A, k): return UF('stmts', AS, I, I, LST)(A[0][A[1][k]], A[2][k], A[3][k])
    def holds(A, k): return z3.And(A[4] <= k, k < A[4] + A[5], it(A, k) == x)
    u, u2, v = f(*A, x), f(*C, x), w(*A, x)
    return [(frozenset(['haschain']), z3.ForAll(A + [x], z3.Implies(u, holds(A, A[4] + v)), patterns=[u])),
            (frozenset(['haschain']), z3.ForAll(A + [x, k], z3.Implies(holds(A, k), u), patterns=[z3.MultiPattern(u, A[1][k])])),
            # the same at the position where another list has the chain
            (frozenset(['haschain']), z3.ForAll(A + C + [x], z3.Implies(holds(C, C[4] + v), u2), patterns=[z3.MultiPattern(u, u2)]))]


class Paths(R_):
    def __init__(s, eng, h):
        R_.__init__(s, eng, h)
        if 'stmts' not in eng.tree_ax:
            eng.tree_ax.add('stmts')
            eng.axioms += stmts_axioms() + haschain_axioms()
    def head(s, v): return z3.If(s.Sb(v) == 0, s.E(v), s.Sb(v))
    def path_body(s, v, l):
        e, sb, a = s.E(v), s.Sb(v), s.au(v)
        return z3.If(a.n, z3.If(sb == 0, AND(e != 0, s.g(v, 'signaturesVerified'), l == cons(e, LST.nil)), l == cons(sb, cons(e, LST.nil))), s.stepped(v, a.l, l))
    def stepped(s, v, n, l): return AND(LST.is_cons(l), LST.hd(l) == s.head(v), s.any_path(s.au(v).a, n, LST.tl(l)))
    class NoAnchors:
        def args(s): return []
    def named(s, name, A, sorts, body, axioms=None):
        if name not in ('path', 'any_path'): return R_.named(s, name, A, sorts, body, axioms)
        f = UF(name, *(sorts + [B]))
        if name not in s.eng.tree_ax:
            s.eng.tree_ax.add(name)
            cs = [z3.Const('x%d' % i, so) for i, so in enumerate(sorts)]
            u = f(*cs)
            for a in ([z3.ForAll(cs, u == body(None, *cs), patterns=[u])] if axioms is None else axioms(None, f, cs, cs, u)): s.eng.axioms.append((frozenset([name]), a))
        return f
    def path(s, c, l): return s.named('path', None, [vsort(TT), LST], lambda A, c, l: s.path_body(s.un(c), l))(c, l)
    def any_path(s, a, n, l):
        n = simp(n)
        return s.some('any_path', None, [z3.ArraySort(I, vsort(TT)), I, LST], lambda A, j, a, n, l: s.path(z3.Select(a, j), l), lambda a, n, l: a, lambda a, n, l: n)(a, n, l)


@contract('(oidfed.trustTree).chains', props=['P01', 'P02', 'P06'], entry=False)
class ChainsOf(Contract):
    allocs = True
    nocache = ALLTRACES
    recursive = True
    lemmas = True
    def gh(s, S):
        r = Paths(S.eng, S.old)
        v = S.a[0]
        return r, v, r.pack(v)
    def ensures(s, S):
        r, v, c = s.gh(S)
        R = ChainList(S.new, S.res)
        yield 'allocated', ['P24'], R.alloc(S.na1)
        yield 'each is a path of the tree', R.all(lambda k: r.path(c, R.item(k)))
        yield 'each path of the tree', forall(lambda l: IMP(r.path(c, l), R.has(l)), LST, pats=lambda l: r.path(c, l))
    def inv(s, S, L):
        r, v, c = s.gh(S)
        a = r.au(v)
        ints, cls = L.vars('int'), L.vars(types=['[]oidfed.TrustChain'])
        cur = [x for x in cls if x.fixed is None]
        src = [x for x in cls if x.fixed is not None]
        outer = L.outer('int')
        def count(n, nx):
            def sound(L, x, n=n):
                R = ChainList(L.h, x(L))
                return R.all(lambda k: r.stepped(v, nx(L), R.item(k)))
            def all_(L, x, n=n):
                R = ChainList(L.h, x(L))
                return forall(lambda j, l: IMP(AND(0 <= j, j < n(L), r.path(z3.Select(a.a, j), l)), R.has(cons(r.head(v), l))), I, LST, pats=lambda j, l: r.path(z3.Select(a.a, j), l))
            return sound, all_
        for x in cur:
            yield 'chains so far are allocated', lambda L, x=x: ChainList(L.h, x(L)).alloc(L.na)
            for i in ints:
                n = lambda L, i=i: i(L) - i.entry(L)
                sound, all_ = count(n, n)
                if not outer:
                    yield 'chains so far are paths', lambda L, x=x, f=sound: f(L, x)
                    yield 'paths so far are chains', lambda L, x=x, f=all_: f(L, x)
                for y in src:
                    def taken(L, x=x, y=y, i=i):
                        R, Y = ChainList(L.h, x(L)), ChainList(L.h, y(L))
                        Y.l = simp(i(L) - i.entry(L))
                        # they are the last ones
                        p = lambda k: simp(R.o + R.l - Y.l - Y.o + k)
                        return AND(R.l >= Y.l, Y.all(lambda k: AND(mention(R.base(p(k)), S.eng), R.item(p(k)) == cons(r.head(v), Y.item(k)))))
                    yield 'chains of the authority so far', taken
            for i in outer:
                n = lambda L, i=i: i(L) - i.start
                sound, all_ = count(n, lambda L, n=n: n(L) + 1)
                def hinted(L, x=x, f=sound):
                    ts = [mention(cons(r.head(v), ChainList(L.h, y(L)).item(simp(y(L).o + j(L) - j.entry(L) - 1))), S.eng) for y in src for j in ints]
                    return IMP(AND(*ts), f(L, x))
                yield 'chains so far are paths (inner)', hinted
                yield 'paths so far are chains (inner)', lambda L, x=x, f=all_: f(L, x)
