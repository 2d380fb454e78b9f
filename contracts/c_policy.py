"""metadata policies: operators, their combination and the merging of policies (P08, P09, P10, P11)"""
from core import *
from spec import *
import models, execu
from models import AS
import rmodels
from rmodels import isslice, sl_len, sl_at, rt_of, rt_kind
from c_reflect import Sets, has, among, each, count, el, slicified, union, seteq, same_elements

VALUE, ADD, DEFAULT, ONEOF, SUBSET, SUPERSET, ESSENTIAL = OPS = 'value', 'add', 'default', 'one_of', 'subset_of', 'superset_of', 'essential'


# ------------------------------------------------------------------ verifiers
class Verifier(Sets):
    """accepts an entry exactly if `rule` holds"""
    def op(s, S, n):
        p = S.a[0] if isinstance(S.a[0], MapV) else S.old.map(S.aty[0], S.a[0])
        return p.has(lit(n)), p.get(lit(n)).code
    def ensures(s, S): yield 'accepted exactly by the rule', S.ok == s.rule(lambda n: s.op(S, n))
    def rule(s, op): raise NotImplementedError


def subset(a, b): return each(a, lambda x: has(x, b))


def verifier(fn, rule):
    cls = type('V_' + fn, (Verifier,), dict(rule=lambda s, op: rule(op)))
    contract('oidfed.' + fn, props=['P10', 'P24'], entry=False)(cls)


def both(op, a, b, f):
    (ha, va), (hb, vb) = op(a), op(b)
    return IMP(AND(ha, hb), f(va, vb))


verifier('policyVerifierSubsetSupersetOneOf', lambda op: NOT(AND(op(ONEOF)[0], OR(op(SUBSET)[0], op(SUPERSET)[0]))))
verifier('policyVerifierSubsetSupersetOf', lambda op: both(op, SUPERSET, SUBSET, subset))
verifier('policyVerifyAddInSubset', lambda op: both(op, ADD, SUBSET, subset))
verifier('policyVerifyAddInValue', lambda op: both(op, ADD, VALUE, subset))
verifier('policyVerifyDefaultAndValue', lambda op: both(op, VALUE, DEFAULT, lambda v, d: v != 0))
verifier('policyVerifySubsetOfAndValue', lambda op: both(op, VALUE, SUBSET, subset))
verifier('policyVerifyValueInOneOf', lambda op: both(op, VALUE, ONEOF, lambda v, o: has(v, o)))
verifier('policyVerifyValueSuperset', lambda op: both(op, SUPERSET, VALUE, lambda p, v: OR(v == 0, subset(p, v))))
verifier('policyVerifyDefaultInSubset', lambda op: both(op, DEFAULT, SUBSET, subset))
verifier('policyVerifyDefaultInOneOf', lambda op: both(op, DEFAULT, ONEOF, has))
verifier('policyVerifyDefaultSuperset', lambda op: both(op, SUPERSET, DEFAULT, subset))
verifier('policyVerifyAddInOneOf', lambda op: both(op, ADD, ONEOF, lambda a, o: OR(count(a) == 0, AND(count(a) == 1, isslice(o), has(el(a, IV(0)), o)))))
verifier('policyVerifySubsetOfStillHasValues', lambda op: IMP(op(SUBSET)[0], count(op(SUBSET)[1]) != 0))
verifier('policyVerifyOneOfStillHasValues', lambda op: IMP(op(ONEOF)[0], count(op(ONEOF)[1]) != 0))


# ------------------------------------------------------------------ operators
def calls(eng, fn, callee):
    """the calls of callee in fn"""
    f = eng.F.get(fn)
    for b in (f or {}).get('blocks') or []:
        for i in b['i']:
            if i['op'] == 'call' and i['call'].get('fn', {}).get('n') == callee: yield f, i


def definitions(eng):
    """the policy operators that package initialisation makes: name -> (merger, applier, allowed combinations)"""
    out = {}
    for f, i in calls(eng, 'oidfed.init', 'oidfed.NewPolicyOperator'):
        a = i['call']['args']
        if a[0].get('k') != 'c': raise Unsupported('name of a policy operator')
        out[a[0]['v']] = (fname(f, a[1]), fname(f, a[2]), strings(f, a[3]))
    return out


def instrs(f): return [i for b in f['blocks'] for i in b['i']]


def fname(f, x):
    if x['k'] == 'f': return x['n']
    for i in instrs(f):
        if i.get('n') == x.get('n') and i['op'] in ('changetype', 'makeclosure'):
            if i['op'] == 'changetype': return fname(f, i['x'][0] if isinstance(i.get('x'), list) else i['a'])
    raise Unsupported('function of a policy operator')


def strings(f, x):
    """the constants of a slice literal (None for nil)"""
    if x['k'] == 'c': return None
    ins = instrs(f)
    sl = [i for i in ins if i.get('n') == x['n']]
    if not sl or sl[0]['op'] != 'slice': raise Unsupported('list of a policy operator')
    arr_ = sl[0]['a']['n']
    out = {}
    addr = {i['n']: i['i']['v'] for i in ins if i['op'] == 'indexaddr' and i['a'].get('n') == arr_}
    for i in ins:
        if i['op'] == 'store' and i['a'].get('n') in addr:
            if i['b'].get('k') != 'c': raise Unsupported('list of a policy operator')
            out[int(addr[i['a']['n']])] = i['b']['v']
    return [out[k] for k in sorted(out)]


class Operator(Sets):
    which = None
    def locate(s, eng):
        d = definitions(eng).get(s.op)
        return d[s.which] if d else None


def V(S, i): return S.a[i].code


class Merger(Operator):
    which = 0
    def ensures(s, S):
        a, b, r = V(S, 0), V(S, 1), S.r(0).code
        for n, f in s.spec(a, b, r, S.ok, S): yield n, f


class Applier(Operator):
    which = 1
    def ensures(s, S):
        v, p = V(S, 0), V(S, 2)
        for n, f in s.spec(v, S.a[1], p, S.a[3], S.r(0).code, S.r(1), S.ok, S): yield n, f


def absent(a, b, r):
    """an operator without a value does not restrict"""
    yield 'the other value if there is none', AND(IMP(a == 0, r == b), IMP(AND(a != 0, b == 0), r == a))


def intersection(a, b, r):
    yield 'a slice', IMP(AND(a != 0, b != 0), isslice(r))
    yield 'values of both', IMP(AND(a != 0, b != 0), each(r, lambda x: AND(among(x, a), has(x, b))))
    yield 'all of them', IMP(AND(a != 0, b != 0), each(a, lambda x: IMP(has(x, b), among(x, r))))


def m_union(a, b, r, ok, S):
    yield 'always possible', ok
    yield from absent(a, b, r)
    for n, f in union(a, b, r): yield n, IMP(AND(a != 0, b != 0), f)


def m_intersect(a, b, r, ok, S):
    yield 'always possible', ok
    yield from absent(a, b, r)
    yield from intersection(a, b, r)


def m_value(a, b, r, ok, S):
    yield 'only of the same values', ok == seteq(a, b)
    yield 'that value', IMP(ok, r == a)


def m_default(a, b, r, ok, S):
    yield 'only of the same values', ok == OR(a == 0, b == 0, seteq(a, b))
    yield 'that value', IMP(ok, z3.If(a == 0, r == b, r == a))


def isbool(S, c): return AND(c != 0, tagof(c) == S.eng.tid(S.T.id('bool')))
def tobool(S, c): return UF('unbox_bool_', I, B)(c)
def true_(S, c): return AND(isbool(S, c), tobool(S, c))


def m_essential(a, b, r, ok, S):
    yield 'always possible', ok
    yield 'essential if one of them says so', AND(isbool(S, r), tobool(S, r) == OR(true_(S, a), true_(S, b)))


def keeps(v, vs, r, rs): return AND(r == v, rs == vs)


def a_add(v, vs, p, e, r, rs, ok, S):
    yield 'always possible', ok
    yield 'set if there was no value', IMP(v == 0, AND(r == p, rs == (p != 0)))
    yield 'nothing to add', IMP(AND(v != 0, p == 0), keeps(v, vs, r, rs))
    for n, f in union(v, p, r): yield 'added: ' + n, IMP(AND(v != 0, p != 0), f)
    yield 'set afterwards', IMP(AND(v != 0, p != 0), rs)


def a_subset(v, vs, p, e, r, rs, ok, S):
    act = AND(OR(vs, e), p != 0)
    yield 'fails exactly if essential and not set', ok == NOT(AND(act, NOT(vs)))
    yield 'unrestricted', IMP(NOT(act), keeps(v, vs, r, rs))
    for n, f in intersection(v, p, r): yield 'restricted: ' + n, IMP(AND(act, vs), f)
    yield 'set afterwards', IMP(AND(act, vs), rs)
    yield 'no value stays none', IMP(AND(act, vs, v == 0), r == 0)


def a_oneof(v, vs, p, e, r, rs, ok, S):
    act = AND(OR(vs, e), p != 0)
    yield 'fails exactly if not one of the values', ok == NOT(AND(act, NOT(AND(vs, has(v, p)))))
    yield 'the value stays', keeps(v, vs, r, rs)


def a_superset(v, vs, p, e, r, rs, ok, S):
    act = AND(OR(vs, e), p != 0)
    yield 'fails exactly if a value is missing', ok == NOT(AND(act, NOT(AND(vs, subset(p, v)))))
    yield 'the value stays', keeps(v, vs, r, rs)


def cast(p, r): return OR(r == p, same_elements(p, r))


def a_value(v, vs, p, e, r, rs, ok, S):
    yield 'always possible', ok
    yield 'removed by null', IMP(p == 0, AND(r == 0, NOT(rs)))
    yield 'the value of the policy', IMP(p != 0, AND(cast(p, r), rs))


def zero(c): return UF('rv_zero', I, B)(c)


def a_default(v, vs, p, e, r, rs, ok, S):
    yield 'always possible', ok
    use = AND(NOT(vs), OR(v == 0, zero(v)))
    yield 'the default if there is no value', IMP(use, AND(cast(p, r), rs))
    yield 'otherwise the value', IMP(NOT(use), keeps(v, vs, r, rs))


def a_essential(v, vs, p, e, r, rs, ok, S):
    k = rt_kind(rt_of(v))
    plain = OR([k == x for x in (1,) + tuple(range(2, 7)) + tuple(range(7, 12)) + (13, 14, 23)])
    missing = OR(v == 0, AND(zero(v), NOT(AND(vs, plain))))
    yield 'fails exactly if required and missing', ok == NOT(AND(true_(S, p), missing))
    yield 'the value stays', IMP(ok, keeps(v, vs, r, rs))


for _op, _m, _a in ((ADD, m_union, a_add), (SUPERSET, m_union, a_superset), (SUBSET, m_intersect, a_subset), (ONEOF, m_intersect, a_oneof),
                    (VALUE, m_value, a_value), (DEFAULT, m_default, a_default), (ESSENTIAL, m_essential, a_essential)):
    for _b, _f, _t, _p in ((Merger, _m, 'merge', ['P09', 'P11', 'P24']), (Applier, _a, 'apply', ['P08', 'P11', 'P24'])):
        _c = type('%s_%s' % (_t, _op), (_b,), dict(op=_op, spec=staticmethod(_f)))
        contract('operator %s: %s' % (_op, _t), short='%s of the %s operator' % (_t, _op), props=_p)(_c)


# -------------------------------------------------------------------- entries
def glob(S, h, name):
    """value of a package variable"""
    g = 'oidfed.' + name
    gt = S.T.elem(S.eng.gtypes[g])
    return h._rd(Ptr(S.eng.globals[g], gt), gt), gt


def glob_map(S, h, name):
    v, t = glob(S, h, name)
    return v if isinstance(v, MapV) else h.map(t, v)


OPT = 'oidfed.PolicyOperator'
ANYT = 'interface{}'


class Registered(Sets):
    """uses the registered operators (given by their behaviour)"""
    def requires(s, S):
        yield from Sets.requires(s, S)
        ops = glob_map(S, S.old, 'operators')
        yield 'registered operators exist', forall(lambda k: IMP(ops.has(k), ops.get(k).code != 0), I, pats=lambda k: ops.get(k).code)
    def ops(s, S): return glob_map(S, S.old, 'operators')
    def method(s, S, name, k, args, atys, rt):
        return S.eng.ufcall('m_oidfed.PolicyOperator_' + name, s.ops(S).get(k).code, args, atys, rt, S.pre)
    def merging(s, S, a, b):
        """the entries a and b, where they have a common known operator, the error of merging it and its value afterwards"""
        A, ops = S.T.id(ANYT), s.ops(S)
        both = lambda k: AND(a.has(k), b.has(k), ops.has(k))
        res = lambda k: s.method(S, 'Merge', k, [a.get(k), b.get(k), IV(0)], [A, A, S.T.id('string')], s.tuple(S, ANYT, 'error'))
        want = lambda k: z3.If(both(k), res(k).f[0].code, z3.If(a.has(k), a.get(k).code, b.get(k).code))
        return a, b, both, lambda k: res(k).f[1].code, want
    def tuple(s, S, *names):
        names = list(names)
        for i, t in enumerate(S.T.t):
            if t['k'] == 'tuple' and [S.T.s(x) for x in t['r']] == names: return i
        raise Unsupported('tuple ' + str(names))


def mterms(S, m): return S.eng.mapterms(m.t, m.ref, m.h.heap)


def pred(name, *ts): return UF(name, *([x.sort() for x in ts] + [B]))(*ts)


def mergeable(S, a, b): return pred('entries_mergeable', *(mterms(S, a) + mterms(S, b)))


def result_map(S, i):
    r = S.r(i)
    return r if isinstance(r, MapV) else S.new.map(S.rt, r)


def entry(S, h, i): return S.a[i] if isinstance(S.a[i], MapV) else h.map(S.aty[i], S.a[i])


@contract('oidfed.mergeMetadataPolicyEntries', props=['P09', 'P11', 'P24'], entry=False)
class MergeEntries(Registered):
    def ghost(s, S):
        a, b, both, err, want = s.parts(S)
        return [mergeable(S, a, b) == forall(lambda k: IMP(both(k), err(k) == 0), I, pats=lambda k: [a.get(k).code, b.get(k).code])]
    def parts(s, S): return s.merging(S, entry(S, S.old, 0), entry(S, S.old, 1))
    def ensures(s, S):
        a, b, both, err, want = s.parts(S)
        yield 'possible exactly if every common operator can be merged', S.ok == mergeable(S, a, b)
        out = result_map(S, 0)
        yield 'a new entry', IMP(S.ok, out.ref >= S.na0)
        yield 'exactly the operators of both', IMP(S.ok, forall(lambda k: out.has(k) == OR(a.has(k), b.has(k)), I, pats=lambda k: out.has(k)))
        yield 'with merged values', IMP(S.ok, forall(lambda k: IMP(out.has(k), out.get(k).code == want(k)), I, pats=lambda k: out.get(k).code))
    def inv(s, S, L):
        a, b, both, err, want = s.parts(S)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        for v in L.vars("map"):
            m = lambda L, v=v: L.h.map(S.aty[0], v(L))
            yield 'first entry', lambda L, m=m: forall(lambda k: m(L).has(k) == seen(L, k), I, pats=lambda k: m(L).has(k))
            yield 'second entry', lambda L, m=m: forall(lambda k: m(L).has(k) == OR(a.has(k), seen(L, k)), I, pats=lambda k: m(L).has(k))
            yield 'values', lambda L, m=m: forall(lambda k: IMP(m(L).has(k), m(L).get(k).code == want(k)), I, pats=lambda k: m(L).get(k).code)
        yield 'mergeable so far', lambda L: forall(lambda k: IMP(AND(seen(L, k), both(k)), err(k) == 0), I, pats=lambda k: seen(L, k))
        yield 'mergeable', lambda L: forall(lambda k: IMP(both(k), err(k) == 0), I, pats=lambda k: [a.get(k).code, b.get(k).code])





# ------------------------------------------------------- validity of an entry
def entry_ok(S, m):
    """the entry is valid: its known operators may be combined, and all registered verifiers accept it"""
    return pred('entry_ok', *mterms(S, m))


class Ops(Registered):
    def opcall(s, S, name, k, rt): return S.eng.ufcall('m_oidfed.PolicyOperator_' + name, s.ops(S).get(k).code, [], [], rt, S.pre)
    def partners(s, S, k): return s.opcall(S, 'MayCombineWith', k, S.T.id('[]oidfed.PolicyOperatorName'))
    def name(s, S, k): return s.opcall(S, 'Name', k, S.T.id('oidfed.PolicyOperatorName'))
    def allows(s, S, k, x):
        """operator k says that it may be combined with x"""
        l = s.partners(S, k)
        return OR(l.b == 0, x == s.name(S, k), models.contains(S.eng, S.eng.content(S.pre.heap, l.et, l.b, (), I), l.o, l.l, x))
    def requires(s, S):
        yield from Registered.requires(s, S)
        yield 'verifiers exist', s.every(S, lambda j: s.verifier(S, j) != 0)
    def known(s, S, m, k): return AND(m.has(k), s.ops(S).has(k))
    def verifiers(s, S): return glob(S, S.old, 'policyVerifiers')[0]
    def verifier(s, S, j):
        v = s.verifiers(S)
        return z3.Select(S.eng.content(S.pre.heap, v.et, v.b, (), I), j)
    def every(s, S, f):
        v = s.verifiers(S)
        return forall(lambda j: IMP(AND(v.o <= j, j < v.o + v.l), f(j)), I, pats=lambda j: s.verifier(S, j))
    def verdict(s, S, m, j):
        return S.eng.ufcall('fn', s.verifier(S, j), [m, IV(0)], [m.t, S.T.id('string')], S.T.id('error'), S.pre).code == 0
    def rule(s, S, m):
        return AND(forall(lambda k, x: IMP(AND(s.known(S, m, k), s.known(S, m, x)), s.allows(S, k, x)), I, I, pats=lambda k, x: (m.has(k), m.has(x))),
                   s.every(S, lambda j: s.verdict(S, m, j)))


@contract('(oidfed.MetadataPolicyEntry).Verify', props=['P10', 'P24'], entry=False)
class EntryVerify(Ops):
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        eng.assumed['MayCombineWith returns a list that exists when the entry is verified'] = 1
        st.add(forall(lambda k: AND(s.partners(S, k).b < st.na, s.partners(S, k).b >= 0), I, pats=lambda k: s.partners(S, k).b))
    def ghost(s, S):
        m = entry(S, S.old, 0)
        return [entry_ok(S, m) == s.rule(S, m)]
    def ensures(s, S):
        yield 'valid exactly if the operators may be combined and all verifiers accept', S.ok == entry_ok(S, entry(S, S.old, 0))
    def inv(s, S, L):
        m, v = entry(S, S.old, 0), s.verifiers(S)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        inn = lambda L, a, k: models.contains(S.eng, S.eng.content(L.h.heap, a.et, a.b, (), I), a.o, a.l, k)
        at = lambda L, a, j: z3.Select(S.eng.content(L.h.heap, a.et, a.b, (), I), j)
        for a in L.vars(types=['[]oidfed.PolicyOperatorName']):
            yield 'active are known', lambda L, a=a: forall(lambda j: IMP(AND(a(L).o <= j, j < a(L).o + a(L).l), AND(seen(L, at(L, a(L), j)), s.known(S, m, at(L, a(L), j)))), I, pats=lambda j: at(L, a(L), j))
            yield 'known are active', lambda L, a=a: forall(lambda k: IMP(AND(seen(L, k), s.known(S, m, k)), inn(L, a(L), k)), I, pats=lambda k: m.has(k))
            yield 'distinct', lambda L, a=a: forall(lambda i, j: IMP(AND(a(L).o <= i, i < j, j < a(L).o + a(L).l), at(L, a(L), i) != at(L, a(L), j)), I, I, pats=lambda i, j: (at(L, a(L), i), at(L, a(L), j)))
        for i in L.vars('int'):
            n = lambda L, i=i: i(L) - i.entry(L)
            for a in L.earlier(['[]oidfed.PolicyOperatorName']):
                yield 'checked', lambda L, a=a, n=n: forall(lambda j, x: IMP(AND(a(L).o <= j, j < a(L).o + n(L), s.known(S, m, x)), s.allows(S, at(L, a(L), j), x)), I, I, pats=lambda j, x: (at(L, a(L), j), m.has(x)))
            yield 'accepted', lambda L, n=n: s.every(S, lambda j: IMP(j < v.o + n(L), s.verdict(S, m, j)))


# ------------------------------------------------------------------- policies
def valid(S, p):
    """every entry of the policy is valid"""
    return forall(lambda k: IMP(p.has(k), entry_ok(S, p.get(k))), I, pats=lambda k: p.has(k))


@contract('(oidfed.MetadataPolicy).Verify', props=['P10', 'P24'], entry=False)
class PolicyVerify(Ops):
    def ensures(s, S): yield 'valid exactly if every entry is', S.ok == valid(S, entry(S, S.old, 0))
    def inv(s, S, L):
        p = entry(S, S.old, 0)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        yield 'valid so far', lambda L: forall(lambda k: IMP(seen(L, k), entry_ok(S, p.get(k))), I, pats=lambda k: seen(L, k))


def empty(m): return forall(lambda k: NOT(m.has(k)), I, pats=lambda k: m.has(k))


@contract('oidfed.combineMetadataPolicy', props=['P09', 'P10', 'P11', 'P24'], entry=False)
class Combine2(Ops):
    def pair(s, S): return entry(S, S.old, 0), entry(S, S.old, 1)
    def common(s, a, b, k): return AND(a.has(k), b.has(k))
    def errorfree(s, S, x, y):
        _, _, both, err, _ = s.merging(S, x, y)
        return forall(lambda o: IMP(both(o), err(o) == 0), I, pats=lambda o: [x.get(o).code, y.get(o).code])
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        a, b = s.pair(S)       # definition
        st.add(forall(lambda k: IMP(s.common(a, b, k), mergeable(S, a.get(k), b.get(k)) == s.errorfree(S, a.get(k), b.get(k))), I, pats=lambda k: mergeable(S, a.get(k), b.get(k))))
    def kept(s, S, r, a, b):
        """attributes of only one of the policies keep their entry"""
        return forall(lambda k: IMP(AND(r.has(k), NOT(s.common(a, b, k))), r.get(k).ref == z3.If(a.has(k), a.get(k).ref, b.get(k).ref)), I, pats=lambda k: r.get(k).ref)
    def merged(s, S, r, a, b):
        """attributes of both have the merged entry"""
        def one(k, op):
            x, y, z = a.get(k), b.get(k), r.get(k)
            _, _, _, _, want = s.merging(S, x, y)
            return IMP(AND(r.has(k), s.common(a, b, k)), AND(z.has(op) == OR(x.has(op), y.has(op)), IMP(z.has(op), z.get(op).code == want(op))))
        return forall(one, I, I, pats=lambda k, op: [z3.Select(r.get(k).dom(), op), r.get(k).get(op).code])
    def possible(s, S, a, b):
        return forall(lambda k: IMP(s.common(a, b, k), mergeable(S, a.get(k), b.get(k))), I, pats=lambda k: [a.get(k).ref, b.get(k).ref])
    def ensures(s, S):
        a, b = s.pair(S)
        r = result_map(S, 0)
        yield 'nothing to combine', IMP(empty(b), AND(S.ok, r.ref == a.ref))
        yield 'possible only if all entries can be merged', IMP(S.ok, s.possible(S, a, b))
        def one(k, o):
            _, _, both, err, _ = s.merging(S, a.get(k), b.get(k))
            return IMP(AND(s.common(a, b, k), both(o)), err(o) == 0)
        yield 'no operator fails', IMP(S.ok, forall(one, I, I, pats=lambda k, o: (a.get(k).get(o).code, b.get(k).get(o).code)))
        yield 'possible only if the result is valid', IMP(AND(S.ok, NOT(empty(b))), valid(S, r))
        yield 'only refused for these reasons', IMP(NOT(S.ok), OR(NOT(s.possible(S, a, b)), NOT(valid(S, r))))
        yield 'exactly the attributes of both', IMP(S.ok, forall(lambda k: r.has(k) == OR(a.has(k), b.has(k)), I, pats=lambda k: r.has(k)))
        yield 'other entries are kept', IMP(S.ok, s.kept(S, r, a, b))
        yield 'common entries are merged', IMP(S.ok, s.merged(S, r, a, b))
    def inv(s, S, L):
        a, b = s.pair(S)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        for v in L.vars("map"):
            m = lambda L, v=v: L.h.map(S.aty[0], v(L))
            yield 'first policy', lambda L, m=m: forall(lambda k: m(L).has(k) == seen(L, k), I, pats=lambda k: m(L).has(k))
            yield 'second policy', lambda L, m=m: forall(lambda k: m(L).has(k) == OR(a.has(k), seen(L, k)), I, pats=lambda k: m(L).has(k))
            yield 'kept', lambda L, m=m: s.kept(S, m(L), a, b)
            yield 'merged', lambda L, m=m: s.merged(S, m(L), a, b)
            yield 'entries exist', lambda L, m=m: forall(lambda k: IMP(m(L).has(k), AND(m(L).get(k).ref < L.na, m(L).get(k).ref >= 0)), I, pats=lambda k: m(L).get(k).ref)
        yield 'possible so far', lambda L: forall(lambda k: IMP(AND(seen(L, k), s.common(a, b, k)), mergeable(S, a.get(k), b.get(k))), I, pats=lambda k: seen(L, k))
        yield 'possible', lambda L: s.possible(S, a, b)


# the combination of a list of policies, attribute by attribute and operator by operator: defined by recursion on the
# number of policies
class Fold:
    def __init__(s, c, S, l, h):
        s.c, s.S, s.l, s.h = c, S, l, h
        s.C = S.eng.content(h.heap, l.et, l.b, (), I)
        md, mv = [[x for x in S.eng.mapterms(l.et, IV(1), h.heap)][i] for i in (3, 4)]
        s.id = UF('policy_list', *([x.sort() for x in (s.C, l.o, md, mv)] + [I]))(s.C, l.o, md, mv)
    def item(s, j): return s.h.map(s.l.et, z3.Select(s.C, s.l.o + j))
    def attr(s, j, k): return UF('fold_attr', I, I, I, B)(s.id, j, k)
    def op(s, j, k, o): return UF('fold_op', I, I, I, I, B)(s.id, j, k, o)
    def val(s, j, k, o): return UF('fold_val', I, I, I, I, I)(s.id, j, k, o)
    def step(s, j, k, o):
        """(present, value, error) after one policy more, for an operator"""
        S, p = s.S, s.item(j)
        e = p.get(k)
        A, ops = S.T.id(ANYT), s.c.ops(S)
        x, y = AND(s.attr(j, k), s.op(j, k, o)), AND(p.has(k), e.has(o))
        both = AND(x, y, ops.has(o))
        r = s.c.method(S, 'Merge', o, [Iface(s.val(j, k, o)), e.get(o), IV(0)], [A, A, S.T.id('string')], s.c.tuple(S, ANYT, 'error'))
        return OR(x, y), z3.If(both, r.f[0].code, z3.If(x, s.val(j, k, o), e.get(o).code)), z3.If(both, r.f[1].code, IV(0))
    def defs(s):
        j, k, o = z3.Ints('j k o')
        p0 = s.item(IV(0))
        e0 = p0.get(k)
        yield z3.ForAll([k], s.attr(IV(1), k) == p0.has(k), patterns=[s.attr(IV(1), k)])
        yield z3.ForAll([k, o], AND(s.op(IV(1), k, o) == AND(p0.has(k), e0.has(o)), s.val(IV(1), k, o) == e0.get(o).code), patterns=[s.op(IV(1), k, o), s.val(IV(1), k, o)])
        pres, val, _ = s.step(j, k, o)
        yield z3.ForAll([j, k], IMP(j >= 1, s.attr(j + 1, k) == OR(s.attr(j, k), s.item(j).has(k))), patterns=[s.attr(j + 1, k)])
        yield z3.ForAll([j, k, o], IMP(j >= 1, s.op(j + 1, k, o) == pres), patterns=[s.op(j + 1, k, o)])
        yield z3.ForAll([j, k, o], IMP(j >= 1, s.val(j + 1, k, o) == val), patterns=[s.val(j + 1, k, o)])
    def matches(s, r, j):
        """r is the combination of the first j policies"""
        yield 'attributes', forall(lambda k: r.has(k) == s.attr(j, k), I, pats=lambda k: [r.has(k), s.attr(j, k)])
        yield 'operators', forall(lambda k, o: IMP(r.has(k), AND(r.get(k).has(o) == s.op(j, k, o), IMP(r.get(k).has(o), r.get(k).get(o).code == s.val(j, k, o)))), I, I,
                                  pats=lambda k, o: [z3.Select(r.get(k).dom(), o), r.get(k).get(o).code, s.op(j, k, o)])


@contract('oidfed.CombineMetadataPolicy', props=['P09', 'P10', 'P11', 'P24'])
class CombineAll(Ops):
    def fold(s, S): return Fold(s, S, S.a[1], S.old)
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        st.add(*s.fold(S).defs())
    def ghost(s, S):
        l = S.a[1]
        C = S.eng.content(S.pre.heap, l.et, l.b, (), I)
        # by definition: what this function makes of the list
        return [IMP(S.ok, combined(C, l.o, l.l, result_map(S, 0).ref)), IMP(NOT(S.ok), refused(C, l.o, l.l))]
    def ensures(s, S):
        f, n = s.fold(S), S.a[1].l
        r = result_map(S, 0)
        C = S.eng.content(S.pre.heap, S.a[1].et, S.a[1].b, (), I)
        yield 'the outcome', IMP(S.ok, combined(C, S.a[1].o, n, r.ref))
        yield 'refused', IMP(NOT(S.ok), refused(C, S.a[1].o, n))
        yield 'none of none', IMP(n == 0, AND(S.ok, r.ref == 0))
        for nm, x in f.matches(r, n): yield 'the combination of all policies: ' + nm, IMP(AND(S.ok, n > 0), x)
        yield 'valid', IMP(AND(S.ok, n > 0), valid(S, r))
        yield 'every merge was possible', IMP(S.ok, forall(lambda j, k, o: IMP(AND(1 <= j, j < n), f.step(j, k, o)[2] == 0), I, I, I, pats=lambda j, k, o: f.op(j + 1, k, o)))
    def inv(s, S, L):
        f = s.fold(S)
        for v in L.vars('map'):
            m = lambda L, v=v: L.h.map(S.T.elem(S.aty[1]), v(L))
            yield 'valid so far', lambda L, m=m: valid(S, m(L))
            yield 'existing', lambda L, m=m: AND(m(L).ref < L.na, m(L).ref >= 0)
            yield 'existing entries', lambda L, m=m: forall(lambda k: IMP(m(L).has(k), AND(m(L).get(k).ref < L.na, m(L).get(k).ref >= 0)), I, pats=lambda k: m(L).get(k).ref)
            for i in L.vars('int'):
                n = lambda L, i=i: i(L)
                for q in (0, 1): yield 'combined so far', lambda L, m=m, n=n, q=q: list(f.matches(m(L), n(L)))[q][1]
        for i in L.vars('int'):
            yield 'merged so far', lambda L, i=i: forall(lambda j, k, o: IMP(AND(1 <= j, j < i(L)), f.step(j, k, o)[2] == 0), I, I, I, pats=lambda j, k, o: f.op(j + 1, k, o))


def appended_fields(fn):
    """of the slice variables of the function: which field is read for what is appended to them (a hint for the choice
    of invariants)"""
    ins = {i['n']: i for b in fn['blocks'] for i in b['i'] if i.get('n')}
    stores = {}
    for b in fn['blocks']:
        for i in b['i']:
            if i['op'] == 'store' and i['a'].get('n') in ins and ins[i['a']['n']]['op'] == 'indexaddr': stores[ins[i['a']['n']]['a'].get('n')] = i['b'].get('n')
    out = {}
    for i in ins.values():
        c = i.get('call')
        if not c or c['fn'].get('k') != 'b' or c['fn'].get('n') != 'append' or len(c['args']) < 2: continue
        s = ins.get(c['args'][1].get('n'))
        v = ins.get(stores.get(s['a'].get('n'))) if s and s['op'] == 'slice' else None
        a = ins.get(v['a'].get('n')) if v and v['op'] == 'unop' else None
        if a and a['op'] == 'fieldaddr': out[c['args'][0].get('n')] = a['f']
    return out


FIELDS = ['OpenIDProvider', 'RelyingParty', 'OAuthAuthorizationServer', 'OAuthClient', 'OAuthProtectedResource', 'FederationEntity']


def combined(C, o, l, r): return UF('combined_to', AS, I, I, I, B)(C, o, l, r)
def refused(C, o, l): return UF('combination_refused', AS, I, I, B)(C, o, l)


def merged_to(C, o, l, r): return UF('policies_merged_to', AS, I, I, I, B)(C, o, l, r)
def merge_refused(C, o, l): return UF('policies_refused', AS, I, I, B)(C, o, l)


@contract('oidfed.MergeMetadataPolicies', props=['P09', 'P11', 'P24'])
class MergeAll(Ops):
    LT = '[]oidfed.MetadataPolicy'
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        j, k = z3.Ints('j k')
        # definitions: how many of the first j are not nil, and how many have a policy for the entity type k
        c, e = s.cnt(S), s.cntx(S)
        st.add(c(IV(0)) == 0, z3.ForAll([j], IMP(j >= 0, AND(c(j + 1) == c(j) + z3.If(s.there(S, j), IV(1), IV(0)), c(j) >= 0, c(j) <= j)), patterns=[c(j)]))
        st.add(z3.ForAll([k], e(k, IV(0)) == 0, patterns=[e(k, IV(0))]), z3.ForAll([j, k], IMP(j >= 0, AND(e(k, j + 1) == e(k, j) + z3.If(s.extra(S, j, k), IV(1), IV(0)), e(k, j) >= 0)), patterns=[e(k, j)]))
    def id(s, S):
        a = S.a[0]
        C = S.eng.content(S.pre.heap, a.et, a.b, (), I)
        return UF('policies_id', C.sort(), I, I)(C, a.o)
    def cnt(s, S): return lambda j: UF('policies_before', I, I, I)(s.id(S), j)
    def cntx(s, S): return lambda k, j: UF('extra_policies_before', I, I, I, I)(s.id(S), k, j)
    def item(s, S, j): return S.old.at(S.a[0], j)
    def there(s, S, j): return s.item(S, j).ref != 0
    def xmap(s, S, j): return S.old.fld(s.item(S, j), 'Extra')
    def extra(s, S, j, k): return AND(s.there(S, j), s.xmap(S, j).has(k))
    def lists(s, S, F, C, o, l, n):
        """C is the list of the policies (field F) of the first n"""
        c = s.cnt(S)
        return AND(l == c(n), forall(lambda j: IMP(AND(0 <= j, j < n, s.there(S, j)), AND(c(j) < l, z3.Select(C, o + c(j)) == S.old.fld(s.item(S, j), F).ref)), I, pats=lambda j: c(j)))
    def listsx(s, S, k, C, o, l, n):
        e = s.cntx(S)
        return AND(l == e(k, n), forall(lambda j: IMP(AND(0 <= j, j < n, s.extra(S, j, k)), AND(e(k, j) < l, z3.Select(C, o + e(k, j)) == s.xmap(S, j).get(k).ref)), I, pats=lambda j: e(k, j)))
    def ghost(s, S):
        # by definition: what this function makes of the list
        l, C = S.a[0], S.eng.content(S.pre.heap, S.a[0].et, S.a[0].b, (), I)
        return [IMP(S.ok, merged_to(C, l.o, l.l, S.r(0).ref)), IMP(NOT(S.ok), merge_refused(C, l.o, l.l))]
    def ensures(s, S):
        n, r = S.a[0].l, S.r(0)
        CC = S.eng.content(S.pre.heap, S.a[0].et, S.a[0].b, (), I)
        yield 'the outcome', IMP(S.ok, merged_to(CC, S.a[0].o, n, r.ref))
        yield 'refused', IMP(NOT(S.ok), merge_refused(CC, S.a[0].o, n))
        C, o = z3.Const('C!l', AS), z3.Int('o!l')
        some = lambda l, d, p: NOT(z3.ForAll([C, o], NOT(AND(d, p)), patterns=[p]))
        yield 'a result', IMP(S.ok, r.ref != 0)
        for F in FIELDS:
            l = s.cnt(S)(n)
            yield F + ': what the policies for it combine to', IMP(S.ok, some(l, s.lists(S, F, C, o, l, n), combined(C, o, l, S.new.fld(r, F).ref)))
        X = S.new.fld(r, 'Extra')
        e = s.cntx(S)
        yield 'other entity types', IMP(S.ok, forall(lambda k: X.has(k) == (e(k, n) > 0), I, pats=lambda k: [X.has(k), e(k, n)]))
        yield 'other entity types: what the policies for it combine to', IMP(S.ok, forall(lambda k: IMP(X.has(k), some(e(k, n), s.listsx(S, k, C, o, e(k, n), n), combined(C, o, e(k, n), X.get(k).ref))), I, pats=lambda k: X.get(k).ref))
        no = [some(s.cnt(S)(n), s.lists(S, F, C, o, s.cnt(S)(n), n), refused(C, o, s.cnt(S)(n))) for F in FIELDS]
        k = z3.Int('k!l')
        no.append(NOT(z3.ForAll([C, o, k], NOT(AND(s.listsx(S, k, C, o, e(k, n), n), refused(C, o, e(k, n)))), patterns=[z3.MultiPattern(refused(C, o, e(k, n)))])))
        yield 'only refused if a combination is', IMP(NOT(S.ok), OR(no))
    def inv(s, S, L):
        con = lambda L, a: S.eng.content(L.h.heap, a.et, a.b, (), I)
        hint = appended_fields(L.fr.fn)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        e = s.cntx(S)
        LTt = S.T.id(s.LT)
        def items(L, m, n):
            C = lambda k: con(L, m(L).get(k))
            return forall(lambda j, k: IMP(AND(m(L).has(k), 0 <= j, j < n, s.extra(S, j, k)), z3.Select(C(k), m(L).get(k).o + e(k, j)) == s.xmap(S, j).get(k).ref), I, I, pats=lambda j, k: e(k, j))
        def each(L, m, cond):
            sl = lambda k: m(L).get(k)
            return forall(lambda k: IMP(m(L).has(k), AND(sl(k).b < L.na, sl(k).b >= 1, sl(k).o >= 0, cond(k, con(L, sl(k)), sl(k)))), I, pats=lambda k: sl(k).b)
        mk = lambda v: lambda L: L.h.map(v.t, v(L))
        ms = [mk(v) for v in L.vars('map') if S.T.s(S.T.elem(v.t)) == s.LT]
        xs = [mk(v) for v in L.vars('map') if S.T.s(S.T.elem(v.t)) == 'oidfed.MetadataPolicy']
        its = bool(L.maps())
        ints = L.vars('int')
        def upto(v): return lambda L, v=v: v(L) + 1 if v.start is None else v(L)
        for v in L.vars(types=[s.LT]):
            if v.fixed is not None or v.name not in hint: continue
            for i in ints:
                yield 'list so far', lambda L, v=v, i=i: AND(s.lists(S, FIELDS[hint[v.name]], con(L, v(L)), v(L).o, v(L).l, i(L) - i.entry(L)), v(L).b < L.na, v(L).b >= 1, v(L).o >= 0)
        for m in ms:
            for i in ints:
                n = lambda L, i=i: i(L) - i.entry(L)
                yield 'sizes of lists so far', lambda L, m=m, n=n: each(L, m, lambda k, C, a: a.l == e(k, n(L)))
                yield 'lists of other entity types so far', lambda L, m=m, n=n: items(L, m, n(L))
                yield 'other entity types so far', lambda L, m=m, n=n: forall(lambda k: m(L).has(k) == (e(k, n(L)) > 0), I, pats=lambda k: [m(L).has(k), e(k, n(L))])
                yield 'order', lambda L, n=n: forall(lambda j, k: IMP(AND(0 <= j, j < n(L), s.extra(S, j, k)), e(k, j) < e(k, n(L))), I, I, pats=lambda j, k: e(k, j))
            for i in L.outer('int'):
                n = lambda L, i=i: i(L) - i.start     # counts those before the current one
                yield 'sizes of lists (inner)', lambda L, m=m, n=n: each(L, m, lambda k, C, a: a.l == e(k, n(L)) + z3.If(seen(L, k), IV(1), IV(0)))
                yield 'lists of other entity types (inner)', lambda L, m=m, n=n: items(L, m, n(L))
                yield 'current list (inner)', lambda L, m=m, n=n: forall(lambda k: IMP(seen(L, k), z3.Select(con(L, m(L).get(k)), m(L).get(k).o + e(k, n(L))) == s.xmap(S, n(L)).get(k).ref), I, pats=lambda k: [seen(L, k), m(L).get(k).b])
                yield 'other entity types (inner)', lambda L, m=m, n=n: forall(lambda k: m(L).has(k) == OR(e(k, n(L)) > 0, seen(L, k)), I, pats=lambda k: [m(L).has(k), e(k, n(L))])
            for x in xs:
                yield 'combined so far', lambda L, m=m, x=x: forall(lambda k: IMP(seen(L, k), combined(con(L, m(L).get(k)), m(L).get(k).o, m(L).get(k).l, x(L).get(k).ref)), I, pats=lambda k: x(L).get(k).ref)
        for x in xs: yield 'results so far', lambda L, x=x: forall(lambda k: x(L).has(k) == seen(L, k), I, pats=lambda k: x(L).has(k))


# ---------------------------------------------------------------- application
@contract('(oidfed.MetadataPolicyEntry).hasSetOperator', props=['P08', 'P24'], entry=False)
class HasSetOperator(Sets):
    def ensures(s, S):
        p = entry(S, S.old, 0)
        yield 'an operator on a set of values', S.res == OR([p.has(lit(n)) for n in (ADD, SUBSET, SUPERSET)])


def application(S, m, value, set_):
    ts = mterms(S, m) + [value, set_]
    return UF('application_of', *([x.sort() for x in ts] + [I]))(*ts)


def applies(i): return UF('application_possible', I, B)(i)
def applied(i): return UF('application_result', I, I)(i)


@contract('(oidfed.MetadataPolicyEntry).ApplyTo', props=['P08', 'P10', 'P24'])
class ApplyTo(Registered):
    """the operators of the entry are applied one after the other, in the order of OperatorOrder"""
    def order(s, S): return glob(S, S.old, 'OperatorOrder')[0]
    def op(s, S, j):
        o = s.order(S)
        return z3.Select(S.eng.content(S.pre.heap, o.et, o.b, (), I), j)
    def val(s, S, j): return UF('applied_value', I, I, I)(s.id(S), j)
    def set(s, S, j): return UF('applied_set', I, I, B)(s.id(S), j)
    def id(s, S): return application(S, entry(S, S.old, 0), S.a[1].code, S.a[2])
    def ghost(s, S):
        o = s.order(S)
        return [applies(s.id(S)) == s.accepted(S), applied(s.id(S)) == s.val(S, o.o + o.l)]
    def accepted(s, S):
        o = s.order(S)
        return forall(lambda j: IMP(AND(o.o <= j, j < o.o + o.l), NOT(s.fails(S, j))), I, pats=lambda j: s.op(S, j))
    def apply(s, S, j):
        p, k = entry(S, S.old, 0), s.op(S, j)
        A, BT = S.T.id(ANYT), S.T.id('bool')
        e = p.get(lit(ESSENTIAL)).code
        ess = AND(p.has(lit(ESSENTIAL)), true_(S, e))
        return s.method(S, 'Apply', k, [Iface(s.val(S, j)), s.set(S, j), p.get(k), ess, IV(0)], [A, BT, A, BT, S.T.id('string')], s.tuple(S, ANYT, 'bool', 'error'))
    def setup(s, eng, st, args, atys):
        S = Spec(eng, s, args, atys, st, st, None, None)
        o, p = s.order(S), entry(S, S.old, 0)
        j = z3.Int('j')
        has = p.has(s.op(S, j))
        r = s.apply(S, j)
        st.add(s.val(S, o.o) == S.a[1].code, s.set(S, o.o) == S.a[2])
        st.add(z3.ForAll([j], IMP(j >= o.o, AND(s.val(S, j + 1) == z3.If(has, r.f[0].code, s.val(S, j)), s.set(S, j + 1) == z3.If(has, r.f[1], s.set(S, j)))), patterns=[s.val(S, j), s.set(S, j)]))
    def fails(s, S, j):
        k = s.op(S, j)
        return AND(entry(S, S.old, 0).has(k), OR(NOT(s.ops(S).has(k)), s.apply(S, j).f[2].code != 0))
    def ensures(s, S):
        yield 'refused exactly if an operator is', S.ok == applies(s.id(S))
        yield 'the value after all operators', IMP(S.ok, S.r(0).code == applied(s.id(S)))
    def inv(s, S, L):
        o = s.order(S)
        for i in L.vars('int'):
            n = lambda L, i=i: i(L) - i.entry(L)
            yield 'accepted so far', lambda L, n=n: forall(lambda j: IMP(AND(o.o <= j, j < o.o + n(L)), NOT(s.fails(S, j))), I, pats=lambda j: s.op(S, j))
            for v in L.vars(types=[ANYT]):
                yield 'applied so far', lambda L, v=v, n=n: v(L).code == s.val(S, o.o + n(L))
            for v in L.vars('bool'):
                yield 'set so far', lambda L, v=v, n=n: v(L) == s.set(S, o.o + n(L))


# ---------------------------------------------------------------- composition
class Compose(Sets):
    """the operator as composed of its functions"""
    def f(s, S, n): return S.old.fld(S.a[0], n)
    def requires(s, S):
        yield from Sets.requires(s, S)
        for n in s.needs: yield n, s.f(S, n).code != 0
    needs = ()


@contract('(oidfed.policyOperator).Name', props=['P08', 'P09', 'P10'], entry=False)
class OpName(Compose):
    def ensures(s, S): yield 'its name', S.res == s.f(S, 'name')


@contract('(oidfed.policyOperator).MayCombineWith', props=['P10'], entry=False)
class OpCombine(Compose):
    def ensures(s, S):
        c = s.f(S, 'combineWith')
        yield 'its list', AND(S.res.b == c.b, S.res.o == c.o, S.res.l == c.l)


@contract('(oidfed.policyOperator).Merge', props=['P09'], entry=False)
class OpMerge(Compose):
    needs = ['merger']
    def ensures(s, S):
        f = s.f(S, 'merger')
        r = S.eng.ufcall('fn', f.code, [S.a[1], S.a[2], S.a[3]], S.aty[1:], S.rt, S.pre)
        yield 'what its merge function says', AND(S.r(0).code == r.f[0].code, S.r(1).code == r.f[1].code)


@contract('(oidfed.policyOperator).Apply', props=['P08'], entry=False)
class OpApply(Compose):
    needs = ['applier']
    def ensures(s, S):
        f = s.f(S, 'applier')
        r = S.eng.ufcall('fn', f.code, S.a[1:], S.aty[1:], S.rt, S.pre)
        yield 'what its apply function says', AND(S.r(0).code == r.f[0].code, S.r(1) == r.f[1], S.r(2).code == r.f[2].code)


# ---------------------------------------------------------------------- table
COMBINE = {ADD: {VALUE, DEFAULT, SUBSET, SUPERSET, ESSENTIAL}, SUBSET: {VALUE, ADD, DEFAULT, SUPERSET, ESSENTIAL}, ONEOF: {VALUE, DEFAULT, ESSENTIAL},
           SUPERSET: {VALUE, ADD, DEFAULT, SUBSET, ESSENTIAL}, VALUE: {ADD, DEFAULT, ONEOF, SUBSET, SUPERSET, ESSENTIAL},
           DEFAULT: {VALUE, ADD, ONEOF, SUBSET, SUPERSET, ESSENTIAL}, ESSENTIAL: None}
ORDER = [VALUE, ADD, DEFAULT, ONEOF, SUBSET, SUPERSET, ESSENTIAL]
VERIFIERS = {'policyVerifierSubsetSupersetOneOf', 'policyVerifierSubsetSupersetOf', 'policyVerifyAddInSubset', 'policyVerifyAddInOneOf', 'policyVerifyAddInValue',
             'policyVerifyOneOfStillHasValues', 'policyVerifySubsetOfAndValue', 'policyVerifyValueInOneOf', 'policyVerifyValueSuperset', 'policyVerifyDefaultAndValue'}


@contract('tables of the policy operators', props=['P08', 'P09', 'P10'])
class Table(Contract):
    """what package initialisation puts in the tables: read off the stores and calls of the init functions"""
    def run(s, eng):
        inits = [f for n, f in eng.F.items() if n.startswith('oidfed.init')]
        def claim(name, props, get):
            o = execu.Obl(s.fn, 'ensures', name, props, [], TRUE, 'policyoperators.go')
            try: got = get()
            except Exception as e: got = repr(e)
            o.status, o.backend, o.info = ('proved' if got is True else 'failed'), 'evaluation', 'found: %s' % (got,)
            eng.obls.append(o)
        def eq(a, b): return True if a == b else a
        d = lambda: definitions(eng)
        claim('the seven operators are defined', ['P08', 'P09', 'P10'], lambda: eq(set(d()), set(ORDER)))
        for n in ORDER:
            claim('what %s may be combined with' % n, ['P10'], lambda n=n: eq(None if d()[n][2] is None else set(d()[n][2]), COMBINE[n]))
        def order():
            for f in inits:
                for i in instrs(f):
                    if i['op'] == 'store' and i['a'].get('n') == 'oidfed.OperatorOrder': return strings(f, i['b'])
        claim('order of application', ['P08', 'P10'], lambda: eq(order(), ORDER))
        def defined(g):
            """the operator that a package variable is initialised with"""
            for f in inits:
                for i in instrs(f):
                    if i['op'] == 'store' and i['a'].get('n') == g:
                        c = [x for x in instrs(f) if x.get('n') == i['b'].get('n')][0]
                        return c['call']['args'][0]['v']
        def registered():
            r = set()
            for f in inits:
                for _, i in calls(eng, f['name'], 'oidfed.RegisterPolicyOperator'):
                    x = [y for y in instrs(f) if y.get('n') == i['call']['args'][0].get('n')][0]
                    r.add(defined(x['a']['n']) if x['op'] == 'unop' else x['call']['args'][0]['v'])
            return r
        claim('the seven operators are registered', ['P08', 'P09', 'P10'], lambda: eq(registered(), set(ORDER)))
        def verifiers():
            return {fname(f, i['call']['args'][0]).split('.')[-1] for f in inits for _, i in calls(eng, f['name'], 'oidfed.RegisterPolicyVerifier')}
        claim('the verifiers are registered', ['P10'], lambda: eq(verifiers(), VERIFIERS))
        def writers(g):
            return {n for n, f in eng.F.items() if f.get('own') and any(i['op'] == 'store' and i['a'].get('n') == g for b in f.get('blocks') or [] for i in b['i'])}
        claim('nothing else changes the tables', ['P08', 'P09', 'P10'], lambda: eq({n for g in ('OperatorOrder', 'operators', 'policyVerifiers') for n in writers('oidfed.' + g) if not n.startswith('oidfed.init')}, {'oidfed.RegisterPolicyVerifier'}))


@contract('oidfed.RegisterPolicyVerifier', props=['P10'])
class RegisterVerifier(Sets):
    def modifies(s, S):
        g = 'oidfed.policyVerifiers'
        return [(lambda k: k[0] == 'F' and k[1] == '[]oidfed.PolicyVerifier', S.eng.globals[g])]
    def ensures(s, S):
        a, b = glob(S, S.old, 'policyVerifiers')[0], glob(S, S.new, 'policyVerifiers')[0]
        at = lambda h, x, j: z3.Select(S.eng.content(h.heap, x.et, x.b, (), I), j)
        yield 'one more', b.l == a.l + 1
        yield 'it', at(S.new, b, b.o + a.l) == S.eng.scalar(a.et, S.a[0]) if not hasattr(S.a[0], 'code') or S.a[0].code is None else at(S.new, b, b.o + a.l) == S.a[0].code
        yield 'the others stay', forall(lambda j: IMP(AND(0 <= j, j < a.l), at(S.new, b, b.o + j) == at(S.old, a, a.o + j)))


@contract('oidfed.RegisterPolicyOperator', props=['P08', 'P09', 'P10'])
class RegisterOperator(Sets):
    def requires(s, S):
        yield 'an operator', S.a[0].code != 0
        yield 'a table', glob_map(S, S.old, 'operators').ref != 0
    def modifies(s, S):
        return [(lambda k: k[0] in ('MD', 'MV') and k[1] == 'oidfed.PolicyOperatorName=>oidfed.PolicyOperator', glob_map(S, S.old, 'operators').ref)]
    def ensures(s, S):
        a, b = glob_map(S, S.old, 'operators'), glob_map(S, S.new, 'operators')
        n = S.eng.ufcall('m_oidfed.PolicyOperator_Name', S.a[0].code, [], [], S.T.id('oidfed.PolicyOperatorName'), S.pre)
        yield 'known by its name', AND(b.has(n), b.get(n).code == S.a[0].code)
        yield 'the others stay', forall(lambda k: IMP(k != n, AND(b.has(k) == a.has(k), IMP(b.has(k), b.get(k).code == a.get(k).code))))


@contract('oidfed.NewPolicyOperator', props=['P08', 'P09', 'P10'])
class NewOperator(Sets):
    def ensures(s, S):
        t = S.T.id('oidfed.policyOperator')
        yield 'of this implementation', AND(S.res.code != 0, tagof(S.res.code) == S.eng.tid(t))
        v = S.res.val if S.res.dt is not None else None
        if v is None: return
        f = lambda n: S.new.fld(v, n)
        yield 'with this name', f('name') == S.a[0]
        yield 'with these functions', AND(f('merger').code == S.a[1].code, f('applier').code == S.a[2].code)
        yield 'with this list', AND(f('combineWith').b == S.a[3].b, f('combineWith').o == S.a[3].o, f('combineWith').l == S.a[3].l)


@contract('oidfed.applyPolicyToMap', props=['P08', 'P11', 'P24'], entry=False)
class ApplyToMap(Registered):
    """metadata parameters that are held in a map"""
    def parts(s, S):
        m, p = entry(S, S.old, 0), entry(S, S.old, 1)
        app = lambda k: application(S, p.get(k), z3.If(m.has(k), m.get(k).code, IV(0)), m.has(k))
        return m, p, app
    def ensures(s, S):
        m, p, app = s.parts(S)
        yield 'refused exactly if an entry is', S.ok == forall(lambda k: IMP(p.has(k), applies(app(k))), I, pats=lambda k: p.has(k))
        r = result_map(S, 0)
        yield 'new metadata', IMP(S.ok, r.ref >= S.na0)
        yield 'parameters with a policy', IMP(S.ok, forall(lambda k: IMP(p.has(k), AND(r.has(k) == (applied(app(k)) != 0), IMP(r.has(k), r.get(k).code == applied(app(k))))), I, pats=lambda k: [r.has(k), p.has(k)]))
        yield 'other parameters', IMP(S.ok, forall(lambda k: IMP(NOT(p.has(k)), AND(r.has(k) == m.has(k), IMP(r.has(k), r.get(k).code == m.get(k).code))), I, pats=lambda k: [r.has(k), m.has(k)]))
    def inv(s, S, L):
        m, p, app = s.parts(S)
        seen = lambda L, k: OR([z3.Select(x, k) for x in L.visited.values()]) if L.visited else FALSE
        for v in L.vars('map'):
            if v.fixed is None: continue
            r = lambda L, v=v: L.h.map(v.t, v(L))
            yield 'copied so far', lambda L, r=r: forall(lambda k: AND(r(L).has(k) == seen(L, k), IMP(r(L).has(k), r(L).get(k).code == m.get(k).code)), I, pats=lambda k: r(L).has(k))
            yield 'applied so far', lambda L, r=r: forall(lambda k: IMP(seen(L, k), AND(r(L).has(k) == (applied(app(k)) != 0), IMP(r(L).has(k), r(L).get(k).code == applied(app(k))))), I, pats=lambda k: [r(L).has(k), seen(L, k)])
            yield 'others', lambda L, r=r: forall(lambda k: IMP(NOT(seen(L, k)), AND(r(L).has(k) == m.has(k), IMP(r(L).has(k), r(L).get(k).code == m.get(k).code))), I, pats=lambda k: [r(L).has(k), m.has(k)])
        yield 'possible so far', lambda L: forall(lambda k: IMP(seen(L, k), applies(app(k))), I, pats=lambda k: seen(L, k))
