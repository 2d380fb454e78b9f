"""Models of functions outside the module (assumed contracts). Each model used is
recorded in eng.assumed and reported in the evidence."""
from core import *
import core, z3util
import loops
from spec import H, isnil, forall

M = {}
IM = {}
EPOCH = 62135596800 * 10**9
MAXD = 2**63 - 1
clock = z3.Const('clock', I)


def model(*names, note=None):
    def deco(f):
        def g(eng, st, args, atys, rt, pos):
            for n in names[:1]:
                eng.assumed['model of %s%s' % (names[0], ': ' + note if note else '')] = eng.assumed.get('model of ' + names[0], 0) + 1
            return f(eng, st, args, atys, rt, pos)
        for n in names: M[n] = g
        return g
    return deco


def err(eng, st, cond=None):
    """fresh non-nil error"""
    e = fresh('err')
    st.add(e != 0)
    return Iface(e)


# ------------------------------------------------------------------ pure UFs
def terms(eng, st, args, atys):
    xs = []
    for a, t in zip(args, atys):
        if isinstance(a, Slice):
            l = simp(a.l)
            if z3.is_int_value(l) and l.as_long() <= 8:
                for j in range(l.as_long()):
                    v = eng.rd(st.heap, ElemPtr(a.b, simp(a.o + j), a.et), a.et)
                    xs += [x for _, x in eng.flat(a.et, v)]
                xs.append(l)
            elif eng.T.k(a.et) == 'basic' and eng.T.s(a.et) in ('byte', 'uint8'):
                xs.append(eng.string_of(st, a))
            else:
                xs += eng.argterms(t, a, st)
        else:
            if isinstance(a, Ptr) and a.path: xs.append(eng.interior(a))
            else: xs += [x for _, x in eng.flat(t, a)]
    return xs


def pure(name, *facts):
    def f(eng, st, args, atys, rt, pos):
        eng.assumed['%s is a deterministic function without side effects' % name] = 1
        xs = terms(eng, st, args, atys)
        tag = name.split('/')[-1]
        v = eng.build(rt, lambda p, s: UF('ext_%s_%s_%d' % (tag, '.'.join(map(str, p)), len(xs)), *([x.sort() for x in xs] + [s]))(*xs))
        eng.typefacts(rt, v, st)
        for fa in facts: fa(eng, st, args, v)
        return v
    M[name] = f


for n in ['github.com/lestrrat-go/jwx/v3/jwa.ES512',
          'github.com/lestrrat-go/jwx/v3/jws.WithInferAlgorithmFromKey',
          'github.com/lestrrat-go/jwx/v3/jws.WithKeySet',
          'golang.org/x/crypto/sha3.Sum256', 'crypto/md5.Sum', 'strings.ToUpper', 'strings.Fields', 'strings.EqualFold',
          'strings.Index', 'strings.Split', 'strings.Contains', 'strings.Join', '(github.com/google/uuid.UUID).String',
          '(*encoding/json.SyntaxError).Error', 'math.Modf', 'bytes.Equal', '(reflect.StructTag).Get',
          '(*crypto/ecdsa.PrivateKey).Public',
          'github.com/lithammer/fuzzysearch/fuzzy.FindNormalizedFold', 'net/http.PostForm', 'context.Background',
          'github.com/lestrrat-go/jwx/v3/jwk.PublicKeyOf',
          '(github.com/go-resty/resty/v2.Response).Body', '(*github.com/go-resty/resty/v2.Response).Body']:
    pure(n)


def import_fact(eng, st, a, v):
    st.add(z3.Or(v.f[1].code != 0, v.f[0].code != 0))


pure('github.com/lestrrat-go/jwx/v3/jwk.Import', import_fact)


@model('internal.Log', 'internal.Logf', 'fmt.Println', 'log.Println', 'log.Printf', 'internal.WithLogging', 'github.com/gofiber/fiber/v2/log.Error', note='logging has no effect on the result')
def m_log(eng, st, args, atys, rt, pos): return None


# ------------------------------------------------------------------- strings
def bool_uf(nm, *xs):
    return UF(nm, *([x.sort() for x in xs] + [B]))(*xs)


@model('strings.HasPrefix')
def m_hasprefix(eng, st, a, t, rt, pos):
    s, p = simp(a[0]), simp(a[1])
    if lits(s, p): return BV(lv(s).startswith(lv(p)))
    return bool_uf('str_hasprefix', s, p)


@model('strings.HasSuffix')
def m_hassuffix(eng, st, a, t, rt, pos):
    s, p = simp(a[0]), simp(a[1])
    if lits(s, p): return BV(lv(s).endswith(lv(p)))
    return bool_uf('str_hassuffix', s, p)


def lits(*xs): return all(z3.is_int_value(x) and x.as_long() in LITS.r for x in xs)


def lv(x): return LITS.r[x.as_long()]


@model('strings.ToLower')
def m_lower(eng, st, a, t, rt, pos):
    s = simp(a[0])
    if lits(s): return lit(lv(s).lower())
    return UF('str_lower', I, I)(s)


@model('strings.TrimSuffix')
def m_trim(eng, st, a, t, rt, pos):
    s, p = simp(a[0]), simp(a[1])
    if lits(s, p): return lit(lv(s)[:-len(lv(p))] if lv(p) and lv(s).endswith(lv(p)) else lv(s))
    r = UF('str_trimsuffix', I, I, I)(s, p)
    st.add(z3.Implies(z3.Not(bool_uf('str_hassuffix', s, p)), r == s))
    return r


@model('fmt.Sprintf')
def m_sprintf(eng, st, a, t, rt, pos):
    xs = terms(eng, st, a, t)
    return UF('sprintf%d' % len(xs), *([x.sort() for x in xs] + [I]))(*xs)


@model('github.com/pkg/errors.New', 'github.com/pkg/errors.Errorf', 'fmt.Errorf', 'errors.New')
def m_errnew(eng, st, a, t, rt, pos): return err(eng, st)


@model('github.com/pkg/errors.WithStack', 'github.com/pkg/errors.Wrap', 'github.com/pkg/errors.Wrapf', 'github.com/pkg/errors.WithMessage')
def m_wrap(eng, st, a, t, rt, pos):
    c = simp(a[0].code)
    if z3.is_int_value(c) and c.as_long() == 0: return a[0]
    e = fresh('err')
    st.add((e == 0) == (c == 0))
    return Iface(e)


# ---------------------------------------------------------------------- time
@model('time.Now', note='the clock shows the same instant during one verified operation')
def m_now(eng, st, a, t, rt, pos):
    st.add(clock > EPOCH)
    return clock


def sat(d): return simp(z3.If(d > MAXD, IV(MAXD), z3.If(d < -MAXD - 1, IV(-MAXD - 1), d)))


@model('time.Until')
def m_until(eng, st, a, t, rt, pos):
    st.add(clock > EPOCH)
    return sat(a[0] - clock)


@model('time.Since')
def m_since(eng, st, a, t, rt, pos):
    st.add(clock > EPOCH)
    return sat(clock - a[0])


@model('time.Unix')
def m_unix(eng, st, a, t, rt, pos): return simp(EPOCH + a[0] * 10**9 + a[1])


@model('(time.Time).Unix')
def m_tunix(eng, st, a, t, rt, pos): return simp((a[0] - EPOCH) / 10**9)


@model('(time.Time).Nanosecond')
def m_tnano(eng, st, a, t, rt, pos): return simp((a[0] - EPOCH) % 10**9)


@model('(time.Time).IsZero')
def m_iszero(eng, st, a, t, rt, pos): return simp(a[0] == 0)


@model('(time.Time).Before')
def m_before(eng, st, a, t, rt, pos): return simp(a[0] < a[1])


@model('(time.Time).After')
def m_after(eng, st, a, t, rt, pos): return simp(a[0] > a[1])


@model('(time.Time).Equal')
def m_teq(eng, st, a, t, rt, pos): return simp(a[0] == a[1])


@model('(time.Time).Add')
def m_tadd(eng, st, a, t, rt, pos): return simp(a[0] + a[1])


@model('(time.Time).Sub')
def m_tsub(eng, st, a, t, rt, pos): return sat(a[0] - a[1])


@model('(time.Duration).Nanoseconds')
def m_ns(eng, st, a, t, rt, pos): return a[0]


@model('(time.Duration).Seconds')
def m_secs(eng, st, a, t, rt, pos): return z3.ToReal(a[0]) / 10**9


# -------------------------------------------------------------------- slices
AS = z3.ArraySort(I, I)
SET = z3.ArraySort(I, B)


def contains_uf(): return UF('seq_contains', AS, I, I, I, B)


def contains(eng, c, o, l, x):
    alts = []
    c = simp(c)
    while z3.is_store(c):         # what append wrote last
        d = simp(c.arg(1) - (o + l - 1))
        if not z3.is_int_value(d) or d.as_long() != 0: break
        alts.append(c.arg(2) == x)
        c, l = c.arg(0), simp(l - 1)
    return OR(contains_uf()(c, o, l, x), alts)


def contains_axioms(eng):
    c, o, l, x, j = z3.Const('c', AS), z3.Int('o'), z3.Int('l'), z3.Int('x'), z3.Int('j')
    f = contains_uf()
    w = UF('seq_wit', AS, I, I, I, I)
    return [(frozenset(['seq_contains']), z3.ForAll([c, o, l, x], z3.Implies(f(c, o, l, x), z3.And(c[w(c, o, l, x)] == x, o <= w(c, o, l, x), w(c, o, l, x) < o + l)), patterns=[f(c, o, l, x)])),
            (frozenset(['seq_contains']), z3.ForAll([c, o, l, x, j], z3.Implies(z3.And(o <= j, j < o + l, c[j] == x), f(c, o, l, x)), patterns=[z3.MultiPattern(f(c, o, l, x), c[j])]))]


def scontains(eng, st, s, x):
    """membership formula of scalar x in slice s"""
    c = eng.content(st.heap, s.et, s.b, (), I)
    l = simp(s.l)
    if z3.is_int_value(l) and l.as_long() <= 8:
        return OR([z3.Select(c, simp(s.o + j)) == x for j in range(l.as_long())])
    return contains(eng, c, simp(s.o), l, x)


@model('slices.Contains')
def m_contains(eng, st, a, t, rt, pos):
    x = eng.scalar(a[0].et, a[1])
    return simp(scontains(eng, st, a[0], x))


def seqpats(eng, st, s, j):
    """triggers: the scalar leaves of the element at absolute index j"""
    return [z3.Select(eng.content(st.heap, s.et, s.b, p, so), j) for p, so in eng.T.leaves(s.et)[:1]]


@model('tideland.dev/go/slices.Subtract', note='if the first slice has no duplicates: its elements that are not in the second')
def m_subtract(eng, st, a, t, rt, pos):
    x, y = a
    if eng.T.k(x.et) != 'basic': raise Unsupported('Subtract of %s' % eng.T.s(x.et))
    b, l, cap = eng.alloc(st, None), fresh('len'), fresh('cap')
    st.add(l >= 0, l <= x.l, cap >= l)
    r = Slice(b, IV(0), l, cap, x.et)
    cs = {}
    for s in (x, r):
        cs[id(s)] = fresh('seq', AS)
        st.add(cs[id(s)] == eng.content(st.heap, s.et, s.b, (), I))
    at = lambda s, j: z3.Select(cs[id(s)], j)
    rng = lambda s, j: z3.And(s.o <= j, j < s.o + s.l)
    i, j = fresh('i'), fresh('j')
    st.add(z3.ForAll([j], z3.Implies(rng(r, j), scontains(eng, st, x, at(r, j))), patterns=[at(r, j)]))
    distinct = z3.ForAll([i, j], z3.Implies(z3.And(rng(x, i), rng(x, j), i != j), at(x, i) != at(x, j)), patterns=[z3.MultiPattern(at(x, i), at(x, j))])
    st.add(z3.Implies(distinct, z3.ForAll([j], z3.Implies(rng(r, j), z3.Not(scontains(eng, st, y, at(r, j)))), patterns=[at(r, j)])))
    # a concrete element that shows that something is left
    st.add(z3.Implies(l > 0, z3.And(scontains(eng, st, x, at(r, IV(0))), z3.Implies(distinct, z3.Not(scontains(eng, st, y, at(r, IV(0))))))))
    st.add(z3.ForAll([i], z3.Implies(z3.And(rng(x, i), z3.Not(scontains(eng, st, y, at(x, i)))), scontains(eng, st, r, at(x, i))), patterns=[at(x, i)]))
    st.add(z3.Implies(l == 0, z3.ForAll([i], z3.Implies(rng(x, i), scontains(eng, st, y, at(x, i))), patterns=[at(x, i)])))
    return r


@model('slices.ContainsFunc')
def m_containsfunc(eng, st, a, t, rt, pos):
    s, f = a
    j = fresh('j')
    v = eng.rd(st.heap, ElemPtr(s.b, j, s.et), s.et)
    body = summarise(eng, st, f, [v], [s.et], eng.T.id('bool'), [j])
    r = fresh('cf', B)
    w = fresh('w')
    o = simp(s.o)
    st.add(z3.Implies(r, z3.And(o <= w, w < simp(o + s.l), z3.substitute(body, (j, w)))))
    st.add(z3.Implies(z3.Not(r), z3.ForAll([j], z3.Implies(z3.And(o <= j, j < simp(o + s.l)), z3.Not(body)), patterns=seqpats(eng, st, s, j))))
    return r


@model('slices.IndexFunc')
def m_indexfunc(eng, st, a, t, rt, pos):
    s, f = a
    j = fresh('j')
    v = eng.rd(st.heap, ElemPtr(s.b, j, s.et), s.et)
    body = summarise(eng, st, f, [v], [s.et], eng.T.id('bool'), [j])
    r = fresh('idx')
    o = simp(s.o)
    st.add(r >= -1, r < s.l, z3.Implies(r >= 0, z3.substitute(body, (j, simp(o + r)))))
    st.add(z3.ForAll([j], z3.Implies(z3.And(o <= j, j < z3.If(r >= 0, o + r, o + s.l)), z3.Not(body)), patterns=seqpats(eng, st, s, j)))
    return r


def summarise(eng, st, f, args, atys, rt, bound):
    """closed formula/term for the result of calling f (which must not have side effects)"""
    import execu
    mark = loops.ctr_now()
    s2 = st.fork()
    n0 = len(s2.pc)
    s2.writes = ()
    cur = eng.F.get(f.name) if f.name else None
    fr = execu.Frame(cur or list(eng.F.values())[0], 1, ()) if cur and cur.get('blocks') else None
    if fr is None: raise Unsupported('summary of unknown function')
    fr.stack = (f.name,)
    eng.quiet += 0
    outs = eng.inline(fr, s2, cur, list(f.binds), args) if f.name not in eng.contracts and f.name not in eng.models else eng.callv(fr, s2, f, args, atys, rt, '')
    res = None
    names = {b.decl().name() for b in bound}
    for (s, v) in reversed(outs):
        for key, ref in s.writes:
            if key[0] != 'G' and not (loops.cnum('x') or True): pass
        x = eng.scalar(rt, v)
        cond = AND(s.pc[n0:])
        res = x if res is None else z3.If(cond, x, res)
    res = simp(res)
    lf = loops.loop_fresh(res, mark)
    for n in names: lf.pop(n, None)
    if lf: raise Unsupported('summary mentions local symbols %s' % list(lf)[:3])
    return res


# -------------------------------------------------------------------- strset
SKEY = ('G', 'strset')


def sset(heap, ref): return simp(z3.Select(core.arr(heap, SKEY, z3.ArraySort(I, SET)), ref))


def sset_put(eng, st, ref, val):
    h = dict(st.heap)
    h[SKEY] = z3.Store(core.arr(h, SKEY, z3.ArraySort(I, SET)), ref, val)
    st.heap = h
    eng.wlog(st, SKEY, ref)


def items_union(eng, st, base, s):
    l = simp(s.l)
    c = eng.content(st.heap, s.et, s.b, (), I)
    if z3.is_int_value(l) and l.as_long() <= 16:
        for j in range(l.as_long()): base = z3.Store(base, z3.Select(c, simp(s.o + j)), TRUE)
        return base
    r = fresh('set', SET)
    x = fresh('x')
    st.add(z3.ForAll([x], z3.Select(r, x) == z3.Or(z3.Select(base, x), contains(eng, c, simp(s.o), l, x)), patterns=[z3.Select(r, x)]))
    return r


SS = '(*github.com/scylladb/go-set/strset.Set).'


def strset_t(eng): return eng.T.id('github.com/scylladb/go-set/strset.Set')


def newset(eng, st, val):
    ref = eng.alloc(st, None)
    sset_put(eng, st, ref, val)
    return Ptr(ref, strset_t(eng))


@model('github.com/scylladb/go-set/strset.New')
def m_ssnew(eng, st, a, t, rt, pos):
    return newset(eng, st, items_union(eng, st, z3.K(I, FALSE), a[0]))


def nn(eng, st, p, pos):
    eng.oblige(st, 'safety', 'nil dereference', p.ref != 0, pos)
    st.add(p.ref != 0)


@model(SS + 'Add')
def m_ssadd(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    sset_put(eng, st, a[0].ref, items_union(eng, st, sset(st.heap, a[0].ref), a[1]))


@model(SS + 'Has')
def m_sshas(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    l = simp(a[1].l)
    if not z3.is_int_value(l): raise Unsupported('Has')
    c = eng.content(st.heap, a[1].et, a[1].b, (), I)
    if l.as_long() == 0: return FALSE
    return simp(AND([z3.Select(sset(st.heap, a[0].ref), z3.Select(c, simp(a[1].o + j))) for j in range(l.as_long())]))


@model(SS + 'Copy')
def m_sscopy(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    return newset(eng, st, sset(st.heap, a[0].ref))


@model(SS + 'IsEmpty', SS + 'Size')
def m_ssempty(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    S = sset(st.heap, a[0].ref)
    e = fresh('empty', B)
    x, w = fresh('x'), fresh('w')
    st.add(z3.Implies(e, z3.ForAll([x], z3.Not(z3.Select(S, x)), patterns=[z3.Select(S, x)] if not z3.is_store(S) else [])), z3.Implies(z3.Not(e), z3.Select(S, w)))
    return e


@model('github.com/scylladb/go-set/strset.Difference')
def m_ssdiff(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    S = sset(st.heap, a[0].ref)
    l = simp(a[1].l)
    if not z3.is_int_value(l): raise Unsupported('Difference')
    bs = [eng.rd(st.heap, ElemPtr(a[1].b, simp(a[1].o + j), a[1].et), a[1].et) for j in range(l.as_long())]
    r = fresh('set', SET)
    x = fresh('x')
    Bs = [sset(st.heap, b.ref) for b in bs]
    st.add(z3.ForAll([x], z3.Select(r, x) == z3.And(z3.Select(S, x), *[z3.Not(z3.Select(b, x)) for b in Bs]), patterns=[z3.Select(r, x), z3.Select(S, x)] if not z3.is_store(S) else [z3.Select(r, x)]))
    return newset(eng, st, r)


@model(SS + 'List')
def m_sslist(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    S = sset(st.heap, a[0].ref)
    et = eng.T.id('string')
    ref = eng.alloc(st, None)
    c = fresh('list', AS)
    l = fresh('len')
    h = dict(st.heap)
    key = ('E', 'string', ())
    h[key] = z3.Store(core.arr(h, key, esort(I)), ref, c)
    st.heap = h
    eng.wlog(st, key, ref)
    j, x = fresh('j'), fresh('x')
    w = UF('listpos', AS, I, I)
    st.add(l >= 0)
    st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l), z3.Select(S, z3.Select(c, j))), patterns=[z3.Select(c, j)]))
    st.add(z3.ForAll([x], z3.Implies(z3.Select(S, x), z3.And(0 <= w(c, x), w(c, x) < l, z3.Select(c, w(c, x)) == x)), patterns=[z3.Select(S, x)] if not z3.is_store(S) and not z3.is_const_array(S) else [w(c, x)]))
    return Slice(ref, IV(0), l, l, et)


# ------------------------------------------------------------------- codecs
def deref_terms(eng, st, i, pos):
    """leaves of the value inside interface i (one pointer level is followed)"""
    if i.dt is None: return 'any', [i.code], None
    t, v = i.dt, i.val
    if eng.T.k(t) == 'ptr' and isinstance(v, Ptr):
        et = eng.T.elem(t)
        if eng.T.k(et) == 'struct':
            return eng.T.s(et), [x for _, x in eng.flat(et, eng.rd(st.heap, v, et))], et
    if eng.T.k(t) == 'map':
        kx = [eng.mapdom(st.heap, t, v)]
        for p, s in eng.T.leaves(eng.T.elem(t)):
            kx.append(simp(z3.Select(core.arr(st.heap, ('MV', eng.mkey(t), p), z3.ArraySort(I, z3.ArraySort(eng.ksort(t), s))), v)))
        return eng.T.s(t), kx, t
    if isinstance(v, Slice):
        return eng.T.s(t), [simp(v.l)] + [x for x in terms(eng, st, [v], [t])], t
    return eng.T.s(t), [x for _, x in eng.flat(t, v)], t


def enc(eng, st, kind, i, pos):
    """string code of the encoded bytes; decoding functions recover each leaf"""
    nm, xs, t = deref_terms(eng, st, i, pos)
    f = UF('%s_enc_%s_%d' % (kind, nm, len(xs)), *([x.sort() for x in xs] + [I]))
    r = f(*xs)
    for n, x in enumerate(xs):
        st.add(UF('%s_fld_%s_%d_%d' % (kind, nm, len(xs), n), I, x.sort())(r) == x)
    return r


# what can be recovered from a msgpack document: the exported fields by position, elements by index, and for types with
# their own encoding the projections that the contract of that encoding guarantees (MPROJ)
MPROJ = {}          # type name -> f(eng, heap H, value) -> [(name, guard, term)]


def mp_get(nm, sort, code, *idx): return UF('mp' + nm, *([I] * (1 + len(idx)) + [sort]))(code, *idx)


def mp_facts(eng, st, t, v, code, nm='', idx=(), depth=0):
    """equations that hold if code encodes v"""
    T = eng.T
    k, s = T.k(t), T.s(t)
    out = []
    if s == 'time.Time': return [mp_get(nm, x.sort(), code, *idx) == x for _, x in eng.flat(t, v)]
    if s in MPROJ:
        for n, g, x in MPROJ[s](eng, H(eng, st.heap), v): out.append(z3.Implies(g, mp_get(nm + '>' + n, x.sort(), code, *idx) == x))
        return out
    if k != 'ptr' and (T.t[t].get('methods') or {}).get('MarshalMsgpack') and depth > 0: return out
    if k == 'struct':
        for i, f in enumerate(T.fields(t)):
            if not f['n'][:1].isupper(): continue
            out += mp_facts(eng, st, f['t'], v.get(i), code, nm + '.%d' % i, idx, depth + 1)
    elif k == 'ptr':
        if not isinstance(v, Ptr) or depth > 4: return out
        out.append(mp_get(nm + '?', B, code, *idx) == (v.ref == 0))
        et = T.elem(t)
        if T.k(et) == 'struct':
            for f in mp_facts(eng, st, et, eng.rd(st.heap, v, et), code, nm + '*', idx, depth + 1): out.append(z3.Implies(v.ref != 0, f))
    elif k == 'slice':
        et = T.elem(t)
        if T.s(et) in ('uint8', 'byte') and isinstance(v, Slice):
            return [mp_get(nm, I, code, *idx) == eng.string_of(st, v)]
        out.append(mp_get(nm + '#', I, code, *idx) == v.l)
        if not isinstance(v, Slice) or depth > 4: return out
        a = z3.Int('mp_i%d' % len(idx))          # absolute index
        el = eng.rd(st.heap, ElemPtr(v.b, a, et), et)
        for f in mp_facts(eng, st, et, el, code, nm + '[]', idx + (a - v.o,), depth + 1):
            pats = [x for _, x in eng.flat(et, el) if any(y.eq(a) for y in subterms(x))][:1]
            out.append(z3.ForAll([a], z3.Implies(z3.And(v.o <= a, a < v.o + v.l), f), patterns=pats))
    elif k in ('string', 'int', 'bool') or k == 'basic':
        for _, x in eng.flat(t, v): out.append(mp_get(nm, x.sort(), code, *idx) == x)
    elif k == 'iface':
        out.append(mp_get(nm, I, code, *idx) == v.code)
    return out


def subterms(x):
    yield x
    for c in x.children(): yield from subterms(c)


def enc_msgpack(eng, st, i):
    code = fresh('msgpack')
    st.add(u1('msgpack_of', code) == i.code)
    if i.dt is not None:
        t, v = i.dt, i.val
        for f in mp_facts(eng, st, t, v, code): st.add(f)
    return code


def bytes_value(eng, st, code):
    """[]byte slice holding string code"""
    return eng.bytes_of(st, eng.T.id('[]byte') if '[]byte' in eng.T.by else eng.T.id('[]uint8'), code)


# JSON documents are codes; claims are read by json_get (by type and claim name), so that what is encoded under a tag is
# what is decoded under it, independently of the Go type that is used
def tagname(f):
    import re
    m = re.search(r'json:"([^"]*)"', f.get('tag') or '')
    n = m.group(1).split(',')[0] if m else ''
    return n or f['n']


def jatoms(eng, t, pre=''):
    """[(leaf path prefix, claim name, type)] of a struct type as encoding/json sees it"""
    T = eng.T
    out = []
    for i, f in enumerate(T.fields(t)):
        if not f['n'][:1].isupper() and not f['emb']: continue
        n = tagname(f)
        if n == '-': continue
        if f['emb'] and 'json:' not in (f.get('tag') or '').replace('json:",inline"', '') and T.k(f['t']) == 'struct':
            out += [((i,) + p, m, ft) for p, m, ft in jatoms(eng, f['t'], pre)]
        else: out.append(((i,), pre + n, f['t']))
    return out


def jcanon(eng, t):
    return eng.T.s(t)


def jget(eng, t, code, name, p, so):
    return UF('json_get_%s_%s' % (jcanon(eng, t), '.'.join(map(str, p))), I, I, so)(code, lit(name))


def jsonview(eng, t, code):
    """claim name -> value (references are those that were encoded)"""
    return {n: eng.build(ft, lambda p, so, ft=ft, n=n: jget(eng, ft, code, n, p, so)) for _, n, ft in jatoms(eng, t)}


def enc_json(eng, st, i, pos):
    nm, xs, t = deref_terms(eng, st, i, pos)
    nm = eng.T.s(eng.T.u(t)) if t is not None and eng.T.k(t) == 'struct' else nm
    f = UF('json_enc_%s_%d' % (nm, len(xs)), *([x.sort() for x in xs] + [I]))
    r = f(*xs)
    st.add(r != 0)
    if t is not None and eng.T.k(t) == 'struct':
        v = i.val
        if isinstance(v, Ptr): v = eng.rd(st.heap, v, t)
        for path, n, ft in jatoms(eng, t):
            x = v
            for k in path: x = x.get(k)
            for p, l in eng.flat(ft, x): st.add(jget(eng, ft, r, n, p, l.sort()) == l)
            if eng.T.k(ft) == 'ptr' and isinstance(x, Ptr) and not x.path:
                pt = eng.T.elem(ft)
                if eng.T.k(pt) != 'ptr' and len(eng.T.leaves(pt)) <= 4:
                    for p, l in eng.flat(pt, eng.rd(st.heap, Ptr(x.ref, pt), pt)):
                        st.add(z3.Implies(x.ref != 0, jget(eng, ft, r, n, ('*',) + p, l.sort()) == l))
    if t is not None and eng.T.k(t) == 'map':
        st.add(jmap_dom(eng, t, r) == xs[0])
        for (p, so), x in zip(eng.T.leaves(eng.T.elem(t)), xs[1:]): st.add(jmap_val(eng, t, r, p, x.sort()) == x)
    return r


def jmap_dom(eng, mt, code):
    return UF('json_mdom_' + eng.mkey(mt), I, z3.ArraySort(eng.ksort(mt), B))(code)


def jmap_val(eng, mt, code, p, so):
    return UF('json_mval_%s_%s' % (eng.mkey(mt), '.'.join(map(str, p))), I, so)(code)


def json_code(eng, st, i):
    """the JSON encoding of the value in interface i (for specifications)"""
    return enc_json(eng, st, i, '')


def json_payload(eng, st, i):
    """the JSON encoding of the value in interface i, as a term only"""
    return enc_json(eng, st.fork(), i, '')


def m_marshal(kind):
    def f(eng, st, a, t, rt, pos):
        eng.assumed['%s encoding is a function of the encoded value from which every field can be recovered' % kind] = 1
        code = enc_json(eng, st, a[0], pos) if kind == 'json' else enc_msgpack(eng, st, a[0])
        e = fresh('err')
        data = bytes_value(eng, st, code)
        s2 = st.fork()
        s2.add(e != 0)
        st.add(e == 0)
        z = eng.zero(eng.T.t[rt]['r'][0])
        return [(st, TupleV([data, Iface(IV(0))])), (s2, TupleV([z, Iface(e)]))]
    return f


def m_unmarshal(kind):
    def f(eng, st, a, t, rt, pos):
        eng.assumed['%s decoding is a function of the decoded bytes' % kind] = 1
        i = a[1]
        if i.dt is not None and eng.T.k(i.dt) == 'ptr':
            m = (eng.T.t[i.dt].get('methods') or {}).get('Unmarshal' + ('JSON' if kind == 'json' else 'Msgpack'))
            if m and not (eng.cur and eng.cur.fn == m) and eng.T.s(eng.T.elem(i.dt)).startswith('oidfed.'):
                f = eng.F[m]
                return eng.call(Fake, st, m, [], [i.val, a[0]], [i.dt, t[0]], rt, pos)
        code = eng.string_of(st, a[0])
        if i.dt is None and kind == 'msgpack' and eng.cur and '(cache.' in eng.cur.fn:
            # a target that only the caller of the cache knows
            ghostset(eng, st, 'um_data', code)
            ghostset(eng, st, 'um_target', i.code)
            return Iface(fresh('err'))
        return decode(eng, st, kind, code, a[1], pos)
    return f


class Fake:
    depth, stack, name = 3, (), ''


def decode(eng, st, kind, code, target, pos):
    i = target
    if i.dt is None or eng.T.k(i.dt) != 'ptr':
        raise Unsupported('decoding into an unknown target')
    et = eng.T.elem(i.dt)
    s = eng.T.s(eng.T.u(et))
    e = UF('%s_decerr' % kind, I, I, I)(code, lit('type ' + s))
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0)
    old = eng.rd(st.heap, i.val, et)
    v = decoded(eng, st, kind, et, code, old)
    eng.wr(st, i.val, et, v)
    # on errors the target may be modified partially
    if kind == 'json' and eng.T.k(et) == 'struct':
        keep = json_kept(eng, et)
        fl = dict(eng.flat(et, old))
        junk = eng.build(et, lambda p, so, d={}: fl[p] if any(p[:len(k)] == k for k in keep) else d.setdefault(p, fresh('partial', so)))
    else: junk = eng.build(et, lambda p, so, d={}: d.setdefault(p, fresh('partial', so)))
    eng.typefacts(et, junk, s2, deep=True)
    eng.wr(s2, i.val, et, junk)
    return [(st, Iface(IV(0))), (s2, Iface(e))]


def json_kept(eng, et):
    """leaf path prefixes that encoding/json does not touch"""
    seen = [p for p, _, _ in jatoms(eng, et)]
    out = []
    for p, _ in eng.T.leaves(et):
        if not any(p[:len(q)] == q for q in seen): out.append(p)
    return out


def decoded(eng, st, kind, et, code, old=None):
    """the value decoded from code; references in it are newly allocated"""
    s = eng.T.s(eng.T.u(et))
    na = fresh('na')
    st.add(na >= st.na)
    lo = st.na
    st.na = na
    if kind == 'json' and eng.T.k(et) == 'struct':
        ats = jatoms(eng, et)
        keep = dict(eng.flat(et, old)) if old is not None else {}

        def g(p, so):
            for q, n, ft in ats:
                if p[:len(q)] == q: return jget(eng, ft, code, n, p[len(q):], so)
            return keep[p]
        kept = set(json_kept(eng, et))
    elif kind == 'json':
        def g(p, so): return jget(eng, et, code, '', p, so)
        kept = set()
    else:
        def g(p, so): return UF('%s_dec_%s_%s' % (kind, s, '.'.join(map(str, p))), I, so)(code)
        kept = set()
    v = eng.build(et, g)
    # pointers are fresh objects; their identity is not observable
    rl = set(eng.refleaves(et)) - kept
    if rl:
        fl = []
        for p, x in eng.flat(et, v):
            if p in rl:
                y = fresh('dec', I)
                st.add((y == 0) == (x == 0), z3.Implies(y != 0, z3.And(y >= lo, y < na)))
                fl.append((p, y))
            else: fl.append((p, x))
        if kind == 'json' and eng.T.k(et) == 'struct': pointees(eng, st, et, code, dict(fl), ats)
        v = eng.unflat(et, fl)
    eng.typefacts(et, v, st, deep=True)
    if kind == 'json' and eng.T.k(et) == 'struct':
        for q, n, ft in ats:
            if eng.T.s(ft) == 'oidfed.JWSMessages':
                # the list's own decoder (under contract) adds only messages that it could parse
                x = v
                for k in q: x = x.get(k)
                c = eng.content(st.heap, x.et, x.b, (), I)
                j = fresh('j')
                st.add(z3.ForAll([j], z3.Implies(z3.And(x.o <= j, j < x.o + x.l), z3.Select(c, j) != 0), patterns=[z3.Select(c, j)]))
    return v


def pointees(eng, st, et, code, fl, ats):
    """what decoded pointers point to is the value of the claim"""
    for q, n, ft in ats:
        if eng.T.k(ft) != 'ptr': continue
        pt = eng.T.elem(ft)
        if eng.T.k(pt) == 'ptr' or len(eng.T.leaves(pt)) > 4: continue
        ref = fl[q]
        for p, so in eng.T.leaves(pt):
            st.add(z3.Implies(ref != 0, z3.Select(core.arr(st.heap, ('F', eng.T.s(pt), p), fsort(so)), ref) == jget(eng, ft, code, n, ('*',) + p, so)))


M['encoding/json.Marshal'] = m_marshal('json')
M['encoding/json.Unmarshal'] = m_unmarshal('json')
M['github.com/vmihailenco/msgpack/v5.Marshal'] = m_marshal('msgpack')
M['github.com/vmihailenco/msgpack/v5.Unmarshal'] = m_unmarshal('msgpack')


def m_unmarshal_extra(eng, st, a, t, rt, pos):
    """unmarshalWithExtra for callers: decodes into the target and returns the other members"""
    eng.assumed['unmarshalWithExtra decodes into its target and returns the members without a field (its loop is verified separately)'] = 1
    code = eng.string_of(st, a[0])
    mt = eng.T.t[rt]['r'][0]
    r = []
    for s, e in decode(eng, st, 'json', code, a[1], pos):
        if z3.is_int_value(e.code):
            m = fresh('extra')
            s.add(m >= 0, z3.Implies(m != 0, m >= s.na))
            na = fresh('na')
            s.add(na > m, na >= s.na)
            s.na = na
            r.append((s, TupleV([m, e])))
        else: r.append((s, TupleV([eng.zero(mt), e])))
    return r


M['oidfed.unmarshalWithExtra'] = m_unmarshal_extra


@model('(*encoding/base64.Encoding).EncodeToString', note='base64 is injective and uses no colon')
def m_b64(eng, st, a, t, rt, pos):
    x = eng.string_of(st, a[1])
    r = UF('b64', I, I)(x)
    st.add(UF('unb64', I, I)(r) == x)
    return r


# ----------------------------------------------------------------------- url
def urlfields(eng): return eng.T.leaves(eng.T.id('net/url.URL'))


def url_part(eng, name, code):
    """a string field of the URL parsed from code"""
    t = eng.T.id('net/url.URL')
    i = eng.T.fidx(t, name)
    return UF('url_fld_%d' % i, I, I)(code)


@model('net/url.Parse', note='parsing is a function of the string')
def m_urlparse(eng, st, a, t, rt, pos):
    code = a[0]
    e = u1('url_parseerr', code)
    pt = eng.T.t[rt]['r'][0]
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0)
    ut = eng.T.elem(pt)
    v = eng.build(ut, lambda p, so: UF('url_fld_' + '.'.join(map(str, p)), I, so)(code))
    return [(st, TupleV([eng.new(st, ut, v), Iface(IV(0))])), (s2, TupleV([eng.zero(pt), Iface(e)]))]


def urlterms(eng, st, p): return [x for _, x in eng.flat(eng.T.id('net/url.URL'), eng.rd(st.heap, p, eng.T.id('net/url.URL')))]


@model('(*net/url.URL).Hostname')
def m_hostname(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    return u1('url_hostname', H(eng, st.heap).fld(a[0], 'Host'))


@model('(*net/url.URL).String')
def m_urlstring(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    xs = urlterms(eng, st, a[0])
    r = UF('url_string', *([x.sort() for x in xs] + [I]))(*xs)
    st.add(u1('url_query_of', r) == H(eng, st.heap).fld(a[0], 'RawQuery'))
    i = eng.T.fidx(eng.T.id('net/url.URL'), 'RawQuery')
    rest = [x for (p, x) in eng.flat(eng.T.id('net/url.URL'), eng.rd(st.heap, a[0], eng.T.id('net/url.URL'))) if p[0] != i]
    st.add(u1('url_rest_of', r) == UF('url_rest', *([x.sort() for x in rest] + [I]))(*rest))
    return r


def qhas(code): return UF('query_keys', I, SET)(code)


def qfirst(code, k): return UF('query_first', I, I, I)(code, k)


@model('(*net/url.URL).Query', note='the query is a function of RawQuery')
def m_urlquery(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    q = H(eng, st.heap).fld(a[0], 'RawQuery')
    ref = eng.newmap(st, rt)
    h = dict(st.heap)
    key = ('MD', eng.mkey(rt))
    A = core.arr(h, key, z3.ArraySort(I, SET))
    h[key] = z3.Store(A, ref, qhas(q))
    for p, so in eng.T.leaves(eng.T.elem(rt)):
        key = ('MV', eng.mkey(rt), p)
        A = core.arr(h, key, z3.ArraySort(I, z3.ArraySort(I, so)))
        h[key] = z3.Store(A, ref, fresh('query', z3.ArraySort(I, so)))
    st.heap = h
    # the value slices are newly allocated; their first elements are the first values of the query
    na = fresh('na')
    st.add(na >= st.na)
    k = fresh('k')
    v = eng.mapval(h, rt, ref, k)
    f = z3.Select(eng.content(h, v.et, v.b, (), I), v.o)
    st.add(z3.ForAll([k], z3.And(v.b >= st.na, v.b < na, v.o == 0, z3.Implies(z3.Select(qhas(q), k), v.l > 0), f == qfirst(q, k)), patterns=[v.b]))
    st.na = na
    return ref


def values_set(eng, st, mt, m, k, v, pos):
    eng.oblige(st, 'safety', 'assignment to entry in nil map', m != 0, pos)
    et = eng.T.elem(eng.T.elem(mt))
    ref = eng.alloc(st, None)
    h = dict(st.heap)
    key = ('E', eng.T.s(et), ())
    h[key] = z3.Store(core.arr(h, key, esort(I)), ref, z3.Store(z3.K(I, IV(0)), 0, v))
    st.heap = h
    eng.wlog(st, key, ref)
    eng.mapset(st, mt, m, k, Slice(ref, IV(0), IV(1), IV(1), et))


@model('github.com/google/go-querystring/query.Values', note='one key per field, named by the url tag; lists without elements give no key')
def m_queryvalues(eng, st, a, t, rt, pos):
    import re
    i = a[0]
    if i.dt is None or eng.T.k(i.dt) != 'struct': raise Unsupported('query.Values of this type')
    mt = eng.T.t[rt]['r'][0]
    ref = eng.newmap(st, mt)
    sts = [st]
    for n, f in enumerate(eng.T.fields(i.dt)):
        m = re.search(r'url:"([^"]*)"', f.get('tag') or '')
        if not m or ',' in m.group(1): raise Unsupported('query.Values options')
        k, v = lit(m.group(1)), i.val.get(n)
        out = []
        for s in sts:
            if isinstance(v, Slice) and eng.T.k(v.et) != 'ptr':
                s2 = s.fork()
                s2.add(v.l <= 0)
                out.append(s2)
                s.add(v.l > 0)
                values_set(eng, s, mt, ref, k, H(eng, s.heap).at(v, 0), pos)
                out.append(s)
            elif eng.T.s(eng.T.u(f['t'])) == 'string':
                values_set(eng, s, mt, ref, k, v, pos)
                out.append(s)
            elif re.match(r'u?int\d*$', eng.T.s(eng.T.u(f['t']))):
                values_set(eng, s, mt, ref, k, UF('decimal', I, I)(v), pos)
                out.append(s)
            else: raise Unsupported('query.Values field')
        sts = out
    z = eng.zero(mt)
    s2 = st.fork()
    e = fresh('err')
    s2.add(e != 0)
    return [(s, TupleV([ref, Iface(IV(0))])) for s in sts] + [(s2, TupleV([z, Iface(e)]))]


@model('(net/url.Values).Set')
def m_vset(eng, st, a, t, rt, pos): values_set(eng, st, t[0], a[0], a[1], a[2], pos)


@model('(net/url.Values).Add')
def m_vadd(eng, st, a, t, rt, pos):
    d = simp(z3.Select(eng.mapdom(st.heap, t[0], a[0]), a[1]))
    if not z3.is_false(d) and eng.feasible(st, d): raise Unsupported('Values.Add of a key that may be present')
    values_set(eng, st, t[0], a[0], a[1], a[2], pos)


@model('(net/url.Values).Get')
def m_vget(eng, st, a, t, rt, pos):
    v, d = eng.maplookup(st, t[0], a[0], a[1])
    return simp(z3.If(AND(d, v.l > 0), z3.Select(eng.content(st.heap, v.et, v.b, (), I), v.o), IV(0)))


@model('(net/url.Values).Encode', note='the encoded query has exactly the keys of the values (with a value) and their first values')
def m_vencode(eng, st, a, t, rt, pos):
    r = fresh('query')
    k = fresh('k')
    d = eng.mapdom(st.heap, t[0], a[0])
    v = eng.mapval(st.heap, t[0], a[0], k)
    f = z3.Select(eng.content(st.heap, v.et, v.b, (), I), v.o)
    has = z3.And(a[0] != 0, z3.Select(d, k), v.l > 0)
    st.add(z3.ForAll([k], z3.Select(qhas(r), k) == has, patterns=[z3.Select(qhas(r), k)]))
    st.add(z3.ForAll([k], z3.Implies(has, qfirst(r, k) == f), patterns=[qfirst(r, k)]))
    return r


@model('maps.Clone')
def m_clone(eng, st, a, t, rt, pos):
    mt = t[0]
    ref = eng.newmap(st, mt)
    h = dict(st.heap)
    for key, so in [(('MD', eng.mkey(mt)), B)] + [(('MV', eng.mkey(mt), p), so) for p, so in eng.T.leaves(eng.T.elem(mt))]:
        A = core.arr(h, key, z3.ArraySort(I, z3.ArraySort(eng.ksort(mt), so)))
        h[key] = z3.Store(A, ref, simp(z3.Select(A, a[0])))
        eng.wlog(st, key, ref)
    st.heap = h
    st.add(z3.ForAll([z3.Int('k!n')], z3.Not(z3.Select(eng.mapdom(st.heap, mt, IV(0)), z3.Int('k!n'))))) if eng.ksort(mt) == I else None
    return simp(z3.If(a[0] == 0, IV(0), ref))


@model('github.com/google/uuid.NewRandom', note='the id is arbitrary (a new one on every call)')
def m_uuid(eng, st, a, t, rt, pos):
    return TupleV([eng.build(eng.T.t[rt]['r'][0], lambda p, so: fresh('uuid', so)), Iface(fresh('err'))])


# ----------------------------------------------------------------------- jws
JM = 'github.com/lestrrat-go/jwx/v3/jws.'


def u1(n, x, so=I): return UF(n, x.sort(), so)(x)


@model(JM + 'Parse', note='the parsed message is a function of the bytes')
def m_jwsparse(eng, st, a, t, rt, pos):
    code = eng.string_of(st, a[0])
    e = u1('jws_parseerr', code)
    mt = eng.T.t[rt]['r'][0]
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0)
    p = eng.new(st, eng.T.elem(mt), u1('jws_content', code))
    st.add(u1('jws_body', u1('jws_content', code)) == u1('jws_payload', code))
    return [(st, TupleV([p, Iface(IV(0))])), (s2, TupleV([eng.zero(mt), Iface(e)]))]


@model('(%sMessage).Payload' % JM)
def m_jwspayload(eng, st, a, t, rt, pos): return bytes_value(eng, st, u1('jws_body', a[0]))


@model('(%sMessage).Signatures' % JM)
def m_jwssigs(eng, st, a, t, rt, pos):
    c = a[0]
    n = u1('jws_nsig', c)
    st.add(n >= 0)
    et = eng.T.elem(rt)
    s = Slice(u1('jws_sigbase', c), IV(0), n, n, et)
    st.add(z3.Implies(n > 0, s.b > 0), s.b < st.na, s.b >= 0)
    j = fresh('j')
    p0 = eng.rd(st.heap, ElemPtr(s.b, IV(0), et), et)
    pj = eng.rd(st.heap, ElemPtr(s.b, j, et), et)
    st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), pj.ref > 0), patterns=[pj.ref]))
    st.add(z3.Implies(n > 0, p0.ref > 0))
    h = u1('sig_header', eng.rd(st.heap, p0, eng.T.elem(et)))
    st.add(z3.Implies(n > 0, z3.And(h != 0, u1('hdr_typset', h, B) == u1('jws_typset', c, B), u1('hdr_typ', h) == u1('jws_typ', c))))
    return s


@model('(%sSignature).ProtectedHeaders' % JM)
def m_sighdr(eng, st, a, t, rt, pos):
    h = u1('sig_header', a[0])
    st.add(h != 0)
    return Iface(h)


def m_hdrtype(eng, st, recv, args, atys, rt, pos):
    h = recv.code
    return [(st, TupleV([u1('hdr_typ', h), u1('hdr_typset', h, B)]))]


IM[(JM + 'Headers', 'Type')] = m_hdrtype
IM[('github.com/lestrrat-go/jwx/v3/jwk.Set', 'Len')] = lambda eng, st, recv, args, atys, rt, pos: (st.add(u1('set_len', recv.code) >= 0), [(st, u1('set_len', recv.code))])[1]


def jws_ok(raw, ks):
    """the JWS raw carries a signature that verifies with key set ks"""
    return UF('jws_signed', I, I, B)(raw, ks)


def jws_typed(raw, typ):
    """raw is a JWS with exactly one signature, whose protected header declares typ"""
    c = u1('jws_content', raw)
    return AND(u1('jws_parseerr', raw) == 0, u1('jws_nsig', c) == 1, u1('jws_typset', c, B), u1('jws_typ', c) == typ)


@model(JM + 'Verify', note='verification with WithKeySet(keys, WithInferAlgorithmFromKey(true)) decides whether a key of the set signed the bytes')
def m_jwsverify(eng, st, a, t, rt, pos):
    raw = eng.string_of(st, a[0])
    opts = terms(eng, st, [a[1]], [t[1]])
    e = UF('jws_verify_%d' % len(opts), *([I] + [x.sort() for x in opts] + [I]))(raw, *opts)
    # exactly the option WithKeySet(ks, WithInferAlgorithmFromKey(true)) decides the keys
    if len(opts) == 2:
        o = opts[0]
        if z3.is_app(o) and 'WithKeySet' in o.decl().name() and o.num_args() == 3:
            so = o.arg(1)
            if z3.is_app(so) and 'WithInferAlgorithmFromKey' in so.decl().name() and z3.is_true(so.arg(0)):
                st.add((e == 0) == jws_ok(raw, o.arg(0)))
    pl = bytes_value(eng, st, u1('jws_payload', raw))
    return TupleV([pl, Iface(e)])


# headers under construction: ghost memory from header object to (name -> value)
HKEY = ('G', 'headers')
HS = z3.ArraySort(I, z3.ArraySort(I, I))


def hdrs(heap, ref): return simp(z3.Select(core.arr(heap, HKEY, HS), ref))


@model(JM + 'NewHeaders')
def m_newhdr(eng, st, a, t, rt, pos):
    ref = eng.alloc(st, None)
    c = UF('hdrobj', I, I)(ref)
    st.add(c != 0, u1('hdrref', c) == ref)
    h = dict(st.heap)
    h[HKEY] = z3.Store(core.arr(h, HKEY, HS), c, z3.K(I, IV(0)))
    st.heap = h
    eng.wlog(st, HKEY, c)
    return Iface(c)


def m_hdrset(eng, st, recv, args, atys, rt, pos):
    e = fresh('err')
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0)
    h = dict(st.heap)
    A = core.arr(h, HKEY, HS)
    h[HKEY] = z3.Store(A, recv.code, z3.Store(simp(z3.Select(A, recv.code)), args[0], args[1].code))
    st.heap = h
    eng.wlog(st, HKEY, recv.code)
    return [(st, Iface(IV(0))), (s2, Iface(e))]


IM[(JM + 'Headers', 'Set')] = m_hdrset


@model(JM + 'WithProtectedHeaders')
def m_withph(eng, st, a, t, rt, pos):
    return Iface(u1('opt_protected', hdrs(st.heap, a[0].code)))


@model(JM + 'WithKey')
def m_withkey(eng, st, a, t, rt, pos):
    sub = terms(eng, st, [a[2]], [t[2]])
    return Iface(UF('opt_key%d' % len(sub), *([I, I] + [x.sort() for x in sub] + [I]))(a[0].code, a[1].code, *sub))


@model(JM + 'Sign', note='the signed JWS has one signature with the given protected headers, made with the given key over the given payload')
def m_sign(eng, st, a, t, rt, pos):
    pl = eng.string_of(st, a[0])
    opts = terms(eng, st, [a[1]], [t[1]])
    raw = fresh('jws')
    e = fresh('err')
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0, raw != 0)
    if len(opts) == 2 and z3.is_app(opts[0]) and opts[0].decl().name().startswith('opt_key2'):
        o = opts[0]
        ph = o.arg(2)
        st.add(u1('jws_parseerr', raw) == 0, u1('jws_payload', raw) == pl, u1('jws_nsig', u1('jws_content', raw)) == 1)
        st.add(u1('sig_alg', raw) == o.arg(0), u1('sig_key', raw) == o.arg(1))
        if z3.is_app(ph) and ph.decl().name().startswith('opt_protected'):
            hm = ph.arg(0)
            tv = simp(z3.Select(hm, lit('typ')))
            c = u1('jws_content', raw)
            ty = eng.unbox(st, eng.T.id('string'), Iface(tv))
            st.add(u1('jws_typset', c, B) == (tv != 0), z3.Implies(tv != 0, u1('jws_typ', c) == ty))
            st.add(u1('sig_kid', raw) == z3.Select(hm, lit('kid')))
    data = bytes_value(eng, st, raw)
    z = eng.zero(eng.T.t[rt]['r'][0])
    return [(st, TupleV([data, Iface(IV(0))])), (s2, TupleV([z, Iface(e)]))]


@model('github.com/lestrrat-go/jwx/v3/jwk.AssignKeyID')
def m_assignkid(eng, st, a, t, rt, pos): return Iface(fresh('err'))


def install(eng):
    eng.models = dict(M)
    eng.invoke_models = dict(IM)
    eng.axioms = list(contains_axioms(eng))

class TOP: stack, depth = (), 0


@model('sort.SliceStable', note='a stable sort: the elements are permuted so that none is less than an earlier one, and those of which neither is less keep their order (if the order is a strict weak one, which is proved at the call)')
def slice_stable(eng, st, args, atys, rt, pos):
    sl, less = args[0].val, args[1]
    if not isinstance(sl, Slice) or less.name is None: raise Unsupported('sort')
    n, o = sl.l, sl.o
    i, j, k = fresh('i'), fresh('j'), fresh('k')

    def lessf(st):
        s2 = st.fork()
        s2.add(AND(0 <= i, i < n, 0 <= j, j < n))
        outs = eng.callv(TOP, s2, less, [i, j], [eng.T.id('int')] * 2, eng.T.id('bool'), pos)
        if len(outs) != 1: raise Unsupported('sort: order with several paths')
        f = outs[0][1]
        return lambda a, b: z3.substitute(f, (i, a), (j, b))
    lt = lessf(st)
    g = lambda *x: AND([AND(0 <= y, y < n) for y in x])
    eng.oblige(st, 'call', 'sort: the order is a strict weak order', z3.ForAll([i, j, k], z3.Implies(g(i, j, k), z3.And(
        z3.Not(z3.And(lt(i, j), lt(j, i))), z3.Implies(z3.And(lt(i, j), lt(j, k)), lt(i, k)),
        z3.Implies(z3.And(z3.Not(lt(i, j)), z3.Not(lt(j, i)), z3.Not(lt(j, k)), z3.Not(lt(k, j))), z3.And(z3.Not(lt(i, k)), z3.Not(lt(k, i))))))), pos, None)
    nm = fresh('perm').decl().name()
    P, Q = z3.Function(nm + '.p', I, I), z3.Function(nm + '.q', I, I)
    eng.sorted_by = (P, Q)
    h = dict(st.heap)
    sel = []
    for p, so in eng.T.leaves(sl.et):
        key = ('E', eng.T.s(sl.et), p)
        A = core.arr(h, key, esort(so))
        c = z3.Select(A, sl.b)
        c2 = fresh('sorted', z3.ArraySort(I, so))
        a = fresh('a')
        st.add(z3.ForAll([a], z3.If(z3.And(o <= a, a < o + n), z3.Select(c2, a) == z3.Select(c, simp(o + P(simp(a - o)))), z3.Select(c2, a) == z3.Select(c, a)), patterns=[z3.Select(c2, a)]))
        h[key] = z3.Store(A, sl.b, c2)
        eng.wlog(st, key, sl.b)
    st.heap = h
    a, b = fresh('a'), fresh('b')
    st.add(z3.ForAll([a], z3.Implies(g(a), z3.And(g(P(a)), Q(P(a)) == a)), patterns=[P(a)]))
    st.add(z3.ForAll([a], z3.Implies(g(a), z3.And(g(Q(a)), P(Q(a)) == a)), patterns=[Q(a)]))
    # before sorting, at positions P: the order of the results
    st.add(z3.ForAll([a, b], z3.Implies(z3.And(g(a, b), a < b), z3.And(z3.Not(lt(P(b), P(a))), z3.Implies(z3.Not(lt(P(a), P(b))), P(a) < P(b)))), patterns=[z3.MultiPattern(P(a), P(b))]))
    return None


# ---------------------------------------------------------------------- http
def query_facts(eng, st, mt, m, has, first):
    """the query given by url.Values m: has(k), first(k)"""
    k = fresh('k')
    d = eng.mapdom(st.heap, mt, m)
    v = eng.mapval(st.heap, mt, m, k)
    f = z3.Select(eng.content(st.heap, v.et, v.b, (), I), v.o)
    ok = z3.And(m != 0, z3.Select(d, k), v.l > 0)
    st.add(z3.ForAll([k], has(k) == ok, patterns=[has(k)]))
    st.add(z3.ForAll([k], z3.Implies(ok, first(k) == f), patterns=[first(k)]))


def http_url(r): return u1('http_url', r)
def http_has(r, k): return UF('http_query_has', I, I, B)(r, k)
def http_first(r, k): return UF('http_query_first', I, I, I)(r, k)
def http_body(r): return u1('http_body', r)
def http_kind(r): return u1('http_kind', r)          # 1: error response, 2: answer
def http_errcode(r): return u1('http_errcode', r)


@model('internal/http.Get', note='an arbitrary answer (transport error, error response, or a body of any content) to the request with exactly this address and query')
def m_httpget(eng, st, a, t, rt, pos):
    rts = eng.T.t[rt]['r']
    z = [eng.zero(x) for x in rts]
    et = eng.T.elem(rts[1])
    s2, s3 = st.fork(), st.fork()
    e = fresh('err')
    s2.add(e != 0)
    er = eng.build(et, lambda p, so, d={}: d.setdefault(p, fresh('httperr', so)))
    eng.typefacts(et, er, s3)
    er = eng.new(s3, et, er)
    hs3 = H(eng, s3.heap)
    s3.add(hs3.fld(er, 'Error') != 0)
    outs = [(s2, TupleV([z[0], z[1], Iface(e)])), (s3, TupleV([z[0], er, Iface(IV(0))]))]
    ref = eng.alloc(st, None)
    r = Ptr(ref, eng.T.elem(rts[0]))
    # the answer: a number that names this exchange
    for s, x, kind in ((s3, er.ref, 1), (st, ref, 2)):
        s.add(http_url(x) == a[0], http_kind(x) == kind)
        query_facts(eng, s, t[1], a[1], lambda k: http_has(x, k), lambda k: http_first(x, k))
    s3.add(http_errcode(er.ref) == hs3.fld(er, 'Error'))
    i = a[2]
    if not (z3.is_int_value(simp(i.code)) and simp(i.code).as_long() == 0):
        # the body is decoded into the target (not if the server answers otherwise than with a JSON document)
        if i.dt is None: raise Unsupported('http result target')
        s4 = st.fork()
        outs.append((s4, TupleV([r, z[1], Iface(IV(0))])))
        for s5, er5 in decode(eng, st, 'json', http_body(ref), i, pos):
            ok = z3.is_int_value(simp(er5.code)) and simp(er5.code).as_long() == 0
            if ok: s5.add(u1('http_result', ref) == i.code)
            outs.append((s5, TupleV([r if ok else z[0], z[1], er5])))
    else: outs.append((st, TupleV([r, z[1], Iface(IV(0))])))
    return outs


@model('(*github.com/go-resty/resty/v2.Response).Body', '(github.com/go-resty/resty/v2.Response).Body')
def m_body(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    return bytes_value(eng, st, http_body(a[0].ref))


@model('(*github.com/go-resty/resty/v2.Response).Result', note='the decoded answer')
def m_result(eng, st, a, t, rt, pos):
    nn(eng, st, a[0], pos)
    return Iface(u1('http_result', a[0].ref))


# ----------------------------------------------------------------------- jwt
JT = 'github.com/lestrrat-go/jwx/v3/jwt.'


@model(JT + 'ParseInsecure', note='the token is a function of the bytes; nothing is verified')
def m_jwtparse(eng, st, a, t, rt, pos):
    code = eng.string_of(st, a[0])
    e = u1('jwt_parseerr', code)
    k = u1('jwt_token', code)
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0, k != 0)
    return [(st, TupleV([Iface(k), Iface(IV(0))])), (s2, TupleV([Iface(IV(0)), Iface(e)]))]


def jwt_claim(tok, name, so=I): return UF('jwt_claim_%s' % so, I, I, so)(tok, name)


def m_jwtexp(eng, st, recv, args, atys, rt, pos):
    return [(st, TupleV([jwt_claim(recv.code, lit('exp')), UF('jwt_has', I, I, B)(recv.code, lit('exp'))]))]


def m_jwtiss(eng, st, recv, args, atys, rt, pos):
    return [(st, TupleV([jwt_claim(recv.code, lit('iss')), UF('jwt_has', I, I, B)(recv.code, lit('iss'))]))]


def m_jwtget(eng, st, recv, args, atys, rt, pos):
    i = args[1]
    if i.dt is None or eng.T.k(i.dt) != 'ptr' or eng.T.basic(eng.T.elem(i.dt)) != 'string': raise Unsupported('jwt claim of unknown type')
    e = UF('jwt_geterr', I, I, I)(recv.code, args[0])
    s2 = st.fork()
    s2.add(e != 0)
    st.add(e == 0)
    eng.wr(st, i.val, eng.T.elem(i.dt), jwt_claim(recv.code, args[0]))
    return [(st, Iface(IV(0))), (s2, Iface(e))]


IM[(JT + 'Token', 'Expiration')] = m_jwtexp
IM[(JT + 'Token', 'Issuer')] = m_jwtiss
IM[(JT + 'Token', 'Get')] = m_jwtget


# --------------------------------------------------------------------- cache
def cacheent(eng, st): return fresh('cacheentry')


@model('cache.Set', note='stores the value under the key, or fails')
def m_cacheset(eng, st, a, t, rt, pos):
    for g, x in (('cs_key', a[0]), ('cs_val', a[1].code), ('cs_dur', a[2])): ghostset(eng, st, g, x)
    ghostset(eng, st, 'cs_n', simp(ghost(st, 'cs_n') + 1))
    return Iface(fresh('err'))


def ghost(st, name):
    k = ('G', name)
    if k not in st.heap:
        h = dict(st.heap)
        h[k] = z3.Const('G_' + name, I)
        st.heap = h
    return st.heap[k]


TRACES = ('cs_key', 'cs_val', 'cs_dur', 'cs_n', 'gc_key', 'gc_val', 'gc_dur', 'gc_n', 'cg_entry', 'rd_key', 'rd_val', 'rd_dur', 'rd_n', 'um_data', 'um_target')       # the last access to the caches


def is_trace(key): return key[0] == 'G' and key[1] in TRACES


def lose_traces(eng, st, keep=()):
    """a call by contract may access the cache: what it accessed last is unknown (unless the contract says so)"""
    h = dict(st.heap)
    for n in TRACES:
        if not n.startswith(keep or ()): h[('G', n)] = fresh('G_' + n)
    st.heap = h


def ghostset(eng, st, name, x):
    ghost(st, name)
    h = dict(st.heap)
    h[('G', name)] = x
    st.heap = h
    eng.wlog(st, ('G', name), IV(0))


@model('cache.Get', note='an entry that was stored under this key decoded into the target, or nothing, or an error')
def m_cacheget(eng, st, a, t, rt, pos):
    i = a[1]
    if i.dt is None or eng.T.k(i.dt) != 'ptr': raise Unsupported('cache target')
    et = eng.T.elem(i.dt)
    b, e = fresh('set', B), fresh('err')
    s2, s3 = st.fork(), st.fork()
    s2.add(e != 0)                       # target possibly written in part
    old = dict(eng.flat(et, eng.rd(st.heap, i.val, et)))
    own = (eng.T.t[i.dt].get('methods') or {}).get('UnmarshalMsgpack')
    hid = lambda p: not own and eng.T.k(et) == 'struct' and not eng.T.fields(et)[p[0]]['n'][:1].isupper()      # fields that msgpack does not touch
    junk = eng.build(et, lambda p, so, d={}: old[p] if hid(p) else d.setdefault(p, fresh('partial', so)))
    eng.typefacts(et, junk, s2, deep=True)
    eng.wr(s2, i.val, et, junk)
    ent = fresh('entry')
    st.add(ent != 0, u1('cache_key_of', ent) == a[0])
    v = decoded(eng, st, 'cached', et, ent)
    new = dict(eng.flat(et, v))
    eng.wr(st, i.val, et, eng.build(et, lambda p, so: old[p] if hid(p) else new[p]))
    ghostset(eng, st, 'cg_entry', ent)
    return [(st, TupleV([TRUE, Iface(IV(0))])), (s3, TupleV([FALSE, Iface(IV(0))])), (s2, TupleV([b, Iface(e)]))]


# the cache back ends
@model('(*github.com/TwiN/gocache/v2.Cache).SetWithTTL', note='stores the value under the key for the duration')
def m_gcset(eng, st, a, t, rt, pos):
    for g, x in (('gc_key', a[1]), ('gc_val', eng.string_of(st, a[2].val) if a[2].dt is not None and isinstance(a[2].val, Slice) else a[2].code), ('gc_dur', a[3])): ghostset(eng, st, g, x)
    ghostset(eng, st, 'gc_n', simp(ghost(st, 'gc_n') + 1))
    return None


def sha3_256(x): return UF('sha3_256', I, I)(x)


@model('golang.org/x/crypto/sha3.Sum256', note='collision free')
def m_sha3(eng, st, a, t, rt, pos):
    d = eng.string_of(st, a[0])
    h = sha3_256(d)
    st.add(UF('unsha3', I, I)(h) == d)
    c = UF('bytes_of', I, z3.ArraySort(I, I))(h)
    st.add(UF('str_of_bytes', z3.ArraySort(I, I), I, I, I)(c, IV(0), IV(32)) == h)
    v = StructV(rt, [(lambda i=i: z3.Select(c, IV(i))) for i in range(32)])
    v.whole = c
    return v


@model('(*github.com/TwiN/gocache/v2.Cache).Get', note='the value stored under the key, if any')
def m_gcget(eng, st, a, t, rt, pos):
    return TupleV([Iface(u1('gc_stored', a[1])), fresh('found', B)])


RD = 'github.com/redis/go-redis/v9.'


@model('(%scmdable).Set' % RD, note='stores the value under the key for the duration (0: for ever), or fails')
def m_rdset(eng, st, a, t, rt, pos):
    v = a[3]
    for g, x in (('rd_key', a[2]), ('rd_val', eng.string_of(st, v.val) if v.dt is not None and isinstance(v.val, Slice) else v.code), ('rd_dur', a[4])): ghostset(eng, st, g, x)
    ghostset(eng, st, 'rd_n', simp(ghost(st, 'rd_n') + 1))
    return eng.new(st, eng.T.elem(rt), eng.sym(eng.T.elem(rt), 'cmd', st))


@model('(*%sbaseCmd).Err' % RD)
def m_rderr(eng, st, a, t, rt, pos): return Iface(fresh('err'))


@model('(%scmdable).Get' % RD)
def m_rdget(eng, st, a, t, rt, pos):
    p = eng.new(st, eng.T.elem(rt), eng.sym(eng.T.elem(rt), 'cmd', st))
    st.add(u1('rd_asked', p.ref) == a[2])
    return p


@model('(*%sStringCmd).Result' % RD, note='the value stored under the key that was asked for, or an error')
def m_rdresult(eng, st, a, t, rt, pos):
    return TupleV([u1('rd_stored', u1('rd_asked', a[0].ref)), Iface(fresh('err'))])


def m_errors_is(eng, st, a, t, rt, pos):
    r = UF('errors_is', I, I, B)(a[0].code, a[1].code)
    st.add(z3.Implies(a[0].code == a[1].code, r), z3.Implies(z3.And(a[0].code == 0, a[1].code != 0), z3.Not(r)))
    return r


for _n in ('errors.Is', 'github.com/pkg/errors.Is'): M[_n] = m_errors_is


@model('internal/utils.NilAllExceptByTag', note='keeps the fields of the struct whose JSON names are listed, and of Extra the listed keys (reflection)')
def m_nilall(eng, st, a, t, rt, pos):
    i, tags = a
    if i.dt is None or eng.T.k(i.dt) != 'ptr': raise Unsupported('NilAllExceptByTag of an unknown type')
    et = eng.T.elem(i.dt)
    nn(eng, st, i.val, pos)
    v = eng.rd(st.heap, i.val, et)
    c = eng.content(st.heap, tags.et, tags.b, (), I)
    listed = lambda x: contains(None, c, simp(tags.o), simp(tags.l), x)
    out = []
    for k, f in enumerate(eng.T.fields(et)):
        x = v.get(k)
        if f['n'] == 'Extra' and eng.T.k(f['t']) == 'map':
            m = fresh('extra')
            na = fresh('na')
            st.add(na >= st.na, (m == 0) == (x == 0), z3.Implies(m != 0, z3.And(m >= st.na, m < na)))
            st.na = na
            d0, d1 = eng.mapdom(st.heap, f['t'], x), eng.mapdom(st.heap, f['t'], m)
            st.add(forall(lambda y: z3.Select(d1, y) == z3.And(z3.Select(d0, y), listed(y)), I, pats=lambda y: z3.Select(d1, y)))
            out.append(m)
            continue
        n = tagname(f)
        keep = listed(lit(n))
        z = dict(eng.flat(f['t'], eng.zero(f['t'])))
        fl = [(p, simp(z3.If(keep, y, z[p]))) for p, y in eng.flat(f['t'], x)]
        out.append(eng.unflat(f['t'], fl))
    eng.wr(st, i.val, et, StructV(et, out))
    return None


import rmodels
