from .common import *
META = dict(bounds='all 2^N values of every mask operand; run-time subscripts 0 <= i < N; -O2')
def sel(i, xs):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1): r = T.ite(T.eq(i, c(i.w, k)), xs[k], r)
    return r
def idx(I, n, *ts):
    for t in ts: I.assume(T.ult(t, c(t.w, n)))
SA = 'stdx::element_aligned'
def gen(s):
    L = []; n = s.n
    def h(nm, d, b, sp, outs='k:M'): L.append(hv(nm, s, d, b.replace('SA', SA), sp, outs=outs))
    for nm, op, f in (('and', '&', T.band), ('or', '|', T.bor), ('xor', '^', T.bxor), ('land', '&&', T.band), ('lor', '||', T.bor)):
        h(nm, 'a:M b:M', '%%M r = a %s b; r.copy_to(k, SA);' % op, lambda I, f=f: {'k': zips(f, I.a, I.b)})
        h(nm + '_self', 'a:M', '%%M r = a %s a; r.copy_to(k, SA);' % op, lambda I, f=f: {'k': zips(f, I.a, I.a)})
        if len(op) == 1:
            h(nm + '_assign', 'a:M b:M', '%%M& r = (a %s= b); a.copy_to(k, SA); r.copy_to(q, SA);' % op, lambda I, f=f: {'k': zips(f, I.a, I.b), 'q': zips(f, I.a, I.b)}, 'k:M q:M')
    h('not', 'a:M', '%M r = !a; r.copy_to(k, SA);', lambda I: {'k': [T.bnot(a) for a in I.a]})
    h('notnot', 'a:M', '%M r = !!a; r.copy_to(k, SA);', lambda I: {'k': I.a})
    h('eq', 'a:M b:M', '%M r = a == b; r.copy_to(k, SA);', lambda I: {'k': zips(T.eq, I.a, I.b)})
    h('ne', 'a:M b:M', '%M r = a != b; r.copy_to(k, SA);', lambda I: {'k': zips(T.bxor, I.a, I.b)})
    h('demorgan', 'a:M b:M x:M', '%M r = !(a && !b) || (x ^ b); r.copy_to(k, SA);',
      lambda I: {'k': [T.bor(T.bnot(T.band(a, T.bnot(b))), T.bxor(x, b)) for a, b, x in zip(I.a, I.b, I.x)]})
    h('bcast', 'x:bool', '%M r(x); r.copy_to(k, SA);', lambda I: {'k': I.x * n})
    h('ctrue', '', '%M r(true); r.copy_to(k, SA);', lambda I: {'k': [T.TRUE()] * n})
    h('cfalse', '', '%M r(false); r.copy_to(k, SA);', lambda I: {'k': [T.FALSE()] * n})
    h('dflt', '', '%M r{}; r.copy_to(k, SA);', lambda I: {'k': [T.FALSE()] * n})
    h('copy', 'a:M', '%M r(a); %M t = r; r = !r; t.copy_to(k, SA); r.copy_to(q, SA);', lambda I: {'k': I.a, 'q': [T.bnot(a) for a in I.a]}, 'k:M q:M')
    h('copy_from', 'a:M b:M', '%M r = b; r.copy_from(a_, SA); r.copy_to(k, SA);', lambda I: {'k': I.a})
    h('ld_masked', 'a:M b:M', '%M r(a_, b, SA); r.copy_to(k, SA);', lambda I: {'k': zips(T.band, I.a, I.b)})
    h('from_masked', 'a:M b:M x:M', '%M r = x; where(b, r).copy_from(a_, SA); r.copy_to(k, SA);', lambda I: {'k': [T.ite(b, a, x) for a, b, x in zip(I.a, I.b, I.x)]})
    h('to_masked', 'a:M b:M', 'where(b, a).copy_to(k, SA);', lambda I: {'k': [T.ite(b, T.zext(a, 8), p) for a, b, p in zip(I.a, I.b, I.k)]})
    h('get', 'a:M i:u64', '*k = a[i]; const %M m = a; *q = m[i];', lambda I: (idx(I, n, I.i[0]), {'k': [sel(I.i[0], I.a)], 'q': [sel(I.i[0], I.a)]})[1], 'k:bool q:bool')
    h('get_derived', 'a:M b:M i:u64', '*k = (a ^ !b)[i];', lambda I: (idx(I, n, I.i[0]), {'k': [sel(I.i[0], [T.bxor(a, T.bnot(b)) for a, b in zip(I.a, I.b)])]})[1], 'k:bool')
    h('set', 'a:M i:u64 x:bool', 'a[i] = x; a.copy_to(k, SA);', lambda I: (idx(I, n, I.i[0]), {'k': [T.ite(T.eq(I.i[0], c(64, j)), I.x[0], a) for j, a in enumerate(I.a)]})[1])
    h('setget', 'a:M i:u64 j:u64', 'a[i] = bool(a[j]); a.copy_to(k, SA);', lambda I: (idx(I, n, I.i[0], I.j[0]), {'k': [T.ite(T.eq(I.i[0], c(64, j)), sel(I.j[0], I.a), a) for j, a in enumerate(I.a)]})[1])
    h('set_consts', 'a:M x:bool y:bool', 'a[0] = x; a[%d] = y; a.copy_to(k, SA);' % (n - 1), lambda I: {'k': [I.y[0] if j == n - 1 else I.x[0] if j == 0 else a for j, a in enumerate(I.a)]})
    for j in sorted({0, n // 2, n - 1}):
        h('get%d' % j, 'a:M', '*k = a[%d];' % j, lambda I, j=j: {'k': [I.a[j]]}, 'k:bool')
        h('set%d' % j, 'a:M x:bool', 'a[%d] = x; a.copy_to(k, SA);' % j, lambda I, j=j: {'k': [I.x[0] if t == j else a for t, a in enumerate(I.a)]})
    h('swap', 'a:M i:u64 x:bool', 'bool t = x; using std::swap; swap(a[i], t); a.copy_to(k, SA); *q = t;',
      lambda I: (idx(I, n, I.i[0]), {'k': [T.ite(T.eq(I.i[0], c(64, j)), I.x[0], a) for j, a in enumerate(I.a)], 'q': [sel(I.i[0], I.a)]})[1], 'k:M q:bool')
    # vector_aligned: the array is aligned to memory_alignment_v
    al = 1
    while al < n: al *= 2
    L.append(Harness('aligned__%s' % s.tag, '%s a(a_, stdx::vector_aligned); (!a).copy_to(k, stdx::vector_aligned);' % s.M,
        [Param('a_', 'bool', n, 'in', align=al), Param('k', 'bool', n, 'out', align=al)], lambda I: {'k': [T.bnot(a) for a in I.a]}))
    return L
def tus(tier): return groups(tier, 'C06', gen)
