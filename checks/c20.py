from .common import *
from .c05 import cmpf
from .c07 import pc, ffs, fls
from .c12 import ok_n, ded
from .c13 import abscmp, order_keys, fold, exact_env
from .c19 import bitset
META = dict(bounds='all values of the N elements of the operands; types whose registers (or whose last register) hold more than N elements; every pair of a producing and a consuming operation of the catalogue (quick: a fixed part of the pairs); -O2',
    assumptions=['operands of the N elements for which the operations are defined', 'floating-point sums in an arbitrary commutative group as in C13'], timeouts={'t_bv': 6000},
    outside=['floating-point exception flags'])
EA = 'stdx::element_aligned'

cv2 = {'i8': 'i16', 'u8': 'u32', 'i16': 'i32', 'u16': 'u8', 'i32': 'i64', 'u32': 'u64', 'i64': 'i32', 'u64': 'u16', 'f32': 'f64', 'f64': 'f32'}
def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w; n = s.n; fp = isfp(e); sg = issigned(e); arch = s.arch
        # the register is full: nothing to check
        nb = native_bytes(arch, e) * 8 // w
        lt = cmpf(e, 'lt'); add = T.fadd if fp else T.add; sub = T.fsub if fp else T.sub
        one = fpconst(w, 1.0) if fp else c(s, 1)
        def num(k): return fpconst(w, float(k)) if fp else c(s, k)
        isel = lambda m, x, y: [T.ite(k, p, q) for k, p, q in zip(m, x, y)]
        # producers of vectors: name, inputs, expression, lanes, tags (arith: contains rounding arithmetic)
        P = [('ld', 'a:V', 'a', lambda I: I.a, ''),
             ('add', 'a:V b:V', 'a + b', lambda I: zips(add, I.a, I.b), 'a'),
             ('neg', 'a:V', '-a', lambda I: [T.fneg(x) if fp else T.neg(x) for x in I.a], ''),
             ('bc', 'x:E', '%V(x)', lambda I: [I.x[0]] * n, ''),
             ('bcc', 'x:E', '%V(static_cast<%E>(3))', lambda I: [num(3)] * n, ''),
             ('subc', 'a:V', 'a - static_cast<%E>(1)', lambda I: [sub(x, one) for x in I.a], 'a'),
             ('wh', 'a:V b:V m:M', '[&] { auto t = a; where(!m, t) = b; return t; }()', lambda I: isel(I.m, I.a, I.b), ''),
             ('whc', 'a:V b:V', '[&] { auto t = a; where(!(a < b), t) = %V(static_cast<%E>(2)); return t; }()', lambda I: [T.ite(lt(a, b), a, num(2)) for a, b in zip(I.a, I.b)], 'c'),
             ('mx', 'a:V b:V', 'max(a, b)', lambda I: zips(lambda x, y: T.ite(lt(x, y), y, x), I.a, I.b), 'cx'),
             ('gen', 'a:V b:V', '%V([&](auto i) -> %E { return i % 2 ? a[i] : b[i]; })', lambda I: [(I.a if i % 2 else I.b)[i] for i in range(n)], '')]
        if not fp:
            P += [('not', 'a:V', '~a', lambda I: [T.bnot(x) for x in I.a], ''),
                  ('orn', 'a:V b:V', '(a | ~b)', lambda I: [T.bor(x, T.bnot(y)) for x, y in zip(I.a, I.b)], ''),
                  ('shr', 'a:V', '(~a >> 1)', lambda I: [(T.ashr if sg else T.lshr)(T.bnot(x), c(s, 1)) for x in I.a], ''),
                  ('shl', 'a:V', '(a << 1)', lambda I: [T.shl(x, c(s, 1)) for x in I.a], '')]
            if w == 8:
                def dv(I):
                    for y in I.b: I.assume(T.ne(y, c(s, 0)))
                    return zips(T.sdiv if sg else T.udiv, I.a, I.b)
                P.append(('div', 'a:V b:V', 'a / b', dv, 'h'))
            P.append(('sgn', 'a:V', 'stdx::static_simd_cast<%%V>(stdx::static_simd_cast<stdx::rebind_simd_t<%s, %%V>>(~a))' % ctype(('u' if sg else 'i') + str(w)), lambda I: [T.bnot(x) for x in I.a], ''))
        else:
            P += [('div', 'a:V b:V', 'a / b', lambda I: zips(T.fdiv, I.a, I.b), 'a'),
                  ('rcp', 'a:V', 'static_cast<%E>(1) / a', lambda I: [T.fdiv(one, x) for x in I.a], 'a')]
        # producers of masks
        feq = cmpf(e, 'eq')
        M = [('ld', 'm:M', 'm', lambda I: I.m),
             ('not', 'm:M', '!m', lambda I: [T.bnot(x) for x in I.m]),
             ('eq', 'a:V b:V', '(a == b)', lambda I: zips(feq, I.a, I.b)),
             ('nlt', 'a:V b:V', '!(a < b)', lambda I: [T.bnot(lt(x, y)) for x, y in zip(I.a, I.b)]),
             ('eq0', 'a:V', '(a == 0)', lambda I: [feq(x, c(s, 0)) for x in I.a]),
             ('meq', 'm:M a:M', '(m == a)', lambda I: zips(T.eq, I.m, I.a)),
             ('orn', 'm:M a:M', '(m || !a)', lambda I: [T.bor(x, T.bnot(y)) for x, y in zip(I.m, I.a)]),
             ('xnor', 'm:M a:M', '!(m ^ a)', lambda I: zips(T.eq, I.m, I.a)),
             ('btrue', 'm:M', '(m || %M(true))', lambda I: [T.TRUE()] * n),
             ('wh', 'm:M a:M x:bool', '[&] { auto t = m; where(!a, t) = !m; return t; }()', lambda I: [T.ite(T.bnot(q), T.bnot(p), p) for p, q in zip(I.m, I.a)]),
             ('frombits', 'x:u64', '!%M::__from_bitset(std::bitset<%N>(x))', lambda I: [T.bnot(T.bit(I.x[0], i)) for i in range(n)])]
        if fp: M.append(('nan', 'a:V', '!isnan(a)', lambda I: [T.feq(x, x) for x in I.a]))
        def H(nm, decl, body, spec, outs, cmp=None, canon=False, env=None):
            h = hv(nm, s, decl, body, spec, outs=outs, cmp=cmp)
            if canon: h.canon = True
            if env: h.env = env; h.ew = w
            L.append(h)
        for pn, d, ex, f in M:
            def C(cn, body, g, outs, d=d, f=f, pn=pn, ex=ex, pre=''):
                H('m_%s_%s' % (pn, cn), d, body.replace('%X', ex), lambda I, f=f, g=g: g(I, f(I)), outs)
            C('all', '*k = all_of(%X);', lambda I, m: {'k': [T.conj(m)]}, 'k:bool')
            C('any', '*k = any_of(%X);', lambda I, m: {'k': [T.disj(m)]}, 'k:bool')
            C('none', '*k = none_of(%X);', lambda I, m: {'k': [T.bnot(T.disj(m))]}, 'k:bool')
            C('some', '*k = some_of(%X);', lambda I, m: {'k': [T.band(T.disj(m), T.bnot(T.conj(m)))]}, 'k:bool')
            C('pop', '*k = popcount(%X);', lambda I, m: {'k': [pc(m)]}, 'k:i32')
            C('ffs', '*k = find_first_set(%X);', lambda I, m: (I.assume(T.disj(m)), {'k': [ffs(m)]})[1], 'k:i32')
            C('fls', '*k = find_last_set(%X);', lambda I, m: (I.assume(T.disj(m)), {'k': [fls(m)]})[1], 'k:i32')
            C('bits', '*k = (%X).__to_bitset().to_ullong();', lambda I, m: {'k': [bitset(m)]}, 'k:u64')
            C('st', '(%%X).copy_to(k, %s);' % EA, lambda I, m: {'k': m}, 'k:M')
            C('npop', 'auto r = %X; *k = popcount(!r) + 100 * popcount(r && !r);', lambda I, m: {'k': [pc([T.bnot(x) for x in m])]}, 'k:i32')
            C('nall', 'auto r = %X; *k = all_of(!r) || none_of(r || !r);', lambda I, m: {'k': [T.conj([T.bnot(x) for x in m])]}, 'k:bool')
            C('eqall', 'auto r = %X; *k = all_of(r == r) && none_of(r != r);', lambda I, m: {'k': [T.TRUE()]}, 'k:bool')
            C('rsz', 'auto r = stdx::__proposed::resizing_simd_cast<stdx::simd_mask<%E, stdx::simd_abi::deduce_t<%E, %N + 1>>>(%X); *k = popcount(r); *k2 = all_of(r); r.copy_to(k3, stdx::element_aligned);' if ok_n(arch, e, n + 1) else '*k = popcount(%X);*k2=false;',
              lambda I, m: dict({'k': [pc(m)], 'k2': [T.FALSE()]}, **({'k3': list(m) + [T.FALSE()]} if ok_n(arch, e, n + 1) else {})), 'k:i32 k2:bool' + (' k3:bool*%d' % (n + 1) if ok_n(arch, e, n + 1) else ''))
            if 'y' not in d:
                C('stv', 'where(%X, y).copy_to(y2, stdx::element_aligned);', lambda I, m: {'y2': isel(m, I.y, I.y2)}, 'y2:V', d=d + ' y:V')
                C('ldv', 'where(%X, y).copy_from(z_, stdx::element_aligned); st(y, o);', lambda I, m: {'o': isel(m, I.z_, I.y)}, 'o:V', d=d + ' y:V z:E*%d' % n)
                for e2 in sorted(set([cv2[e], 'i32' if e != 'i32' else 'f32'])):
                    C('stc_' + e2, 'where(%X, y).copy_to(y2, stdx::element_aligned);', lambda I, m, e2=e2: {'y2': isel(m, conv(I, I.y, e, e2, m), I.y2)}, 'y2:%s*%d' % (e2, n), d=d + ' y:V')
                    C('ldc_' + e2, 'where(%X, y).copy_from(z_, stdx::element_aligned); st(y, o);', lambda I, m, e2=e2: {'o': isel(m, conv(I, I.z_, e2, e, m), I.y)}, 'o:V', d=d + ' y:V z:%s*%d' % (e2, n))
                C('red', '*k = reduce(where(%X, y), std::plus<>());', lambda I, m: {'k': [fold(T.fadd if fp else T.add, isel(m, I.y, [c(s, 0)] * n))]}, 'k:E', d=d + ' y:V')
                if fp: L[-1].cmp = {'k': abscmp('fadd')}; L[-1].env = exact_env; L[-1].ew = w
                else: L[-1].canon = True
        for pn, d, ex, f, tag in P:
            def C(cn, body, g, outs, d=d, f=f, pn=pn, ex=ex, cmp=None, canon=False, env=None, tag=tag):
                def sp(I, f=f, g=g):
                    if fp and 'x' in tag:
                        for v in list(I.a) + list(I.b): I.assume(T.bnot(T.fisnan(v)))
                    return g(I, f(I))
                H('v_%s_%s' % (pn, cn), d, body.replace('%X', ex), sp, outs, cmp, canon, env)
            mnmx = fp and 'x' in tag
            z = (lambda g, x: T.feq(g, x)) if mnmx else None
            C('st', 'st(%V(%X), o);', lambda I, v: {'o': v}, 'o:V', cmp={'o': z} if z else None)
            C('eqall', 'const %V v = %X; *k = all_of(v == y); *k2 = popcount(v != y);', lambda I, v: {'k': [T.conj(zips(feq, v, I.y))], 'k2': [pc([T.bnot(q) for q in zips(feq, v, I.y)])]}, 'k:bool k2:i32', d=d + ' y:V')
            C('ltnone', 'const %V v = %X; *k = none_of(v < y); *k2 = any_of(v > y);', lambda I, v: {'k': [T.bnot(T.disj(zips(lt, v, I.y)))], 'k2': [T.disj([lt(q, p) for p, q in zip(v, I.y)])]}, 'k:bool k2:bool', d=d + ' y:V')
            C('zero', 'const %V v = %X; *k = all_of(v == 0); *k2 = popcount(v == 0);', lambda I, v: {'k': [T.conj([feq(q, c(s, 0)) for q in v])], 'k2': [pc([feq(q, c(s, 0)) for q in v])]}, 'k:bool k2:i32')
            C('lnot', 'const %V v = %X; *k = all_of(!v); *k2 = popcount(!v); *k3 = find_last_set(!v || v == v);' if not fp else 'const %V v = %X; *k = all_of(!v); *k2 = popcount(!v); *k3 = %N - 1;',
              lambda I, v: {'k': [T.conj([feq(q, c(s, 0)) for q in v])], 'k2': [pc([feq(q, c(s, 0)) for q in v])], 'k3': [T.const(32, n - 1)]}, 'k:bool k2:i32 k3:i32')
            if fp:
                if 'a' not in tag and 'x' not in tag and 'c' not in tag or pn == 'add':
                    if pn != 'neg': C('sum', '*o = reduce(%V(%X));', lambda I, v: {'o': [fold(T.fadd, v)]}, 'o:E', cmp={'o': abscmp('fadd')}, env=exact_env)
                if pn not in ('neg', 'add') and 'a' not in tag and 'c' not in tag:
                    C('prod', '*o = reduce(%V(%X), std::multiplies<>());', lambda I, v: {'o': [fold(T.fmul, v)]}, 'o:E', cmp={'o': abscmp('fmul')}, env=lambda h, rng, base: {k: (x if k[:2] == 'm_' or k[:5] == 'init_' else T.f2b(rng.choice([2.0, -1.0, 0.5, -2.0]), h.ew)) for k, x in base.items()})
                if pn in ('ld', 'bc', 'wh', 'gen'):
                    for hn in ('hmin', 'hmax'):
                        inf = T.f2b(float('inf'), w)
                        def ccmp(got, exp):
                            if not T.isc(got):
                                try:
                                    g, x = T.canon([order_keys(t, w, inf) for t in (got, exp)])
                                    return T.eq(g, x)
                                except Exception: pass
                            return T.feq(got, exp)
                        def g(I, v, hn=hn):
                            for q in v: I.assume(T.bnot(T.fisnan(q)))
                            return {'o': [fold((lambda p, q: T.ite(T.fle(p, q), p, q)) if hn == 'hmin' else (lambda p, q: T.ite(T.fle(p, q), q, p)), v)]}
                        C(hn, '*o = %s(%%V(%%X));' % hn, g, 'o:E', cmp={'o': ccmp})
                C('isfin', 'auto k0 = isfinite(%V(%X)); *k = all_of(k0); *k2 = popcount(!k0);', lambda I, v: {'k': [T.conj([T.flt(T.fabs_(q), c(s, T.f2b(float('inf'), w))) for q in v])], 'k2': [pc([T.bnot(T.flt(T.fabs_(q), c(s, T.f2b(float('inf'), w)))) for q in v])]}, 'k:bool k2:i32')
                C('sgn', '*k = popcount(signbit(%V(%X))); *k2 = all_of(!signbit(%V(%X)));', lambda I, v: {'k': [pc([T.bit(q, w - 1) for q in v])], 'k2': [T.conj([T.bnot(T.bit(q, w - 1)) for q in v])]}, 'k:i32 k2:bool') if 'a' not in tag and not mnmx else None
            else:
                C('sum', '*o = reduce(%V(%X));', lambda I, v: {'o': [fold(T.add, v)]}, 'o:E', canon=True)
                C('and', '*o = reduce(%V(%X), std::bit_and<>());', lambda I, v: {'o': [fold(T.band, v)]}, 'o:E', canon=True)
                C('or', '*o = reduce(%V(%X), std::bit_or<>());', lambda I, v: {'o': [fold(T.bor, v)]}, 'o:E', canon=True)
                C('xor', '*o = reduce(%V(%X), std::bit_xor<>());', lambda I, v: {'o': [fold(T.bxor, v)]}, 'o:E', canon=True)
                C('user', '*o = reduce(%V(%X), [](auto x, auto y) { return x + y + 1; });', lambda I, v: {'o': [T.add(fold(T.add, v), c(w, n - 1))]}, 'o:E', canon=True)
                if 'h' not in tag:
                    if pn in ('ld', 'bc', 'wh', 'gen', 'not', 'bcc'):
                        mn = lambda p, q: T.ite(lt(q, p), q, p)
                        mx = lambda p, q: T.ite(lt(p, q), q, p)
                        if not (w == 8 and n > 8 and arch in ('sse2', 'ssse3')) and not (e == 'u16' and arch in ('sse2', 'ssse3') and n > 6):
                            C('hmin', '*o = hmin(%V(%X));', lambda I, v: {'o': [fold(mn, v)]}, 'o:E', canon=True)
                            C('hmax', '*o = hmax(%V(%X));', lambda I, v: {'o': [fold(mx, v)]}, 'o:E', canon=True)
                    if w <= 8 or pn in ('not', 'bc', 'ld', 'shl'):
                        def okd(I, v, y=None):
                            for q, p in zip(v, I.y):
                                I.assume(T.ne(q, c(s, 0)))
                                if sg and w >= 32: I.assume(T.bnot(T.band(T.eq(q, c(s, -1)), T.eq(p, c(s, 1 << (w - 1))))))
                        C('quot', '%V v = %X; st(%V(y / v), o);', lambda I, v: (okd(I, v), {'o': zips(T.sdiv if sg else T.udiv, I.y, v)})[1], 'o:V', d=d + ' y:V')
                        if pn in ('not', 'bc'): C('rem', '%V v = %X; y %= v; st(y, o);', lambda I, v: (okd(I, v), {'o': zips(T.srem if sg else T.urem, I.y, v)})[1], 'o:V', d=d + ' y:V')
            # a wider vector made from it
            if ok_n(arch, e, n + 1): C('rsz', '%%V v = %%X; auto r = stdx::__proposed::resizing_simd_cast<%s>(v); st(r, o);' % ded(e, n + 1), lambda I, v: {'o': list(v) + [c(s, 0)]}, 'o:E*%d' % (n + 1), cmp={'o': z} if z else None)
            e2 = cv2[e]
            if ok_n(arch, e2, n) and not mnmx:
                C('cvt', 'auto r = stdx::static_simd_cast<%s>(%%V(%%X)); st(r, o); *k = all_of(r == r); *k2 = popcount(r == 0);' % ded(e2, n),
                  lambda I, v: (lambda u: {'o': u, 'k': [T.conj([cmpf(e2, 'eq')(q, q) for q in u])], 'k2': [pc([cmpf(e2, 'eq')(q, c(bits(e2), 0)) for q in u])]})([convt(q, e, e2) for q in v]), 'o:%s*%d k:bool k2:i32' % (e2, n))
        if tier == 'quick':
            def k(h):
                nm = h.name.split('__')[0]
                if s.arch in ('ssse3', 'sse4') and s.tag[0] == 'f': return 24
                if h.canon and s.tag[0] in 'qf' and any(x in nm for x in ('_mx_', '_whc_', '_nlt_', '_user')): return 10 ** 9
                return (5 if s.tag[0] == 'p' else 8 if s.tag[0] == 'q' else 12) * (2 if s.arch in ('ssse3', 'sse4') else 1)
            L = [h for h in L if pick(h, s, k(h))]
        return L
    return gen
def tus(tier):
    out = []
    for t in groups(tier, 'C20', gen_for(tier), kinds='pqf', types=(('i8',), ('u8',), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64'), ('f32',), ('f64',))): out.append(t)
    return out
