from .common import *
META = dict(bounds='every bit pattern of all arguments of every lane of the listed instantiations (hypot); sin and cos: an infinite, NaN or zero lane among arbitrary other lanes; -O2 -ffp-contract=off',
    assumptions=['the C library hypot, sin and cos (used for single lanes) honour infinities, NaN and zeros; hypot is never negative'],
    outside=['accuracy of the results', 'floating-point exception flags', 'payload and sign of a NaN result', '-ffast-math'])

def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w; n = s.n
        inf = T.const(w, T.ones(T.EB[w]) << T.MB[w]); qn = T.const(w, T.QNAN[w])
        def spec(args):
            """special value, or None when the value is only known to be a non-negative number"""
            ms = [T.fabs_(x) for x in args]
            anyinf = T.disj([T.fisinf(x) for x in args]); anynan = T.disj([T.fisnan(x) for x in args])
            return ms, anyinf, anynan
        def relation(args, got):
            ms, anyinf, anynan = spec(args)
            g0 = T.bnot(T.bor(T.msb(got), T.fisnan(got)))
            z = [T.fiszero(x) for x in ms]
            r = g0
            for i, x in enumerate(ms):
                oz = T.conj([q for j, q in enumerate(z) if j != i])
                r = T.band(r, T.bor(T.bnot(oz), T.eq(got, x)))
            r = T.ite(anynan, T.fisnan(got), r)
            return T.ite(anyinf, T.eq(got, inf), r)
        class Rel:      # the expectation is a relation: carried to the comparison by identity
            pass
        for nm, dec, call in (('hypot2', 'a:V b:V', 'hypot(a, b)'), ('hypot3', 'a:V b:V c:V', 'hypot(a, b, c)')):
            k = 2 if nm == 'hypot2' else 3
            # a classification of the result, computed from its bits
            body = '%%V r = stdx::%s; st(r, o); ' % call
            L.append(hv(nm, s, dec, body, None))
            h = L[-1]
            def sp(I, k=k): return {'o': [T.cat([x for x in xs]) for xs in zip(*[I.a, I.b, I.c][:k])]} if k == 3 else {'o': [T.cat([x, y]) for x, y in zip(I.a, I.b)]}
            h.spec = sp
            def cm(got, exp, k=k): return relation([T.ext(exp, w * i, w) for i in range(k)], got)
            h.cmp = {'o': cm}
        L.append(hv('hypot2_vs', s, 'a:V b:E', '%V r = stdx::hypot(a, b); st(r, o);', lambda I: {'o': [T.cat([x, I.b[0]]) for x in I.a]}, cmp={'o': lambda g, x: relation([T.ext(x, 0, w), T.ext(x, w, w)], g)}))
        L.append(hv('hypot3_vss', s, 'a:V b:E c:E', '%V r = stdx::hypot(a, b, c); st(r, o);', lambda I: {'o': [T.cat([x, I.b[0], I.c[0]]) for x in I.a]}, cmp={'o': lambda g, x: relation([T.ext(x, w * i, w) for i in range(3)], g)}))
        # sin and cos: one special lane among arbitrary other lanes
        if s.abi != 'scalar':
            inf_, nan_ = '__builtin_inf%s()' % ('f' if w == 32 else ''), '__builtin_nan%s("")' % ('f' if w == 32 else '')
            if w == 64: inf_ = '__builtin_inf()'; nan_ = '__builtin_nan("")'
            one = fpconst(w, 1.0); z = T.const(w, 0); nz = T.const(w, 1 << (w - 1))
            js = sorted({0, n - 1}) if tier == 'quick' else range(n)
            for j in js:
                for fn, cases in (('sin', (('inf', inf_, qn), ('ninf', '-' + inf_, qn), ('nan', nan_, qn), ('zero', '%E(0)', z), ('nzero', '-%E(0)', nz))),
                                  ('cos', (('inf', inf_, qn), ('ninf', '-' + inf_, qn), ('nan', nan_, qn), ('zero', '%E(0)', one), ('nzero', '-%E(0)', one)))):
                    for cn, cx, ex in cases:
                        L.append(hv('%s_%s_%d' % (fn, cn, j), s, 'a:V', 'alignas(64) %%E buf[%%N]; a.copy_to(buf, stdx::element_aligned); buf[%d] = %s; %%V x = ld<%%V>(buf); %%V r = stdx::%s(x); st(r, o);' % (j, cx, fn),
                                    lambda I, j=j, ex=ex: {'o': [ex if i == j else None for i in range(n)]}))
        return L
    return gen
def tus(tier): return groups(tier, 'C22', gen_for(tier), types=(('f32',), ('f64',)))
