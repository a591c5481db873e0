from .common import *
META = dict(timeouts={'t_fp': 300000}, bounds='every bit pattern of every lane of the listed instantiations of float and double, every int (long) exponent argument; -O2',
    assumptions=['round-to-nearest-even floating-point environment', 'scalar frexp, modf, logb, ldexp, scalbn and scalbln of the C library behave as ISO C with IEC 60559 arithmetic specifies', 'a scale factor rounded to the element type scales to the same result (it can only differ beyond the exponent range)'],
    outside=['floating-point exception flags', 'payload and sign of a NaN result', 'exponent stored by frexp for infinities and NaN', '-ffast-math'])

def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w; n = s.n
        IV = 'stdx::fixed_size_simd<int, %d>' % n
        def add(nm, decl, body, spec, outs='o:V', **kw): L.append(hv(nm, s, decl, body, spec, outs=outs, **kw))
        def fr(I):
            ps = [T.frexp(x, T.const(32, 0)) for x in I.a]
            return {'o': [m for m, k in ps], 'r': [k for m, k in ps]}
        # the exponent of a lane that is not finite is unspecified: reported as 0
        add('frexp', 'a:V', '%s k; %%V q = stdx::frexp(a, &k); st(q, o); for (int i = 0; i < %d; ++i) r[i] = std::isfinite(a_[i]) ? k[i] : 0;' % (IV, n), fr, outs='o:V r:i32*%d' % n)
        add('frexpm', 'a:V', '%s k; %%V q = stdx::frexp(a, &k); st(q, o);' % IV, lambda I: {'o': fr(I)['o']})
        add('ldexp', 'a:V b:i32*%d' % n, '%s k(b_, stdx::element_aligned); %%V q = stdx::ldexp(a, k); st(q, o);' % IV, lambda I: {'o': zips(lambda x, k: T.scalef(x, T.s2f(k, w)), I.a, I.b)})
        add('scalbn', 'a:V b:i32*%d' % n, '%s k(b_, stdx::element_aligned); %%V q = stdx::scalbn(a, k); st(q, o);' % IV, lambda I: {'o': zips(lambda x, k: T.scalef(x, T.s2f(k, w)), I.a, I.b)})
        add('scalbln', 'a:V b:i64*%d' % n, 'stdx::fixed_size_simd<long, %d> k(b_, stdx::element_aligned); %%V q = stdx::scalbln(a, k); st(q, o);' % n, lambda I: {'o': zips(lambda x, k: T.scalef(x, T.s2f(k, w)), I.a, I.b)})
        add('ldexp1', 'a:V b:i32', '%V q = stdx::ldexp(a, b); st(q, o);', lambda I: {'o': [T.scalef(x, T.s2f(I.b[0], w)) for x in I.a]})
        add('logb', 'a:V', '%V q = stdx::logb(a); st(q, o);', lambda I: {'o': [T.getexp(x) for x in I.a]})
        add('ilogb', 'a:V', 'auto q = stdx::ilogb(a); static_assert(std::is_same_v<decltype(q[0] + 0), int>); st(q, r);', lambda I: {'r': [T.uf('libm.ilogb%d' % w, 32, [x]) for x in I.a]}, outs='r:i32*%d' % n)
        def mf(I):
            def fx(x):
                f = T.ite(T.fisinf(x), T.const(w, 0), T.fsub(x, T.fround(x, 'RTZ')))
                return T.cat((T.ext(f, 0, w - 1), T.msb(x)))
            return {'o': [fx(x) for x in I.a], 'p': [T.fround(x, 'RTZ') for x in I.a]}
        if e == 'f64' and s.arch in ('sse2', 'ssse3'):
            # trunc is emulated with additions of 2^52 here: show that the integral part is exact, and that the fraction is the argument
            # minus the integral part (with the sign of the argument; the subtraction is exact)
            add('modf', 'a:V', '%V k; %V q = stdx::modf(a, &k); st(k, p);', lambda I: {'p': mf(I)['p']}, outs='p:V')
            add('modffrac', 'a:V', '''%%V k; %%V q = stdx::modf(a, &k); %%E q_[%d], k_[%d]; st(q, q_); st(k, k_);
                for (int i = 0; i < %d; ++i) { %%E f = std::isinf(a_[i]) ? 0 : a_[i] - k_[i]; f = std::copysign(f, a_[i]);
                r[i] = std::isnan(a_[i]) ? std::isnan(q_[i]) : __builtin_bit_cast(unsigned long, f) == __builtin_bit_cast(unsigned long, q_[i]); }''' % (n, n, n),
                lambda I: {'r': [T.TRUE()] * n}, outs='r:bool*%d' % n)
        else:
            add('modf', 'a:V', '%V k; %V q = stdx::modf(a, &k); st(q, o); st(k, p);', mf, outs='o:V p:V')
        return L
    return gen
def tus(tier):
    out = []
    for t in groups(tier, 'C17', gen_for(tier), types=(('f32',), ('f64',))):
        if t.name == 'C17_ssse3_f64' and tier == 'quick': continue       # same code as sse2
        if t.arch in ('sse2', 'ssse3') and t.name.endswith('f64'):
            # trunc emulated with additions of 2^52: the expensive queries
            m = [h for h in t.harnesses if h.name.startswith('modf')]
            t.harnesses = [h for h in t.harnesses if h not in m]
            out.append(TU(t.name + '_modf', t.arch, m, flags=t.flags, pre=t.pre))
            out[-1].cost = lambda: 1000
        out.append(t)
    return out
