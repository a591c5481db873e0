from .common import *
META = dict(bounds='all argument values of every lane of the listed instantiations of float and double; the C library function is an uninterpreted function of its arguments (sqrt, fma, fmin, fmax: exact terms); -O2',
    assumptions=['the scalar C library function is a deterministic function of its arguments (errno and signgam aside)'],
    outside=['quotient of remquo where the result is NaN', 'values computed by the C library', 'special functions of ISO C++17 [sf.cmath] without integer parameters (declared, but not implemented by this library)', 'floating-point exception flags and errno', 'payload and sign of a NaN result', '-ffast-math'])
from engine.rexec import libm
UN = 'acos asin atan tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log10 log1p log2 cbrt erf erfc lgamma tgamma sqrt'.split()
BIN = 'atan2 pow fmod remainder nextafter fdim fmax fmin'.split()
# the scalar fmod and remainder: a call of the C library instead of GCC's inline x87 loop
FL = ['-D__builtin_%sf=%sf' % (f, f) for f in ('fmod', 'remainder')] + ['-fno-builtin-%s%s' % (f, t) for f in ('fmod', 'remainder') for t in ('', 'f')]
def quiet(h, rng, env):
    """no signalling NaN in concrete runs: the reference would quieten it on the way"""
    for k, v in env.items():
        if h.name.startswith('remquo') and k[:2] in ('a_', 'b_'):
            # the quotient of a NaN result is unspecified
            if not T.f_isfin_c(T.const(h.ew, v)) or v << 1 & T.ones(h.ew) == 0: env[k] = T.f2b(1.5, h.ew)
        elif k[:2] in ('a_', 'b_', 'c_') and T._isnan(v, h.ew): env[k] = v | 1 << (T.MB[h.ew] - 1)
    return env
def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w; n = s.n
        IV = 'stdx::fixed_size_simd<int, %d>' % n
        def add(nm, decl, body, spec, outs='o:V', **kw): L.append(hv(nm, s, decl, body, spec, outs=outs, **kw)); L[-1].env = quiet; L[-1].ew = w
        def F(f): return lambda *a: libm(f, w, list(a))
        for f in UN:
            g = F(f)
            add(f, 'a:V', '%%V r = stdx::%s(a); st(r, o);' % f, lambda I, g=g: {'o': [g(x) for x in I.a]})
        def mm(got, exp):       # which zero fmin(-0, 0) and fmax(-0, 0) return is unspecified
            return T.bor(T.bor(T.eq(got, exp), T.feq(got, exp)), T.band(T.fisnan(got), T.fisnan(exp)))
        for f in BIN:
            g = F(f)
            kw = dict(cmp={'o': mm}) if f in ('fmin', 'fmax') else {}
            add(f, 'a:V b:V', '%%V r = stdx::%s(a, b); st(r, o);' % f, lambda I, g=g: {'o': zips(g, I.a, I.b)}, **kw)
            add(f + '_vs', 'a:V b:E', '%%V r = stdx::%s(a, b); st(r, o);' % f, lambda I, g=g: {'o': [g(x, I.b[0]) for x in I.a]}, **kw)
            add(f + '_sv', 'a:E b:V', '%%V r = stdx::%s(a, b); st(r, o);' % f, lambda I, g=g: {'o': [g(I.a[0], x) for x in I.b]}, **kw)
        add('powi', 'a:V', '%V r = stdx::pow(a, 3); st(r, o);', lambda I: {'o': [libm('pow', w, [x, fpconst(w, 3.0)]) for x in I.a]})
        fm = T.ffma
        add('fma', 'a:V b:V c:V', '%V r = stdx::fma(a, b, c); st(r, o);', lambda I: {'o': zips(fm, I.a, I.b, I.c)})
        add('fma_svv', 'a:E b:V c:V', '%V r = stdx::fma(a, b, c); st(r, o);', lambda I: {'o': zips(lambda y, z: fm(I.a[0], y, z), I.b, I.c)})
        add('fma_vsv', 'a:V b:E c:V', '%V r = stdx::fma(a, b, c); st(r, o);', lambda I: {'o': zips(lambda y, z: fm(y, I.b[0], z), I.a, I.c)})
        add('fma_vvs', 'a:V b:V c:E', '%V r = stdx::fma(a, b, c); st(r, o);', lambda I: {'o': zips(lambda y, z: fm(y, z, I.c[0]), I.a, I.b)})
        add('fma_ssv', 'a:E b:E c:V', '%V r = stdx::fma(a, b, c); st(r, o);', lambda I: {'o': [fm(I.a[0], I.b[0], z) for z in I.c]})
        add('remquo', 'a:V b:V', '%s q; %%V r = stdx::remquo(a, b, &q); st(r, o); for (int i = 0; i < %d; ++i) p[i] = q[i];' % (IV, n),
            lambda I: {'o': zips(lambda x, y: T.uf('libm.remainder%d' % w, w, [x, y]), I.a, I.b), 'p': zips(lambda x, y: T.uf('libm.remquo.q%d' % w, 32, [x, y]), I.a, I.b)}, outs='o:V p:i32*%d' % n)
        return L
    return gen
import os
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specfun.h')
SF = [('assoc_laguerre', 1, 2), ('assoc_legendre', 2, 2), ('hermite', 3, 1), ('laguerre', 4, 1), ('legendre', 5, 1), ('sph_bessel', 6, 1), ('sph_legendre', 7, 2), ('sph_neumann', 8, 1)]
def special(s):
    """special functions with integer parameters, see specfun.h"""
    L = []; w = s.w
    U = 'stdx::fixed_size_simd<unsigned, %d>' % s.n
    for f, k, na in SF:
        dec = 'n:u32*%d m:u32*%d x:V' % (s.n, s.n) if na == 2 else 'n:u32*%d x:V' % s.n
        body = '%s n(n_, stdx::element_aligned)%s; ' % (U, ', m(m_, stdx::element_aligned)' if na == 2 else '')
        body += 'st(stdx::%s(n, %sx), o);' % (f, 'm, ' if na == 2 else '')
        def sp(I, k=k, na=na):
            e = lambda t: T.zext(t, w) if w > 32 else t
            r = [T.add(T.add(x, T.mul(e(n), c(w, 5))), c(w, 17 * k)) for n, x in zip(I.n, I.x)]
            return {'o': [T.add(a, T.mul(e(m), c(w, 9))) for a, m in zip(r, I.m)] if na == 2 else r}
        L.append(hv('sf_' + f, s, dec, body, sp, cmp={'o': 'bits'}))
    return L
def tus(tier):
    return groups(tier, 'C21', gen_for(tier), types=(('f32',), ('f64',)), flags=FL) + groups(tier, 'C21sf', special, types=(('f32', 'f64'),), flags=['-include', SPEC])
