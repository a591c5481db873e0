from .common import *
META = dict(bounds='all values of every element and of the unused part of the register; register types __m128/__m256/__m512 (and d, i), GNU vector types, std::array (fixed_size); masks without AVX-512; -O2',
    assumptions=['a register converted to a mask holds all-ones or all-zeros in every element'],
    outside=['conversions of masks on AVX-512 (bit masks) and KNL', 'construction of fixed_size from std::array (declared, not implemented)'])
def reg(e, b):
    return {16: '__m128', 32: '__m256', 64: '__m512'}[b] + ('' if e == 'f32' else 'd' if e == 'f64' else 'i')
def gen(s):
    L = []; n = s.n; w = s.w; e = s.e; t = ctype(e); fp = isfp(e)
    def h(nm, *a, **k): L.append(hv(nm, s, *a, **k))
    bits_ = {'o': 'bits'}
    if s.abi == 'scalar': return []
    if s.abi == 'fixed':
        h('toarray', 'a:V', 'auto r = static_cast<std::array<%%E, %d>>(a); for (int i = 0; i < %d; ++i) o[i] = r[i];' % (n, n), lambda I: {'o': I.a}, cmp=bits_)
        return L
    B = 16
    while B < n * w // 8: B *= 2
    R = reg(e, B); N = B * 8 // w
    vb = 1
    while vb < n * w // 8: vb *= 2
    GV = 'typedef %%E GV __attribute__((vector_size(%d))); ' % vb
    h('toreg', 'a:V', '%s r = static_cast<%s>(a); __builtin_memcpy(o, &r, sizeof(%%E) * %d);' % (R, R, n), lambda I: {'o': I.a}, cmp=bits_)
    h('togv', 'a:V', GV + 'GV r = static_cast<GV>(a); __builtin_memcpy(o, &r, sizeof(%%E) * %d);' % n, lambda I: {'o': I.a}, cmp=bits_)
    put = '%s r; __builtin_memcpy(&r, z_, %d); %%V a(r); ' % (R, B)
    h('fromreg', 'z:E*%d' % N, put + 'st(a, o);', lambda I: {'o': I.z_[:n]}, cmp=bits_)
    h('fromreg_get', 'z:E*%d i:u64' % N, put + 'const auto& b = a; *o = b[i];', lambda I: (I.assume(T.ult(I.i[0], c(64, n))), {'o': [sel(I.i[0], I.z_[:n])]})[1], outs='o:E', cmp=bits_)
    h('fromgv', 'z:E*%d' % (vb * 8 // w), GV + 'GV r; __builtin_memcpy(&r, z_, %d); %%V a(r); st(a, o);' % vb, lambda I: {'o': I.z_[:n]}, cmp=bits_)
    h('roundtrip', 'a:V', '%%V b(static_cast<%s>(a)); st(b, o);' % R, lambda I: {'o': I.a}, cmp=bits_)
    if n < N:
        # whatever the rest of the register holds
        ok = (lambda x: T.feq(x, x)) if fp else (lambda x: T.TRUE())
        h('fromreg_cmp', 'z:E*%d' % N, put + '*k = all_of(a == a); *k2 = popcount(a == a);', lambda I: {'k': [T.conj([ok(x) for x in I.z_[:n]])], 'k2': [pc([ok(x) for x in I.z_[:n]])]}, outs='k:bool k2:i32')
        h('fromreg_wide', 'z:E*%d' % N, put + 'auto b = stdx::__proposed::resizing_simd_cast<stdx::simd<%%E, stdx::simd_abi::deduce_t<%%E, %d>>>(a); st(b, o);' % (n + 1), lambda I: {'o': I.z_[:n] + [c(s, 0)]}, outs='o:E*%d' % (n + 1), cmp=bits_)
        if not fp:
            h('fromreg_sum', 'z:E*%d' % N, put + '*o = reduce(a);', lambda I: {'o': [fold(T.add, I.z_[:n])]}, outs='o:E')
    if s.arch not in ('avx512', 'knl'):
        ones = T.const(w, T.ones(w))
        h('mtoreg', 'm:M', '%s r = static_cast<%s>(m); __builtin_memcpy(o, &r, sizeof(%%E) * %d);' % (R, R, n), lambda I: {'o': [T.ite(x, ones, c(s, 0)) for x in I.m]}, cmp=bits_)
        def mz(I):
            for x in I.z_: I.assume(T.bor(T.eq(x, ones), T.eq(x, c(s, 0))))
            return [T.msb(x) for x in I.z_[:n]]
        mput = '%s r; __builtin_memcpy(&r, z_, %d); %%M m(r); ' % (R, B)
        h('mfromreg', 'z:E*%d' % N, mput + 'm.copy_to(k, stdx::element_aligned);', lambda I: {'k': mz(I)}, outs='k:M')
        h('mfromreg_count', 'z:E*%d' % N, mput + '*k = popcount(m); *k2 = all_of(m); *k3 = none_of(m);', lambda I: (lambda m: {'k': [pc(m)], 'k2': [T.conj(m)], 'k3': [T.bnot(T.disj(m))]})(mz(I)), outs='k:i32 k2:bool k3:bool')
        h('mroundtrip', 'm:M', '%%M b(static_cast<%s>(m)); b.copy_to(k, stdx::element_aligned);' % R, lambda I: {'k': I.m}, outs='k:M')
    return L
from .c06 import sel
from .c07 import pc
def fold(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r
def tus(tier): return groups(tier, 'C23', gen, pre='#include <array>\n#include <immintrin.h>\n', types=(('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64'),), split=60)
