from .common import *
from .c09 import MEMT
META = dict(bounds='all values of every element; every pair of the ten arithmetic element types (plus long long, unsigned long long, char, char16_t as destination); sources: native, 128-bit, partial, half-native, fixed_size (one and several registers) and scalar simd; destinations: the type chosen by the cast, fixed_size, the deduced ABI, native and 128-bit types of the same size; -O2',
    assumptions=['floating-point to integer conversions whose value does not fit are undefined in the scalar conversion and excluded',
                 'NaN payloads of converted values are not compared'],
    outside=['long double', 'conversions that change the number of elements (C12)', 'masks (C19)'])

def narrowing(a, b):
    """is a -> b not value-preserving"""
    ka, kb = kind(a), kind(b); wa, wb = bits(a), bits(b)
    if ka == 'f': return kb != 'f' or wb < wa
    dig = wa - (ka == 's')
    if kb == 'f': return dig > (24 if wb == 32 else 53)
    if ka == 's' and kb != 's': return True
    return dig > wb - (kb == 's')

def gen_for(tier):
    def gen(s):
        L = []; n = s.n
        def cast(nm, d, expr, e2, static=''):
            L.append(Harness('%s_%s__%s' % (nm, d, s.tag), '%s a = ld<%s>(a_); auto r = %s; %s static_assert(r.size() == %d); static_assert(std::is_same_v<typename decltype(r)::value_type, %s>); st(r, o);' % (s.V, s.V, expr, static, n, ctype(e2)),
                [Param('a_', s.e, n), Param('o', e2, n, 'out')], lambda I: {'o': conv(I, I.a_, s.e, e2)}, cmp={'o': 'bits'} if e2 == s.e else {}))
        nb = native_bytes(s.arch, s.e)
        for e2 in MEMT:
            same = e2 == s.e
            t2 = ctype(e2); w2 = bits(e2)
            if n > 32 and (w2 != 8 or same or kind(e2) == kind(s.e)): continue   # no fixed_size type with that many elements
            if e2 in ('ill', 'ull', 'c8', 'c16') and tier == 'quick' and s.tag[0] in 'hqp': continue
            cast('type', e2, 'stdx::static_simd_cast<%s>(a)' % t2, e2)
            if not narrowing(s.e, e2): cast('simd_cast', e2, 'stdx::simd_cast<%s>(a)' % t2, e2)
            if e2 in ('c8', 'c16', 'ill', 'ull') and tier == 'quick': continue
            ds = [('fixed', 'stdx::fixed_size_simd<%s, %d>' % (t2, n))] if n <= 32 else []
            ds += [ ('ded', 'stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>' % (t2, t2, n))]
            if n * w2 == 8 * native_bytes(s.arch, e2): ds.append(('nat', 'stdx::native_simd<%s>' % t2))
            if n * w2 == 128: ds.append(('com', 'stdx::simd<%s>' % t2))
            if n == 1: ds.append(('sca', 'stdx::simd<%s, stdx::simd_abi::scalar>' % t2))
            for d, t in ds:
                cast(d, e2, 'stdx::static_simd_cast<%s>(a)' % t, e2)
                if tier != 'quick' and not narrowing(s.e, e2): cast('simd_cast_' + d, e2, 'stdx::simd_cast<%s>(a)' % t, e2)
            if s.abi != 'fixed' and n > 1 and n <= 32:
                # from the fixed_size type with the same elements
                F = 'stdx::fixed_size_simd<%s, %d>' % (ctype(s.e), n)
                cast('fx', e2, 'stdx::static_simd_cast<%s>(stdx::static_simd_cast<%s>(a))' % (ds[1][1], F), e2)
            if n <= 32 and not narrowing(s.e, e2) and (isfp(s.e) or isfp(e2) or bits(e2) > bits(s.e)) and not (isfp(e2) and not isfp(s.e) and False):
                F = 'stdx::fixed_size_simd<%s, %d>' % (ctype(s.e), n)
                G = 'stdx::fixed_size_simd<%s, %d>' % (t2, n)
                if e2 != s.e and not isfp(s.e) and not isfp(e2):
                    cast('implicit', e2, '[](%s x) { return x; }(stdx::to_fixed_size(a))' % G, e2)
                elif e2 != s.e: cast('implicit', e2, '[](%s x) { return x; }(stdx::to_fixed_size(a))' % G, e2)
        return L
    return gen
def tus(tier):
    return groups(tier, 'C11', gen_for(tier), types=[(e,) for e in ALLT], flags=())
