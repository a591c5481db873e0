from .common import *
from .c12 import ok_n, ded
META = dict(bounds='all 2^N masks (loaded, inverted and produced by comparisons) of the listed instantiations; target masks of every element width with deduced, fixed_size, native and 128-bit ABI of the same number of elements; bit patterns and bitsets of N bits (all values of all 64 bits for the pattern a mask is made from); iteration over the set bits for N <= 8; -O2',
    outside=['masks of more than 32 elements that are not a register type'])
EA = 'stdx::element_aligned'
def bitset(ms):
    return T.zext(T.cat(list(ms)), 64) if len(ms) < 64 else T.cat(list(ms))
def gen_for(tier):
    def gen(s):
        L = []; n = s.n; e = s.e; arch = s.arch; w = s.w
        lt = T.flt if isfp(e) else T.slt if issigned(e) else T.ult
        # targets: one element type per width, plus the other kinds
        tg = []
        for e2 in ALLT:
            if not ok_n(arch, e2, n): continue
            tg.append(('d_' + e2, ded(e2, n)))
            if n <= 32: tg.append(('f_' + e2, 'stdx::fixed_size_simd<%s, %d>' % (ctype(e2), n)))
            if n == native_bytes(arch, e2) * 8 // bits(e2): tg.append(('n_' + e2, 'stdx::native_simd<%s>' % ctype(e2)))
            if n == 128 // bits(e2): tg.append(('c_' + e2, 'stdx::simd<%s>' % ctype(e2)))
            if n == 1: tg.append(('s_' + e2, 'stdx::simd<%s, stdx::simd_abi::scalar>' % ctype(e2)))
        T1 = lambda I: {'k': I.m}
        for nm, t in tg:
            L.append(hv('cast_' + nm, s, 'm:M', 'using R = %s::mask_type; static_assert(R::size() == %%N); R r = stdx::__proposed::static_simd_cast<R>(m); r.copy_to(k, %s);' % (t, EA), T1, outs='k:M'))
            L.append(hv('castn_' + nm, s, 'm:M', 'using R = %s::mask_type; R r = stdx::__proposed::static_simd_cast<R>(!m); r.copy_to(k, %s); *r1 = popcount(r); *r2 = all_of(r); *r3 = none_of(!r);' % (t, EA),
                        lambda I: {'k': [T.bnot(x) for x in I.m], 'r1': [cnt([T.bnot(x) for x in I.m])], 'r2': [T.conj([T.bnot(x) for x in I.m])], 'r3': [T.conj([T.bnot(x) for x in I.m])]}, outs='k:M r1:i32 r2:bool r3:bool'))
            L.append(hv('castc_' + nm, s, 'a:V b:V', 'using R = %s::mask_type; R r = stdx::__proposed::static_simd_cast<R>(a < b); r.copy_to(k, %s);' % (t, EA), lambda I: {'k': zips(lt, I.a, I.b)}, outs='k:M'))
            L.append(hv('castm_' + nm, s, 'm:M', 'using R = %s::mask_type; R r = stdx::__proposed::static_simd_cast<R>(!m); %%M q = stdx::__proposed::static_simd_cast<%%M>(!r); q.copy_to(k, %s);' % (t, EA), T1, outs='k:M'))
            L.append(hv('cvt_' + nm, s, 'm:M', 'using R = %s::mask_type; R r = m.__cvt(); r.copy_to(k, %s);' % (t, EA), T1, outs='k:M'))
            L.append(hv('rsz_' + nm, s, 'm:M', 'using R = %s::mask_type; R r = stdx::__proposed::resizing_simd_cast<R>(!m); r.copy_to(k, %s); *r1 = popcount(r);' % (t, EA), lambda I: {'k': [T.bnot(x) for x in I.m], 'r1': [cnt([T.bnot(x) for x in I.m])]}, outs='k:M r1:i32'))
            L.append(hv('sel_' + nm, s, 'm:M', '%s v{}; using R = decltype(v)::mask_type; where(stdx::__proposed::static_simd_cast<R>(m), v) = 1; for (int i = 0; i < %%N; ++i) k[i] = v[i] == 1;' % t, T1, outs='k:M'))
            if s.tag[0] == 'f' and nm[0] == 'f':
                L.append(hv('impl_' + nm, s, 'm:M', '%s::mask_type r = m; r.copy_to(k, %s);' % (t, EA), T1, outs='k:M'))
        # integers and bitsets
        L.append(hv('tobits', s, 'm:M', '*r = m.__to_bitset().to_ullong();', lambda I: {'r': [bitset(I.m)]}, outs='r:u64'))
        L.append(hv('tobitsn', s, 'm:M', '*r = (!m).__to_bitset().to_ullong();', lambda I: {'r': [bitset([T.bnot(x) for x in I.m])]}, outs='r:u64'))
        L.append(hv('tobitsc', s, 'a:V b:V', '*r = (a < b).__to_bitset().to_ullong();', lambda I: {'r': [bitset(zips(lt, I.a, I.b))]}, outs='r:u64'))
        L.append(hv('frombits', s, 'x:u64', '%%M r = %%M::__from_bitset(std::bitset<%%N>(x)); r.copy_to(k, %s); *r1 = popcount(r);' % EA, lambda I: {'k': [T.bit(I.x[0], i) for i in range(n)], 'r1': [cnt([T.bit(I.x[0], i) for i in range(n)])]}, outs='k:M r1:i32'))
        L.append(hv('bitsrt', s, 'x:u64', '*r = %M::__from_bitset(std::bitset<%N>(x)).__to_bitset().to_ullong();', lambda I: {'r': [T.zext(T.ext(I.x[0], 0, n), 64)]}, outs='r:u64'))
        L.append(hv('maskrt', s, 'm:M', '%%M r = %%M::__from_bitset(m.__to_bitset()); r.copy_to(k, %s);' % EA, T1, outs='k:M'))
        L.append(hv('bitssel', s, 'x:u64 a:V b:V', 'where(%M::__from_bitset(std::bitset<%N>(x)), a) = b; st(a, o);', lambda I: {'o': [T.ite(T.bit(I.x[0], i), I.b[i], I.a[i]) for i in range(n)]}))
        if n <= 32 and s.tag[0] != 'f':
            L.append(hv('fix', s, 'm:M', 'stdx::fixed_size_simd_mask<%%E, %%N> r = to_fixed_size(!m); r.copy_to(k, %s); *q = r.__to_bitset().to_ullong();' % EA, lambda I: {'k': [T.bnot(x) for x in I.m], 'q': [bitset([T.bnot(x) for x in I.m])]}, outs='k:M q:u64'))
        if n <= (8 if tier == 'quick' else 16):
            L.append(hv('iter', s, 'm:M', 'unsigned long b = 0; int c = 0; long last = -1; bool asc = true; for (std::size_t i : stdx::__proposed::where(m)) { b |= 1ul << i; ++c; asc = asc && long(i) > last; last = i; } *r = b; *q = c; *k = asc;',
                        lambda I: {'r': [bitset(I.m)], 'q': [cnt(I.m)], 'k': [T.TRUE()]}, outs='r:u64 q:i32 k:bool'))
        if tier == 'quick':
            r = {'n': 4, 'p': 3, 'c': 5, 'q': 5, 'h': 6, 'f': 6, 's': 3}[s.tag[0]] * (2 if arch in ('ssse3', 'sse4') else 1)
            L = [h for h in L if '_' not in h.name.split('__')[0] or pick(h, s, r)]
        return L
    return gen
def cnt(ms):
    r = T.const(32, 0)
    for m in ms: r = T.add(r, T.zext(m, 32))
    return r
def tus(tier): return groups(tier, 'C19', gen_for(tier))
