from .common import *
import zlib
META = dict(bounds='all values of every element (bit for bit) and all masks; native, 128-bit, partial, half-native and fixed_size (one and several registers) types; splits into equal parts (deduced, fixed_size and scalar parts) and into lists of sizes (halves, thirds, quarters, unequal and odd lists), concatenation of one to four vectors of equal and of different types, resizing to fewer and more elements, to_fixed_size / to_native / to_compatible; -O2',
    assumptions=[],
    outside=['concat of masks (not provided by this library)', 'results of more than 32 elements unless they are a register type'])
def ok_n(arch, e, n): return n >= 1 and (n <= 32 or n * bits(e) <= 8 * native_bytes(arch, e))
def ded(e, n): return 'stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>' % (ctype(e), ctype(e), n)
EA = 'stdx::element_aligned'
PRE = '''template <class O> struct Put { O* o; int k = 0; template <class... X> void operator()(const X&... x) { ((x.copy_to(o + k, stdx::element_aligned), k += x.size()), ...); } };
'''
def gen_for(tier):
    def gen(s):
        L = []; n = s.n; e = s.e; t = ctype(e); arch = s.arch
        def H1(nm, body, outn, spec, extra=(), out_e=None, noin=False):
            ps = ([] if noin else [Param('a_', e, n)]) + list(extra) + [Param('o', out_e or e, outn, 'out')]
            pre = '' if noin else '%s a = ld<%s>(a_); ' % (s.V, s.V)
            L.append(Harness('%s__%s' % (nm, s.tag), pre + body, ps, spec, cmp={'o': 'bits'}))
        def MH(nm, body, outn, spec):
            L.append(Harness('%s__%s' % (nm, s.tag), '%s a(a_, %s); ' % (s.M, EA) + body, [Param('a_', 'bool', n), Param('o', 'bool', outn, 'out')], spec))
        same = lambda I: {'o': I.a_}
        # equal parts
        for k in [k for k in (1, 2, 3, 4, 6, 8, 16, n) if n % k == 0 and k <= n]:
            m = n // k
            if k == n and n > 16 and tier == 'quick': continue
            kinds = [('d', ded(e, m))]
            if m > 1 and m <= 32: kinds.append(('f', 'stdx::fixed_size_simd<%s, %d>' % (t, m)))
            for c_, w in kinds:
                if not ok_n(arch, e, m): continue
                if any(h.name == 'split_%s_%d__%s' % (c_, k, s.tag) for h in L): continue
                H1('split_%s_%d' % (c_, k), 'using P = %s; auto r = stdx::split<P>(a); static_assert(r.size() == %d); Put<%s> p{o}; for (int i = 0; i < %d; ++i) p(r[i]);' % (w, k, t, k), n, same)
                MH('msplit_%s_%d' % (c_, k), 'using P = %s::mask_type; auto r = stdx::split<P>(a); static_assert(r.size() == %d); Put<bool> p{o}; for (int i = 0; i < %d; ++i) p(r[i]);' % (w, k, k), n, same)
                MH('msplit_not_%s_%d' % (c_, k), 'using P = %s::mask_type; auto r = stdx::split<P>(!a); Put<bool> p{o}; for (int i = 0; i < %d; ++i) p(r[i]);' % (w, k), n, lambda I: {'o': [T.bnot(x) for x in I.a_]})
        lists = []
        def add(*l):
            if all(x >= 1 and ok_n(arch, e, x) for x in l) and sum(l) == n and l not in lists: lists.append(l)
        add(n)
        if n % 2 == 0: add(n // 2, n // 2)
        if n % 3 == 0: add(n // 3, n // 3, n // 3); add(2 * n // 3, n // 3); add(n // 3, 2 * n // 3)
        if n % 4 == 0: q = n // 4; add(2 * q, q, q); add(q, q, 2 * q); add(q, 2 * q, q); add(q, q, q, q); add(3 * q, q); add(q, 3 * q)
        if n > 1: add(1, n - 1); add(n - 1, 1)
        if n > 3: add(3, n - 3); add(2, 1, n - 3); add(n - 2, 2)
        if n > 5: add(n // 2 - 1, 2, n - n // 2 - 1)
        c16 = 128 // s.w
        if n > c16: add(c16, n - c16)
        nat = 8 * native_bytes(arch, e) // s.w
        if n > nat: add(nat, n - nat)
        if n > nat + 2: add(nat, 2, n - nat - 2); add(nat - 1, n - nat + 1)
        for l in lists:
            nm = '_'.join(map(str, l))
            H1('splitl_' + nm, 'auto r = stdx::split<%s>(a); static_assert(std::tuple_size_v<decltype(r)> == %d); Put<%s> p{o}; std::apply(p, r);' % (', '.join(map(str, l)), len(l), t), n, same)
        # concat
        H1('concat1', 'auto r = stdx::concat(a); static_assert(r.size() == %d); st(r, o);' % n, n, same)
        for k in (2, 3, 4):
            if ok_n(arch, e, k * n):
                ex = [Param('b%d_' % i, e, n) for i in range(1, k)]
                sp = lambda I, k=k: {'o': list(I.a_) + sum([list(getattr(I, 'b%d_' % i)) for i in range(1, k)], [])}
                H1('concat%d' % k, ''.join('%s b%d = ld<%s>(b%d_); ' % (s.V, i, s.V, i) for i in range(1, k)) + 'auto r = stdx::concat(a%s); static_assert(r.size() == %d); st(r, o);' % (''.join(', b%d' % i for i in range(1, k)), k * n), k * n, sp, ex)
                H1('concata%d' % k, 'std::array<%s, %d> x = {{a%s}}; auto r = stdx::concat(x); static_assert(r.size() == %d); st(r, o);' % (s.V, k, ''.join(', ld<%s>(b%d_)' % (s.V, i) for i in range(1, k)), k * n), k * n, sp, ex)
        for m in (1, 2, 3, n - 1, n + 1, c16):
            if m >= 1 and m != n and ok_n(arch, e, m) and ok_n(arch, e, m + n):
                nm = 'concat_mix_%d' % m
                if any(h.name.startswith(nm + '__') for h in L): continue
                H1(nm, 'using B = %s; B b = ld<B>(b_); auto r = stdx::concat(a, b); static_assert(r.size() == %d); st(r, o);' % (ded(e, m), m + n), m + n, lambda I: {'o': list(I.a_) + list(I.b_)}, [Param('b_', e, m)])
                H1(nm + 'r', 'using B = %s; B b = ld<B>(b_); auto r = stdx::concat(b, a); st(r, o);' % ded(e, m), m + n, lambda I: {'o': list(I.b_) + list(I.a_)}, [Param('b_', e, m)])
                if ok_n(arch, e, 2 * m + n):
                    H1(nm + 'm', 'using B = %s; B b = ld<B>(b_); auto r = stdx::concat(b, a, b); st(r, o);' % ded(e, m), 2 * m + n, lambda I: {'o': list(I.b_) + list(I.a_) + list(I.b_)}, [Param('b_', e, m)])
        # round trip of split and concat on results of operations
        if n % 2 == 0 and n > 1 and ok_n(arch, e, n // 2):
            H1('swap_halves', 'auto r = stdx::split<%d, %d>(a); auto q = stdx::concat(std::get<1>(r), std::get<0>(r)); st(q, o);' % (n // 2, n // 2), n, lambda I: {'o': I.a_[n // 2:] + I.a_[:n // 2]})
        # resizing
        zero = T.const(s.w, 0)
        for m in sorted({1, 2, n // 2, n - 1, n, n + 1, n + 2, 2 * n, c16, nat}):
            if not ok_n(arch, e, m): continue
            for c_, w in [('d', ded(e, m))] + ([('f', 'stdx::fixed_size_simd<%s, %d>' % (t, m))] if m <= 32 else []):
                H1('resize_%s_%d' % (c_, m), 'auto r = stdx::__proposed::resizing_simd_cast<%s>(a); static_assert(r.size() == %d); st(r, o);' % (w, m), m, lambda I, m=m: {'o': [I.a_[i] if i < n else zero for i in range(m)]})
                MH('mresize_%s_%d' % (c_, m), 'auto r = stdx::__proposed::resizing_simd_cast<%s::mask_type>(a); static_assert(r.size() == %d); r.copy_to(o, %s);' % (w, m, EA), m, lambda I, m=m: {'o': [I.a_[i] if i < n else T.FALSE() for i in range(m)]})
                MH('mresize_not_%s_%d' % (c_, m), 'auto r = stdx::__proposed::resizing_simd_cast<%s::mask_type>(!a); r.copy_to(o, %s);' % (w, EA), m, lambda I, m=m: {'o': [T.bnot(I.a_[i]) if i < n else T.FALSE() for i in range(m)]})
        if n <= 32:
            H1('to_fixed', 'auto r = stdx::to_fixed_size(a); static_assert(std::is_same_v<decltype(r), stdx::fixed_size_simd<%s, %d>>); st(r, o);' % (t, n), n, same)
            MH('mto_fixed', 'auto r = stdx::to_fixed_size(a); static_assert(std::is_same_v<decltype(r), stdx::fixed_size_simd_mask<%s, %d>>); r.copy_to(o, %s);' % (t, n, EA), n, same)
            F = 'stdx::fixed_size_simd<%s, %d>' % (t, n)
            for fn, cond, ty in (('to_native', n == nat, 'stdx::native_simd<%s>' % t), ('to_compatible', n == c16, 'stdx::simd<%s>' % t)):
                if cond and s.tag[0] in 'nc':
                    H1(fn, 'auto r = stdx::%s(a); static_assert(std::is_same_v<decltype(r), %s>); st(r, o);' % (fn, ty), n, same, noin=False) if False else None
                    L.append(Harness('%s__%s' % (fn, s.tag), 'auto a = ld<%s>(a_); auto r = stdx::%s(a); static_assert(std::is_same_v<decltype(r), %s>); st(r, o);' % (F, fn, ty), [Param('a_', e, n), Param('o', e, n, 'out')], same, cmp={'o': 'bits'}))
                    L.append(Harness('m%s__%s' % (fn, s.tag), '%s::mask_type a(a_, %s); auto r = stdx::%s(a); static_assert(std::is_same_v<decltype(r), %s::mask_type>); r.copy_to(o, %s);' % (F, EA, fn, ty, EA), [Param('a_', 'bool', n), Param('o', 'bool', n, 'out')], same))
        return L
    return gen

def extra_simds(arch, e):
    nb = native_bytes(arch, e) * 8 // bits(e)
    out = []
    for n in (12, 24, 6):
        if n < nb and not (bits(e) == 8 and n == 6): out.append(Simd(arch, e, 'deduce', n, 'd%d_%s' % (n, e)))
    for n in (8, 12, 16, 24, 32): out.append(Simd(arch, e, 'fixed', n, 'x%d_%s' % (n, e)))
    return out

def tus(tier):
    out = []
    for arch in X86:
        ai = X86.index(arch)
        for e in ALLT:
            ss = simds(arch, e, tier) + extra_simds(arch, e)
            if tier == 'quick':
                # quick: one of the two signs per width, two element types on the intermediate SSE levels,
                # a third of the further sizes, and of each type's functions a rotating part
                if e[0] in 'iu' and (e[0] == 'u') != ((ALLT.index(e) // 2 + ai) % 2 == 1): continue
                if arch in ('ssse3', 'sse4') and ALLT.index(e) % 3 != ai % 3: continue
                r = (ALLT.index(e) + ai) % 3
                ss = [s for i, s in enumerate(ss) if s.tag[0] in 'ncpqf' or i % 3 == r]
            hs = []; k = 0
            for s in ss:
                l = gen_for(tier)(s)
                if tier == 'quick': l = [h for h in l if zlib.crc32((h.name + arch).encode()) % (2 if s.tag[0] in 'np' else 4) == 0]
                hs += l
            for i in range(0, len(hs), 110):
                out.append(TU('C12_%s_%s_%d' % (arch, e, k), arch, hs[i:i + 110], pre=PRE + ''.join(s.pre() for s in ss))); k += 1
    return out
