from .common import *
META = dict(bounds='all values of every element; memory element types: the ten arithmetic types of 1 to 8 bytes plus long long, unsigned long long, char and char16_t; flags element_aligned, vector_aligned and overaligned; objects of exactly N elements placed at the least alignment the flag allows; -O2',
    assumptions=['floating-point to integer conversions whose value does not fit are undefined in the scalar conversion and excluded',
                 'NaN payloads of converted values are not compared; unconverted elements are compared bit for bit'],
    outside=['long double and extended integer types as memory element type'])
def pow2(n):
    k = 1
    while k < n: k *= 2
    return k
MEMT = ALLT + ['ill', 'ull', 'c8', 'c16']
def gen_for(tier):
    def gen(s):
        L = []; n = s.n
        def V(nm, mt, body, spec, mem_dir, align, cmp):
            L.append(Harness('%s_%s__%s' % (nm, mt, s.tag), body.replace('%V', s.V).replace('%N', str(n)),
                [Param('p', mt, n, mem_dir, align=align), Param('o', s.e, n, 'out')] if mem_dir == 'in' else
                [Param('v_', s.e, n, 'in'), Param('p', mt, n, mem_dir, align=align)], spec, cmp=cmp))
        for mt in MEMT:
            if mt in ('ill', 'ull') and bits(s.e) < 32 and tier == 'quick': continue
            same = mt == s.e
            cmp = {'o': 'bits', 'p': 'bits'} if same else {}
            es = bits(mt) // 8
            va = pow2(n) * es
            ld = lambda I, mt=mt: {'o': conv(I, I.p, mt, s.e)}
            sto = lambda I, mt=mt: {'p': conv(I, I.v_, s.e, mt)}
            V('ctor', mt, '%V v(p, stdx::element_aligned); st(v, o);', ld, 'in', None, cmp)
            V('to', mt, '%V v = ld<%V>(v_); v.copy_to(p, stdx::element_aligned);', sto, 'out', None, cmp)
            if same or tier != 'quick' or mt in ('ill', 'ull', 'c8', 'c16') or mt == ALLT[(ALLT.index(s.e) + 3) % 10]:
                al = 'alignas(%d) ' % va
                V('ctor_va', mt, 'static_assert(stdx::memory_alignment_v<%%V, %s> <= %d); %%V v(p, stdx::vector_aligned); st(v, o);' % (ctype(mt), va), ld, 'in', va, cmp)
                V('from', mt, '%V v = %V(); v.copy_from(p, stdx::element_aligned); st(v, o);', ld, 'in', None, cmp)
                V('from_va', mt, '%V v = 1; v.copy_from(p, stdx::vector_aligned); st(v, o);', ld, 'in', va, cmp)
                V('from_oa', mt, '%%V v = %%V(); v.copy_from(p, stdx::overaligned<%d>); st(v, o);' % (2 * es), ld, 'in', 2 * es, cmp)
                V('from_oa_large', mt, '%%V v = %%V(); v.copy_from(p, stdx::overaligned<%d>); st(v, o);' % (4 * va), ld, 'in', 4 * va, cmp)
                V('to_va', mt, '%V v = ld<%V>(v_); v.copy_to(p, stdx::vector_aligned);', sto, 'out', va, cmp)
                V('to_oa', mt, '%%V v = ld<%%V>(v_); v.copy_to(p, stdx::overaligned<%d>);' % (2 * es), sto, 'out', 2 * es, cmp)
                V('to_oa_large', mt, '%%V v = ld<%%V>(v_); v.copy_to(p, stdx::overaligned<%d>);' % (4 * va), sto, 'out', 4 * va, cmp)
            if same:
                # store into the middle of a longer array: nothing else changes
                L.append(Harness('middle_%s__%s' % (mt, s.tag), '%s v = ld<%s>(v_); v.copy_to(p + 1, stdx::element_aligned);' % (s.V, s.V),
                    [Param('v_', s.e, n), Param('p', mt, n + 2, 'inout')], lambda I: {'p': [None] + I.v_ + [None]}, cmp=cmp))
                L.append(Harness('middle_rest_%s__%s' % (mt, s.tag), '%s v = ld<%s>(v_); v.copy_to(p + 1, stdx::element_aligned);' % (s.V, s.V),
                    [Param('v_', s.e, n), Param('p', mt, n + 2, 'inout')], lambda I: {'p': [I.p[0]] + [None] * n + [I.p[-1]]}, cmp=cmp))
                L.append(Harness('move_%s__%s' % (mt, s.tag), '%s v(p, stdx::element_aligned); v.copy_to(p + 1, stdx::element_aligned);' % s.V,
                    [Param('p', mt, n + 1, 'inout')], lambda I: {'p': [I.p[0]] + I.p[:-1]}, cmp=cmp))
        return L
    return gen
def tus(tier):
    return groups(tier, 'C09', gen_for(tier), types=[(e,) for e in ALLT])
