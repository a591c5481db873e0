from .common import *
from .c09 import MEMT, pow2
META = dict(bounds='all values of every element and all 2^N masks (loaded, negated, compared, constant); memory element types as in C09; only the selected part of the array is mapped in the tail, head and nothing variants; -O2',
    assumptions=['floating-point to integer conversions of selected lanes are defined in the scalar conversion',
                 'NaN payloads of converted values are not compared; unconverted elements are compared bit for bit'],
    outside=['long double as memory element type', 'writes that put back the old value between two selected lanes (would need a racing reader to observe)'])
def gen_for(tier):
    def gen(s):
        L = []; n = s.n
        def ml(nm, mt, body, sel, extra='', K=(0, None), align=None, mask=True):
            lo, hi = K[0], n if K[1] is None else K[1]
            ps = ([Param('m_', 'bool', n)] if mask else []) + [Param('v_', s.e, n), Param('p', mt, hi - lo, align=align), Param('o', s.e, n, 'out')]
            def sp(I):
                m = sel(I)
                for i in range(n):
                    if not lo <= i < hi: I.assume(T.bnot(m[i]))
                x = conv(I, I.p, mt, s.e, m[lo:hi])
                return {'o': [T.ite(m[i], x[i - lo], I.v_[i]) if lo <= i < hi else I.v_[i] for i in range(n)]}
            pre = ('%s m(m_, stdx::element_aligned); ' % s.M if mask else '') + '%s v = ld<%s>(v_); auto* q = p - %d; ' % (s.V, s.V, lo)
            L.append(Harness('%s_%s__%s' % (nm, mt, s.tag), pre + body.replace('%M', s.M).replace('%V', s.V), ps, sp, cmp={'o': 'bits'} if mt == s.e else {}))
        def ms(nm, mt, body, sel, K=(0, None), align=None, mask=True):
            lo, hi = K[0], n if K[1] is None else K[1]
            ps = ([Param('m_', 'bool', n)] if mask else []) + [Param('v_', s.e, n), Param('p', mt, hi - lo, 'inout', align=align)]
            def sp(I):
                m = sel(I)
                for i in range(n):
                    if not lo <= i < hi: I.assume(T.bnot(m[i]))
                x = conv(I, I.v_, s.e, mt, m)
                return {'p': [T.ite(m[i], x[i], I.p[i - lo]) for i in range(lo, hi)]}
            pre = ('%s m(m_, stdx::element_aligned); ' % s.M if mask else '') + '%s v = ld<%s>(v_); auto* q = p - %d; ' % (s.V, s.V, lo)
            L.append(Harness('%s_%s__%s' % (nm, mt, s.tag), pre + body.replace('%M', s.M).replace('%V', s.V), ps, sp, cmp={'p': 'bits'} if mt == s.e else {}))
        M = lambda I: I.m_
        NM = lambda I: [T.bnot(x) for x in I.m_]
        LT = lambda I: [(T.flt if isfp(s.e) else T.slt if issigned(s.e) else T.ult)(v, c(s, 0) if not isfp(s.e) else fpconst(s.w, 0.0)) for v in I.v_]
        EA = 'stdx::element_aligned'
        for mt in MEMT:
            same = mt == s.e
            if tier == 'quick' and not same:
                if mt in ('ill', 'ull') and bits(s.e) < 32: continue
                # quick: a rotating two thirds of the memory types on three instruction sets, one third on the others
                k = (MEMT.index(mt) + ALLT.index(s.e) + X86.index(s.arch) + 'ncpqhfs'.index(s.tag[0])) % 3
                if k == 2 or k and (s.arch in ('ssse3', 'sse4', 'avx', 'knl') or n >= 48): continue
            va = pow2(n) * bits(mt) // 8
            ml('ld', mt, 'where(m, v).copy_from(q, %s); st(v, o);' % EA, M)
            ms('st', mt, 'where(m, v).copy_to(q, %s);' % EA, M)
            if n > 1:
                h = n // 2
                ml('ld_tail', mt, 'where(m, v).copy_from(q, %s); st(v, o);' % EA, M, K=(0, h))
                if tier != 'quick' or same or k != 1: ml('ld_head', mt, 'where(m, v).copy_from(q, %s); st(v, o);' % EA, M, K=(n - 1, n))
                if tier != 'quick' or same or k == 0: ms('st_tail', mt, 'where(m, v).copy_to(q, %s);' % EA, M, K=(0, n - 1))
                ms('st_head', mt, 'where(m, v).copy_to(q, %s);' % EA, M, K=(h, n))
            rich = same or tier != 'quick' or mt == ALLT[(ALLT.index(s.e) + 3 + X86.index(s.arch)) % 10]
            if rich:
                ml('cld', mt, 'const %%V t = v; %%V r = where(m, t).copy_from(q, %s); st(r, o);' % EA, M)
                ml('ld_not', mt, 'where(!m, v).copy_from(q, %s); st(v, o);' % EA, NM)
                ms('st_not', mt, 'where(!m, v).copy_to(q, %s);' % EA, NM)
                ms('cst_not', mt, 'const %%V t = v; where(!m, t).copy_to(q, %s);' % EA, NM)
                ml('ld_cmp', mt, 'where(!(v >= %%V()), v).copy_from(q, %s); st(v, o);' % EA, LT if not isfp(s.e) else (lambda I: [T.bnot(T.fle(fpconst(s.w, 0.0), v)) for v in I.v_]), mask=False)
                ms('st_cmp', mt, 'where(v < %%V(), v).copy_to(q, %s);' % EA, LT, mask=False)
                ml('ld_va', mt, 'where(m, v).copy_from(q, stdx::vector_aligned); st(v, o);', M, align=va)
                ms('st_va', mt, 'where(m, v).copy_to(q, stdx::vector_aligned);', M, align=va)
                ml('ld_true', mt, 'where(%%M(true), v).copy_from(q, %s); st(v, o);' % EA, lambda I: [T.TRUE()] * n, mask=False)
                ms('st_true', mt, 'where(%%M(true), v).copy_to(q, %s);' % EA, lambda I: [T.TRUE()] * n, mask=False)
                ml('ld_false', mt, 'where(%%M(false), v).copy_from(q + 4096, %s); st(v, o);' % EA, lambda I: [T.FALSE()] * n, mask=False, K=(0, 1))
                ms('st_false', mt, 'where(%%M(false), v).copy_to(q + 4096, %s);' % EA, lambda I: [T.FALSE()] * n, mask=False, K=(0, 1))
                if n > 1:
                    ml('ld_tail1', mt, 'where(m, v).copy_from(q, %s); st(v, o);' % EA, M, K=(0, 1))
                    ms('st_tail1', mt, 'where(m, v).copy_to(q, %s);' % EA, M, K=(0, 1))
                    ml('ld_not_tail', mt, 'where(!m, v).copy_from(q, %s); st(v, o);' % EA, NM, K=(0, n - 1))
                    ms('st_not_tail', mt, 'where(!m, v).copy_to(q, %s);' % EA, NM, K=(0, n - 1))
                    ml('ld_head1', mt, 'where(m, v).copy_from(q, %s); st(v, o);' % EA, M, K=(1, n))
                    ms('st_headl', mt, 'where(m, v).copy_to(q, %s);' % EA, M, K=(n - 1, n))
        return L
    return gen
def scal(arch):
    L = []
    for e in ALLT:
        for mt in MEMT:
            L.append(Harness('ld_%s_%s' % (mt, e), '%s v = *v_; stdx::where(*m_, v).copy_from(p, stdx::element_aligned); *o = v;' % ctype(e),
                [Param('m_', 'bool', 1), Param('v_', e, 1), Param('p', mt, 1), Param('o', e, 1, 'out')],
                lambda I, e=e, mt=mt: {'o': [T.ite(I.m_[0], conv(I, I.p, mt, e, I.m_)[0], I.v_[0])]}))
            L.append(Harness('st_%s_%s' % (mt, e), '%s v = *v_; stdx::where(*m_, v).copy_to(p, stdx::element_aligned);' % ctype(e),
                [Param('m_', 'bool', 1), Param('v_', e, 1), Param('p', mt, 1, 'inout')],
                lambda I, e=e, mt=mt: {'p': [T.ite(I.m_[0], conv(I, I.v_, e, mt, I.m_)[0], I.p[0])]}))
    return L
def tus(tier):
    return groups(tier, 'C10', gen_for(tier), types=[(e,) for e in ALLT]) + [TU('C10_scalar', 'avx2', scal('avx2'))]
