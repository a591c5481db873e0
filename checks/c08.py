from .common import *
META = dict(bounds='all lane values and all 2^N masks; targets: vectors, masks and (bool, scalar); -O2',
    assumptions=['operations undefined for a SELECTED lane do not occur (unselected lanes are unrestricted: zero divisors, INT_MIN / -1 and shift counts out of range included)',
                 'NaN payloads and signs of arithmetic results are not compared'])
SA = 'stdx::element_aligned'
from .c03 import sh
from .c07 import pc
def binops(s):
    w = s.w
    if isfp(s.e):
        return [('add', '+', T.fadd), ('sub', '-', T.fsub), ('mul', '*', T.fmul), ('div', '/', T.fdiv)]
    return [('add', '+', T.add), ('sub', '-', T.sub), ('mul', '*', T.mul), ('and', '&', T.band), ('or', '|', T.bor), ('xor', '^', T.bxor)]
def isel(m, xs, ys): return [T.ite(k, x, y) for k, x, y in zip(m, xs, ys)]
def gen(s):
    w = s.w; sg = issigned(s.e); fp = isfp(s.e)
    one = fpconst(w, 1.0) if fp else c(s, 1); mone = fpconst(w, -1.0) if fp else c(s, -1)
    add = T.fadd if fp else T.add
    L = []
    def h(nm, d, b, sp, outs='o:V', **kw):
        if s.arch == 'knl' and s.tag[0] == 'f' and '(int i)' in b: return  # g++ 13 drops a zero extension of a mask comparison here
        L.append(hv(nm, s, d, b.replace('SA', SA), sp, outs=outs, **kw))
    h('assign', 'm:M a:V b:V', 'where(m, a) = b; st(a, o);', lambda I: {'o': isel(I.m, I.b, I.a)})
    h('assign_not', 'm:M a:V b:V', 'where(!m, a) = b; st(a, o);', lambda I: {'o': isel(I.m, I.a, I.b)})
    h('assign_scalar', 'm:M a:V x:E', 'where(m, a) = x; st(a, o);', lambda I: {'o': isel(I.m, I.x * s.n, I.a)})
    h('assign_zero', 'm:M a:V', 'where(m, a) = %V(); st(a, o);', lambda I: {'o': isel(I.m, [c(s, 0)] * s.n, I.a)})
    h('assign_tozero', 'm:M a:V', '%V r = %V(); where(m, r) = a; st(r, o);', lambda I: {'o': isel(I.m, I.a, [c(s, 0)] * s.n)})
    h('assign_const', 'm:M a:V', 'where(m, a) = %V(static_cast<%E>(3)); st(a, o);', lambda I: {'o': isel(I.m, [fpconst(w, 3.0) if fp else c(s, 3)] * s.n, I.a)})
    for nm, txt in (('zero', '0'), ('negzero', '-0.0'), ('one', '1'), ('mone', '-1')):
        if nm == 'negzero' and not fp: continue
        k = fpconst(w, float(txt)) if fp else c(s, int(float(txt)))
        h('assign_' + nm + '_scalar', 'm:M a:V', 'where(m, a) = static_cast<%%E>(%s); st(a, o);' % txt, lambda I, k=k: {'o': isel(I.m, [k] * s.n, I.a)})
        h('assign_cmp_' + nm, 'a:V b:V', 'where(a != b, a) = static_cast<%%E>(%s); st(a, o);' % txt, lambda I, k=k, f=(T.feq if fp else T.eq): {'o': [T.ite(f(a, b), a, k) for a, b in zip(I.a, I.b)]})
        if nm in ('negzero', 'mone'): h('assign_true_' + nm, 'a:V', 'where(%%M(true), a) = static_cast<%%E>(%s); st(a, o);' % txt, lambda I, k=k: {'o': [k] * s.n})
        for onm, op, f in binops(s):
            if onm in ('div', 'and', 'or', 'xor') or w == 64 and onm == 'mul' and nm == 'mone' or s.tag[0] not in 'np' or nm == 'one': continue
            h('%s_%s_scalar' % (onm, nm), 'm:M a:V', 'where(m, a) %s= static_cast<%%E>(%s); st(a, o);' % (op, txt), lambda I, k=k, f=f: {'o': isel(I.m, [f(a, k) for a in I.a], I.a)})
    if fp:
        h('assign_negzero', 'm:M a:V', 'where(m, a) = %V(static_cast<%E>(-0.0)); st(a, o);', lambda I: {'o': isel(I.m, [fpconst(w, -0.0)] * s.n, I.a)})
        h('assign_tonegzero', 'm:M a:V', '%V r = static_cast<%E>(-0.0); where(m, r) = a; st(r, o);', lambda I: {'o': isel(I.m, I.a, [fpconst(w, -0.0)] * s.n)})
    iota = '%V([](int i) { return static_cast<%E>(i); })'
    h('assign_head', 'a:V b:V', 'where(' + iota + ' < static_cast<%E>(2), a) = b; st(a, o);', lambda I: {'o': I.b[:2] + I.a[2:]})
    h('assign_headall', 'a:V b:V', 'where(' + iota + ' < static_cast<%E>(100), a) = b; st(a, o);', lambda I: {'o': I.b})
    h('assign_tail', 'a:V x:E', 'where(' + iota + ' > static_cast<%E>(0), a) = x; st(a, o);', lambda I: {'o': I.a[:1] + I.x * (s.n - 1)})
    h('add_head', 'a:V b:V', 'where(' + iota + ' < static_cast<%E>(2), a) += b; st(a, o);', lambda I: {'o': zips(add, I.a[:2], I.b[:2]) + I.a[2:]})
    h('inc_head', 'a:V', '++where(' + iota + ' < static_cast<%E>(2), a); st(a, o);', lambda I: {'o': [add(x, one) for x in I.a[:2]] + I.a[2:]})
    h('assign_true', 'a:V b:V', 'where(%M(true), a) = b; st(a, o);', lambda I: {'o': I.b})
    h('assign_false', 'a:V b:V', 'where(%M(false), a) = b; st(a, o);', lambda I: {'o': I.a})
    h('assign_two', 'm:M x:M a:V b:V', 'where(m, a) = b; where(x && !m, a) = a + b; st(a, o);' if not fp else 'where(m, a) = b; where(x && !m, a) = -b; st(a, o);',
      lambda I: {'o': [T.ite(m, b, T.ite(x, T.fneg(b) if fp else T.add(a, b), a)) for m, x, a, b in zip(I.m, I.x, I.a, I.b)]})
    h('assign_cmp', 'a:V b:V', 'where(a < b, a) = b; st(a, o);', lambda I, f=(T.flt if fp else T.slt if sg else T.ult): {'o': [T.ite(f(a, b), b, a) for a, b in zip(I.a, I.b)]})
    for nm, op, f in binops(s):
        h(nm, 'm:M a:V b:V', 'where(m, a) %s= b; st(a, o);' % op, lambda I, f=f: {'o': isel(I.m, zips(f, I.a, I.b), I.a)})
        h(nm + '_scalar', 'm:M a:V x:E', 'where(m, a) %s= x; st(a, o);' % op, lambda I, f=f: {'o': isel(I.m, [f(a, I.x[0]) for a in I.a], I.a)})
        if s.tag[0] in 'npf':
            h(nm + '_self', 'm:M a:V', 'where(m, a) %s= a; st(a, o);' % op, lambda I, f=f: {'o': isel(I.m, [f(a, a) for a in I.a], I.a)})
            h(nm + '_true', 'a:V b:V', 'where(%%M(true), a) %s= b; st(a, o);' % op, lambda I, f=f: {'o': zips(f, I.a, I.b)})
            h(nm + '_false', 'a:V b:V', 'where(%%M(false), a) %s= b; st(a, o);' % op, lambda I, f=f: {'o': I.a})
    if not fp:
        q = T.sdiv if sg else T.udiv; r = T.srem if sg else T.urem
        def okd(I, m, a, b):
            bad = T.eq(b, c(s, 0))
            if sg and w >= 32: bad = T.bor(bad, T.band(T.eq(a, c(s, 1 << (w - 1))), T.eq(b, c(s, -1))))
            I.assume(T.bor(T.bnot(m), T.bnot(bad)))
        for nm, op, f in (('div', '/', q), ('mod', '%', r)):
            def sp(I, f=f):
                for m, a, b in zip(I.m, I.a, I.b): okd(I, m, a, b)
                return {'o': isel(I.m, zips(f, I.a, I.b), I.a)}
            def sps(I, f=f):
                for m, a in zip(I.m, I.a): okd(I, m, a, I.x[0])
                return {'o': isel(I.m, [f(a, I.x[0]) for a in I.a], I.a)}
            h(nm, 'm:M a:V b:V', 'where(m, a) %s= b; st(a, o);' % op, sp)
            h(nm + '_scalar', 'm:M a:V x:E', 'where(m, a) %s= x; st(a, o);' % op, sps)
        W = max(32, w)
        for nm, op, k in (('shl', '<<', 'l'), ('shr', '>>', 'r')):
            def spv(I, k=k):
                for m, b in zip(I.m, I.b): I.assume(T.bor(T.bnot(m), T.ult(b, c(b.w, W)) if W < 1 << b.w else T.TRUE()))
                return {'o': isel(I.m, [sh(k, s, a, b) for a, b in zip(I.a, I.b)], I.a)}
            def spi(I, k=k):
                I.assume(T.ult(I.n[0], c(I.n[0].w, W)) if W < 1 << I.n[0].w else T.TRUE())
                return {'o': isel(I.m, [sh(k, s, a, I.n[0]) for a in I.a], I.a)}
            h(nm, 'm:M a:V b:V', 'where(m, a) %s= b; st(a, o);' % op, spv)
            h(nm + '_scalar', 'm:M a:V n:E', 'where(m, a) %s= n; st(a, o);' % op, spi)
            h(nm + '_const', 'm:M a:V', 'where(m, a) %s= 3; st(a, o);' % op, lambda I, k=k: {'o': isel(I.m, [sh(k, s, a, c(32, 3)) for a in I.a], I.a)})
    for nm, b, k in (('preinc', '++where(m, a);', one), ('postinc', 'where(m, a)++;', one), ('predec', '--where(m, a);', mone), ('postdec', 'where(m, a)--;', mone)):
        h(nm, 'm:M a:V', b + ' st(a, o);', lambda I, k=k: {'o': isel(I.m, [add(a, k) for a in I.a], I.a)})
    neg = T.fneg if fp else T.neg
    h('neg', 'm:M a:V', '%V r = -where(m, a); st(r, o); st(a, q);', lambda I: {'o': isel(I.m, [neg(a) for a in I.a], I.a), 'q': I.a}, outs='o:V q:V')
    h('cneg', 'm:M a:V', 'const %V t = a; st(%V(-where(m, t)), o);', lambda I: {'o': isel(I.m, [neg(a) for a in I.a], I.a)})
    # masks as targets
    mo = 'k:M'
    h('massign', 'm:M a:M b:M', 'where(m, a) = b; a.copy_to(k, SA);', lambda I: {'k': isel(I.m, I.b, I.a)}, mo)
    h('massign_bool', 'm:M a:M x:bool', 'where(m, a) = x; a.copy_to(k, SA);', lambda I: {'k': isel(I.m, I.x * s.n, I.a)}, mo)
    h('massign_true', 'm:M a:M', 'where(m, a) = true; a.copy_to(k, SA);', lambda I: {'k': zips(T.bor, I.m, I.a)}, mo)
    h('massign_false', 'm:M a:M', 'where(m, a) = %M(false); a.copy_to(k, SA);', lambda I: {'k': isel(I.m, [T.FALSE()] * s.n, I.a)}, mo)
    h('massign_fls', 'm:M a:M', 'where(m, a) = false; a.copy_to(k, SA);', lambda I: {'k': isel(I.m, [T.FALSE()] * s.n, I.a)}, mo)
    h('massign_mtrue', 'a:M b:M', 'where(%M(true), a) = b; a.copy_to(k, SA);', lambda I: {'k': I.b}, mo)
    h('massign_mfalse', 'a:M b:M', 'where(%M(false), a) = b; a.copy_to(k, SA);', lambda I: {'k': I.a}, mo)
    h('massign_mhead', 'a:M x:bool', 'where(' + iota + ' < static_cast<%E>(2), a) = x; a.copy_to(k, SA);', lambda I: {'k': I.x * min(2, s.n) + I.a[2:]}, mo)
    h('massign_count', 'm:M a:M', 'where(m, a) = true; *k = popcount(a); *k2 = all_of(a);', lambda I: (lambda r: {'k': [pc(r)], 'k2': [T.conj(r)]})(zips(T.bor, I.m, I.a)), 'k:i32 k2:bool')
    h('massign_cmp', 'm:M a:M x:V b:V', 'where(m, a) = (x != b); a.copy_to(k, SA);', lambda I, f=(T.feq if fp else T.eq): {'k': isel(I.m, [T.bnot(f(x, b)) for x, b in zip(I.x, I.b)], I.a)}, mo)
    return L
def scal(arch):
    L = []
    for e in ALLT:
        w = bits(e); sg = issigned(e); fp = isfp(e); t = ctype(e)
        def h(nm, b, f, e=e):
            L.append(Harness('s_%s_%s' % (nm, e), '%s a = *a_; %s *o = a;' % (t, b), [Param('m', 'bool', 1), Param('a_', e, 1), Param('x', e, 1), Param('o', e, 1, 'out')],
                             lambda I: {'o': [T.ite(I.m[0], f(I, I.a_[0], I.x[0]), I.a_[0])]}))
        h('assign', 'stdx::where(*m, a) = *x;', lambda I, a, x: x)
        add, sub, mul = (T.fadd, T.fsub, T.fmul) if fp else (T.add, T.sub, T.mul)
        h('add', 'stdx::where(*m, a) += *x;', lambda I, a, x, f=add: f(a, x))
        h('sub', 'stdx::where(*m, a) -= *x;', lambda I, a, x, f=sub: f(a, x))
        h('mul', 'stdx::where(*m, a) *= *x;', lambda I, a, x, f=mul: f(a, x))
        h('neg', 'a = -stdx::where(*m, a);', lambda I, a, x, f=T.fneg if fp else T.neg: f(a))
        h('preinc', '++stdx::where(*m, a);', lambda I, a, x, f=add, k=fpconst(w, 1.0) if fp else c(w, 1): f(a, k))
        h('postdec', 'stdx::where(*m, a)--;', lambda I, a, x, f=add, k=fpconst(w, -1.0) if fp else c(w, -1): f(a, k))
        h('postinc', 'stdx::where(*m, a)++;', lambda I, a, x, f=add, k=fpconst(w, 1.0) if fp else c(w, 1): f(a, k))
        h('predec', '--stdx::where(*m, a);', lambda I, a, x, f=add, k=fpconst(w, -1.0) if fp else c(w, -1): f(a, k))
        if fp: h('div', 'stdx::where(*m, a) /= *x;', lambda I, a, x: T.fdiv(a, x))
        else:
            h('and', 'stdx::where(*m, a) &= *x;', lambda I, a, x: T.band(a, x))
            h('or', 'stdx::where(*m, a) |= *x;', lambda I, a, x: T.bor(a, x))
            h('xor', 'stdx::where(*m, a) ^= *x;', lambda I, a, x: T.bxor(a, x))
            if w == 8:
                def dv(I, a, x, f=T.sdiv if sg else T.udiv):
                    I.assume(T.bor(T.bnot(I.m[0]), T.ne(x, c(8, 0)))); return f(a, x)
                h('div', 'stdx::where(*m, a) /= *x;', dv)
    L.append(Harness('s_bool', 'bool a = *a_; stdx::where(*m, a) = *x; *o = a;', [Param('m', 'bool', 1), Param('a_', 'bool', 1), Param('x', 'bool', 1), Param('o', 'bool', 1, 'out')],
             lambda I: {'o': [T.ite(I.m[0], I.x[0], I.a_[0])]}))
    return L
def tus(tier):
    return groups(tier, 'C08', gen) + [TU('C08_scalar', 'avx2', scal('avx2'))]
