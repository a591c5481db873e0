from .common import *
META = dict(bounds='all 2^w bit patterns of the operand(s) in every lane (subnormals, both zeros, infinities, quiet and signaling NaNs) of the listed instantiations; results compared bit for bit; integer abs: all values but the minimum; -O2',
    outside=['raised floating-point exception flags', 'integer abs of the minimum value (undefined)'])

def cls(x, w):
    m = {32: 23, 64: 52}[w]; ew = w - 1 - m
    man = T.ext(x, 0, m); ex = T.ext(x, m, ew)
    z = T.eq(man, T.const(m, 0)); e0 = T.eq(ex, T.const(ew, 0)); e1 = T.eq(ex, T.const(ew, (1 << ew) - 1))
    return dict(isnan=T.band(e1, T.bnot(z)), isinf=T.band(e1, z), isfinite=T.bnot(e1), isnormal=T.band(T.bnot(e1), T.bnot(e0)),
                zero=T.band(e0, z), signbit=T.bit(x, w - 1))
def gen(s):
    L = []; e = s.e; w = s.w
    if not isfp(e):
        if issigned(e):
            def ab(I):
                for x in I.a: I.assume(T.bnot(T.eq(x, c(s, 1 << (w - 1)))))
                return {'o': [T.ite(T.slt(x, c(s, 0)), T.neg(x), x) for x in I.a]}
            L.append(hv('abs', s, 'a:V', '%V r = abs(a); st(r, o);', ab))
            L.append(hv('absself', s, 'a:V', 'a = abs(a); st(a, o);', ab))
        sg = lambda I: {'k': [T.slt(x, c(s, 0)) if issigned(e) else T.FALSE() for x in I.a]}
        L.append(hv('signbit', s, 'a:V', 'auto r = signbit(a); r.copy_to(k, element_aligned);', sg, outs='k:M'))
        return L
    sm = 1 << (w - 1)
    for f in ('isnan', 'isinf', 'isfinite', 'isnormal', 'signbit'):
        L.append(hv(f, s, 'a:V', 'auto r = %s(a); r.copy_to(k, element_aligned);' % f, lambda I, f=f: {'k': [cls(x, w)[f] for x in I.a]}, outs='k:M'))
        # several classifications of one value, and of a computed mask
        L.append(hv('w' + f, s, 'a:V b:V', 'where(%s(a), b) = a; st(b, o);' % f, lambda I, f=f: {'o': [T.ite(cls(x, w)[f], x, y) for x, y in zip(I.a, I.b)]}))
        L.append(hv('n' + f, s, 'a:V', '*k = all_of(!%s(a)); *k2 = any_of(%s(a)); *r = popcount(%s(a));' % (f, f, f),
                    lambda I, f=f: {'k': [T.conj([T.bnot(cls(x, w)[f]) for x in I.a])], 'k2': [T.disj([cls(x, w)[f] for x in I.a])], 'r': [sum_(cls(x, w)[f] for x in I.a)]}, outs='k:bool k2:bool r:i32'))
    def fpc(I):
        r = []
        for x in I.a:
            k = cls(x, w)
            r.append(T.ite(k['isnan'], c(32, 0), T.ite(k['isinf'], c(32, 1), T.ite(k['zero'], c(32, 2), T.ite(k['isnormal'], c(32, 4), c(32, 3))))))
        return {'r': r}
    L.append(hv('fpclassify', s, 'a:V', 'static_assert(FP_NAN == 0 && FP_INFINITE == 1 && FP_ZERO == 2 && FP_SUBNORMAL == 3 && FP_NORMAL == 4); auto q = fpclassify(a); q.copy_to(r, element_aligned);', fpc, outs='r:i32*%d' % s.n))
    un = lambda a, b: T.bor(T.fisnan(a), T.fisnan(b))
    for f, g in (('isgreater', lambda a, b: T.flt(b, a)), ('isgreaterequal', lambda a, b: T.fle(b, a)), ('isless', T.flt), ('islessequal', T.fle),
                 ('islessgreater', lambda a, b: T.band(T.bnot(un(a, b)), T.bnot(T.feq(a, b)))), ('isunordered', un)):
        L.append(hv(f, s, 'a:V b:V', 'auto r = %s(a, b); r.copy_to(k, element_aligned);' % f, lambda I, g=g: {'k': zips(g, I.a, I.b)}, outs='k:M'))
        L.append(hv('b' + f, s, 'a:V b:E', 'auto r = %s(a, b); r.copy_to(k, element_aligned); auto r2 = %s(b, a); r2.copy_to(k2, element_aligned);' % (f, f),
                    lambda I, g=g: {'k': [g(x, I.b[0]) for x in I.a], 'k2': [g(I.b[0], x) for x in I.a]}, outs='k:M k2:M'))
        L.append(hv('n' + f, s, 'a:V b:V', '*k = all_of(!%s(a, b)); *r = popcount(%s(a, b));' % (f, f), lambda I, g=g: {'k': [T.conj([T.bnot(q) for q in zips(g, I.a, I.b)])], 'r': [sum_(zips(g, I.a, I.b))]}, outs='k:bool r:i32'))
    cs = lambda a, b: T.bor(T.band(a, c(w, sm - 1)), T.band(b, c(w, sm)))
    L.append(hv('copysign', s, 'a:V b:V', '%V r = copysign(a, b); st(r, o);', lambda I: {'o': zips(cs, I.a, I.b)}))
    L.append(hv('copysign1', s, 'a:V', '%V r = copysign(a, %V(-1)); st(r, o);', lambda I: {'o': [T.bor(x, c(w, sm)) for x in I.a]}))
    L.append(hv('copysign2', s, 'b:V', '%V r = copysign(%V(2), b); st(r, o);', lambda I: {'o': [cs(fpconst(w, 2.0), x) for x in I.b]}))
    fa = lambda I: {'o': [T.band(x, c(w, sm - 1)) for x in I.a]}
    L.append(hv('abs', s, 'a:V', '%V r = abs(a); st(r, o);', fa))
    L.append(hv('fabs', s, 'a:V', '%V r = fabs(a); st(r, o);', fa))
    return L
def sum_(bits):
    r = T.const(32, 0)
    for b in bits: r = T.add(r, T.zext(b, 32))
    return r
def tus(tier): return groups(tier, 'C15', gen, types=(('i8', 'u8', 'i16'), ('i32', 'i64', 'u64'), ('f32',), ('f64',)))
