from .common import *
META = dict(bounds='all lane values (including NaN, infinities, subnormals and both zeros) of the listed instantiations; -O2')
OPS = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]
def cmpf(e, op):
    if isfp(e):
        return {'eq': T.feq, 'ne': lambda a, b: T.bnot(T.feq(a, b)), 'lt': T.flt, 'le': T.fle, 'gt': lambda a, b: T.flt(b, a), 'ge': lambda a, b: T.fle(b, a)}[op]
    lt = T.slt if issigned(e) else T.ult
    return {'eq': T.eq, 'ne': T.ne, 'lt': lt, 'le': lambda a, b: T.bnot(lt(b, a)), 'gt': lambda a, b: lt(b, a), 'ge': lambda a, b: T.bnot(lt(a, b))}[op]
def gen(s):
    L = []
    z = c(s, 0)
    for nm, op in OPS:
        f = cmpf(s.e, nm)
        L.append(hv(nm, s, 'a:V b:V', '%%M r = a %s b; r.copy_to(k, element_aligned);' % op, lambda I, f=f: {'k': zips(f, I.a, I.b)}, outs='k:M'))
        L.append(hv(nm + '_bcast', s, 'a:V x:E', '%%M r = a %s x; r.copy_to(k, element_aligned);' % op, lambda I, f=f: {'k': [f(a, I.x[0]) for a in I.a]}, outs='k:M'))
        L.append(hv(nm + '_zero', s, 'a:V', '%%M r = a %s %%V(0); r.copy_to(k, element_aligned); %%M t = %%V() %s a; t.copy_to(k2, element_aligned);' % (op, op),
                    lambda I, f=f: {'k': [f(a, z) for a in I.a], 'k2': [f(z, a) for a in I.a]}, outs='k:M k2:M'))
        # the mask used directly
        L.append(hv(nm + '_sel', s, 'a:V b:V', 'where(a %s b, a) = %%V(static_cast<%%E>(1)); st(a, o);' % op,
                    lambda I, f=f: {'o': [T.ite(f(a, b), fpconst(s.w, 1.0) if isfp(s.e) else c(s, 1), a) for a, b in zip(I.a, I.b)]}))
    if isfp(s.e):
        L.append(hv('lnot', s, 'a:V', '(!a).copy_to(k, element_aligned);', lambda I: {'k': [T.feq(a, z) for a in I.a]}, outs='k:M'))
    return L
def tus(tier): return groups(tier, 'C05', gen)
