from .common import *
META = dict(bounds='all values of both (clamp: three) operands of every lane of the listed instantiations; floating point: operands that are not NaN, results compared with ==; clamp: lanes with lo <= hi; -O2',
    assumptions=['no NaN operand (std::min/std::max are unspecified for them)', 'clamp: lo <= hi (its precondition)'], outside=['sign of a zero result'])

def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w
        fp = isfp(e)
        lt = T.flt if fp else T.slt if issigned(e) else T.ult
        mn = lambda a, b: T.ite(lt(b, a), b, a)
        mx = lambda a, b: T.ite(lt(a, b), b, a)
        cmpz = {x: (lambda g, x: T.feq(g, x)) for x in 'op'} if fp else None
        def ok(I):
            if fp:
                for nm in ('a', 'b', 'c'):
                    if hasattr(I, nm):
                        for x in getattr(I, nm): I.assume(T.bnot(T.fisnan(x)))
        def add(nm, decl, body, spec, outs='o:V', **kw):
            def sp(I, spec=spec):
                ok(I); return spec(I)
            L.append(hv(nm, s, decl, body, sp, outs=outs, cmp=cmpz, **kw))
        add('min', 'a:V b:V', '%V r = min(a, b); st(r, o);', lambda I: {'o': zips(mn, I.a, I.b)})
        add('max', 'a:V b:V', '%V r = max(a, b); st(r, o);', lambda I: {'o': zips(mx, I.a, I.b)})
        add('minmax', 'a:V b:V', 'auto r = minmax(a, b); st(r.first, o); st(r.second, p);', lambda I: {'o': zips(mn, I.a, I.b), 'p': zips(mx, I.a, I.b)}, outs='o:V p:V')
        def cl(I):
            for l, h in zip(I.b, I.c): I.assume(T.bnot(lt(h, l)))
            return {'o': zips(lambda v, l, h: T.ite(lt(v, l), l, T.ite(lt(h, v), h, v)), I.a, I.b, I.c)}
        add('clamp', 'a:V b:V c:V', '%V r = clamp(a, b, c); st(r, o);', cl)
        add('minb', 'a:V b:E', '%V r = min(a, %V(b)); st(r, o);', lambda I: {'o': [mn(x, I.b[0]) for x in I.a]})
        add('maxz', 'a:V', '%V r = max(a, %V()); st(r, o);', lambda I: {'o': [mx(x, c(s, 0)) for x in I.a]})
        add('minmax2', 'a:V b:V c:V', 'a = min(max(a, b), c); st(a, o);', lambda I: {'o': zips(lambda x, y, z: mn(mx(x, y), z), I.a, I.b, I.c)})
        add('self', 'a:V', 'auto r = minmax(a, a); st(r.first, o); st(r.second, p);', lambda I: {'o': I.a, 'p': I.a}, outs='o:V p:V')
        return L
    return gen
def tus(tier): return groups(tier, 'C14', gen_for(tier))
