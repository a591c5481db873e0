from .common import *
META = dict(bounds='all 2^w bit patterns of every lane operand (NaN, infinities, subnormals, both zeros); -O2 -ffp-contract=off, round-to-nearest',
    assumptions=['NaN payloads and signs of arithmetic results are not compared', 'default rounding mode and MXCSR without flush-to-zero'])
def gen(s):
    w = s.w; one = fpconst(w, 1.0)
    L = []
    def b2(nm, op, f):
        L.append(hv(nm, s, 'a:V b:V', '%%V r = a %s b; st(r, o);' % op, lambda I: {'o': zips(f, I.a, I.b)}))
        L.append(hv(nm + '_assign', s, 'a:V b:V', '%%V& r = (a %s= b); st(a, o); st(r, q);' % op,
                    lambda I: {'o': zips(f, I.a, I.b), 'q': zips(f, I.a, I.b)}, outs='o:V q:V'))
        L.append(hv(nm + '_bcast', s, 'a:V x:E', '%%V r = a %s x; st(r, o); %%V t = x %s a; st(t, q);' % (op, op),
                    lambda I: {'o': [f(a, I.x[0]) for a in I.a], 'q': [f(I.x[0], a) for a in I.a]}, outs='o:V q:V'))
        L.append(hv(nm + '_self', s, 'a:V', 'st(%%V(a %s a), o);' % op, lambda I: {'o': [f(a, a) for a in I.a]}))
        for k in (0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 0.1):
            kn = str(k).replace('-', 'm').replace('.', '_')
            L.append(hv('%s_const%s' % (nm, kn), s, 'a:V', 'st(%%V(a %s %%V(static_cast<%%E>(%r))), o); st(%%V(%%V(static_cast<%%E>(%r)) %s a), q);' % (op, k, k, op),
                        lambda I, k=k: {'o': [f(a, fpconst(w, k)) for a in I.a], 'q': [f(fpconst(w, k), a) for a in I.a]}, outs='o:V q:V'))
    b2('add', '+', T.fadd); b2('sub', '-', T.fsub); b2('mul', '*', T.fmul); b2('div', '/', T.fdiv)
    L.append(hv('neg', s, 'a:V', 'st(%V(-a), o);', lambda I: {'o': [T.fneg(a) for a in I.a]}))
    L.append(hv('pos', s, 'a:V', 'st(%V(+a), o);', lambda I: {'o': I.a}))
    L.append(hv('negneg', s, 'a:V', 'st(%V(-(-a)), o);', lambda I: {'o': I.a}))
    L.append(hv('subzero', s, 'a:V', 'st(%V(%V() - a), o);', lambda I: {'o': [T.fsub(fpconst(w, 0.0), a) for a in I.a]}))
    L.append(hv('muladd', s, 'a:V b:V x:V', 'st(%V(a * b + x), o);', lambda I: {'o': [T.fadd(T.fmul(a, b), x) for a, b, x in zip(I.a, I.b, I.x)]}))
    L.append(hv('addsub', s, 'a:V b:V', 'st(%V((a + b) - (a - b)), o);', lambda I: {'o': [T.fsub(T.fadd(a, b), T.fsub(a, b)) for a, b in zip(I.a, I.b)]}))
    inc = lambda a: T.fadd(a, one)
    dec = lambda a: T.fadd(a, fpconst(w, -1.0))
    L.append(hv('preinc', s, 'a:V', '%V& r = ++a; st(a, o); st(r, q);', lambda I: {'o': [inc(a) for a in I.a], 'q': [inc(a) for a in I.a]}, outs='o:V q:V'))
    L.append(hv('predec', s, 'a:V', '%V& r = --a; st(a, o); st(r, q);', lambda I: {'o': [dec(a) for a in I.a], 'q': [dec(a) for a in I.a]}, outs='o:V q:V'))
    L.append(hv('postinc', s, 'a:V', '%V r = a++; st(a, o); st(r, q);', lambda I: {'o': [inc(a) for a in I.a], 'q': I.a}, outs='o:V q:V'))
    L.append(hv('postdec', s, 'a:V', '%V r = a--; st(a, o); st(r, q);', lambda I: {'o': [dec(a) for a in I.a], 'q': I.a}, outs='o:V q:V'))
    return L
def tus(tier): return groups(tier, 'C04', gen, types=(('f32',), ('f64',)))
