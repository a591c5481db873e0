from .common import *
META = dict(bounds='every dividend and divisor with a defined scalar result, all lanes independent; run-time operands, scalar divisors and a catalogue of compile-time divisors; -O2',
    assumptions=['no lane divides by zero and no lane computes INT_MIN / -1',
                 'for |x|,|y| <= 2^p integers, truncating the IEEE quotient x/y gives the integer quotient (elementary lemma used as a rewrite rule)'])
def gen(s):
    w = s.w; sg = issigned(s.e)
    q = T.sdiv if sg else T.udiv
    # int promotion does not change the result for defined quotients
    r = T.srem if sg else T.urem
    def ok(I, a, b):
        I.assume(T.ne(b, c(s, 0)))
        if sg and w >= 32: I.assume(T.bnot(T.band(T.eq(a, c(s, 1 << (w - 1))), T.eq(b, c(s, -1)))))
        elif sg: pass
    L = []
    for nm, op, f in (('div', '/', q), ('mod', '%', r)):
        def sp(I, f=f):
            for a, b in zip(I.a, I.b): ok(I, a, b)
            return {'o': zips(f, I.a, I.b)}
        def sp2(I, f=f):
            for a, b in zip(I.a, I.b): ok(I, a, b)
            return {'o': zips(f, I.a, I.b), 'q': zips(f, I.a, I.b)}
        def sp3(I, f=f):
            for a in I.a: ok(I, a, I.x[0])
            return {'o': [f(a, I.x[0]) for a in I.a]}
        def sp4(I, f=f):
            for a in I.a: ok(I, I.x[0], a)
            return {'o': [f(I.x[0], a) for a in I.a]}
        L.append(hv(nm, s, 'a:V b:V', 'st(%%V(a %s b), o);' % op, sp))
        L.append(hv(nm + '_assign', s, 'a:V b:V', '%%V& r = (a %s= b); st(a, o); st(r, q);' % op, sp2, outs='o:V q:V'))
        L.append(hv(nm + '_bcast', s, 'a:V x:E', 'st(%%V(a %s x), o);' % op, sp3))
        L.append(hv(nm + '_bcastl', s, 'a:V x:E', 'st(%%V(x %s a), o);' % op, sp4))
        ks = (1, 16)
        if sg: ks += (-1,)
        if w == 8: ks += (3, 7, 10) + ((-5,) if sg else (255,))
        if w == 16: ks += (10,)
        for k in ks:
            def spk(I, f=f, k=k):
                if sg and w >= 32 and k == -1:
                    for a in I.a: I.assume(T.ne(a, c(s, 1 << (w - 1))))
                return {'o': [f(a, c(s, k)) for a in I.a]}
            L.append(hv('%s_const_%s' % (nm, str(k).replace('-', 'm')), s, 'a:V', 'st(%%V(a %s %%V(static_cast<%%E>(%d))), o);' % (op, k), spk))
        L.append(hv(nm + '_constnum', s, 'a:V', 'st(%%V(%%V(static_cast<%%E>(100)) %s a), o);' % op,
                    lambda I, f=f: ([ok(I, c(s, 100), a) for a in I.a], {'o': [f(c(s, 100), a) for a in I.a]})[1]))
    return L
def tus(tier):
    return groups(tier, 'C02', gen, types=(('i8', 'u8'), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64')))
