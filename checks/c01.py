from .common import *
META = dict(bounds='every lane value of every listed instantiation (all 2^w values per lane, all lanes independent); -O2; instantiations: native, compatible, partial, composite fixed_size and scalar ABIs of the 8 integer types on the listed x86 ISA levels',
    assumptions=['operations whose scalar counterpart is undefined do not occur: signed +,-,* are checked with wrap-around semantics (the headers compute them as such)'])

def gen(s):
    w = s.w; one = c(s, 1)
    L = []
    def b2(nm, op, f):
        L.append(hv(nm, s, 'a:V b:V', '%%V r = a %s b; st(r, o);' % op, lambda I: {'o': zips(f, I.a, I.b)}))
        L.append(hv(nm + '_assign', s, 'a:V b:V', '%%V& r = (a %s= b); st(a, o); st(r, q);' % op,
                    lambda I: {'o': zips(f, I.a, I.b), 'q': zips(f, I.a, I.b)}, outs='o:V q:V'))
        L.append(hv(nm + '_bcast', s, 'a:V x:E', '%%V r = a %s x; st(r, o); %%V t = x %s a; st(t, q);' % (op, op),
                    lambda I: {'o': [f(a, I.x[0]) for a in I.a], 'q': [f(I.x[0], a) for a in I.a]}, outs='o:V q:V'))
    b2('add', '+', T.add); b2('sub', '-', T.sub); b2('mul', '*', T.mul)
    b2('and', '&', T.band); b2('or', '|', T.bor); b2('xor', '^', T.bxor)
    L.append(hv('neg', s, 'a:V', 'st(%V(-a), o);', lambda I: {'o': [T.neg(a) for a in I.a]}))
    L.append(hv('not', s, 'a:V', 'st(%V(~a), o);', lambda I: {'o': [T.bnot(a) for a in I.a]}))
    L.append(hv('pos', s, 'a:V', 'st(%V(+a), o);', lambda I: {'o': I.a}))
    L.append(hv('preinc', s, 'a:V', '%V& r = ++a; st(a, o); st(r, q);', lambda I: {'o': [T.add(a, one) for a in I.a], 'q': [T.add(a, one) for a in I.a]}, outs='o:V q:V'))
    L.append(hv('predec', s, 'a:V', '%V& r = --a; st(a, o); st(r, q);', lambda I: {'o': [T.sub(a, one) for a in I.a], 'q': [T.sub(a, one) for a in I.a]}, outs='o:V q:V'))
    L.append(hv('postinc', s, 'a:V', '%V r = a++; st(a, o); st(r, q);', lambda I: {'o': [T.add(a, one) for a in I.a], 'q': I.a}, outs='o:V q:V'))
    L.append(hv('postdec', s, 'a:V', '%V r = a--; st(a, o); st(r, q);', lambda I: {'o': [T.sub(a, one) for a in I.a], 'q': I.a}, outs='o:V q:V'))
    L.append(hv('lnot', s, 'a:V', '(!a).copy_to(k, element_aligned);', lambda I: {'k': [T.eq(a, c(s, 0)) for a in I.a]}, outs='k:M'))
    return L

def tus(tier):
    return groups(tier, 'C01', gen, types=(('i8', 'u8'), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64')))
