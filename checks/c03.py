from .common import *
META = dict(bounds='all lane values; every valid count 0 <= n < max(32, w) per lane (vector), uniform at run time (scalar int), and as a compile-time constant; -O2',
    assumptions=['counts are in the range the scalar operator defines for the promoted type', 'left shift of a negative scalar is taken modulo 2^w (as GCC defines it)'])
def sh(op, s, a, n):
    """scalar shift of element a by count term n (any width), converted back"""
    w = s.w; W = max(32, w)
    n = (T.zext(n, W) if n.w < W else T.ext(n, 0, W) if n.w > W else n)
    x = (T.sext if issigned(s.e) else T.zext)(a, W) if W > w else a
    r = T.shl(x, n) if op == 'l' else T.ashr(x, n) if issigned(s.e) else T.lshr(x, n)
    return T.ext(r, 0, w)
def gen(s):
    w = s.w; W = max(32, w)
    L = []
    for op, o in (('l', '<<'), ('r', '>>')):
        def vec(I, op=op):
            for b in I.b: I.assume(T.ult(b, c(b.w, W)) if W < 1 << b.w else T.TRUE())
            return [sh(op, s, a, b) for a, b in zip(I.a, I.b)]
        def sc(I, op=op):
            I.assume(T.ult(I.n[0], c(32, W)))
            return [sh(op, s, a, I.n[0]) for a in I.a]
        L.append(hv('sh%s_vec' % op, s, 'a:V b:V', 'st(%%V(a %s b), o);' % o, lambda I, f=vec: {'o': f(I)}))
        L.append(hv('sh%s_vec_assign' % op, s, 'a:V b:V', '%%V& r = (a %s= b); st(a, o); st(r, q);' % o, lambda I, f=vec: {'o': f(I), 'q': f(I)}, outs='o:V q:V'))
        L.append(hv('sh%s_int' % op, s, 'a:V n:i32', 'st(%%V(a %s n), o);' % o, lambda I, f=sc: {'o': f(I)}))
        L.append(hv('sh%s_int_assign' % op, s, 'a:V n:i32', '%%V& r = (a %s= n); st(a, o); st(r, q);' % o, lambda I, f=sc: {'o': f(I), 'q': f(I)}, outs='o:V q:V'))
        ks = {0, 1, 2, 3, w // 2, w - 2, w - 1} | ({w, w + 1, 31} if w < 32 else set()) | (set(range(w)) if w == 8 else {5, 8})
        for k in sorted(ks):
            sk = lambda I, op=op, k=k: {'o': [sh(op, s, a, c(32, k)) for a in I.a]}
            L.append(hv('sh%s_const%d' % (op, k), s, 'a:V', 'st(%%V(a %s %d), o);' % (o, k), sk))
            if k < w and s.tag[0] in 'nfp':
                L.append(hv('sh%s_constv%d' % (op, k), s, 'a:V', 'st(%%V(a %s %%V(static_cast<%%E>(%d))), o);' % (o, k), sk))
        # a constant shifted by a run-time vector
        L.append(hv('sh%s_ofconst' % op, s, 'b:V', 'st(%%V(%%V(static_cast<%%E>(0x95)) %s b), o);' % o,
            lambda I, op=op: ([I.assume(T.ult(b, c(b.w, W)) if W < 1 << b.w else T.TRUE()) for b in I.b], {'o': [sh(op, s, c(s, 0x95), b) for b in I.b]})[1]))
        # counts that differ per lane but are constants
        pat = lambda i, j: (i * 7 + j) % min(w, W)
        L.append(hv('sh%s_constcounts' % op, s, 'a:V', 'st(%%V(a %s %%V([](auto i) { return static_cast<%%E>((int(i) * 7 + 3) %% %d); })), o);' % (o, w),
            lambda I, op=op: {'o': [sh(op, s, a, c(32, pat(i, 3))) for i, a in enumerate(I.a)]}))
    return L
def tus(tier):
    return groups(tier, 'C03', gen, types=(('i8', 'u8'), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64')))
