from .common import *
META = dict(bounds='all lane values, all subscripts 0 <= i, j < N (as run-time values, and the constant first, middle and last one) of the listed instantiations; -O2',
    assumptions=['subscripts within 0..N-1', 'divisions and shifts through a subscript only where the scalar operation is defined'], outside=['order of the generator calls'])

def sel(i, xs):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1): r = T.ite(T.eq(i, T.const(32, k)), xs[k], r)
    return r
def upd(i, xs, f):
    # lane i becomes f(old value of lane i), the other lanes stay
    y = f(sel(i, xs))
    return [T.ite(T.eq(i, T.const(32, k)), y, x) for k, x in enumerate(xs)]
def upd_(i, xs, f): return [T.ite(T.eq(i, T.const(32, k)), f(x), x) for k, x in enumerate(xs)]

def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w; n = s.n; fp = isfp(e); t = ctype(e)
        one = fpconst(w, 1.0) if fp else c(s, 1)
        add = T.fadd if fp else T.add
        sub = T.fsub if fp else T.sub
        mul = T.fmul if fp else T.mul
        def num(v): return fpconst(w, float(v)) if fp else c(s, v)
        def ix(I, *nm):
            for x in nm: I.assume(T.ult(getattr(I, x)[0], T.const(32, n)))
        # broadcast
        L.append(hv('bc', s, 'x:E', '%V r(x); st(r, o); %V r2 = x; st(r2, p); r2 = r; r = x; st(r, q);', lambda I: {'o': [I.x[0]] * n, 'p': [I.x[0]] * n, 'q': [I.x[0]] * n}, outs='o:V p:V q:V'))
        L.append(hv('bcc', s, '', '%V r(3); st(r, o); %V r2 = 1; st(r2, p); st(%V(), q); %V r3{}; st(r3, r3_); st(%V(static_cast<%E>(100)), r4);',
                    lambda I: {'o': [num(3)] * n, 'p': [num(1)] * n, 'q': [num(0)] * n, 'r3_': [num(0)] * n, 'r4': [num(100)] * n}, outs='o:V p:V q:V r3_:V r4:V'))
        for e2 in ALLT:
            # value-preserving broadcasts, and int / unsigned int
            pres = e2 != e and ((isfp(e) and (isfp(e2) and bits(e2) < w or not isfp(e2) and bits(e2) <= (24 if w == 32 else 53)))
                    or (not isfp(e) and not isfp(e2) and ((issigned(e) == issigned(e2) and bits(e2) < w) or (issigned(e) and not issigned(e2) and bits(e2) < w)))
                    or e2 == 'i32' or (e2 == 'u32' and not fp and not issigned(e)))
            if pres: L.append(hv('bc_' + e2, s, 'x:' + e2, '%V r(x); st(r, o); %V r2 = x; st(r2, p);', lambda I, e2=e2: {'o': [convt(I.x[0], e2, e)] * n, 'p': [convt(I.x[0], e2, e)] * n}, outs='o:V p:V'))
        L.append(hv('bcm', s, 'x:bool', '%M r(x); r.copy_to(k, element_aligned); %M r2(!x); r2.copy_to(k2, element_aligned); *k3 = all_of(r);',
                    lambda I: {'k': [I.x[0]] * n, 'k2': [T.bnot(I.x[0])] * n, 'k3': [I.x[0]]}, outs='k:M k2:M k3:bool'))
        # generator
        L.append(hv('gen', s, 'a:E*%d' % n, 'int cnt = 0; %V r([&](auto i) { ++cnt; return a_[i]; }); st(r, o); *k = cnt;', lambda I: {'o': I.a_ if hasattr(I, 'a_') else I.a, 'k': [T.const(32, n)]}, outs='o:V k:i32'))
        L.append(hv('genrev', s, 'a:E*%d' % n, '%V r([&](auto i) { constexpr int j = %N - 1 - i; return a_[j]; }); st(r, o);', lambda I: {'o': list(I.a_)[::-1]}))
        L.append(hv('gencst', s, '', 'const %V r([](auto i) { return static_cast<%E>(2 * i + 1); }); st(r, o); %V r2([](int i) { return static_cast<%E>(i % 7); }); st(r2, p); %V r3([](auto i) { return i; }); st(r3, q);',
                    lambda I: {'o': [num(2 * i + 1) for i in range(n)], 'p': [num(i % 7) for i in range(n)], 'q': [num(i) for i in range(n)]}, outs='o:V p:V q:V'))
        L.append(hv('genadd', s, 'a:V b:V', '%V r([&](auto i) -> %E { return i % 2 ? b[i] : a[i]; }); st(r, o);', lambda I: {'o': [I.b[i] if i % 2 else I.a[i] for i in range(n)]}))
        # copies
        L.append(hv('copy', s, 'a:V b:V', 'using std::swap; %V x = a; %V y; y = b; swap(x, y); st(x, o); st(y, p); const %V z(x); x = y; st(z, q);', lambda I: {'o': I.b, 'p': I.a, 'q': I.b}, outs='o:V p:V q:V'))
        # reads
        L.append(hv('get', s, 'a:V i:i32', 'const %V& ca = a; *o = a[i]; *p = ca[i];', lambda I: (ix(I, 'i'), {'o': [sel(I.i[0], I.a)], 'p': [sel(I.i[0], I.a)]})[1], outs='o:E p:E'))
        L.append(hv('getall', s, 'a:V', 'const %V& ca = a; [&]<std::size_t... Is>(std::index_sequence<Is...>) { ((o[Is] = a[Is]), ...); ((p[Is] = ca[Is]), ...); }(std::make_index_sequence<%N>());', lambda I: {'o': I.a, 'p': I.a}, outs='o:V p:V'))
        L.append(hv('getcomp', s, 'a:V b:V i:i32', 'auto r = a + b; *o = (a + b)[i]; *p = r[i];' , lambda I: (ix(I, 'i'), {'o': [sel(I.i[0], zips(add, I.a, I.b))], 'p': [sel(I.i[0], zips(add, I.a, I.b))]})[1], outs='o:E p:E'))
        L.append(hv('mget', s, 'm:M i:i32', 'const %M& cm = m; *o = m[i]; *p = cm[i]; *q = (!m)[i];', lambda I: (ix(I, 'i'), {'o': [sel(I.i[0], I.m)], 'p': [sel(I.i[0], I.m)], 'q': [T.bnot(sel(I.i[0], I.m))]})[1], outs='o:bool p:bool q:bool'))
        L.append(hv('mgetall', s, 'm:M', 'const %M& ca = m; [&]<std::size_t... Is>(std::index_sequence<Is...>) { ((o[Is] = m[Is]), ...); ((p[Is] = ca[Is]), ...); }(std::make_index_sequence<%N>());', lambda I: {'o': I.m, 'p': I.m}, outs='o:M p:M'))
        # writes
        idxs = [('i', None)] + [('%d' % k, k) for k in sorted({0, n // 2, n - 1})]
        def W(nm, stm, f, decl='x:E', pre=None, outs='', rd=None):
            for k, (isrc, kc) in enumerate(idxs):
                if tier == 'quick' and kc is not None and nm not in ('set', 'add') and zlib.crc32(('%s%s%d%s' % (s.tag, nm, kc, s.arch)).encode()) % 3: continue
                def sp(I, kc=kc):
                    if kc is None: ix(I, 'i'); i = I.i[0]
                    else: i = T.const(32, kc)
                    x = I.x[0] if 'x:' in decl else None
                    if pre: pre(I, sel(i, I.a), x)
                    r = {'o': upd(i, I.a, lambda v: f(v, x))}
                    if rd: r['p'] = [rd(sel(i, I.a), x)]
                    return r
                L.append(hv('w%s_%s' % (nm, isrc), s, 'a:V ' + decl + (' i:i32' if kc is None else ''), stm.replace('%i', isrc) + ' st(a, o);', sp, outs='o:V ' + outs))
        W('set', 'a[%i] = x;', lambda v, x: x)
        W('add', 'a[%i] += x;', lambda v, x: add(v, x))
        W('sub', 'a[%i] -= x;', lambda v, x: sub(v, x))
        if w == 8 or tier != 'quick' or fp or s.tag[0] in 'np': W('mul', 'a[%i] *= x;', lambda v, x: mul(v, x))
        if fp: W('div', 'a[%i] /= x;', lambda v, x: T.fdiv(v, x))
        else:
            def dv(I, v, x):
                I.assume(T.bnot(T.eq(x, c(s, 0))))
                if issigned(e): I.assume(T.bnot(T.band(T.eq(x, c(s, -1)), T.eq(v, c(s, 1 << (w - 1))))))
            if w <= 16:
                W('div', 'a[%i] /= x;', lambda v, x: (T.sdiv if issigned(e) else T.udiv)(v, x), pre=dv)
            W('and', 'a[%i] &= x;', lambda v, x: T.band(v, x))
            W('or', 'a[%i] |= x;', lambda v, x: T.bor(v, x))
            W('xor', 'a[%i] ^= x;', lambda v, x: T.bxor(v, x))
            W('shl', 'a[%i] <<= x;', lambda v, x: T.shl(v, x), pre=lambda I, v, x: I.assume(T.ult(x, c(s, w))))
            W('shr', 'a[%i] >>= x;', lambda v, x: (T.ashr if issigned(e) else T.lshr)(v, x), pre=lambda I, v, x: I.assume(T.ult(x, c(s, w))))
        W('inc', '++a[%i];', lambda v, x: add(v, one), decl='')
        W('dec', '--a[%i];', lambda v, x: sub(v, one), decl='')
        W('pinc', '*p = a[%i]++;', lambda v, x: add(v, one), decl='', outs='p:E', rd=lambda v, x: v)
        W('pdec', '*p = a[%i]--;', lambda v, x: sub(v, one), decl='', outs='p:E', rd=lambda v, x: v)
        W('setint', 'a[%i] = 7;', lambda v, x: num(7), decl='')
        W('rhs', 'a[%i] = a[0] + x;'.replace('a[0] + x', 'static_cast<%E>(a[0])'), lambda v, x: v, decl='x:E') if n == 1 else None
        def W2(nm, body, spec, decl='a:V i:i32 j:i32', outs='o:V'):
            L.append(hv(nm, s, decl, body, lambda I: (ix(I, 'i', 'j'), spec(I))[1], outs=outs))
        def swp(I):
            i, j = I.i[0], I.j[0]; x, y = sel(i, I.a), sel(j, I.a)
            return {'o': [T.ite(T.eq(i, T.const(32, k)), y, T.ite(T.eq(j, T.const(32, k)), x, v)) for k, v in enumerate(I.a)]}
        if n <= 16:
            W2('swap', 'swap(a[i], a[j]); st(a, o);', swp)
            W2('cpy', 'a[i] = %E(a[j]); st(a, o);' if ' ' not in t else 'a[i] = static_cast<%E>(a[j]); st(a, o);', lambda I: {'o': upd(I.i[0], I.a, lambda v: sel(I.j[0], I.a))})
            W2('w2', 'a[i] = x; a[j] += x; st(a, o);', lambda I: {'o': upd(I.j[0], upd(I.i[0], I.a, lambda v: I.x[0]), lambda v: add(v, I.x[0]))}, decl='a:V i:i32 j:i32 x:E')
        W2('swapc', 'swap(a[0], a[%N - 1]); st(a, o);', lambda I: {'o': [I.a[-1]] + list(I.a[1:-1]) + [I.a[0]] if n > 1 else I.a}, decl='a:V i:i32 j:i32')
        L.append(hv('swapv', s, 'a:V i:i32 x:E', '%E y = x; swap(y, a[i]); *p = y; st(a, o); %E z = x; swap(a[i], z); *q = z;', lambda I: (ix(I, 'i'), {'p': [sel(I.i[0], I.a)], 'o': upd(I.i[0], I.a, lambda v: I.x[0]), 'q': [I.x[0]]})[1], outs='o:V p:E q:E'))
        # mask elements
        def MW(nm, stm, f):
            for isrc, kc in idxs:
                def sp(I, kc=kc):
                    if kc is None: ix(I, 'i'); i = I.i[0]
                    else: i = T.const(32, kc)
                    return {'k': upd(i, I.m, lambda v: f(v, I.x[0]))}
                L.append(hv('m%s_%s' % (nm, isrc), s, 'm:M x:bool' + (' i:i32' if kc is None else ''), stm.replace('%i', isrc) + ' m.copy_to(k, element_aligned);', sp, outs='k:M'))
        MW('set', 'm[%i] = x;', lambda v, x: x)
        MW('and', 'm[%i] &= x;', lambda v, x: T.band(v, x))
        MW('or', 'm[%i] |= x;', lambda v, x: T.bor(v, x))
        MW('xor', 'm[%i] ^= x;', lambda v, x: T.bxor(v, x))
        L.append(hv('mswap', s, 'm:M i:i32 j:i32', 'swap(m[i], m[j]); m.copy_to(k, element_aligned);', lambda I: (ix(I, 'i', 'j'), {'k': [T.ite(T.eq(I.i[0], T.const(32, k)), sel(I.j[0], I.m), T.ite(T.eq(I.j[0], T.const(32, k)), sel(I.i[0], I.m), v)) for k, v in enumerate(I.m)]})[1], outs='k:M')) if n <= 16 else None
        L.append(hv('msetcount', s, 'm:M x:bool i:i32', 'm[i] = x; *r = popcount(m); *k = all_of(m); *k2 = none_of(m);', lambda I: (ix(I, 'i'), (lambda ms: {'r': [T_sum(ms)], 'k': [T.conj(ms)], 'k2': [T.bnot(T.disj(ms))]})(upd(I.i[0], I.m, lambda v: I.x[0])))[1], outs='r:i32 k:bool k2:bool'))
        if tier == 'quick' and s.tag[0] in 'cqhf': L = [h for h in L if pick(h, s, 2)]
        if tier == 'quick' and s.arch in ('ssse3', 'sse4'): L = [h for h in L if pick(h, s, 2, 'x')]
        return L
    return gen
def T_sum(ms):
    r = T.const(32, 0)
    for m in ms: r = T.add(r, T.zext(m, 32))
    return r
def tus(tier): return groups(tier, 'C18', gen_for(tier), flags=('-std=gnu++2a',))
