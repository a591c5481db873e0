from .common import *
META = dict(timeouts={'t_bv': 10000}, bounds='all values of all N elements and all masks of the listed instantiations; integer reductions exact modulo 2^w; floating-point sums and products up to the order of the operations (interpreted in an arbitrary commutative group of 2^w elements, in which the neutral constant is the group identity); hmin/hmax exact for operands that are not NaN; -O2',
    assumptions=['floating-point + and * are treated as arbitrary commutative and associative operations (the order of the operations is unspecified)', 'hmin/hmax: no NaN operand'],
    outside=['rounding differences between orders of a floating-point reduction'])

class NotAbs(KeyError): pass
def abst(op, w):
    """FP term -> group element: `op` becomes +, its neutral constants become 0"""
    ident = {T.f2b(0.0, w), T.f2b(-0.0, w)} if op == 'fadd' else {T.f2b(1.0, w)}
    memo = {}
    def A(t):
        if t in memo: return memo[t]
        if t.op == op: r = T.add(A(t.a[0]), A(t.a[1]))
        elif t.op == 'ite': r = T.ite(t.a[0], A(t.a[1]), A(t.a[2]))
        elif t.op == 'const': r = T.const(w, 0) if t.v in ident else T.var(w, 'K%x' % t.v)
        elif t.op == 'and' and len(t.a) == 2 and any(m.op == 'rep' for m in t.a):
            m = [m for m in t.a if m.op == 'rep'][0]; x = [x for x in t.a if x is not m][0]
            r = T.ite(T.bit(m, 0), A(x), T.const(w, 0) if op == 'fadd' else T.var(w, 'K0'))
        else:
            if any(x.op in ('fadd', 'fmul', 'fsub', 'fdiv', 'ffma') for x in T.reach([t])): r = T.undef(w)
            else: r = t
        memo[t] = r
        return r
    return A
def abscmp(op):
    def cmp(got, exp):
        if T.isc(got) and T.isc(exp):
            return T.FALSE() if T.b2f(got.v, got.w) != T.b2f(exp.v, exp.w) else T.TRUE()
        A = abst(op, got.w)
        return T.eq(A(got), A(exp))
    return cmp
class Other(Exception): pass
def order_keys(t, w, inf):
    """comparison network over non-NaN floats -> the same network over integers: the order of
    the non-NaN values (the zeros identified) embeds into the integers"""
    memo = {}
    def A(t):
        if t in memo: return memo[t]
        if t.op in ('flt', 'fle', 'feq'):
            x, y = A(t.a[0]), A(t.a[1])
            r = T.slt(x, y) if t.op == 'flt' else T.sle(x, y) if t.op == 'fle' else T.eq(x, y)
        elif t.op == 'ite': r = T.ite(B(t.a[0]), A(t.a[1]), A(t.a[2]))
        elif t.op == 'const':
            if t.v == inf: r = T.const(w, (1 << (w - 1)) - 1)
            elif t.v == inf | 1 << (w - 1): r = T.const(w, 1 << (w - 1))
            else: raise Other()
        elif t.op == 'var': r = t
        else: raise Other()
        memo[t] = r
        return r
    def B(c):
        if c.op in ('flt', 'fle', 'feq'): return A(c)
        if c.op == 'not': return T.bnot(B(c.a[0]))
        if c.op == 'and': return T.band(B(c.a[0]), B(c.a[1]))
        if c.op == 'or': return T.bor(B(c.a[0]), B(c.a[1]))
        if c.op in ('var', 'const') and c.w == 1: return c
        raise Other()
    return A(t)
def exact_env(h, rng, base):
    """inputs for which every order of the operations gives the same, exact result"""
    mulh = h.name.startswith(('mul', 'mmul'))
    for k in base:
        if k.startswith('init_') or k[:2] == 'm_': continue
        w = h.ew
        base[k] = T.f2b(rng.choice([-2.0, 2.0, 1.0, -1.0, 0.5, -0.5]) if mulh else float(rng.randint(-60, 60)), w)
    return base

def fold(f, xs):
    # balanced, so that terms stay shallow
    xs = list(xs)
    while len(xs) > 1: xs = [f(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]

def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w; n = s.n
        fp = isfp(e)
        masks = [('', None, '')]
        def add(nm, call, mcall, f, ident, idc, absop=None):
            """f folds the elements; ident the identity value"""
            def mkh(name, decl, body, spec):
                h = hv(name, s, decl, body, spec, outs='o:E', cmp={'o': abscmp(absop)} if absop else None)
                if absop: h.env = exact_env; h.ew = w
                L.append(h)
            mkh(nm, 'a:V', '*o = %s;' % call, lambda I: {'o': [f(I.a)]})
            if mcall:
                mkh('m' + nm, 'a:V m:M', '*o = %s;' % mcall.replace('%W', 'stdx::where(m, a)'), lambda I: {'o': [f([T.ite(m, a, c(w, idc)) for m, a in zip(I.m, I.a)])]})
                mkh('mc' + nm, 'a:V m:M', 'const %%V ca = a; *o = %s;' % mcall.replace('%W', 'stdx::where(!m, ca)'), lambda I: {'o': [f([T.ite(m, c(w, idc), a) for m, a in zip(I.m, I.a)])]})
        if fp:
            one = T.f2b(1.0, w)
            fs = lambda xs: fold(T.fadd, xs); fm = lambda xs: fold(T.fmul, xs)
            add('sum', 'reduce(a)', 'reduce(%W)', fs, 0, 0, 'fadd')
            add('sump', 'reduce(a, std::plus<>())', 'reduce(%W, std::plus<>())', fs, 0, 0, 'fadd')
            add('mul', 'reduce(a, std::multiplies<>())', 'reduce(%W, std::multiplies<>())', fm, 1, one, 'fmul')
            add('sumu', 'reduce(a, [](auto x, auto y) { return x + y; })', 'reduce(%W, static_cast<%E>(0), [](auto x, auto y) { return x + y; })', fs, 0, 0, 'fadd')
            add('mulu', 'reduce(a, [](auto x, auto y) { return y * x; })', 'reduce(%W, static_cast<%E>(1), [](auto x, auto y) { return y * x; })', fm, 0, one, 'fmul')
        else:
            fa = lambda xs: fold(T.add, xs)
            add('sum', 'reduce(a)', 'reduce(%W)', fa, 0, 0)
            add('sump', 'reduce(a, std::plus<%E>())' if False else 'reduce(a, std::plus<>())', 'reduce(%W, std::plus<>())', fa, 0, 0)
            add('mul', 'reduce(a, std::multiplies<>())', 'reduce(%W, std::multiplies<>())', lambda xs: fold(T.mul, xs), 0, 1)
            add('and', 'reduce(a, std::bit_and<>())', 'reduce(%W, std::bit_and<>())', lambda xs: fold(T.band, xs), 0, -1)
            add('or', 'reduce(a, std::bit_or<>())', 'reduce(%W, std::bit_or<>())', lambda xs: fold(T.bor, xs), 0, 0)
            add('xor', 'reduce(a, std::bit_xor<>())', 'reduce(%W, std::bit_xor<>())', lambda xs: fold(T.bxor, xs), 0, 0)
            add('sumu', 'reduce(a, [](auto x, auto y) { return x + y; })', 'reduce(%W, static_cast<%E>(0), [](auto x, auto y) { return x + y; })', fa, 0, 0)
            # counts the combinations: N elements are combined by exactly N - 1 applications
            add('sum1', 'reduce(a, [](auto x, auto y) { return x + y + 1; })', 'reduce(%W, static_cast<%E>(-1), [](auto x, auto y) { return x + y + 1; })', lambda xs: T.add(fa(xs), c(w, len(xs) - 1)), 0, -1)
            add('xnor', 'reduce(a, [](auto x, auto y) { return ~(x ^ y); })', 'reduce(%W, static_cast<%E>(-1), [](auto x, auto y) { return ~(x ^ y); })',
                lambda xs: fold(lambda p, q: T.bnot(T.bxor(p, q)), xs), 0, -1)
        # hmin / hmax: the result bounds every selected element and is one of them
        def minmax(fn):
            if fp:
                le = T.fle; inf = T.f2b(float('inf'), w); big = {32: 0x7f7fffff, 64: 0x7fefffffffffffff}[w]
                empties = [inf, big] if fn == 'hmin' else [inf | 1 << (w - 1), big | 1 << (w - 1)]
                eqf = T.feq
            else:
                lt = T.slt if issigned(e) else T.ult
                le = lambda a, b, lt=lt: T.bnot(lt(b, a)); eqf = T.eq
                mx = (1 << (w - 1)) - 1 if issigned(e) else (1 << w) - 1; mn = 1 << (w - 1) if issigned(e) else 0
                empties = [mx if fn == 'hmin' else mn]
            mnf = (lambda a, b, le=le: T.ite(le(a, b), a, b)) if fn == 'hmin' else (lambda a, b, le=le: T.ite(le(a, b), b, a))
            def spec(I, masked, neg=False, mnf=mnf, empties=empties):
                if fp:
                    for x in I.a: I.assume(T.bnot(T.fisnan(x)))
                xs = list(I.a)
                if masked:
                    ms = [T.bnot(m) for m in I.m] if neg else list(I.m)
                    xs = [T.ite(m, x, c(w, empties[0])) for m, x in zip(ms, xs)]
                r = fold(mnf, xs)
                return {'o': [r]}
            def ccmp(got, exp):
                if not T.isc(got):
                    try:
                        g, x = T.canon([order_keys(t, w, inf) for t in (got, exp)])
                        return T.eq(g, x)
                    except Other: pass
                return eqf(got, exp)
            def mk(name, decl, body, masked, neg=False):
                cmp = {'o': ccmp} if fp else None
                def sp(I):
                    if masked and fp: I.assume(T.disj([T.bnot(m) for m in I.m] if neg else list(I.m)))
                    return spec(I, masked, neg)
                L.append(hv(name, s, decl, body, sp, outs='o:E', cmp=cmp))
            mk(fn, 'a:V', '*o = %s(a);' % fn, False)
            # 16 and more signed bytes without pminsb: the masked network is beyond the solver's reach
            if e == 'i8' and s.arch in ('sse2', 'ssse3') and n > 8: return
            mk('m' + fn, 'a:V m:M', '*o = %s(stdx::where(m, a));' % fn, True)
            mk('mc' + fn, 'a:V m:M', 'const %%V ca = a; *o = %s(stdx::where(!m, ca));' % fn, True, True)
            if fp:
                def spe(I, empties=empties):
                    for m in I.m: I.assume(T.bnot(m))
                    return {'o': [None]}
                h = hv('e' + fn, s, 'a:V m:M', '*o = %s(stdx::where(m, a)); *k = *o == %s%s || *o == %s%s;' % (fn, '-' if fn == 'hmax' else '', 'std::numeric_limits<%E>::max()', '-' if fn == 'hmax' else '', 'std::numeric_limits<%E>::infinity()'),
                       lambda I, spe=spe: dict(spe(I), k=[T.TRUE()]), outs='o:E k:bool')
                L.append(h)
        minmax('hmin'); minmax('hmax')
        if not fp:
            for h in L: h.canon = True
        if tier == 'quick':
            # quick: a rotating part of the masked functions and of the intermediate instruction sets
            def k(h):
                nm = h.name.split('__')[0]; r = 1
                if s.arch in ('ssse3', 'sse4', 'avx'): r *= 2
                if nm[:2] == 'mc' or nm in ('sump', 'sumu', 'xnor'): r *= 2
                if s.tag[0] in 'qcfh': r *= 2
                if s.tag[0] in 'qf' and nm in ('mand', 'mor', 'mcand', 'mcor') and not fp: r *= 4
                if 'hm' in nm and w == 16 and s.arch in ('sse2', 'ssse3') and e == 'u16' and s.tag[0] in 'nf': r = 10 ** 9
                return r
            L = [h for h in L if pick(h, s, k(h))]
        return L
    return gen
def tus(tier): return groups(tier, 'C13', gen_for(tier), split=110)
