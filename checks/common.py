"""Types, ABIs and spec helpers shared by the property checks."""
import zlib
from engine import terms as T
from engine.harness import *

INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
FPS = ['f32', 'f64']
ALLT = INTS + FPS
X86 = ['sse2', 'ssse3', 'sse4', 'avx', 'avx2', 'avx512', 'knl']
QUICK_ARCH = ['sse2', 'sse4', 'avx', 'avx2', 'avx512', 'knl']

class Simd:
    """one simd instantiation: C++ type, element, number of lanes"""
    def __init__(self, arch, e, abi, n, tag):
        self.arch = arch; self.e = e; self.n = n; self.tag = tag; self.abi = abi
        t = ctype(e)
        self.cpp = {'native': 'stdx::native_simd<%s>' % t, 'compat': 'stdx::simd<%s>' % t,
                    'fixed': 'stdx::fixed_size_simd<%s, %d>' % (t, n),
                    'scalar': 'stdx::simd<%s, stdx::simd_abi::scalar>' % t,
                    'deduce': 'stdx::simd<%s, stdx::simd_abi::deduce_t<%s, %d>>' % (t, t, n),
                    }[abi]
    @property
    def w(self): return bits(self.e)
    def pre(self):
        return 'using V_%s = %s; static_assert(V_%s::size() == %d);\nusing M_%s = V_%s::mask_type;\n' % (self.tag, self.cpp, self.tag, self.n, self.tag, self.tag)
    @property
    def V(self): return 'V_' + self.tag
    @property
    def M(self): return 'M_' + self.tag

def simds(arch, e, tier='quick', kinds=None):
    """instantiations to cover for element e on arch"""
    nb = native_bytes(arch, e)
    n = nb * 8 // bits(e)
    c = 128 // bits(e)
    out = [Simd(arch, e, 'native', n, 'n_' + e)]
    if c != n: out.append(Simd(arch, e, 'compat', c, 'c_' + e))
    seen = {n, c}
    # a partially filled register
    if bits(e) == 64:
        p = 3 if nb > 16 else None
    else:
        p = 3
    if p: out.append(Simd(arch, e, 'deduce', p, 'p_' + e))
    # wide partial (not a power of two) just below native
    if n - 1 not in (p, 1) and n > 2 and n - 1 > c: out.append(Simd(arch, e, 'deduce', n - 1, 'q_' + e))
    if n > 2 * c: out.append(Simd(arch, e, 'deduce', n // 2, 'h_' + e))
    # fixed_size composed of several parts: full + partial
    f = min(32, n + c // 2 + 1) if n + c // 2 + 1 <= 32 else 32
    if f < n: f = 31
    out.append(Simd(arch, e, 'fixed', f, 'f_' + e))
    out.append(Simd(arch, e, 'scalar', 1, 's_' + e))
    if kinds: out = [s for s in out if s.tag[0] in kinds]
    return out

def zips(f, *ls): return [f(*x) for x in zip(*ls)]

def hv(name, s, decl, body, spec, outs='o:V', **kw):
    """harness on Simd `s`.  decl: 'a:V b:V m:M x:E n:i32' inputs (V lanes, M mask, E one
    element, or an element type name for one scalar); body may use a, b, ... directly and
    must fill the out parameters listed in `outs` (o:V pointer to n elements, k:M pointer to
    n bool, r:E one element, or r:type)."""
    ps = []; load = []
    def sized(t):
        if t == 'V': return s.e, s.n
        if t == 'M': return 'bool', s.n
        if t == 'E': return s.e, 1
        if '*' in t:
            a, b = t.split('*'); return (s.e if a == 'E' else a), int(b)
        return t, 1
    for d in decl.split():
        nm, t = d.split(':')
        io = nm.startswith('&')
        nm = nm.lstrip('&')
        e, n = sized(t)
        ps.append(Param(nm + '_', e, n, 'inout' if io else 'in'))
        if t == 'V': load.append('%s %s = ld<%s>(%s_);' % (s.V, nm, s.V, nm))
        elif t == 'M': load.append('%s %s(%s_, stdx::element_aligned);' % (s.M, nm, nm))
        elif '*' not in t and not io: load.append('const %s %s = *%s_;' % (ctype(e), nm, nm))
    for d in outs.split():
        nm, t = d.split(':')
        e, n = sized(t)
        ps.append(Param(nm, e, n, 'out'))
    src = ' '.join(load) + ' ' + body.replace('%V', s.V).replace('%M', s.M).replace('%E', ctype(s.e)).replace('%N', str(s.n))
    return Harness('%s__%s' % (name, s.tag), src, ps, spec, **kw)

def groups(tier, prop, gen, archs=None, types=(('i8', 'u8'), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64'), ('f32',), ('f64',)), kinds=None, flags=(), suffix='', split=170, pre=''):
    """TUs: gen(s) -> list of harnesses for each Simd s"""
    out = []
    for arch in (archs or X86):
        for g in types:
            hs = []; pr = pre; k = 0
            ss = []
            for e in g:
                ss += simds(arch, e, tier, kinds)
            def flush():
                nonlocal hs, k
                if hs:
                    out.append(TU('%s_%s_%s%s%s' % (prop, arch, g[0], '_%d' % k if k else '', suffix), arch, hs, flags=flags, pre=pre + ''.join(x.pre() for x in ss)))
                    k += 1
                hs = []
            for s in ss:
                l = gen(s)
                if hs and len(hs) + len(l) > split: flush()
                hs = hs + l
            flush()
    return out

def pick(h, s, k, salt=''):
    """deterministic selection of one in `k` harnesses (quick tier)"""
    return k <= 1 or zlib.crc32((h.name + s.arch + salt).encode()) % k == 0

def c(s_or_w, v):
    w = s_or_w if isinstance(s_or_w, int) else s_or_w.w
    return T.const(w, v)

def fpconst(w, x): return T.const(w, T.f2b(x, w))

def in_range(x, e2):
    """the scalar conversion of floating-point x to integer type e2 is defined"""
    w = x.w; b = bits(e2)
    if issigned(e2): lo = -(2.0 ** (b - 1)); hi = 2.0 ** (b - 1)
    else: lo = 0.0; hi = 2.0 ** b
    if w == 32 and b > 23 or b > 52: ok = T.fle(fpconst(w, lo), x) if lo else T.flt(fpconst(w, -1.0), x)
    else: ok = T.flt(fpconst(w, lo - 1), x)
    return T.band(ok, T.flt(x, fpconst(w, hi)))

def convt(x, e1, e2):
    """static_cast of a value of type e1 to e2 (defined ones only)"""
    w2 = bits(e2)
    k1, k2 = kind(e1), kind(e2)
    if k1 == 'b': return T.zext(x, w2) if k2 != 'f' else T.u2f(x, w2)
    if k1 != 'f':
        if k2 == 'f': return T.s2f(x, w2) if k1 == 's' else T.u2f(x, w2)
        if w2 <= x.w: return T.ext(x, 0, w2)
        return T.sext(x, w2) if k1 == 's' else T.zext(x, w2)
    if k2 == 'f': return T.fcvt(x, w2)
    if k2 == 'u' and w2 == 64: return T.f2u(x, 64)
    if w2 == 32 and k2 == 'u': return T.ext(T.f2s(x, 64), 0, 32)
    if w2 == 64: return T.f2s(x, 64)
    return T.ext(T.f2s(x, 32), 0, w2)

def conv(I, xs, e1, e2, sel=None):
    """lane-wise static_cast, assumed to be defined (for selected lanes)"""
    if isfp(e1) and not isfp(e2):
        for i, x in enumerate(xs):
            ok = in_range(x, e2)
            I.assume(ok if sel is None else T.bor(T.bnot(sel[i]), ok))
    return [convt(x, e1, e2) for x in xs]
