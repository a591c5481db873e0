"""Harness description, TU generation, compilation, symbolic run, replay."""
import os, re, subprocess, sys, time, json, tempfile, shutil, random, ctypes, traceback, hashlib
from . import terms as T
from . import rtl, rexec, solve

REPO = os.environ.get('VERIF_REPO', '/repo')

ELEM = {  # name: (C type, bits, kind)
    'i8': ('signed char', 8, 's'), 'u8': ('unsigned char', 8, 'u'), 'i16': ('short', 16, 's'), 'u16': ('unsigned short', 16, 'u'),
    'i32': ('int', 32, 's'), 'u32': ('unsigned int', 32, 'u'), 'i64': ('long', 64, 's'), 'u64': ('unsigned long', 64, 'u'),
    'f32': ('float', 32, 'f'), 'f64': ('double', 64, 'f'), 'bool': ('bool', 8, 'b'),
    'c8': ('char', 8, 's'), 'ill': ('long long', 64, 's'), 'ull': ('unsigned long long', 64, 'u'),
    'wc': ('wchar_t', 32, 's'), 'c16': ('char16_t', 16, 'u'), 'c32': ('char32_t', 32, 'u'),
}
def ctype(e): return ELEM[e][0]
def bits(e): return ELEM[e][1]
def kind(e): return ELEM[e][2]
def isfp(e): return ELEM[e][2] == 'f'
def issigned(e): return ELEM[e][2] == 's'

ARCHS = {
    'sse2': ('-march=x86-64', 'sse2', 16, 16),
    'ssse3': ('-march=core2', 'ssse3', 16, 16),
    'sse4': ('-march=nehalem', 'sse4_2', 16, 16),
    'avx': ('-march=sandybridge', 'avx', 16, 32),
    'avx2': ('-march=haswell', 'avx2', 32, 32),
    'avx512': ('-march=skylake-avx512', 'avx512bw', 64, 64),
    'knl': ('-march=knl -mno-avx512er -mno-avx512pf', 'avx512f', 64, 64),
}

def native_bytes(arch, e):
    _, _, ib, fb = ARCHS[arch]
    if isfp(e): return fb
    if arch == 'knl' and bits(e) < 32: return 32
    return ib

def host_supports(arch):
    try:
        fl = open('/proc/cpuinfo').read().split('flags')[1].split('\n')[0].split()
    except Exception:
        return False
    need = {'sse2': ['sse2'], 'ssse3': ['ssse3'], 'sse4': ['sse4_2', 'popcnt'], 'avx': ['avx'],
            'avx2': ['avx2', 'bmi1', 'bmi2', 'fma'],
            'avx512': ['avx512f', 'avx512bw', 'avx512dq', 'avx512vl', 'avx512cd'],
            'knl': ['avx512f', 'avx512cd']}[arch]
    return all(x in fl for x in need)

BASEFLAGS = ('-std=c++17 -O2 -w -fno-tree-vectorize -fno-tree-slp-vectorize -ffp-contract=off -fno-stack-protector '
             '-fcf-protection=none -fno-jump-tables -mno-fancy-math-387 -fno-math-errno -fno-exceptions -g0 -fno-ipa-icf').split()

PREAMBLE = r'''
#include <experimental/simd>
#include <cstdint>
#include <cmath>
#include <type_traits>
namespace stdx = std::experimental;
using stdx::element_aligned; using stdx::vector_aligned;
template <class V, class U> inline __attribute__((always_inline)) V ld(const U* p) { return V(p, stdx::element_aligned); }
template <class V, class U> inline __attribute__((always_inline)) void st(const V& v, U* p) { v.copy_to(p, stdx::element_aligned); }
'''

class Param:
    """dir: 'in' (const), 'out', 'inout'.  n elements of type e.
    aligned: byte alignment of the object (default: element only)"""
    def __init__(self, name, e, n, dir='in', align=None, size=None):
        self.name = name; self.e = e; self.n = n; self.dir = dir
        self.align = align or max(1, bits(e) // 8)
        self.n_alloc = n if size is None else size

class Harness:
    """name, C++ body, parameters, spec.

    spec(I) gets an Inputs object (I.<param> = list of lane terms, I.assume(t)) and
    returns {out param: [expected term or None, ...]}; extra obligations can be added
    with I.require(term, label)."""
    def __init__(self, name, body, params, spec, pre='', cmp=None, tags=None, noreplay=False, maxvisits=200):
        self.name = name; self.body = body; self.params = params; self.spec = spec
        self.pre = pre; self.cmp = cmp or {}; self.tags = tags or {}
        self.noreplay = noreplay; self.maxvisits = maxvisits
        self.canon = False  # compare modulo associativity and commutativity of + * min max
        self.env = None     # restricts random concrete inputs; then only such inputs are replayed
    def source(self):
        ps = []
        for p in self.params:
            c = 'const ' if p.dir == 'in' else ''
            ps.append('%s%s* %s' % (c, ctype(p.e), p.name))
        return '%s\nextern "C" void %s(%s) { %s }\n' % (self.pre, self.name, ', '.join(ps), self.body)

class Inputs:
    def __init__(self):
        self._assume = []
        self._require = []
        self._lanes = {}
    def assume(self, t): self._assume.append(t)
    def require(self, t, label): self._require.append((t, label))

class TU:
    def __init__(self, name, arch, harnesses, flags=(), pre=''):
        self.name = name; self.arch = arch; self.harnesses = harnesses; self.flags = list(flags); self.pre = pre
    def cost(self): return len(self.harnesses)
    def source(self, only=None):
        hs = self.harnesses if only is None else [h for h in self.harnesses if h.name in only]
        return PREAMBLE + self.pre + '\n'.join(h.source() for h in hs)

def gxx_cmd(tu, src, extra):
    march = ARCHS[tu.arch][0].split()
    return ['g++'] + BASEFLAGS + march + tu.flags + ['-I' + REPO] + extra + [src]

# later passes would drop constant-pool entries that the analysed code refers to
KEEP = ['-fdisable-rtl-' + p for p in ('cse1', 'cse_local', 'fwprop1', 'cse2', 'combine', 'dse1', 'fwprop2', 'ud_dce', 'jump', 'cprop1', 'cprop2', 'cprop3')]

class CompileError(Exception): pass

def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def compile_rtl(tu, d, only=None):
    src = os.path.join(d, 'tu.cpp')
    open(src, 'w').write(tu.source(only))
    for f in os.listdir(d):
        if f.endswith('.vregs'): os.unlink(os.path.join(d, f))
    rc, out = run(gxx_cmd(tu, 'tu.cpp', ['-S', '-o', 'tu.s', '-fdump-rtl-vregs', '-fdump-noaddr'] + KEEP), d)
    if rc: raise CompileError(out)
    dump = [f for f in os.listdir(d) if f.endswith('.vregs')]
    if not dump: raise CompileError('no RTL dump produced')
    return open(os.path.join(d, dump[0])).read(), open(os.path.join(d, 'tu.s')).read()

def compile_so(tu, d, only=None, extra=(), name='tu.so'):
    src = os.path.join(d, 'so.cpp')
    open(src, 'w').write(tu.source(only))
    rc, out = run(gxx_cmd(tu, 'so.cpp', ['-shared', '-fPIC', '-o', name, '-lm'] + list(extra)), d)
    if rc: raise CompileError(out)
    return os.path.join(d, name)

def bad_harnesses(tu, d, names):
    """bisect compile failures; returns {name: message}"""
    bad = {}
    t0 = time.time()
    def go(ns):
        if not ns: return
        if bad and time.time() - t0 > 90:
            skipped.extend(ns); return
        open(os.path.join(d, 'b.cpp'), 'w').write(tu.source(set(ns)))
        rc, out = run(gxx_cmd(tu, 'b.cpp', ['-S', '-o', '/dev/null', '-O0']), d)
        if rc == 0: return
        if len(ns) == 1:
            m = [l for l in out.split('\n') if 'error' in l]
            bad[ns[0]] = (m[0] if m else out[:300]); return
        k = len(ns) // 2
        go(ns[:k]); go(ns[k:])
    skipped = []
    go(list(names))
    for n in skipped: bad[n] = None
    return bad

# ------------------------------------------------------------------ symbolic run
def setup(ex, h):
    """create parameter objects; returns Inputs, pointer terms"""
    I = Inputs()
    ptrs = []
    for p in h.params:
        b = bits(p.e) // 8
        # misalign as much as the parameter's documented alignment permits
        mis = p.align if p.align < 64 else 0
        o = ex.new_obj(p.name, p.n_alloc * b, p.align, misalign=mis, writable=p.dir != 'in')
        k = ex.nobj
        lanes = []
        m = ex.st.mem[k]
        if p.dir in ('in', 'inout'):
            for i in range(p.n):
                nm = '%s%d' % (p.name, i)
                if kind(p.e) == 'b':
                    v = T.var(1, nm); t = T.zext(v, 8); lanes.append(v)
                else:
                    t = T.var(bits(p.e), nm); lanes.append(t)
                for j in range(b): m[i * b + j] = (t, j)
        else:
            for i in range(p.n_alloc):
                t = T.var(8 * b, 'init_%s%d' % (p.name, i))
                lanes.append(t)
                for j in range(b): m[i * b + j] = (t, j)
        p_obj = (k, o)
        setattr(I, p.name, lanes); setattr(I, p.name.rstrip('_'), lanes)
        I._lanes[p.name] = (p, k, o, lanes)
        ptrs.append(T.const(64, o.base))
    return I, ptrs

def same(e, got, exp):
    """equality as observed through element type e"""
    if isfp(e):
        return T.bor(T.eq(got, exp), T.band(T.fisnan(got), T.fisnan(exp)))
    return T.eq(got, exp)

class Obligation:
    """cond: violation condition conjoined with the assumptions that share variables with
    it (transitively); full: conjoined with every assumption"""
    __slots__ = ('harness', 'label', 'cond', 'full')
    def __init__(self, h, label, cond, full=None):
        self.harness = h; self.label = label; self.cond = cond; self.full = cond if full is None else full

class Assumptions:
    def __init__(self, ts):
        self.items = [(t, {v.v for v in T.variables([t])}) for t in ts]
        self.all = T.conj(ts)
        # connected components of variables
        comps = []
        for t, vs in self.items:
            hit = [c for c in comps if c[0] & vs]
            nv = set(vs); nt = [t]
            for c in hit:
                nv |= c[0]; nt = c[1] + nt; comps.remove(c)
            comps.append((nv, nt))
        self.comps = [(nv, T.conj(nt)) for nv, nt in comps]
    def relevant(self, cond):
        if not self.comps or T.isc(cond): return T.conj([])
        vs = {v.v for v in T.variables([cond])}
        return T.conj([t for nv, t in self.comps if nv & vs])
    def obligation(self, h, label, cond):
        return Obligation(h, label, T.band(self.relevant(cond), cond), T.band(self.all, cond))

def symbolic(ex, h):
    """run harness h; returns (Inputs, obligations, outputs)"""
    ex.reset()
    I, ptrs = setup(ex, h)
    expect = h.spec(I)
    ex.assumptions = list(I._assume)
    # run-time subscripts: inputs assumed to be below a small constant
    ex.ranges = {t.a[0].v: t.a[1].v for t in I._assume if t.op == 'ult' and t.a[0].op == 'var' and t.a[1].op == 'const' and t.a[1].v <= 300}
    for r, p in zip(rexec.INTARG, ptrs): ex.st.hard[r] = p
    ex.max_visits = h.maxvisits
    end = ex.run_function(h.name, ex.st.hard[rexec.SP])
    AS = Assumptions(I._assume)
    obs = []
    for c, k, loc in ex.viol:
        obs.append(AS.obligation(h, '%s (%s)' % (k, os.path.basename(loc)), c))
    outs = {}
    if end is None:
        obs.append(Obligation(h, 'function does not return', AS.all))
        return I, obs, outs
    ex.st = end
    for pname, exp in expect.items():
        p, k, o, lanes = I._lanes[pname]
        b = bits(p.e) // 8
        got = []
        for i in range(p.n_alloc):
            nv = len(ex.viol)
            t = ex._load_const(o.base + i * b, b)
            got.append(t)
        outs[pname] = got
        cmpk = h.cmp.get(pname)
        for i, x in enumerate(exp):
            if x is None: continue
            if kind(p.e) == 'b' and x.w == 1: x = T.zext(x, 8)
            if h.canon: got[i], x = T.canon([got[i], x])
            if h.canon and not cmpk and not isfp(p.e): g = T.bnot(T.ne_split(got[i], x))
            elif cmpk == 'bits': g = T.eq(got[i], x)
            elif callable(cmpk): g = cmpk(got[i], x)
            else: g = same(p.e, got[i], x)
            obs.append(AS.obligation(h, '%s[%d]' % (pname, i), T.bnot(g)))
    # a parameter not mentioned in `expect` must be untouched if it is writable
    for pname, (p, k, o, lanes) in I._lanes.items():
        if p.dir == 'in' or pname in expect: continue
        b = bits(p.e) // 8
        for i in range(p.n_alloc):
            t = ex._load_const(o.base + i * b, b)
            l = lanes[i]
            if l.w != t.w: l = T.zext(l, t.w)
            obs.append(AS.obligation(h, '%s[%d] untouched' % (pname, i), T.ne(t, l)))
    for t, label in I._require:
        obs.append(AS.obligation(h, label, T.bnot(t)))
    return I, obs, outs

# ------------------------------------------------------------------ native runs
RUNNER = r'''
import ctypes, json, sys, mmap
req = json.load(open(sys.argv[1]))
lib = ctypes.CDLL(req['so'])
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PG = 4096
class Buf:
    """size bytes ending (mode 'end') or starting (mode 'start') at a guard page"""
    def __init__(self, size, align, mode):
        n = (size + PG) // PG + 1
        self.base = libc.mmap(None, (n + 2) * PG, 3, 0x22, -1, 0)
        libc.mprotect(self.base, PG, 0)
        libc.mprotect(self.base + (n + 1) * PG, PG, 0)
        if mode == 'start': self.addr = self.base + PG
        elif mode == 'end': self.addr = self.base + (n + 1) * PG - size
        else: self.addr = self.base + PG + 64 + (align if align < 64 else 0)
        if mode == 'end' and self.addr % align: self.addr -= self.addr % align
        self.lo = self.base + PG; self.hi = self.base + (n + 1) * PG
        ctypes.memset(self.lo, 0xA5, self.hi - self.lo)
out = []
cache = {}
for case in req['cases']:
    f = getattr(lib, case['fn'])
    f.restype = None
    bufs = []
    for p in case['params']:
        key = (len(bufs), p['size'], p['align'], case['mode'])
        b = cache.get(key)
        if b is None: b = cache[key] = Buf(p['size'], p['align'], case['mode'])
        ctypes.memset(b.lo, 0xA5, b.hi - b.lo)
        data = bytes.fromhex(p['data'])
        ctypes.memmove(b.addr, data, len(data))
        bufs.append(b)
    f(*[ctypes.c_void_p(b.addr) for b in bufs])
    res = []
    for b, p in zip(bufs, case['params']):
        d = ctypes.string_at(b.addr, p['size'])
        before = ctypes.string_at(b.lo, b.addr - b.lo); after = ctypes.string_at(b.addr + p['size'], b.hi - b.addr - p['size'])
        res.append([d.hex(), int(before.strip(b'\xa5') != b'' or after.strip(b'\xa5') != b'')])
    print(json.dumps(res)); sys.stdout.flush()
'''

def native(so, cases, timeout=120):
    """run cases natively; returns list of results (None from a crash onward) and exit status"""
    d = tempfile.mkdtemp(prefix='nat')
    try:
        q = os.path.join(d, 'q.json'); r = os.path.join(d, 'r.py')
        json.dump({'so': so, 'cases': cases}, open(q, 'w'))
        open(r, 'w').write(RUNNER)
        try:
            p = subprocess.run(['python3', r, q], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=d)
            rc = p.returncode; out = p.stdout.decode()
        except subprocess.TimeoutExpired as ex:
            rc = -999; out = (ex.stdout or b'').decode()
        res = [json.loads(l) for l in out.split('\n') if l.startswith('[')]
        return res + [None] * (len(cases) - len(res)), rc
    finally:
        shutil.rmtree(d, ignore_errors=True)

def case_for(h, env, mode='mid'):
    ps = []
    for p in h.params:
        b = bits(p.e) // 8
        by = b''
        for i in range(p.n_alloc):
            if p.dir in ('in', 'inout'):
                v = env.get('%s%d' % (p.name, i), 0) if i < p.n else 0
                if kind(p.e) == 'b': v &= 1
            else: v = env.get('init_%s%d' % (p.name, i), 0)
            by += (v & ((1 << 8 * b) - 1)).to_bytes(b, 'little')
        ps.append({'size': len(by), 'align': p.align, 'data': by.hex()})
    return {'fn': h.name, 'params': ps, 'mode': mode}

def spec_eval(h, env):
    """expected outputs under env, from the spec alone; None if an assumption fails"""
    I = Inputs()
    for p in h.params:
        lanes = []
        for i in range(p.n if p.dir != 'out' else p.n_alloc):
            nm = ('%s%d' if p.dir != 'out' else 'init_%s%d') % (p.name, i)
            w = 1 if kind(p.e) == 'b' and p.dir != 'out' else bits(p.e)
            lanes.append(T.var(w, nm))
        setattr(I, p.name, lanes); setattr(I, p.name.rstrip('_'), lanes)
        I._lanes[p.name] = (p, None, None, lanes)
    exp = h.spec(I)
    terms = []; where = []
    for t in I._assume: terms.append(t); where.append(None)
    for pn, xs in exp.items():
        p = I._lanes[pn][0]
        for i, x in enumerate(xs):
            if x is None: continue
            terms.append(x); where.append((p, i))
    for pn, (p, _, _, lanes) in I._lanes.items():
        if p.dir == 'in' or pn in exp: continue
        for i, x in enumerate(lanes):
            terms.append(x); where.append((p, i))
    vals = T.evaluate(terms, env, ufs=native_uf)
    for t, w, v in zip(terms, where, vals):
        if w is None and not v: return None
    return [(w[0], w[1], Wide(v, t.w) if t.w > bits(w[0].e) else v) for t, w, v in zip(terms, where, vals) if w is not None]

class Wide(int):
    """an expectation wider than the element: the data of a relation (Harness.cmp)"""
    def __new__(cls, v, w):
        o = int.__new__(cls, v); o.w = w
        return o

_libm = None
def native_uf(name, w, a):
    global _libm
    if _libm is None: _libm = ctypes.CDLL('libm.so.6')
    m = re.match(r'libm\.([a-z0-9]+?)(?:\.([a-z]))?(32|64)$', name)
    if not m: return None
    fn, part, fw = m.group(1), m.group(2), int(m.group(3))
    ct = ctypes.c_float if fw == 32 else ctypes.c_double
    f = getattr(_libm, fn + ('f' if fw == 32 else ''))
    fb = lambda x: T.b2f(x, fw)
    if fn in ('frexp', 'modf', 'remquo'):
        pt = ct if fn == 'modf' else ctypes.c_int
        out = pt()
        f.restype = ct
        f.argtypes = [ct] * len(a) + [ctypes.POINTER(pt)]
        r = f(*[fb(x) for x in a], ctypes.byref(out))
        if part in ('e', 'q'): return out.value & 0xffffffff
        return T.f2b(r, fw)
    if fn in ('scalbn', 'scalbln'):
        f.restype = ct; it = ctypes.c_int if fn == 'scalbn' else ctypes.c_long
        f.argtypes = [ct, it]
        return T.f2b(f(fb(a[0]), T.sgn(a[1], 32 if fn == 'scalbn' else 64)), fw)
    if fn in ('lrint', 'llrint', 'lround', 'llround', 'ilogb'):
        f.restype = ctypes.c_long if w == 64 else ctypes.c_int; f.argtypes = [ct]
        return f(fb(a[0])) & ((1 << w) - 1)
    f.restype = ct; f.argtypes = [ct] * len(a)
    return T.f2b(f(*[fb(x) for x in a]), fw)

def compare_native(h, exp, res):
    """list of differences between native result and expectation"""
    diffs = []
    by = {p.name: bytes.fromhex(r[0]) for p, r in zip(h.params, res)}
    for p, i, v in exp:
        b = bits(p.e) // 8
        got = int.from_bytes(by[p.name][i * b:(i + 1) * b], 'little')
        c = h.cmp.get(p.name)
        if isinstance(v, Wide):
            if not T.evaluate([c(T.const(8 * b, got), T.const(v.w, v))], {})[0]: diffs.append((p.name, i, got, v))
            continue
        ok = got == v
        if not ok and isfp(p.e) and c != 'bits':
            ok = T._isnan(got, 8 * b) and T._isnan(v, 8 * b)
        if not ok and callable(c):
            ok = bool(T.evaluate([c(T.const(8 * b, got), T.const(8 * b, v))], {})[0])
        if not ok: diffs.append((p.name, i, got, v))
    for p, r in zip(h.params, res):
        if r[1]: diffs.append((p.name, 'bytes outside the object were modified', 0, 0))
    return diffs

SPECIAL = {
    32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 1, 0x80000001, 0x007fffff,
         0x00800000, 0x7f7fffff, 0xff7fffff, 0x4b000000, 0x4effffff, 0x4f000000, 0x3f000000, 0xbf000000, 0x7f800001, 0x40200000, 0xc0200000],
    64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1,
         0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3fe0000000000000, 0xbfe0000000000000, 0x4330000000000000,
         0x43dfffffffffffff, 0x43e0000000000000, 0x4004000000000000, 0xc004000000000000, 0x7ff0000000000001]}

def isbool(h, k):
    return any(kind(p.e) == 'b' and re.fullmatch(re.escape(p.name) + r'\d+', k) for p in h.params)

def random_env(h, rng):
    env = {}
    for p in h.params:
        w = bits(p.e)
        for i in range(p.n_alloc):
            nm = ('%s%d' if p.dir != 'out' else 'init_%s%d') % (p.name, i)
            k = kind(p.e)
            if k == 'b': v = rng.getrandbits(1)
            elif k == 'f':
                c = rng.random()
                if c < 0.3: v = rng.choice(SPECIAL[w])
                elif c < 0.6: v = T.f2b(rng.uniform(-100, 100) if rng.random() < .5 else float(rng.randint(-9, 9)) / 2, w)
                else: v = rng.getrandbits(w)
            else:
                c = rng.random()
                if c < 0.25: v = rng.choice([0, 1, -1, 1 << (w - 1), (1 << (w - 1)) - 1, 2, -2])
                elif c < 0.5: v = rng.randint(-20, 20)
                else: v = rng.getrandbits(w)
            env[nm] = v & ((1 << w) - 1)
    if h.env: env = h.env(h, rng, env)
    return env
