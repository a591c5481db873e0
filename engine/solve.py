"""Discharging obligations over the term DAG with z3."""
import time, os, hashlib
import z3
from . import terms as T

FPOPS = {'fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'fround', 'fcvt', 's2f', 'u2f', 'f2s', 'f2u', 'fscalef', 'fgetmant'}
EXACT = {'fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'fround', 'fcvt', 's2f', 'u2f', 'f2s', 'f2u'}

_sorts = {}
def fps(w):
    if w not in _sorts:
        _sorts[w] = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}[w]
    return _sorts[w]

RM = {}
def rm(m):
    if not RM:
        RM.update(RNE=z3.RNE(), RTN=z3.RTN(), RTP=z3.RTP(), RTZ=z3.RTZ(), RNA=z3.RNA())
    return RM[m]

def uses(roots):
    s = set()
    for t in T.reach(roots):
        if t.op in FPOPS or t.op in ('flt', 'fle', 'feq', 'uf'): s.add(t.op)
    return s

_ctx = z3.main_ctx()
_C = _ctx.ref()
import sys
_core = sys.modules["z3.z3core"]
class _Lib:
    def __getattr__(self, n):
        f = getattr(_core, n).__defaults__[-1].f
        setattr(self, n, f)
        return f
_L = _Lib()
_inc = _L.Z3_inc_ref; _dec = _L.Z3_dec_ref
_Ast = _core.Ast
_bvsort = {}
def bvsort(w):
    r = _bvsort.get(w)
    if r is None:
        r = _bvsort[w] = z3.BitVecSort(w)
    return r.ast

_BIN = {'and': _L.Z3_mk_bvand, 'or': _L.Z3_mk_bvor, 'xor': _L.Z3_mk_bvxor, 'add': _L.Z3_mk_bvadd, 'sub': _L.Z3_mk_bvsub,
        'shl': _L.Z3_mk_bvshl, 'lshr': _L.Z3_mk_bvlshr, 'ashr': _L.Z3_mk_bvashr}
_ITE = _L.Z3_mk_ite; _NOT = _L.Z3_mk_not; _EQ = _L.Z3_mk_eq; _EXT = _L.Z3_mk_extract; _CAT = _L.Z3_mk_concat
_AND = _L.Z3_mk_and; _OR = _L.Z3_mk_or; _XOR = _L.Z3_mk_xor; _NUM = _L.Z3_mk_numeral

class Conv:
    """term -> z3 expression.  exact=False leaves FP arithmetic uninterpreted.  Goes straight to
    the C interface (conversion is the dominating cost); expressions stay cached for the life
    of the object."""
    def __init__(self, exact=False, mulsplit=False, divuf=False):
        self.divuf = divuf
        self.exact = exact
        self.mulsplit = mulsplit
        self.m = {}     # term id -> raw bit-vector ast (reference held)
        self.b = {}     # term id -> raw Boolean ast of 1-bit terms

    def __del__(self):
        for d in (self.m, self.b):
            for r in d.values(): _dec(_C, r)

    def size(self): return len(self.m)

    def bv(self, t):
        self._go(t)
        return z3.BitVecRef(self._rv(t), _ctx)

    def bool(self, t):
        assert t.w == 1
        self._go(t)
        return z3.BoolRef(self._rb(t), _ctx)

    # wrapped access for the rare operations
    def _v(self, t): return z3.BitVecRef(self._rv(t), _ctx)

    def _num(self, w, v):
        r = _NUM(_C, str(v).encode(), bvsort(w))
        return r

    def _keep(self, d, i, r):
        if not r: raise z3.Z3Exception(_core.Z3_get_error_msg(_C, _core.Z3_get_error_code(_C)))
        r = _Ast(r) if not isinstance(r, _Ast) else r
        _inc(_C, r)
        d[i] = r
        return r

    def _one(self):
        k = self.m.get(0)
        if k is None: k = self._keep(self.m, 0, self._num(1, 1))
        return k
    def _zero(self):
        k = self.m.get(-1)
        if k is None: k = self._keep(self.m, -1, self._num(1, 0))
        return k

    def _rb(self, t):
        r = self.b.get(t.id)
        if r is None:
            r = self._keep(self.b, t.id, _EQ(_C, self.m[t.id], self._one()))
        return r

    def _rv(self, t):
        r = self.m.get(t.id)
        if r is None:
            r = self._keep(self.m, t.id, _ITE(_C, self.b[t.id], self._one(), self._zero()))
        return r

    def _go(self, t):
        m = self.m; b = self.b
        if t.id in m or t.id in b: return
        st = [t]
        order = []
        seen = set()
        while st:
            x = st.pop()
            i = x.id
            if i in seen or i in m or i in b: continue
            seen.add(i); order.append(x)
            st.extend(x.a)
        order.sort(key=lambda x: x.id)
        for x in order: self._conv(x)

    def _uf(self, name, t):
        dom = [z3.BitVecSort(x.w) for x in t.a]
        f = z3.Function(name, *dom, z3.BitVecSort(t.w))
        return f(*[self._v(x) for x in t.a])

    def _fp(self, x):
        return z3.fpBVToFP(self._v(x), fps(x.w))

    def _conv(self, t):
        op = t.op; a = t.a; w = t.w; rv = self._rv; rb = self._rb
        if op == 'const':
            if w == 1: self._keep(self.b, t.id, _L.Z3_mk_true(_C) if t.v else _L.Z3_mk_false(_C))
            else: self._keep(self.m, t.id, self._num(w, t.v))
            return
        if w == 1:
            B = None
            if op == 'not': B = _NOT(_C, rb(a[0]))
            elif op == 'and': B = _AND(_C, 2, (_Ast * 2)(rb(a[0]), rb(a[1])))
            elif op == 'or': B = _OR(_C, 2, (_Ast * 2)(rb(a[0]), rb(a[1])))
            elif op == 'xor': B = _XOR(_C, rb(a[0]), rb(a[1]))
            elif op == 'ite': B = _ITE(_C, rb(a[0]), rb(a[1]), rb(a[2]))
            elif op == 'eq': B = _EQ(_C, rv(a[0]), rv(a[1]))
            elif op == 'ult': B = _L.Z3_mk_bvult(_C, rv(a[0]), rv(a[1]))
            elif op == 'slt': B = _L.Z3_mk_bvslt(_C, rv(a[0]), rv(a[1]))
            elif op in ('flt', 'fle', 'feq'):
                e = fcmp_bits(op, self._v(a[0]), self._v(a[1]), a[0].w)
                B = e.as_ast()
            if B is not None:
                self._keep(self.b, t.id, B)
                return
        f = _BIN.get(op)
        if f is not None: R = f(_C, rv(a[0]), rv(a[1]))
        elif op == 'ext': R = _EXT(_C, t.v + w - 1, t.v, rv(a[0]))
        elif op == 'ite': R = _ITE(_C, rb(a[0]), rv(a[1]), rv(a[2]))
        elif op == 'cat':
            # balanced, so that references need not be held for long
            xs = [rv(x) for x in a]
            R = xs[-1]
            tmp = []
            for x in reversed(xs[:-1]):
                R = _CAT(_C, R, x); _inc(_C, R); tmp.append(R)
            self._keep(self.m, t.id, R)
            for x in tmp: _dec(_C, x)
            return
        elif op == 'not': R = _L.Z3_mk_bvnot(_C, rv(a[0]))
        elif op == 'neg': R = _L.Z3_mk_bvneg(_C, rv(a[0]))
        else:
            e = self._slow(t)
            self._keep(self.m, t.id, e.as_ast())
            return
        self._keep(self.m, t.id, R)

    def _slow(self, t):
        op = t.op; a = t.a; w = t.w
        if op == 'var': r = z3.BitVec(t.v, w)
        elif op == 'rep':
            r = z3.If(z3.BoolRef(self._rb(a[0]), _ctx), z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
        elif op == 'mul':
            if self.mulsplit and w == 64 and a[1].op != 'const': r = self._mul_split(self._v(a[0]), self._v(a[1]))
            elif self.mulsplit and w == 32 and a[1].op != 'const': r = z3.Extract(31, 0, self._mul_split(z3.ZeroExt(32, self._v(a[0])), z3.ZeroExt(32, self._v(a[1]))))
            else: r = self._v(a[0]) * self._v(a[1])
        elif op in ('divx', 'udivx'):
            if self.divuf: r = self._uf('%s%d' % (op, w), t)
            elif op == 'divx':
                x, y = z3.SignExt(1, self._v(a[0])), z3.SignExt(1, self._v(a[1]))
                r = z3.If(y == 0, z3.BitVecVal(0, w), x / y)
            else:
                x, y = self._v(a[0]), self._v(a[1])
                r = z3.If(y == 0, z3.BitVecVal(0, w), z3.UDiv(x, y))
        elif op == 'popcount':
            x = self._v(a[0])
            r = popcnt(x, t.v, w)
        elif op == 'ctz':
            x = self._v(a[0])
            r = z3.BitVecVal(t.v, w)
            for i in range(t.v - 1, -1, -1):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
        elif op == 'clz':
            x = self._v(a[0])
            r = z3.BitVecVal(t.v, w)
            for i in range(t.v):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(t.v - 1 - i, w), r)
        elif op == 'uf': r = self._uf(t.v, t)
        elif op in FPOPS:
            if not self.exact or op not in EXACT:
                r = self._uf('%s.%s.%s.%d' % (op, t.v, '.'.join(str(x.w) for x in a), w), t)
            else:
                r = self._exact(t)
        else:
            raise NotImplementedError(op)
        return r

    def _mul_split(self, x, y):
        """x*y mod 2^64 = L(xl,yl) + 2^32 (L(xl,yh) + L(xh,yl)) with L the full 32x32 product,
        left uninterpreted (but commutative and zero-absorbing)"""
        def half(v, i): return z3.simplify(z3.Extract(32 * i + 31, 32 * i, v))
        def L(p, q):
            if z3.is_bv_value(p) and p.as_long() == 0 or z3.is_bv_value(q) and q.as_long() == 0:
                return z3.BitVecVal(0, 64)
            if p.get_id() > q.get_id(): p, q = q, p
            f = z3.Function('mul32x32', z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64))
            return f(p, q)
        xl, xh, yl, yh = half(x, 0), half(x, 1), half(y, 0), half(y, 1)
        return L(xl, yl) + ((L(xl, yh) + L(xh, yl)) << 32)

    def _exact(self, t):
        op = t.op; a = t.a; w = t.w
        R = z3.RNE()
        if op == 'fadd': f = z3.fpAdd(R, self._fp(a[0]), self._fp(a[1]))
        elif op == 'fmul': f = z3.fpMul(R, self._fp(a[0]), self._fp(a[1]))
        elif op == 'fdiv': f = z3.fpDiv(R, self._fp(a[0]), self._fp(a[1]))
        elif op == 'fsqrt': f = z3.fpSqrt(R, self._fp(a[0]))
        elif op == 'ffma': f = z3.fpFMA(R, self._fp(a[0]), self._fp(a[1]), self._fp(a[2]))
        elif op == 'fround': return fround_bits(self._v(a[0]), t.v, w)
        elif op == 'fcvt': f = z3.fpFPToFP(R, self._fp(a[0]), fps(w))
        elif op == 's2f': f = z3.fpSignedToFP(R, self._v(a[0]), fps(w))
        elif op == 'u2f': f = z3.fpUnsignedToFP(R, self._v(a[0]), fps(w))
        elif op in ('f2s', 'f2u'):
            x = self._fp(a[0]); fw = a[0].w
            m = rm(t.v or 'RTZ')
            S = fps(fw)
            rx = z3.fpBVToFP(fround_bits(self._v(a[0]), t.v or 'RTZ', fw), S)
            if op == 'f2s':
                lo = z3.FPVal(-(2.0 ** (w - 1)), S); hi = z3.FPVal(2.0 ** (w - 1), S)
                ok = z3.And(z3.fpGEQ(rx, lo), z3.fpLT(rx, hi))
                return z3.If(ok, z3.fpToSBV(m, x, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
            lo = z3.FPVal(0.0, S); hi = z3.FPVal(2.0 ** w, S)
            ok = z3.And(z3.fpGEQ(rx, lo), z3.fpLT(rx, hi))
            return z3.If(ok, z3.fpToUBV(m, x, z3.BitVecSort(w)), z3.BitVecVal(-1, w))
        return z3.fpToIEEEBV(f)

def fp_axioms(c, term):
    """facts that hold for the IEEE results of the fadd, fmul and fsqrt nodes of term"""
    out = []
    for t in T.reach([term]):
        if t.op not in ('fadd', 'fmul', 'fsqrt'): continue
        w = t.w; mb = T.MB[w]; eb = T.EB[w]; bias = (1 << (eb - 1)) - 1
        C = lambda v: z3.BitVecVal(v, w)
        INF = C(((1 << eb) - 1) << mb)
        mag = lambda v: v & C((1 << (w - 1)) - 1)
        nan = lambda v: z3.UGT(mag(v), INF)
        inf = lambda v: mag(v) == INF
        zero = lambda v: mag(v) == 0
        neg = lambda v: z3.Extract(w - 1, w - 1, v) == 1
        r = c._v(t); a = c._v(t.a[0]); b = c._v(t.a[1]) if len(t.a) > 1 else None
        if t.op == 'fsqrt':
            bad = z3.Or(nan(a), z3.And(neg(a), z3.Not(zero(a))))
            out += [nan(r) == bad, z3.Implies(z3.Or(zero(a), a == INF), r == a),
                    z3.Implies(z3.And(z3.Not(bad), z3.Not(zero(a))), z3.And(z3.Not(neg(r)), z3.Not(zero(r)))),
                    z3.Implies(z3.And(z3.Not(bad), z3.Not(inf(a))), z3.Not(inf(r)))]
        elif t.op == 'fmul':
            bad = z3.Or(nan(a), nan(b), z3.And(zero(a), inf(b)), z3.And(inf(a), zero(b)))
            out += [nan(r) == bad, z3.Implies(z3.Not(bad), neg(r) == z3.Xor(neg(a), neg(b))),
                    z3.Implies(z3.And(z3.Not(bad), z3.Or(inf(a), inf(b))), inf(r)),
                    z3.Implies(z3.And(z3.Not(bad), z3.Or(zero(a), zero(b))), zero(r)),
                    z3.Implies(z3.And(z3.Not(bad), z3.ULE(mag(b), C(bias << mb))), z3.ULE(mag(r), mag(a))),
                    z3.Implies(z3.And(z3.Not(bad), z3.ULE(mag(a), C(bias << mb))), z3.ULE(mag(r), mag(b)))]
            # scaling by a power of two without over- or underflow only changes the exponent
            for p, q in ((a, b), (b, a)):
                mq = mag(q); eq = z3.LShR(mq, mb); ep = z3.LShR(mag(p), mb)
                pow2 = z3.Or(z3.And(mq & C((1 << mb) - 1) == 0, eq != 0, eq != C((1 << eb) - 1)), mq == C(1 << (mb - 1)))
                e = ep + eq - C(bias)
                ok = z3.And(pow2, ep != 0, ep != C((1 << eb) - 1), e >= C(1), e <= C((1 << eb) - 2))
                out.append(z3.Implies(ok, mag(r) == ((mag(p) & C((1 << mb) - 1)) | (e << mb))))
        else:
            bad = z3.Or(nan(a), nan(b), z3.And(inf(a), inf(b), neg(a) != neg(b)))
            same = z3.And(z3.Not(bad), neg(a) == neg(b))
            out += [nan(r) == bad, z3.Implies(same, z3.And(neg(r) == neg(a), z3.UGE(mag(r), mag(a)), z3.UGE(mag(r), mag(b)))),
                    z3.Implies(z3.And(zero(a), z3.Not(zero(b)), z3.Not(nan(b))), r == b),
                    z3.Implies(z3.And(zero(b), z3.Not(zero(a)), z3.Not(nan(a))), r == a),
                    z3.Implies(z3.And(zero(a), zero(b)), zero(r)),
                    z3.Implies(z3.And(z3.Not(bad), z3.Or(inf(a), inf(b))), inf(r))]
    return out

def fround_bits(x, mode, w):
    """roundToIntegral on the bit pattern"""
    mb = T.MB[w]; eb = T.EB[w]; bias = (1 << (eb - 1)) - 1
    C = lambda v: z3.BitVecVal(v, w)
    neg = z3.Extract(w - 1, w - 1, x) == 1
    mag = x & C((1 << (w - 1)) - 1)
    sign = x & C(1 << (w - 1))
    E = z3.LShR(mag, mb)
    k = C(bias + mb) - E                     # fraction bits, for bias <= E < bias + mb
    one = C(1) << k
    frac = mag & (one - 1)
    tr = mag & ~(one - 1)
    half = z3.LShR(one, 1)
    fnz = frac != 0
    small = z3.ULT(E, C(bias))
    snz = mag != 0
    shalf = C((bias - 1) << mb)
    if mode == 'RTZ': inc = sinc = z3.BoolVal(False)
    elif mode == 'RTN': inc = z3.And(neg, fnz); sinc = z3.And(neg, snz)
    elif mode == 'RTP': inc = z3.And(z3.Not(neg), fnz); sinc = z3.And(z3.Not(neg), snz)
    elif mode == 'RNA': inc = z3.UGE(frac, half); sinc = z3.UGE(mag, shalf)
    else:
        # the integer is odd iff its last bit is set (for k == mb the hidden bit: odd)
        odd = z3.Or((mag & one) != 0, k == C(mb))
        inc = z3.Or(z3.UGT(frac, half), z3.And(frac == half, fnz, odd)); sinc = z3.UGT(mag, shalf)
    r = z3.If(small, z3.If(sinc, C(bias << mb), C(0)), z3.If(inc, tr + one, tr)) | sign
    big = z3.UGE(E, C(bias + mb))
    nan = z3.UGT(mag, C(((1 << eb) - 1) << mb))
    return z3.If(big, z3.If(nan, C(T.QNAN[w]), x), r)

def popcnt(x, n, w):
    parts = [z3.ZeroExt(w - 1, z3.Extract(i, i, x)) if w > 1 else z3.Extract(i, i, x) for i in range(n)]
    while len(parts) > 1:
        parts = [parts[i] + parts[i + 1] if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
    return parts[0]

def fcmp_bits(op, x, y, w):
    mb = T.MB[w]; eb = T.EB[w]
    def nan(v):
        return z3.And(z3.Extract(w - 2, mb, v) == z3.BitVecVal(-1, eb), z3.Extract(mb - 1, 0, v) != 0)
    mx = z3.Extract(w - 2, 0, x); my = z3.Extract(w - 2, 0, y)
    sx = z3.Extract(w - 1, w - 1, x) == 1; sy = z3.Extract(w - 1, w - 1, y) == 1
    bz = z3.And(mx == 0, my == 0)
    num = z3.And(z3.Not(nan(x)), z3.Not(nan(y)))
    eqv = z3.Or(x == y, bz)
    if op == 'feq': return z3.And(num, eqv)
    lt = z3.If(sx, z3.If(sy, z3.ULT(my, mx), z3.Not(bz)), z3.If(sy, z3.BoolVal(False), z3.ULT(mx, my)))
    if op == 'flt': return z3.And(num, lt)
    return z3.And(num, z3.Or(lt, eqv))

def canon(root):
    """alpha-normalised key of a term"""
    nodes = T.reach([root])
    # order by DFS from the root so that variable numbering is position-independent
    idx = {}; out = []; vn = {}
    st = [(root, 0)]
    while st:
        t, i = st.pop()
        if t.id in idx: continue
        if i < len(t.a):
            st.append((t, i + 1))
            c = t.a[i]
            if c.id not in idx: st.append((c, 0))
            continue
        if t.op == 'var':
            k = vn.setdefault(t.v, len(vn))
            out.append(('v', t.w, k))
        else:
            out.append((t.op, t.w, t.v) + tuple([idx[c.id] for c in t.a]))
        idx[t.id] = len(out) - 1
    return hashlib.sha256(repr(out).encode()).digest(), vn

class Result:
    __slots__ = ('status', 'model', 'tier', 'time')
    def __init__(self, status, model=None, tier='', time=0.0):
        self.status = status; self.model = model; self.tier = tier; self.time = time

class Solver:
    """status: 'unsat' (obligation holds), 'sat' + model, 'unknown'"""
    def __init__(self, t_bv=20000, t_uf=10000, t_fp=60000, lost_max=60):
        self.lost = 0.0; self.lost_max = lost_max      # seconds spent on queries without an answer
        self.t_bv = t_bv; self.t_uf = t_uf; self.t_fp = t_fp
        self.cache = {}
        self.stats = {'queries': 0, 'cache_hits': 0, 'z3_time': 0.0, 'feasibility': 0, 'tiers': {}}
        self.convs = {}

    def conv(self, **kw):
        k = tuple(sorted(kw.items()))
        c = self.convs.get(k)
        if c is None or c.size() > 400000:
            c = self.convs[k] = Conv(**kw)
        return c

    def _check(self, e, timeout, logic=None):
        if self.lost > self.lost_max: timeout = min(timeout, 1500)
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', timeout)
        s.add(e)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['z3_time'] += dt
        if r == z3.unknown: self.lost += dt
        return str(r), (s.model() if r == z3.sat else None), dt

    def _model(self, m, term):
        d = {}
        for v in T.variables([term]):
            x = m.eval(z3.BitVec(v.v, v.w), model_completion=True)
            d[v.v] = x.as_long()
        return d

    def solve(self, term):
        """is 1-bit `term` satisfiable?"""
        key, vn = canon(term)
        r = self.cache.get(key)
        if r is not None:
            self.stats['cache_hits'] += 1
            res, vn0 = r
            if res.status == 'sat' and res.model is not None:
                inv = {k: n for n, k in vn0.items()}
                m = {n: res.model.get(inv[k], 0) for n, k in vn.items()}
                return Result('sat', m, res.tier, 0.0)
            return Result(res.status, None, res.tier, 0.0)
        res = self._solve(term)
        self.cache[key] = (res, vn)
        self.stats['tiers'][res.tier + ':' + res.status] = self.stats['tiers'].get(res.tier + ':' + res.status, 0) + 1
        return res

    HARD = {'divx', 'udivx', 'fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'fround', 'fcvt', 's2f', 'u2f', 'f2s', 'f2u', 'mul'}
    def _split(self, term):
        """case split on a few Boolean inputs (mask elements) in front of hard operators"""
        nodes = T.reach([term])
        if not any(t.op in self.HARD for t in nodes): return None
        vs = {}
        for t in nodes:
            if t.op == 'ite' and t.w > 1 and t.a[0].op == 'var': vs[t.a[0].v] = t.a[0]
        vs = list(vs.values())
        if not 1 <= len(vs) <= 2: return None
        out = []
        for k in range(1 << len(vs)):
            env = {v.v: T.const(1, k >> i & 1) for i, v in enumerate(vs)}
            t, = T.subst([term], env)
            if T.is0(t): continue
            r = self.solve(t)
            if r.status != 'unsat':
                if r.model is not None:
                    m = dict(r.model)
                    m.update({n: x.v for n, x in env.items()})
                    r = Result(r.status, m, r.tier, r.time)
                if r.status == 'sat': return r
                out.append(r)
        if out: return out[0]
        return Result('unsat', None, 'split', 0.0)

    def _solve(self, term):
        r = self._split(term)
        if r is not None: return r
        if any(t.op == 'mul' and t.w == 64 and t.a[1].op != 'const' for t in T.reach([term])):
            c = self.conv(mulsplit=True)
            st, m, dt = self._check(c.bool(term), min(self.t_bv, 10000), 'QF_UFBV')
            if st == 'unsat': return Result('unsat', None, 'uf-mul', dt)
        if any(t.op in ('divx', 'udivx') for t in T.reach([term])):
            c = self.conv(divuf=True, mulsplit=True)
            st, m, dt = self._check(c.bool(term), min(self.t_bv, 10000), 'QF_UFBV')
            if st == 'unsat': return Result('unsat', None, 'uf-div', dt)
        u = uses([term])
        fpu = u & FPOPS
        t0 = time.time()
        if not fpu and 'uf' not in u:
            c = self.conv()
            st, m, dt = self._check(c.bool(term), self.t_bv, 'QF_BV')
            if st == 'sat': return Result('sat', self._model(m, term), 'bv', dt)
            return Result('unsat' if st == 'unsat' else 'unknown', None, 'bv', dt)
        c = self.conv()
        st, m, dt = self._check(c.bool(term), self.t_uf, 'QF_UFBV')
        if st == 'unsat': return Result('unsat', None, 'uf', dt)
        ufmodel = self._model(m, term) if m is not None else None
        if 'fsqrt' in fpu:
            # sound facts about the IEEE operations instead of their circuits
            st, m2, dt = self._check(z3.And(c.bool(term), *fp_axioms(c, term)), self.t_fp, 'QF_UFBV')
            if st == 'unsat': return Result('unsat', None, 'fpax', dt)
            if m2 is not None: ufmodel = self._model(m2, term)
        if fpu and not (fpu - EXACT):
            c = self.conv(exact=True)
            e = c.bool(term)
            st, m, dt = self._check(e, self.t_fp)
            if st == 'unsat': return Result('unsat', None, 'fp', dt)
            if st == 'sat': return Result('sat', self._model(m, term), 'fp', dt)
            return Result('unknown', ufmodel, 'fp', dt)
        if st == 'sat':
            return Result('sat' if not fpu else 'maybe', ufmodel, 'uf', dt)
        return Result('unknown', ufmodel, 'uf', dt)

    # feasibility oracle for the executor
    def feasible(self, conds):
        t = T.conj(conds)
        if t.op == 'const': return bool(t.v)
        self.stats['feasibility'] += 1
        r = self.solve(t)
        if r.status == 'unsat': return False
        if r.status in ('sat', 'maybe'): return True
        return None

    def model(self, conds, term):
        t = T.conj(conds)
        if T.is0(t): return None
        c = self.conv()
        s = z3.Solver(); s.set('timeout', self.t_bv)
        s.add(c.bool(t))
        v = c.bv(term)
        r = s.check()
        self.stats['queries'] += 1
        if r == z3.unsat: return None
        if r != z3.sat: return 'unknown'
        return s.model().eval(v, model_completion=True).as_long()
