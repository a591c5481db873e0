"""Hash-consed bit-vector term DAG with normalising constructors.

Every term is a bit-vector of width w (booleans are 1-bit vectors).  The
constructors keep vector values as LSB-first ropes of independent chunks, so
that one lane of a SIMD register is a small term over that lane's inputs.
Children always have a smaller id than their parents, so sorting a reachable
set by id is a topological order."""

class T:
    __slots__ = ('op', 'w', 'a', 'v', 'id')
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = [0]

def reset():
    _tab.clear()
    _cnt[0] = 0
    _cache_const.clear()
    _ext_memo.clear()

def mk(op, w, a=(), v=None):
    key = (op, w, v) + tuple([x.id for x in a])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a; t.v = v
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t

_cache_const = {}
def const(w, v):
    v &= (1 << w) - 1
    return mk('const', w, (), v)

def var(w, name):
    return mk('var', w, (), name)

_undef = [0]
def undef(w):
    _undef[0] += 1
    return mk('var', w, (), 'undef!%d' % _undef[0])

def TRUE(): return const(1, 1)
def FALSE(): return const(1, 0)

def ones(w): return (1 << w) - 1
def isc(t): return t.op == 'const'
def is0(t): return t.op == 'const' and t.v == 0
def is1s(t): return t.op == 'const' and t.v == (1 << t.w) - 1

# ---------------------------------------------------------------- concat
def rep(b, n):
    """n copies of 1-bit term b"""
    assert b.w == 1
    if n == 1: return b
    if b.op == 'const':
        return const(n, ones(n) if b.v else 0)
    return mk('rep', n, (b,))

def _join(x, y):
    """try to merge two adjacent chunks (x low, y high); None if impossible"""
    xo = x.op; yo = y.op
    if xo == 'const':
        if yo == 'const':
            return const(x.w + y.w, x.v | (y.v << x.w))
        return None
    if xo == 'ext':
        if yo == 'ext' and x.a[0] is y.a[0] and y.v == x.v + x.w:
            return ext(x.a[0], x.v, x.w + y.w)
    xb = x.a[0] if xo == 'rep' else (x if x.w == 1 else None)
    if xb is not None:
        yb = y.a[0] if yo == 'rep' else (y if y.w == 1 else None)
        if xb is yb:
            return rep(xb, x.w + y.w)
    if xo == 'ite' and yo == 'ite' and x.a[0] is y.a[0]:
        a = _join(x.a[1], y.a[1])
        if a is not None:
            b = _join(x.a[2], y.a[2])
            if b is not None:
                return ite(x.a[0], a, b)
    if xo == 'not' and yo == 'not':
        a = _join(x.a[0], y.a[0])
        if a is not None and not (a.op == 'rep'):
            return bnot(a)
    if xo == yo and xo in ('and', 'or', 'xor') and x.w + y.w <= 64:
        for i, j in ((0, 1), (1, 0)):
            a = _join(x.a[0], y.a[i])
            if a is not None and a.op != 'cat':
                b = _join(x.a[1], y.a[j])
                if b is not None and b.op != 'cat':
                    return mk(xo, x.w + y.w, _sort2(a, b))
    return None

def cat(parts):
    """concatenate, least significant first"""
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            while out:
                j = _join(out[-1], q)
                if j is None: break
                out.pop()
                if j.op == 'cat':
                    # join never produces a cat from non-cats except defensively
                    out.extend(j.a[:-1]); q = j.a[-1]
                    break
                q = j
            out.append(q)
    if len(out) == 1:
        return out[0]
    return mk('cat', sum([p.w for p in out]), tuple(out))

def ext(t, lo, w):
    tw = t.w
    if lo == 0 and w == tw: return t
    assert 0 <= lo and w > 0 and lo + w <= tw, (lo, w, tw)
    op = t.op
    if op == 'const':
        return const(w, t.v >> lo)
    if op == 'ite' or op == 'and' or op == 'or' or op == 'xor' or op == 'not':
        key = (t.id, lo, w)
        r = _ext_memo.get(key)
        if r is None:
            if op == 'ite':
                r = ite(t.a[0], ext(t.a[1], lo, w), ext(t.a[2], lo, w))
            elif op == 'not': r = bnot(ext(t.a[0], lo, w))
            else:
                r = (band if op == 'and' else bor if op == 'or' else bxor)(ext(t.a[0], lo, w), ext(t.a[1], lo, w))
            _ext_memo[key] = r
        return r
    if op == 'cat':
        out = []
        pos = 0
        hi = lo + w
        for p in t.a:
            pe = pos + p.w
            if pe > lo:
                if pos >= hi: break
                s = lo - pos if lo > pos else 0
                e = p.w if pe <= hi else hi - pos
                out.append(ext(p, s, e - s))
            pos = pe
        return out[0] if len(out) == 1 else cat(out)
    if op == 'rep':
        return rep(t.a[0], w)
    if op == 'ext':
        return ext(t.a[0], t.v + lo, w)
    if op == 'mul' and lo == 0 and all(x.op == 'const' or x.op == 'cat' and x.a[0].w == w or is0(ext(x, w, tw - w)) for x in t.a):
        return mul(ext(t.a[0], 0, w), ext(t.a[1], 0, w))
    return mk('ext', w, (t,), lo)

_ext_memo = {}

def zext(t, w):
    if t.w == w: return t
    if t.w > w: return ext(t, 0, w)
    return cat((t, const(w - t.w, 0)))

def sext(t, w):
    if t.w == w: return t
    if t.w > w: return ext(t, 0, w)
    return cat((t, rep(msb(t), w - t.w)))

def msb(t): return ext(t, t.w - 1, 1)
def bit(t, i): return ext(t, i, 1)

def lanes(t, lw):
    return [ext(t, i, lw) for i in range(0, t.w, lw)]

# ---------------------------------------------------------------- bitwise
def _sort2(a, b):
    return (a, b) if a.id <= b.id else (b, a)

def _bounds(t, s):
    pos = 0
    for p in t.a:
        pos += p.w
        s.add(pos)

def _runs(v, w, s):
    # boundaries of runs of equal bits
    x = v ^ (v >> 1)
    x &= (1 << (w - 1)) - 1
    while x:
        low = x & -x
        s.add(low.bit_length())
        x ^= low

def _split_bits(f, a, b):
    """apply f chunkwise if a or b has structure; None otherwise"""
    w = a.w
    s = set()
    if a.op == 'cat': _bounds(a, s)
    if b.op == 'cat': _bounds(b, s)
    if b.op == 'const': _runs(b.v, w, s)
    if not s: return None
    s.add(w)
    pts = sorted(s)
    out = []
    lo = 0
    for p in pts:
        out.append(f(ext(a, lo, p - lo), ext(b, lo, p - lo)))
        lo = p
    return cat(out)

def bnot(a):
    op = a.op
    if op == 'const': return const(a.w, ~a.v)
    if op == 'not': return a.a[0]
    if op == 'cat': return cat([bnot(x) for x in a.a])
    if op == 'rep': return rep(bnot(a.a[0]), a.w)
    if op == 'ite' and (a.a[1].op == 'const' or a.a[2].op == 'const'):
        return ite(a.a[0], bnot(a.a[1]), bnot(a.a[2]))
    return mk('not', a.w, (a,))

def band(a, b):
    if a is b: return a
    if a.op == 'const': a, b = b, a
    w = a.w
    assert b.w == w, (a.w, b.w)
    if b.op == 'const':
        if b.v == 0: return b
        if b.v == (1 << w) - 1: return a
        if a.op == 'const': return const(w, a.v & b.v)
    r = None
    if a.op == 'cat' or b.op == 'cat' or b.op == 'const':
        r = _split_bits(band, a, b)
        if r is not None: return r
    if w > 1:
        if a.op == 'rep': return ite(a.a[0], b, const(w, 0))
        if b.op == 'rep': return ite(b.a[0], a, const(w, 0))
    if a.op == 'not' and a.a[0] is b or b.op == 'not' and b.a[0] is a:
        return const(w, 0)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], band(a.a[1], b.a[1]), band(a.a[2], b.a[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (is0(x.a[1]) or is0(x.a[2]) or is1s(x.a[1]) or is1s(x.a[2])):
            return ite(x.a[0], band(x.a[1], y), band(x.a[2], y))
        if x.op == 'and' and (x.a[0] is y or x.a[1] is y): return x
        if x.op == 'or' and (x.a[0] is y or x.a[1] is y): return y
        if w == 1 and x.op == 'and':
            # x = p & q ; y contradicts p or q
            ny = y.a[0] if y.op == 'not' else None
            for p in x.a:
                if ny is p or (p.op == 'not' and p.a[0] is y): return const(1, 0)
    if w == 1:
        x = _slice_eq(a)
        if x is not None:
            y = _slice_eq(b)
            if y is not None and x[0] is y[0]:
                # equalities of adjacent slices of one term
                if x[1] > y[1]: x, y = y, x
                if x[1] + x[2] == y[1]:
                    return eq(ext(x[0], x[1], x[2] + y[2]), const(x[2] + y[2], x[3] | y[3] << x[2]))
    return mk('and', w, _sort2(a, b))

def _slice_eq(t):
    """(term, lo, width, value) if t says that a slice of a wider atom has a constant value"""
    v = 1
    if t.op == 'not': t = t.a[0]; v = 0
    if t.op == 'ext': return t.a[0], t.v, 1, v
    if v and t.op == 'eq':
        for x, y in (t.a, t.a[::-1]):
            if y.op == 'const' and x.op == 'ext': return x.a[0], x.v, x.w, y.v
    return None

def bor(a, b):
    if a is b: return a
    if a.op == 'const': a, b = b, a
    w = a.w
    assert b.w == w, (a.w, b.w)
    if b.op == 'const':
        if b.v == 0: return a
        if b.v == (1 << w) - 1: return b
        if a.op == 'const': return const(w, a.v | b.v)
    if a.op == 'cat' or b.op == 'cat' or b.op == 'const':
        r = _split_bits(bor, a, b)
        if r is not None: return r
    if w > 1:
        if a.op == 'rep': return ite(a.a[0], const(w, -1), b)
        if b.op == 'rep': return ite(b.a[0], const(w, -1), a)
    if a.op == 'not' and a.a[0] is b or b.op == 'not' and b.a[0] is a:
        return const(w, -1)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], bor(a.a[1], b.a[1]), bor(a.a[2], b.a[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and w > 1 and (is0(x.a[1]) or is0(x.a[2]) or is1s(x.a[1]) or is1s(x.a[2])):
            return ite(x.a[0], bor(x.a[1], y), bor(x.a[2], y))
        if x.op == 'or' and (x.a[0] is y or x.a[1] is y): return x
        if x.op == 'and' and (x.a[0] is y or x.a[1] is y): return y
    if w == 1 and a.op == 'and' and b.op == 'and':
        # (p & c) | (p & ~c) = p
        for i in (0, 1):
            for j in (0, 1):
                if a.a[i] is b.a[j]:
                    p, q = a.a[1 - i], b.a[1 - j]
                    if (p.op == 'not' and p.a[0] is q) or (q.op == 'not' and q.a[0] is p):
                        return a.a[i]
    return mk('or', w, _sort2(a, b))

def bxor(a, b):
    if a is b: return const(a.w, 0)
    if a.op == 'const': a, b = b, a
    w = a.w
    assert b.w == w, (a.w, b.w)
    if b.op == 'const':
        if b.v == 0: return a
        if b.v == (1 << w) - 1: return bnot(a)
        if a.op == 'const': return const(w, a.v ^ b.v)
    if a.op == 'cat' or b.op == 'cat' or b.op == 'const':
        r = _split_bits(bxor, a, b)
        if r is not None: return r
    if a.op == 'rep' and b.op == 'rep': return rep(bxor(a.a[0], b.a[0]), w)
    if a.op == 'not' and b.op == 'not': return bxor(a.a[0], b.a[0])
    if a.op == 'not':
        return bnot(bxor(a.a[0], b))
    if b.op == 'not':
        return bnot(bxor(a, b.a[0]))
    for x, y in ((a, b), (b, a)):
        if w > 1 and x.op == 'rep': return ite(x.a[0], bnot(y), y)
        if x.op == 'xor':
            if x.a[0] is y: return x.a[1]
            if x.a[1] is y: return x.a[0]
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], bxor(a.a[1], b.a[1]), bxor(a.a[2], b.a[2]))
    return mk('xor', w, _sort2(a, b))

def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == 'const': return a if c.v else b
    if a is b: return a
    if c.op == 'not': c, a, b = c.a[0], b, a
    w = a.w
    if w == 1:
        if a.op == 'const':
            return bor(c, b) if a.v else band(bnot(c), b)
        if b.op == 'const':
            return bor(bnot(c), a) if b.v else band(c, a)
        if a is c: return bor(c, b)
        if b is c: return band(c, a)
    if a.op == 'ite' and a.a[0] is c: return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c: return ite(c, a, b.a[2])
    if a.op == 'rep' and a.a[0] is c: a = const(w, -1)
    if b.op == 'rep' and b.a[0] is c: b = const(w, 0)
    if a is b: return a
    if a.op == 'const' and b.op == 'const':
        d = a.v ^ b.v
        if d == (1 << w) - 1:
            if a.v == d: return rep(c, w)
            if a.v == 0: return rep(bnot(c), w)
        s = set()
        _runs(a.v, w, s); _runs(b.v, w, s)
        if s and len(s) <= 8 or w > 64:
            s.add(w)
            out = []; lo = 0
            for p in sorted(s):
                x = ext(a, lo, p - lo); y = ext(b, lo, p - lo)
                if x is y: out.append(x)
                elif x.v: out.append(rep(c, p - lo))
                else: out.append(rep(bnot(c), p - lo))
                lo = p
            return cat(out)
        return mk('ite', w, (c, a, b))
    if a.op == 'cat' or b.op == 'cat':
        s = set()
        if a.op == 'cat': _bounds(a, s)
        if b.op == 'cat': _bounds(b, s)
        s.add(w)
        out = []; lo = 0
        for p in sorted(s):
            out.append(ite(c, ext(a, lo, p - lo), ext(b, lo, p - lo)))
            lo = p
        # only keep split form if it is useful
        return cat(out)
    return mk('ite', w, (c, a, b))

def conj(xs):
    r = const(1, 1)
    for x in xs: r = band(r, x)
    return r

def disj(xs):
    r = const(1, 0)
    for x in xs: r = bor(r, x)
    return r

# ---------------------------------------------------------------- arithmetic
def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

def add(a, b):
    w = a.w
    assert b.w == w
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        if b.v == 0: return a
        if a.op == 'const': return const(w, a.v + b.v)
        if a.op == 'add' and a.a[1].op == 'const':
            return add(a.a[0], const(w, a.a[1].v + b.v))
        if b.v == 1 and a.op == 'rep': return zext(bnot(a.a[0]), w)
        # low zero bits of b: pass a's low chunk through
        if a.op == 'cat':
            tz = (b.v & -b.v).bit_length() - 1
            p = a.a[0]
            if p.op == 'const':
                r = p.v + (b.v & ones(p.w))
                return cat((const(p.w, r), add(ext(a, p.w, w - p.w), const(w - p.w, (b.v >> p.w) + (r >> p.w)))))
            if tz >= p.w:
                return cat((p, add(ext(a, p.w, w - p.w), const(w - p.w, b.v >> p.w))))
        return mk('add', w, (a, b))
    if a.op == 'neg' and a.a[0] is b: return const(w, 0)
    if b.op == 'neg' and b.a[0] is a: return const(w, 0)
    if a.op == 'cat' and is0(a.a[0]) or b.op == 'cat' and is0(b.a[0]):
        z = min(x.a[0].w if x.op == 'cat' and is0(x.a[0]) else w for x in (a, b))
        if z < w:
            # one operand has z low zero bits
            return cat((ext(b if (a.op == 'cat' and is0(a.a[0]) and a.a[0].w == z) else a, 0, z),
                        add(ext(a, z, w - z), ext(b, z, w - z))))
    # constants outermost, for reassociation
    if a.op == 'add' and a.a[1].op == 'const':
        return add(add(a.a[0], b), a.a[1])
    if b.op == 'add' and b.a[1].op == 'const':
        return add(add(a, b.a[0]), b.a[1])
    # disjoint bits -> or (address arithmetic)
    return mk('add', w, _sort2(a, b))

def neg(a):
    if a.op == 'const': return const(a.w, -a.v)
    if a.op == 'neg': return a.a[0]
    if a.w == 1: return a
    if a.op == 'rep':           # -(−c) = zext c
        return cat((a.a[0], const(a.w - 1, 0)))
    if a.op == 'cat' and len(a.a) == 2 and a.a[0].w == 1 and is0(a.a[1]):
        return rep(a.a[0], a.w)
    return mk('neg', a.w, (a,))

def sub(a, b):
    w = a.w
    assert b.w == w
    if a is b: return const(w, 0)
    if b.op == 'const': return add(a, const(w, -b.v))
    if is0(a): return neg(b)
    if is1s(a): return bnot(b)
    return mk('sub', w, (a, b))

def mul(a, b):
    w = a.w
    assert b.w == w
    if a.op == 'const': a, b = b, a
    if b.op == 'const':
        if a.op == 'const': return const(w, a.v * b.v)
        if b.v == 0: return b
        if b.v == 1: return a
        if b.v & (b.v - 1) == 0:
            return shl_c(a, b.v.bit_length() - 1)
        if b.v == (1 << w) - 1: return neg(a)
        return mk('mul', w, (a, b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'cat' and is0(x.a[0]):
            k = x.a[0].w
            return cat((x.a[0], mul(ext(x, k, w - k), ext(y, 0, w - k))))
    return mk('mul', w, _sort2(a, b))

def _bin(op, f):
    def g(a, b):
        assert a.w == b.w
        if a.op == 'const' and b.op == 'const':
            return const(a.w, f(a.v, b.v, a.w))
        return mk(op, a.w, (a, b))
    return g

def _tdiv(x, y):
    if y == 0: return 0
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q

def divx(a, b):
    """exact signed quotient, truncated toward zero, of two n-bit operands as an n+1-bit
    number (no overflow); 0 for a zero divisor.  Operands are reduced to the width that
    carries information, so a/b computed at any width is the same term."""
    n = a.w
    assert b.w == n
    k = max(_sxw(a), _sxw(b))
    if k < n: return sext(divx(ext(a, 0, k), ext(b, 0, k)), n + 1)
    if a.op == 'const' and b.op == 'const':
        return const(n + 1, _tdiv(sgn(a.v, n), sgn(b.v, n)))
    if n > 1 and is0(msb(a)) and is0(msb(b)):
        return zext(udivx(ext(a, 0, n - 1), ext(b, 0, n - 1)), n + 1)
    if b.op == 'const':
        d = sgn(b.v, n)
        if d == 1: return sext(a, n + 1)
        if d == -1: return neg(sext(a, n + 1))
        m = abs(d)
        if m and m & (m - 1) == 0:
            k = m.bit_length() - 1
            x = sext(a, n + 1)
            r = ashr_c(add(x, zext(rep(msb(a), k), n + 1)), k)
            return r if d > 0 else neg(r)
    return mk('divx', n + 1, (a, b))
def udivx(a, b):
    """unsigned quotient; 0 for a zero divisor"""
    n = a.w
    if a.op == 'const' and b.op == 'const':
        return const(n, a.v // b.v if b.v else 0)
    if b.op == 'const':
        if b.v == 1: return a
        if b.v and b.v & (b.v - 1) == 0: return lshr_c(a, b.v.bit_length() - 1)
    return mk('udivx', n, (a, b))
def sdiv(a, b): return ext(divx(a, b), 0, a.w)
def udiv(a, b): return ext(divx(zext(a, a.w + 1), zext(b, b.w + 1)), 0, a.w)
def srem(a, b): return sub(a, mul(b, sdiv(a, b)))
def urem(a, b): return sub(a, mul(b, udiv(a, b)))

def shl_c(a, k):
    if k == 0: return a
    if k >= a.w: return const(a.w, 0)
    return cat((const(k, 0), ext(a, 0, a.w - k)))
def lshr_c(a, k):
    if k == 0: return a
    if k >= a.w: return const(a.w, 0)
    return cat((ext(a, k, a.w - k), const(k, 0)))
def ashr_c(a, k):
    if k == 0: return a
    if k >= a.w: return rep(msb(a), a.w)
    return cat((ext(a, k, a.w - k), rep(msb(a), k)))

def _shiftprep(b):
    """constant-cond ite on the count: distribute"""
    return b
# SMT-LIB semantics (saturating)
def shl(a, b):
    if b.op == 'const': return shl_c(a, b.v)
    if is0(a): return a
    return mk('shl', a.w, (a, b if b.w == a.w else _fitcount(b, a.w)))
def lshr(a, b):
    if b.op == 'const': return lshr_c(a, b.v)
    if is0(a): return a
    return mk('lshr', a.w, (a, b if b.w == a.w else _fitcount(b, a.w)))
def ashr(a, b):
    if b.op == 'const': return ashr_c(a, b.v)
    if is0(a) or is1s(a): return a
    return mk('ashr', a.w, (a, b if b.w == a.w else _fitcount(b, a.w)))
def _fitcount(b, w):
    if b.w < w: return zext(b, w)
    hi = ext(b, w, b.w - w)
    return ite(eq(hi, const(hi.w, 0)), ext(b, 0, w), const(w, -1))

# ---------------------------------------------------------------- predicates
def eq(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b: return const(1, 1)
    if a.op == 'const': a, b = b, a
    w = a.w
    if b.op == 'const':
        if a.op == 'const': return const(1, int(a.v == b.v))
        if w == 1: return a if b.v else bnot(a)
        if a.op == 'rep':
            if b.v == 0: return bnot(a.a[0])
            if b.v == ones(w): return a.a[0]
            return const(1, 0)
        if a.op == 'cat':
            r = const(1, 1); lo = 0
            for p in a.a:
                r = band(r, eq(p, ext(b, lo, p.w)))
                if is0(r): return r
                lo += p.w
            return r
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if x.op == 'const' or y.op == 'const' or x.op in ('ite',) or y.op in ('ite',):
                return ite(a.a[0], eq(x, b), eq(y, b))
        if a.op == 'not': return eq(a.a[0], bnot(b))
        if a.op == 'add' and a.a[1].op == 'const':
            return eq(a.a[0], const(w, b.v - a.a[1].v))
        if a.op == 'neg': return eq(a.a[0], const(w, -b.v))
        if a.op == 'sub' and b.v == 0: return eq(a.a[0], a.a[1])
        if a.op == 'xor' and b.v == 0: return eq(a.a[0], a.a[1])
        if a.op == 'or' and b.v == 0:
            return band(eq(a.a[0], b), eq(a.a[1], b))
        if a.op == 'and' and b.v == ones(w):
            return band(eq(a.a[0], b), eq(a.a[1], b))
        if a.op == 'ctz':
            x = a.a[0]; i = b.v
            if i > x.w: return const(1, 0)
            if i == x.w: return eq(x, const(x.w, 0))
            r = const(1, 1)
            for j in range(i): r = band(r, bnot(bit(x, j)))
            return band(r, bit(x, i))
        return mk('eq', 1, (a, b))
    if w == 1: return bnot(bxor(a, b))
    if a.op == 'rep' and b.op == 'rep': return bnot(bxor(a.a[0], b.a[0]))
    if a.op == 'not' and b.op == 'not': return eq(a.a[0], b.a[0])
    if a.op == 'cat' and b.op == 'cat':
        # split when boundaries align
        s = set(); _bounds(a, s)
        s2 = set(); _bounds(b, s2)
        cm = sorted(s & s2)
        if len(cm) > 1:
            r = const(1, 1); lo = 0
            for p in cm:
                r = band(r, eq(ext(a, lo, p - lo), ext(b, lo, p - lo)))
                lo = p
            return r
    return mk('eq', 1, _sort2(a, b))

def ne(a, b): return bnot(eq(a, b))

def _ubound(t):
    """cheap upper bound (inclusive) of unsigned value"""
    if t.op == 'const': return t.v
    if t.op == 'cat':
        p = t.a[-1]
        if p.op == 'const':
            return (p.v << (t.w - p.w)) | ones(t.w - p.w)
    if t.op == 'ite':
        return max(_ubound(t.a[1]), _ubound(t.a[2]))
    if t.op in ('ctz', 'clz', 'popcount'): return t.v if isinstance(t.v, int) else t.w
    return ones(t.w)

def ult(a, b):
    assert a.w == b.w
    if a is b: return const(1, 0)
    if a.op == 'const' and b.op == 'const': return const(1, int(a.v < b.v))
    w = a.w
    if is0(b) or is1s(a): return const(1, 0)
    if is0(a): return ne(b, a)
    if b.op == 'const' and b.v == 1: return eq(a, const(w, 0))
    if b.op == 'const':
        if _ubound(a) < b.v: return const(1, 1)
        if b.v & (b.v - 1) == 0:
            k = b.v.bit_length() - 1
            return eq(ext(a, k, w - k), const(w - k, 0))
        if is1s(b): return ne(a, b)
        if a.op == 'rep': return bnot(a.a[0])
    if a.op == 'const':
        if a.v >= _ubound(b): return const(1, 0)
        if (a.v + 1) & a.v == 0:   # a = 2^k-1 < b
            return bnot(ult(b, const(w, a.v + 1)))
        if b.op == 'rep': return b.a[0]
    # strip common zero top
    if a.op == 'cat' and b.op == 'cat' and is0(a.a[-1]) and is0(b.a[-1]):
        z = min(a.a[-1].w, b.a[-1].w)
        return ult(ext(a, 0, w - z), ext(b, 0, w - z))
    if w == 1: return band(bnot(a), b)
    return mk('ult', 1, (a, b))

def _sxw(t):
    """minimal width w' such that t = sext(ext(t,0,w'))"""
    if t.op == 'cat':
        p = t.a[-1]
        if p.op == 'rep' or p.w == 1 and p.op != 'const':
            b = p.a[0] if p.op == 'rep' else p
            lo = t.w - p.w
            if lo > 0 and msb(t.a[-2]) is b: return lo
            return lo + 1
        if p.op == 'const' and p.v == 0:
            return t.w - p.w + 1
    if t.op == 'const':
        v = sgn(t.v, t.w)
        return (v if v >= 0 else ~v).bit_length() + 1
    if t.op == 'rep': return 1
    return t.w

def slt(a, b):
    assert a.w == b.w
    if a is b: return const(1, 0)
    w = a.w
    if a.op == 'const' and b.op == 'const':
        return const(1, int(sgn(a.v, w) < sgn(b.v, w)))
    if is0(b): return msb(a)
    if is1s(a): return bnot(msb(b))
    m = max(_sxw(a), _sxw(b))
    if m < w and m >= 1:
        return slt(ext(a, 0, m), ext(b, 0, m))
    sa, sb = msb(a), msb(b)
    if w > 1 and sa.op == 'const' and sb.op == 'const' and sa is sb:
        return ult(ext(a, 0, w - 1), ext(b, 0, w - 1))
    if w == 1: return band(a, bnot(b))
    return mk('slt', 1, (a, b))

def ule(a, b): return bnot(ult(b, a))
def sle(a, b): return bnot(slt(b, a))

def smin(a, b): return ite(slt(b, a), b, a)
def smax(a, b): return ite(slt(a, b), b, a)
def umin(a, b): return ite(ult(b, a), b, a)
def umax(a, b): return ite(ult(a, b), b, a)

# ---------------------------------------------------------------- counting
def popcount(a, w):
    if a.op == 'const': return const(w, bin(a.v).count('1'))
    if a.op == 'cat':
        # strip constants; canonical list of bits
        parts = [p for p in a.a if not is0(p)]
        k = sum(bin(p.v).count('1') for p in parts if p.op == 'const')
        parts = [p for p in parts if p.op != 'const']
        if len(parts) < len(a.a):
            r = popcount(cat(parts), w) if parts else const(w, 0)
            return add(r, const(w, k))
    if a.w == 1: return zext(a, w)
    if a.op == 'rep':
        return mul(zext(a.a[0], w), const(w, a.w))
    n = a.w
    k = max(1, n.bit_length())
    t = mk('popcount', k, (a,), n)
    return zext(t, w)

def ctz(a, w, zero=None):
    """count trailing zeros; value `zero` (term of width w) when a == 0"""
    z = zero if zero is not None else const(w, a.w)
    if a.op == 'const':
        return z if a.v == 0 else const(w, (a.v & -a.v).bit_length() - 1)
    if a.op == 'cat' and a.a[0].op == 'const' and a.a[0].v:
        return const(w, (a.a[0].v & -a.a[0].v).bit_length() - 1)
    if a.op == 'cat' and is0(a.a[0]):
        k = a.a[0].w
        r = add(ctz(ext(a, k, a.w - k), w), const(w, k))
        return ite(eq(a, const(a.w, 0)), z, r)
    if a.op == 'cat' and is0(a.a[-1]):
        a2 = ext(a, 0, a.w - a.a[-1].w)
        return ctz(a2, w, z)
    n = a.w
    k = max(1, n.bit_length())
    # bits as priority chain keeps it exact and simple
    r = z
    if n <= 64:
        t = mk('ctz', k, (a,), n)   # = n when zero
        return ite(eq(a, const(n, 0)), z, zext(t, w))
    raise NotImplementedError

def clz(a, w, zero=None):
    z = zero if zero is not None else const(w, a.w)
    if a.op == 'const':
        return z if a.v == 0 else const(w, a.w - a.v.bit_length())
    if a.op == 'cat' and is0(a.a[-1]):
        k = a.a[-1].w
        r = add(clz(ext(a, 0, a.w - k), w), const(w, k))
        return ite(eq(a, const(a.w, 0)), z, r)
    n = a.w
    k = max(1, n.bit_length())
    t = mk('clz', k, (a,), n)
    return ite(eq(a, const(n, 0)), z, zext(t, w))

# ---------------------------------------------------------------- floating point
EB = {16: 5, 32: 8, 64: 11, 80: 15}
MB = {16: 10, 32: 23, 64: 52, 80: 64}

def fneg(a): return bxor(a, const(a.w, 1 << (a.w - 1)))
def fabs_(a): return band(a, const(a.w, ones(a.w - 1)))
def f_exp(a): return ext(a, MB[a.w], EB[a.w])
def f_man(a): return ext(a, 0, MB[a.w])
def fisnan(a):
    return band(eq(f_exp(a), const(EB[a.w], -1)), ne(f_man(a), const(MB[a.w], 0)))
def fisinf(a):
    return band(eq(f_exp(a), const(EB[a.w], -1)), eq(f_man(a), const(MB[a.w], 0)))
def fisfin(a): return ne(f_exp(a), const(EB[a.w], -1))
def fiszero(a): return eq(ext(a, 0, a.w - 1), const(a.w - 1, 0))
def fisnormal(a):
    e = f_exp(a)
    return band(ne(e, const(e.w, -1)), ne(e, const(e.w, 0)))
def fissub(a):
    e = f_exp(a)
    return band(eq(e, const(e.w, 0)), ne(f_man(a), const(MB[a.w], 0)))

def ffin_const(w, x):
    import struct
    return const(w, struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', x))[0])

def _constfp(t): return t.op == 'const'

def flt(a, b):
    if a is b: return const(1, 0)
    if a.op == 'const' and b.op == 'const':
        return const(1, evalop('flt', 1, (a.w,), (a.v, b.v), None))
    return mk('flt', 1, (a, b))
def fle(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(1, evalop('fle', 1, (a.w,), (a.v, b.v), None))
    return mk('fle', 1, (a, b))
def feq(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(1, evalop('feq', 1, (a.w,), (a.v, b.v), None))
    return mk('feq', 1, _sort2(a, b))
def funord(a, b):
    if a is b: return fisnan(a)
    return bor(fisnan(a), fisnan(b))
def fone(op):
    def g(w, *a, v=None):
        if all(x.op == 'const' for x in a):
            r = evalop(op, w, tuple([x.w for x in a]), tuple([x.v for x in a]), v)
            if r is not None: return const(w, r)
        return mk(op, w, tuple(a), v)
    return g
_fadd = fone('fadd'); _fmul = fone('fmul'); _fdiv = fone('fdiv'); _fsqrt = fone('fsqrt')
_ffma = fone('ffma')
def _fint(t):
    """(signed integer term) if the fp term t is exactly that integer and, when zero, +0"""
    p = MB[t.w] + 1
    if t.op == 's2f' and t.a[0].w <= p + 1: return t.a[0]
    if t.op == 'u2f' and t.a[0].w <= p: return zext(t.a[0], t.a[0].w + 1)
    if t.op == 'const' and t.v != 1 << (t.w - 1) and f_isfin_c(t):
        f = _frac(t.v, t.w)
        if f.denominator == 1 and abs(f) <= 1 << p:
            v = f.numerator
            k = (v if v >= 0 else ~v).bit_length() + 1
            return const(k, v)
    if t.op == 'fmul':
        # scaling an exact integer by a power of two
        for x, y in (t.a, t.a[::-1]):
            if y.op == 'const' and f_isfin_c(y):
                f = _frac(y.v, y.w)
                if f.denominator == 1 and f >= 1 and f.numerator & (f.numerator - 1) == 0 and f.numerator <= 1 << 64:
                    i = _fint(x)
                    if i is not None: return cat((const(f.numerator.bit_length() - 1, 0), i)) if f > 1 else i
    return None
def f_isfin_c(t): return not _isnan(t.v, t.w) and not _isinf(t.v, t.w)
def fadd(a, b):
    if a.op != 'const' or b.op != 'const':
        x = _fint(a)
        y = _fint(b) if x is not None else None
        if y is not None:
            k = max(x.w, y.w) + 1
            return s2f(add(sext(x, k), sext(y, k)), a.w)     # one rounding of the exact sum
        for p, q in ((a, b), (b, a)):
            if p.op == 'ite' and q.op == 'const' and (_fint(p.a[1]) is not None or _fint(p.a[2]) is not None):
                return ite(p.a[0], fadd(p.a[1], q), fadd(p.a[2], q))
    return _fadd(a.w, *_sort2(a, b))
def fsub(a, b):
    y = _fint(b) if b.op in ('s2f', 'u2f') else None
    x = _fint(a) if y is not None else None
    if x is not None:
        k = max(x.w, y.w) + 1
        return s2f(sub(sext(x, k), sext(y, k)), a.w)
    return fadd(a, fneg(b))
def fmul(a, b): return _fmul(a.w, *_sort2(a, b))
def fdiv(a, b): return _fdiv(a.w, a, b)
def fsqrt(a): return _fsqrt(a.w, a)
def ffma(a, b, c): return _ffma(a.w, *_sort2(a, b), c)
def _nndiv(a):
    """fdiv of two exact non-negative integers: (divisor is zero, exact quotient)"""
    x = _fint(a.a[0]); y = _fint(a.a[1])
    if x is None or y is None or not is0(msb(x)) or not is0(msb(y)): return None
    k = max(x.w, y.w)
    return eq(y, const(y.w, 0)), divx(zext(x, k), zext(y, k))
def fround(a, mode):
    """round to integral value; mode in RNE RTN RTP RTZ RNA"""
    if a.op != 'const':
        x = _fint(a)
        if x is not None: return a
        if a.op == 'fdiv' and mode in ('RTN', 'RTZ'):
            q = _nndiv(a)
            if q is not None: return ite(q[0], a, s2f(q[1], a.w))
    return fone('fround')(a.w, a, v=mode)
def fcvt(a, w):
    if a.w == w: return a
    if a.op == 'fcvt' and a.w > w and a.a[0].w == w:
        # widening then narrowing back is exact (NaN payload aside)
        return a.a[0]
    if a.op in ('s2f', 'u2f'):
        x = _fint(a)
        if x is not None and _sxw(x) <= MB[w] + 2: return s2f(x, w)
    return fone('fcvt')(w, a)
def s2f(a, w):
    k = _sxw(a)
    if a.op == 'cat' and k < a.w:
        p = a.a[-1]
        if p.op == 'const':         # non-negative
            return u2f(ext(a, 0, a.w - p.w), w)
        a = ext(a, 0, k)
    return fone('s2f')(w, a)
def u2f(a, w):
    if a.op == 'cat' and is0(a.a[-1]):
        a = ext(a, 0, a.w - a.a[-1].w)
    if a.op == 'const': a = const(64, a.v)
    return fone('u2f')(w, a)
def f2s(a, w):
    """truncating conversion, x86 behaviour: indefinite 0x80..0 when out of range"""
    if a.op == 'ite' and (_fint(a.a[1]) is not None or _fint(a.a[2]) is not None):
        return ite(a.a[0], f2s(a.a[1], w), f2s(a.a[2], w))
    if a.op != 'const':
        x = _fint(a)
        q = None
        if x is None and a.op == 'fdiv':
            # |x|,|y| <= 2^p integers: truncating the rounded quotient is the exact
            # integer quotient (the nearest integer above a non-integral x/y is further
            # away than half an ulp); division by zero gives the indefinite value
            x = _fint(a.a[0]); y = _fint(a.a[1])
            if x is not None and y is not None:
                k = max(x.w, y.w)
                q = divx(sext(x, k), sext(y, k))
                bad = eq(y, const(y.w, 0))
        elif x is not None:
            q = x; bad = const(1, 0)
        if q is not None:
            ind = const(w, 1 << (w - 1))
            if q.w <= w: r = sext(q, w)
            elif q.op == 'divx' and q.w == w + 1:
                r = ext(q, 0, w)        # the one overflowing quotient, 2^(w-1), truncates to `ind`
            else:
                # out of range exactly when truncation loses information
                r = ext(q, 0, w)
                r = ite(eq(sext(r, q.w), q), r, ind)
            return ite(bad, ind, r)
    return fone('f2s')(w, a)
def f2u(a, w):
    if a.op != 'const':
        x = _fint(a); bad = const(1, 0)
        if x is None and a.op == 'fdiv':
            q = _nndiv(a)
            if q is not None: bad, x = q
        if x is not None and is0(msb(x)):
            u = ext(x, 0, x.w - 1)
            if u.w <= w: return ite(bad, const(w, -1), zext(u, w))
            hi = ext(u, w, u.w - w)
            return ite(bor(bad, ne(hi, const(hi.w, 0))), const(w, -1), ext(u, 0, w))
    return fone('f2u')(w, a)

def fminx(a, b):
    """x86 min: a<b ? a : b"""
    return ite(flt(a, b), a, b)
def fmaxx(a, b):
    return ite(flt(b, a), a, b)

def getexp(a):
    """x86 vgetexp: floor(log2|a|) as a float"""
    w = a.w; bias = ones(EB[w] - 1)
    e = zext(f_exp(a), 32); m = f_man(a)
    den = sub(const(32, -bias), clz(m, 32))
    k = ite(eq(e, const(32, 0)), den, sub(e, const(32, bias)))
    r = s2f(k, w)
    inf = const(w, ones(EB[w]) << MB[w])
    ninf = const(w, ones(EB[w] + 1) << MB[w])
    r = ite(fiszero(a), ninf, r)
    r = ite(fisinf(a), inf, r)
    return ite(fisnan(a), bor(a, const(w, 1 << (MB[w] - 1))), r)

def norm_man(m):
    """mantissa field of a non-zero subnormal after normalisation"""
    return shl(m, add(clz(m, m.w), const(m.w, 1)))

def frexp(a, einf):
    """C frexp: (mantissa, exponent as 32-bit integer); einf: the exponent of inf and NaN"""
    w = a.w; bias = ones(EB[w] - 1); m = f_man(a); e = f_exp(a)
    sub_ = eq(e, const(EB[w], 0))
    r = cat((ite(sub_, norm_man(m), m), const(EB[w], bias - 1), ext(a, w - 1, 1)))
    k = ite(sub_, sub(const(32, -bias + 1), clz(m, 32)), sub(zext(e, 32), const(32, bias - 1)))
    z = fiszero(a); sp = eq(e, const(EB[w], ones(EB[w])))
    r = ite(fisnan(a), bor(a, const(w, 1 << (MB[w] - 1))), ite(bor(z, sp), a, r))
    return r, ite(sp, einf, ite(z, const(32, 0), k))

def getmant(a, k):
    """x86 vgetmant with interval imm[1:0], sign control imm[3:2]"""
    if k >> 2 == 0 and k & 3 in (0, 2) and a.op != 'const':
        w = a.w; mb = MB[w]; bias = ones(EB[w] - 1)
        s = ext(a, w - 1, 1); m = f_man(a)
        nm = ite(eq(f_exp(a), const(EB[w], 0)), norm_man(m), m)
        r = cat((nm, const(EB[w], bias if k & 3 == 0 else bias - 1), s))
        r = ite(bor(fiszero(a), fisinf(a)), cat((const(mb, 0), const(EB[w], bias), s)), r)
        return ite(fisnan(a), bor(a, const(w, 1 << (mb - 1))), r)
    return fone('fgetmant')(a.w, a, v=k)

def scalef(a, b):
    """x86 vscalef: a * 2^floor(b)"""
    return fone('fscalef')(a.w, a, b)

def uf(name, w, args):
    return mk('uf', w, tuple(args), name)

# ---------------------------------------------------------------- evaluation
import struct, math
from fractions import Fraction

def b2f(v, w):
    if w == 32: return struct.unpack('<f', struct.pack('<I', v))[0]
    return struct.unpack('<d', struct.pack('<Q', v))[0]

def f2b(x, w):
    if w == 64: return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000

QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}

def _isnan(v, w):
    return (v >> MB[w]) & ones(EB[w]) == ones(EB[w]) and v & ones(MB[w]) != 0
def _isinf(v, w): return v & ones(w - 1) == ones(EB[w]) << MB[w]

def _frac(v, w):
    m = v & ones(MB[w]); e = (v >> MB[w]) & ones(EB[w])
    bias = ones(EB[w] - 1)
    if e == 0: f = Fraction(m) * Fraction(2) ** (1 - bias - MB[w])
    else: f = Fraction(m | 1 << MB[w]) * Fraction(2) ** (e - bias - MB[w])
    return -f if v >> (w - 1) else f

def round_frac(f, w, negzero=False, sticky=0):
    """round-to-nearest-even of a Fraction to bits; sticky in(-1,0,1) nudges ties"""
    if f == 0: return (1 << (w - 1)) if negzero else 0
    s = 1 if f < 0 else 0
    a = -f if s else f
    bias = ones(EB[w] - 1)
    n, d = a.numerator, a.denominator
    e = n.bit_length() - d.bit_length()
    if a < Fraction(2) ** e: e -= 1
    # 2^e <= a < 2^(e+1)
    e = max(e, 1 - bias)
    q = a / (Fraction(2) ** (e - MB[w]))
    fl = q.numerator // q.denominator
    r = q - fl
    h = Fraction(1, 2)
    if r > h or (r == h and (sticky > 0 or (sticky == 0 and fl & 1))): fl += 1
    if fl >> (MB[w] + 1):
        fl >>= 1; e += 1
    if fl < (1 << MB[w]):
        be = 0
    else:
        be = e + bias; fl -= 1 << MB[w]
    if be >= ones(EB[w]):
        be = ones(EB[w]); fl = 0
    return s << (w - 1) | be << MB[w] | fl

def _rint(f, mode):
    fl = f.numerator // f.denominator
    r = f - fl
    if r == 0: return fl
    if mode == 'RTN': return fl
    if mode == 'RTP': return fl + 1
    if mode == 'RTZ': return fl if f > 0 else fl + 1
    if r > Fraction(1, 2): return fl + 1
    if r < Fraction(1, 2): return fl
    if mode == 'RNE': return fl + (fl & 1)
    if mode == 'RNA': return fl + 1 if f > 0 else fl
    raise ValueError(mode)

def evalop(op, w, aw, a, v):
    """concrete evaluation of one operator; returns int or None if unknown"""
    m = (1 << w) - 1
    if op == 'and': return a[0] & a[1]
    if op == 'or': return a[0] | a[1]
    if op == 'xor': return a[0] ^ a[1]
    if op == 'not': return ~a[0] & m
    if op == 'add': return (a[0] + a[1]) & m
    if op == 'sub': return (a[0] - a[1]) & m
    if op == 'neg': return -a[0] & m
    if op == 'mul': return (a[0] * a[1]) & m
    if op == 'divx': return _tdiv(sgn(a[0], aw[0]), sgn(a[1], aw[1])) & m
    if op == 'udivx': return a[0] // a[1] if a[1] else 0
    if op == 'shl': return (a[0] << a[1]) & m if a[1] < w else 0
    if op == 'lshr': return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr': return (sgn(a[0], w) >> min(a[1], w - 1)) & m
    if op == 'eq': return int(a[0] == a[1])
    if op == 'ult': return int(a[0] < a[1])
    if op == 'slt': return int(sgn(a[0], aw[0]) < sgn(a[1], aw[0]))
    if op == 'ite': return a[1] if a[0] else a[2]
    if op == 'ext': return (a[0] >> v) & m
    if op == 'rep': return m if a[0] else 0
    if op == 'popcount': return bin(a[0]).count('1')
    if op == 'ctz': return v if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    if op == 'clz': return v - a[0].bit_length()
    if op in ('flt', 'fle', 'feq'):
        fw = aw[0]
        if _isnan(a[0], fw) or _isnan(a[1], fw): return 0
        x = _fkey(a[0], fw); y = _fkey(a[1], fw)
        return int(x < y if op == 'flt' else x <= y if op == 'fle' else x == y)
    if op in ('fadd', 'fmul', 'fdiv', 'ffma'):
        if any(_isnan(x, w) for x in a): return QNAN[w]
        inf = [_isinf(x, w) for x in a]
        s = [x >> (w - 1) for x in a]
        INF = ones(EB[w]) << MB[w]
        SB = 1 << (w - 1)
        if op == 'fadd':
            if inf[0] and inf[1]: return a[0] if s[0] == s[1] else QNAN[w]
            if inf[0]: return a[0]
            if inf[1]: return a[1]
            x, y = _frac(a[0], w), _frac(a[1], w)
            return round_frac(x + y, w, negzero=(x == 0 and y == 0 and s[0] and s[1]))
        if op == 'fmul':
            sg = s[0] ^ s[1]
            z = [x & ones(w - 1) == 0 for x in a]
            if (inf[0] and z[1]) or (inf[1] and z[0]): return QNAN[w]
            if inf[0] or inf[1]: return INF | sg * SB
            return round_frac(_frac(a[0], w) * _frac(a[1], w), w, negzero=sg)| 0 if not (z[0] or z[1]) else sg * SB
        if op == 'fdiv':
            sg = s[0] ^ s[1]
            z = [x & ones(w - 1) == 0 for x in a]
            if (inf[0] and inf[1]) or (z[0] and z[1]): return QNAN[w]
            if inf[0] or z[1]: return INF | sg * SB
            if inf[1] or z[0]: return sg * SB
            return round_frac(_frac(a[0], w) / _frac(a[1], w), w) or sg * SB
        if op == 'ffma':
            sg = s[0] ^ s[1]
            z = [x & ones(w - 1) == 0 for x in a]
            if (inf[0] and z[1]) or (inf[1] and z[0]): return QNAN[w]
            if inf[0] or inf[1]:
                if inf[2] and s[2] != sg: return QNAN[w]
                return INF | sg * SB
            if inf[2]: return a[2]
            x = _frac(a[0], w) * _frac(a[1], w); y = _frac(a[2], w)
            if x == 0 and y == 0:
                return SB if sg and s[2] else 0
            return round_frac(x + y, w)
    if op == 'fsqrt':
        if _isnan(a[0], w): return QNAN[w]
        if a[0] & ones(w - 1) == 0: return a[0]
        if a[0] >> (w - 1): return QNAN[w]
        if _isinf(a[0], w): return a[0]
        f = _frac(a[0], w)
        # scale to an integer with many bits
        n, d = f.numerator, f.denominator
        k = 700
        sc = (n << (2 * k)) // d
        r = math.isqrt(sc)
        exact = r * r == sc and (n << (2 * k)) % d == 0
        fr = Fraction(r, 1 << k)
        if not exact: fr += Fraction(1, 1 << (k + 2))
        return round_frac(fr, w)
    if op == 'fround':
        if _isnan(a[0], w): return QNAN[w]
        if _isinf(a[0], w): return a[0]
        f = _frac(a[0], w)
        return round_frac(Fraction(_rint(f, v)), w, negzero=a[0] >> (w - 1))
    if op == 'fscalef':
        if _isnan(a[0], w) or _isnan(a[1], w): return QNAN[w]
        INF = ones(EB[w]) << MB[w]; SB = 1 << (w - 1)
        s = a[0] & SB; z = a[0] & ones(w - 1) == 0
        if _isinf(a[1], w):
            if a[1] & SB:
                return QNAN[w] if _isinf(a[0], w) else s
            return QNAN[w] if z else s | INF
        if z or _isinf(a[0], w): return a[0]
        e = _rint(_frac(a[1], w), 'RTN')
        e = max(-5000, min(5000, e))
        return round_frac(_frac(a[0], w) * Fraction(2) ** e, w) | s
    if op == 'fgetmant':
        if _isnan(a[0], w): return QNAN[w]
        sc = v >> 2; iv = v & 3
        SB = 1 << (w - 1)
        s = a[0] & SB
        if iv != 0 : return None
        z = a[0] & ones(w - 1) == 0; i = _isinf(a[0], w)
        if s and sc & 2 and not z: return QNAN[w]
        so = 0 if sc & 1 else s
        one = ones(EB[w] - 1) << MB[w]
        if z or i: return so | one
        f = abs(_frac(a[0], w))
        while f >= 2: f /= 2
        while f < 1: f *= 2
        return so | round_frac(f, w)
    if op == 'fcvt':
        fw = aw[0]
        if _isnan(a[0], fw): return QNAN[w]
        s = a[0] >> (fw - 1)
        if _isinf(a[0], fw): return s << (w - 1) | ones(EB[w]) << MB[w]
        return round_frac(_frac(a[0], fw), w, negzero=s) | (s << (w - 1))
    if op == 's2f': return round_frac(Fraction(sgn(a[0], aw[0])), w)
    if op == 'u2f': return round_frac(Fraction(a[0]), w)
    if op in ('f2s', 'f2u'):
        fw = aw[0]
        bad = (1 << (w - 1)) if op == 'f2s' else m
        if _isnan(a[0], fw) or _isinf(a[0], fw): return bad
        x = _rint(_frac(a[0], fw), v or 'RTZ')
        if op == 'f2s':
            return x & m if -(1 << (w - 1)) <= x < 1 << (w - 1) else bad
        return x if 0 <= x <= m else bad
    return None

def _fkey(v, w):
    m = v & ones(w - 1)
    return -m if v >> (w - 1) else m

def reach(roots):
    seen = {}
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        st.extend(t.a)
    return [seen[i] for i in sorted(seen)]

def evaluate(roots, env, ufs=None, default=0):
    """concrete evaluation under env: var name -> int.  Returns list of ints."""
    val = {}
    for t in reach(roots):
        if t.op == 'const': r = t.v
        elif t.op == 'var': r = env.get(t.v, default) & ((1 << t.w) - 1)
        elif t.op == 'cat':
            r = 0; s = 0
            for p in t.a:
                r |= val[p.id] << s; s += p.w
        elif t.op == 'uf':
            r = ufs(t.v, t.w, [val[x.id] for x in t.a]) if ufs else None
            if r is None: raise KeyError(t.v)
        else:
            r = evalop(t.op, t.w, tuple([x.w for x in t.a]), tuple([val[x.id] for x in t.a]), t.v)
            if r is None: raise KeyError(t.op)
        val[t.id] = r
    return [val[t.id] for t in roots]

_REBUILD = {
    'not': lambda a, w, v: bnot(a[0]), 'and': lambda a, w, v: band(*a), 'or': lambda a, w, v: bor(*a),
    'xor': lambda a, w, v: bxor(*a), 'ite': lambda a, w, v: ite(*a), 'eq': lambda a, w, v: eq(*a),
    'ult': lambda a, w, v: ult(*a), 'slt': lambda a, w, v: slt(*a), 'add': lambda a, w, v: add(*a),
    'neg': lambda a, w, v: neg(a[0]), 'sub': lambda a, w, v: sub(*a), 'mul': lambda a, w, v: mul(*a),
    'cat': lambda a, w, v: cat(a), 'ext': lambda a, w, v: ext(a[0], v, w), 'rep': lambda a, w, v: rep(a[0], w),
    'shl': lambda a, w, v: shl(*a), 'lshr': lambda a, w, v: lshr(*a), 'ashr': lambda a, w, v: ashr(*a),
    'divx': lambda a, w, v: divx(*a), 'udivx': lambda a, w, v: udivx(*a),
    'flt': lambda a, w, v: flt(*a), 'fle': lambda a, w, v: fle(*a), 'feq': lambda a, w, v: feq(*a),
    'fadd': lambda a, w, v: fadd(*a), 'fmul': lambda a, w, v: fmul(*a), 'fdiv': lambda a, w, v: fdiv(*a),
    'fsqrt': lambda a, w, v: fsqrt(*a), 'ffma': lambda a, w, v: ffma(*a), 'fround': lambda a, w, v: fround(a[0], v),
    'fcvt': lambda a, w, v: fcvt(a[0], w), 's2f': lambda a, w, v: s2f(a[0], w), 'u2f': lambda a, w, v: u2f(a[0], w),
    'popcount': lambda a, w, v: popcount(a[0], w),
    'f2s': lambda a, w, v: fone('f2s')(w, a[0], v=v) if v else f2s(a[0], w),
    'f2u': lambda a, w, v: fone('f2u')(w, a[0], v=v) if v else f2u(a[0], w),
}
def subst(roots, env):
    """replace variables (name -> term) and rebuild with the simplifying constructors"""
    val = {}
    for t in reach(roots):
        if t.op == 'var' and t.v in env: val[t.id] = env[t.v]; continue
        if not t.a: val[t.id] = t; continue
        a = tuple([val[x.id] for x in t.a])
        if all(x is y for x, y in zip(a, t.a)): val[t.id] = t; continue
        f = _REBUILD.get(t.op)
        if f: r = f(a, t.w, t.v)
        elif all(x.op == 'const' for x in a) and t.op != 'uf':
            r = evalop(t.op, t.w, tuple([x.w for x in a]), tuple([x.v for x in a]), t.v)
            r = const(t.w, r) if r is not None else mk(t.op, t.w, a, t.v)
        else: r = mk(t.op, t.w, a, t.v)
        assert r.w == t.w, (t.op, r.w, t.w)
        val[t.id] = r
    return [val[r.id] for r in roots]

def variables(roots):
    return [t for t in reach(roots) if t.op == 'var']

def show(t, depth=6):
    if t.op == 'const': return '%#x:%d' % (t.v, t.w)
    if t.op == 'var': return '%s:%d' % (t.v, t.w)
    if depth == 0: return '...'
    return '(%s%s:%d %s)' % (t.op, '' if t.v is None else '[%s]' % t.v, t.w, ' '.join(show(x, depth - 1) for x in t.a))

# ---------------------------------------------------------------- canonical form modulo AC
def _minmax(t):
    """t = min/max(x, y)?  returns (kind, x, y)"""
    if t.op != 'ite': return None
    c, p, q = t.a
    if c.op == 'not': c = c.a[0]; p, q = q, p
    if c.op not in ('slt', 'ult'): return None
    x, y = c.a
    if p is x and q is y: return (c.op + 'min', x, y)
    if p is y and q is x: return (c.op + 'max', x, y)
    return None

def _widemul(t):
    """product of two double words computed from half-word products"""
    lo, hi = t.a; h = lo.w
    p, q = lo.a
    parts = []; st = [hi]
    while st:
        x = st.pop()
        if x.op == 'add': st.extend(x.a)
        elif x.op == 'ext' and x.v == 0 and x.a[0].op == 'add': st.extend([ext(y, 0, h) for y in x.a[0].a])
        elif x.op == 'ext' and x.v == 0 and x.a[0].op == 'mul': parts.append(mul(*[ext(y, 0, h) for y in x.a[0].a]))
        else: parts.append(x)
    if len(parts) != 3: return None
    carry = ext(mul(zext(p, 2 * h), zext(q, 2 * h)), h, h)
    if carry not in parts: return None
    parts.remove(carry)
    if any(x.op != 'mul' for x in parts): return None
    for x, y in (parts, parts[::-1]):
        # x = p * bh, y = q * ah
        for i in (0, 1):
            for j in (0, 1):
                if x.a[i] is p and y.a[j] is q: return mul(cat((p, y.a[1 - j])), cat((q, x.a[1 - i])))
    return None

def ne_split(a, b, depth=4):
    """a != b, split at the conditions of an outermost selection on 1-bit variables"""
    if a is b: return FALSE()
    if depth and a.op == 'ite' and not _minmax(a):
        c = a.a[0]; lits = {}; st = [c]; ok = True
        while st:
            x = st.pop()
            if x.op == 'and': st.extend(x.a)
            elif x.op == 'var': lits[x.v] = TRUE()
            elif x.op == 'not' and x.a[0].op == 'var': lits[x.a[0].v] = FALSE()
            else: ok = False; break
        if ok:
            b1, = canon(subst([b], lits))
            return bor(band(c, ne_split(a.a[1], b1, depth - 1)), band(bnot(c), ne_split(a.a[2], b, depth - 1)))
    return ne(a, b)

def canon(roots):
    """rewrite so that sums, products, minima and maxima of the same operands become the
    same term whatever their association and order"""
    memo = {}
    def atom(t, w): return ext(C(t), 0, w)
    def lin(t, w, k, acc):
        """acc += k * (low w bits of t); returns constant part"""
        m = (1 << w) - 1
        tot = 0
        st = [(t, k)]
        while st:
            t, k = st.pop()
            if t.op == 'const': tot += k * t.v
            elif t.op == 'add': st.append((t.a[0], k)); st.append((t.a[1], k))
            elif t.op == 'sub': st.append((t.a[0], k)); st.append((t.a[1], -k))
            elif t.op == 'neg': st.append((t.a[0], -k))
            elif t.op == 'not': tot -= k; st.append((t.a[0], -k))
            elif t.op == 'mul' and t.a[1].op == 'const': st.append((t.a[0], k * t.a[1].v))
            elif t.op == 'ext' and t.v == 0 and t.a[0].op in ('add', 'sub', 'neg', 'mul', 'not'): st.append((t.a[0], k))
            else:
                a = atom(t, w) if t.op != 'mul' else prod(t, w)
                if a.op == 'const': tot += k * a.v
                elif a.op in ('add', 'not', 'neg', 'sub') and a is not t: st.append((a, k))
                else: acc[a] = (acc.get(a, 0) + k) & m
        return tot & m
    def prod(t, w):
        fs = []; k = 1; st = [t]
        while st:
            t = st.pop()
            if t.op == 'mul': st.extend(t.a)
            elif t.op == 'ext' and t.v == 0 and t.a[0].op == 'mul': st.append(t.a[0])
            else:
                a = atom(t, w)
                if a.op == 'const': k *= a.v
                elif a.op == 'mul' and a is not t: st.append(a)
                else: fs.append(a)
        r = const(w, k)
        for f in sorted(fs, key=lambda x: x.id): r = f if r.op == 'const' and r.v == 1 else mul(r, f) if r.op != 'const' else mk('mul', w, (f, r))
        return r
    def build(acc, k, w):
        r = None
        for a in sorted(acc, key=lambda x: x.id):
            if not acc[a]: continue
            x = a if acc[a] == 1 else mul(a, const(w, acc[a]))
            r = x if r is None else mk('add', w, (r, x))
        if r is None: return const(w, k)
        return r if not k else mk('add', w, (r, const(w, k)))
    def C(t):
        r = memo.get(t.id)
        if r is not None: return r
        w = t.w
        mm = _minmax(t)
        if t.op in ('add', 'sub', 'neg') or t.op == 'ext' and t.v == 0 and t.a[0].op in ('add', 'sub', 'neg'):
            acc = {}
            k = lin(t, w, 1, acc)
            r = build(acc, k, w)
        elif t.op == 'mul' or t.op == 'ext' and t.v == 0 and t.a[0].op == 'mul': r = prod(t, w)
        elif mm:
            kind = mm[0]; xs = {}; st = [mm[1], mm[2]]
            while st:
                x = st.pop()
                m2 = _minmax(x)
                if m2 and m2[0] == kind: st.extend(m2[1:])
                else:
                    a = C(x); m2 = _minmax(a)
                    if m2 and m2[0] == kind and a is not x: st.extend(m2[1:])
                    else: xs[a.id] = a
            f = {'sltmin': smin, 'sltmax': smax, 'ultmin': umin, 'ultmax': umax}[kind]
            l = [xs[i] for i in sorted(xs)]
            r = l[0]
            for x in l[1:]: r = f(r, x)
        elif w > 1 and t.op in ('and', 'or', 'xor') and t.a[0].w == w:
            xs = []; st = list(t.a)
            while st:
                x = st.pop()
                if x.op == t.op: st.extend(x.a)
                else:
                    a = C(x)
                    if a.op == t.op and a is not x: st.extend(a.a)
                    else: xs.append(a)
            xs.sort(key=lambda x: x.id)
            f = {'and': band, 'or': bor, 'xor': bxor}[t.op]
            r = xs[0]
            for x in xs[1:]: r = f(r, x)
        elif not t.a: r = t
        elif t.op == 'cat' and len(t.a) == 2 and t.a[0].op == 'mul' and t.a[0].w == t.a[1].w and _widemul(t) is not None:
            r = C(_widemul(t))
        else:
            a = tuple([C(x) for x in t.a])
            if all(x is y for x, y in zip(a, t.a)): r = t
            else:
                f = _REBUILD.get(t.op)
                r = f(a, t.w, t.v) if f else mk(t.op, t.w, a, t.v)
                if r.op == 'cat' and len(r.a) == 2 and r.a[0].op == 'mul' and r.a[0].w == r.a[1].w and _widemul(r) is not None: r = C(_widemul(r))
        memo[t.id] = r
        return r
    return [C(r) for r in roots]
