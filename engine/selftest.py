"""setup_cmd: tool availability and a differential test of the term constructors (and
their z3 translation) against direct concrete evaluation of the same operators."""
import os, random, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import z3
from engine import terms as T, solve, harness as H

def rnd(rng, w):
    c = rng.random()
    if c < .3: return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 2, 3]) & T.ones(w)
    return rng.getrandbits(w)

def rndf(rng, w):
    if rng.random() < .5: return rng.choice(H.SPECIAL[w])
    if rng.random() < .5: return T.f2b(rng.uniform(-50, 50), w)
    return rng.getrandbits(w)

BIN = ['band', 'bor', 'bxor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'smin', 'smax', 'umin', 'umax', 'sdiv', 'udiv', 'srem', 'urem']
OPN = {'band': 'and', 'bor': 'or', 'bxor': 'xor'}
CMP = ['eq', 'ult', 'slt', 'ule', 'sle', 'ne']
def pybin(op, x, y, w):
    m = T.ones(w); sx, sy = T.sgn(x, w), T.sgn(y, w)
    if op in OPN or op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr'): return T.evalop(OPN.get(op, op), w, (w, w), (x, y), None)
    if op == 'smin': return min(sx, sy) & m
    if op == 'smax': return max(sx, sy) & m
    if op == 'umin': return min(x, y)
    if op == 'umax': return max(x, y)
    q = T._tdiv(sx, sy) if y else 0
    if op == 'sdiv': return q & m
    if op == 'srem': return (sx - q * sy) & m
    if op == 'udiv': return x // y if y else 0
    if op == 'urem': return x % y if y else x
    if op == 'eq': return int(x == y)
    if op == 'ne': return int(x != y)
    if op == 'ult': return int(x < y)
    if op == 'ule': return int(x <= y)
    if op == 'slt': return int(sx < sy)
    if op == 'sle': return int(sx <= sy)
    raise KeyError(op)

def one(rng, fp):
    """a random DAG; returns (term, value, env)"""
    env = {}; pool = []
    def push(t, v): pool.append((t, v & T.ones(t.w)))
    for i in range(5):
        w = rng.choice([1, 8, 8, 16, 16, 32, 32, 64])
        v = rnd(rng, w); env['x%d' % i] = v; push(T.var(w, 'x%d' % i), v)
    for w in (1, 8, 16, 32, 64):
        v = rnd(rng, w); push(T.const(w, v), v)
    if fp:
        for i in range(3):
            w = rng.choice([32, 64]); v = rndf(rng, w); env['f%d' % i] = v; push(T.var(w, 'f%d' % i), v)
    for _ in range(rng.randint(4, 25)):
        c = rng.random()
        t, v = rng.choice(pool[-8:] if rng.random() < .7 else pool); w = t.w
        same = [p for p in pool if p[0].w == w]
        u, uv = rng.choice(same)
        if c < .35:
            op = rng.choice(BIN)
            if w > 64: continue
            if op in ('sdiv', 'srem') and (uv == 0 or (v == 1 << (w - 1) and uv == T.ones(w))): continue
            if op in ('udiv', 'urem') and uv == 0: continue
            if op in ('shl', 'lshr', 'ashr') and rng.random() < .7:
                uv = rng.randint(0, w); u = T.const(w, uv); uv &= T.ones(w)
            push(getattr(T, op)(t, u), pybin(op, v, uv, w))
        elif c < .47:
            op = rng.choice(CMP); push(getattr(T, op)(t, u), pybin(op, v, uv, w))
        elif c < .57:
            b, bv = rng.choice([p for p in pool if p[0].w == 1]); push(T.ite(b, t, u), v if bv else uv)
        elif c < .67:
            if w + u.w <= 128: push(T.cat([t, u]), v | uv << w)
        elif c < .8:
            lo = rng.randrange(w); n = rng.choice([1, 8, 16, 32, 64, w]); n = min(n, w - lo)
            push(T.ext(t, lo, n), v >> lo)
        elif c < .85:
            n = rng.choice([8, 16, 32, 64])
            if n > w:
                if rng.random() < .5: push(T.zext(t, n), v)
                else: push(T.sext(t, n), T.sgn(v, w))
        elif c < .9:
            k = rng.random()
            if k < .4: push(T.bnot(t), ~v)
            elif k < .6 and w <= 64: push(T.neg(t), -v)
            elif k < .8: push(T.rep(T.ext(t, 0, 1), 16), T.ones(16) if v & 1 else 0)
            elif w >= 8: push(T.popcount(t, w), bin(v).count('1'))
        elif fp:
            fl = [p for p in pool if p[0].w in (32, 64)]
            t, v = rng.choice(fl); w = t.w
            u, uv = rng.choice([p for p in fl if p[0].w == w])
            nm = rng.choice(['fadd', 'fsub', 'fmul', 'fdiv', 'flt', 'fle', 'feq', 'fcvt', 's2f', 'f2s', 'fround', 'fneg', 'fabs', 'fsqrt'])
            E = lambda op, W, vv=None, xs=(v, uv): T.evalop(op, W, (w,) * len(xs), tuple(xs), vv)
            SB = 1 << (w - 1)
            if nm == 'fsub': r = (T.fsub(t, u), E('fadd', w, None, (v, uv ^ SB)))
            elif nm in ('flt', 'fle', 'feq'): r = (getattr(T, nm)(t, u), E(nm, 1))
            elif nm == 'fcvt': r = (T.fcvt(t, 96 - w), E('fcvt', 96 - w, None, (v,)))
            elif nm == 's2f': r = (T.s2f(t, w), E('s2f', w, None, (v,)))
            elif nm == 'f2s': r = (T.f2s(t, 32), E('f2s', 32, 'RTZ', (v,)))
            elif nm == 'fround':
                m = rng.choice(['RNE', 'RTN', 'RTP', 'RTZ']); r = (T.fround(t, m), E('fround', w, m, (v,)))
            elif nm == 'fneg': r = (T.fneg(t), v ^ SB)
            elif nm == 'fabs': r = (T.fabs_(t), v & ~SB)
            elif nm == 'fsqrt': r = (T.fsqrt(t), E('fsqrt', w, None, (v,)))
            else: r = (getattr(T, nm)(t, u), E(nm, w))
            if r[1] is None: continue
            # NaN payloads are not modelled: drop NaN results of arithmetic
            if r[0].w in (32, 64) and nm not in ('fneg', 'fabs', 'f2s') and T._isnan(r[1], r[0].w): continue
            push(*r)
    t, v = pool[-1]
    return t, v, env

def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 12000
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    t0 = time.time(); bad = 0; zn = 0
    for cmd in (['g++', '--version'], ['python3', '--version']):
        subprocess.run(cmd, stdout=subprocess.DEVNULL, check=True)
    for i in range(n):
        fp = i % 3 == 0
        t, v, env = one(rng, fp)
        g = T.evaluate([t], env)[0]
        if g != v:
            bad += 1
            if bad < 5: print('MISMATCH evaluate', T.show(t, 8), hex(g), hex(v), env)
        if i % 10 == 1:
            c = solve.Conv(exact=True); e = c.bv(t)
            z = z3.simplify(z3.substitute(e, *[(z3.BitVec(x.v, x.w), z3.BitVecVal(env.get(x.v, 0), x.w)) for x in T.variables([t])]))
            zn += 1
            if z3.is_bv_value(z) and z.as_long() != v:
                bad += 1; print('MISMATCH z3', T.show(t, 8), z, hex(v), env)
    print('selftest: %d random terms, %d through z3, %d mismatches, %.1f s' % (n, zn, bad, time.time() - t0))
    sys.exit(1 if bad else 0)
if __name__ == '__main__': main()
