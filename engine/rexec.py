"""Symbolic executor for GCC RTL (the vregs dump), x86-64 semantics.

Executes one function with concrete object addresses and symbolic contents.
Control flow is explored with state merging at join points; loops are unrolled
until the solver says the back edge is infeasible."""
import itertools
import re
from . import terms as T
from . import rtl

class Unsupported(Exception):
    pass

class Infeasible(Exception):
    pass

_mode_cache = {}
INNER = {'QI': (8, 0), 'HI': (16, 0), 'SI': (32, 0), 'DI': (64, 0), 'TI': (128, 0), 'OI': (256, 0),
         'XI': (512, 0), 'HF': (16, 1), 'BF': (16, 1), 'SF': (32, 1), 'DF': (64, 1), 'XF': (128, 1), 'TF': (128, 1),
         'BI': (1, 0)}
MODERE = re.compile(r'V(\d+)([A-Z]+)$')

def minfo(mode):
    """(total width, lane width, lanes, is_fp)"""
    r = _mode_cache.get(mode)
    if r is None:
        m = MODERE.match(mode or '')
        if m and m.group(2) in INNER:
            w, f = INNER[m.group(2)]
            n = int(m.group(1))
            r = (w * n, w, n, bool(f))
        elif mode in INNER:
            w, f = INNER[mode]
            r = (w, w, 0, bool(f))
        else:
            raise Unsupported('mode %s' % mode)
        _mode_cache[mode] = r
    return r

FIRST_PSEUDO = 76
SP, ARGP, FLAGS, FRAME = 7, 16, 17, 19
XMM = [20, 21, 22, 23, 24, 25, 26, 27] + list(range(44, 52))
INTARG = [5, 4, 1, 2, 36, 37]

class Flags:
    __slots__ = ('kind', 'a', 'b', 'mode')
    def __init__(self, kind, a, b, mode=None):
        self.kind = kind; self.a = a; self.b = b; self.mode = mode
    def same(self, o):
        return o is not None and self.kind == o.kind and self.a is o.a and self.b is o.b

class Obj:
    def __init__(self, name, base, size, align=1, writable=True):
        self.name = name; self.base = base; self.size = size; self.align = align
        self.writable = writable
        self.init = {}

class State:
    __slots__ = ('regs', 'hard', 'flags', 'mem', 'pc')
    def copy(self):
        s = State()
        s.regs = dict(self.regs); s.hard = dict(self.hard); s.flags = self.flags
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.pc = self.pc
        return s

ITEFP = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'unlt', 'unle', 'ungt', 'unge', 'uneq', 'ltgt', 'ordered', 'unordered'}

def fcmp(code, a, b):
    if code == 'eq': return T.feq(a, b)
    if code == 'ne': return T.bnot(T.feq(a, b))
    if code == 'lt': return T.flt(a, b)
    if code == 'le': return T.fle(a, b)
    if code == 'gt': return T.flt(b, a)
    if code == 'ge': return T.fle(b, a)
    if code == 'unordered': return T.funord(a, b)
    if code == 'ordered': return T.bnot(T.funord(a, b))
    if code == 'unlt': return T.bnot(T.fle(b, a))
    if code == 'unle': return T.bnot(T.flt(b, a))
    if code == 'ungt': return T.bnot(T.fle(a, b))
    if code == 'unge': return T.bnot(T.flt(a, b))
    if code == 'uneq': return T.bor(T.funord(a, b), T.feq(a, b))
    if code == 'ltgt': return T.bor(T.flt(a, b), T.flt(b, a))
    raise Unsupported('fcmp ' + code)

def icmp(code, a, b):
    if code == 'eq': return T.eq(a, b)
    if code == 'ne': return T.ne(a, b)
    if code == 'lt': return T.slt(a, b)
    if code == 'le': return T.sle(a, b)
    if code == 'gt': return T.slt(b, a)
    if code == 'ge': return T.sle(b, a)
    if code == 'ltu': return T.ult(a, b)
    if code == 'leu': return T.ule(a, b)
    if code == 'gtu': return T.ult(b, a)
    if code == 'geu': return T.ule(b, a)
    raise Unsupported('icmp ' + code)

PCMP_FP = ['eq', 'lt', 'le', 'unordered', 'ne', 'unge', 'ungt', 'ordered',
           'uneq', 'unlt', 'unle', 'false', 'ltgt', 'ge', 'gt', 'true']
# vcmpps: 5 NLT = not(a<b) = unge; 6 NLE = ungt; 9 NGE = unlt; 10 NGT = unle; 12 NEQ_OQ = ltgt
PCMP_I = ['eq', 'lt', 'le', 'false', 'ne', 'ge', 'gt', 'true']
PCMP_U = ['eq', 'ltu', 'leu', 'false', 'ne', 'geu', 'gtu', 'true']

ROUNDMODE = {0: 'RNE', 1: 'RTN', 2: 'RTP', 3: 'RTZ'}

class Exec:
    def __init__(self, funcs, data, syms=None, solver=None, max_visits=200):
        self.funcs = funcs
        self.data = data
        self.syms = syms or {}
        self.solver = solver        # feasibility oracle: solver(list of bool terms) -> True/False/None
        self.max_visits = max_visits
        self.cfgs = {}
        self.succs = {}
        self.pool = rtl.pool_notes(funcs)
        self.reset()

    # ------------------------------------------------------------ set-up
    def reset(self):
        self.objs = []; self.ranges = {}
        self.nobj = 0
        self.sym_obj = {}
        self.viol = []              # (cond, kind, where)
        self.covered = set()
        self.insn_count = 0
        self.assumptions = []
        self.called = set()
        self.st = State()
        self.st.regs = {}; self.st.hard = {}; self.st.flags = None; self.st.mem = {}; self.st.pc = ()
        self.loc = ''
        self.depth = 0
        self.argp = None; self.frame = None
        self.stack = self.new_obj('stack', None, 4096)
        self.st.hard[SP] = T.const(64, self.stack.base + (1 << 20))
        self.accessed = {}

    def new_obj(self, name, size, align=1, misalign=0, writable=True):
        self.nobj += 1
        base = (self.nobj << 32) + (1 << 24) + misalign
        o = Obj(name, base, size, align, writable)
        self.objs.append(o)
        self.st.mem[self.nobj] = {}
        return o

    def obj_at(self, addr):
        k = addr >> 32
        if 1 <= k <= self.nobj: return k, self.objs[k - 1]
        return 0, None

    # ------------------------------------------------------------ memory
    def violation(self, kind, cond=None):
        c = T.conj(self.st.pc)
        if cond is not None: c = T.band(c, cond)
        if T.is0(c): return
        self.viol.append((c, kind, self.loc))

    def _load_const(self, addr, n, cond=None):
        k, o = self.obj_at(addr)
        if o is None:
            self.violation('load from wild address %#x' % addr, cond)
            return T.undef(8 * n)
        off = addr - o.base
        if o.size is not None and (off < 0 or off + n > o.size):
            self.violation('out-of-bounds load of %d bytes at %s%+d (size %d)' % (n, o.name, off, o.size), cond)
        m = self.st.mem[k]
        parts = []
        i = 0
        while i < n:
            e = m.get(off + i)
            if e is None:
                u = T.undef(8)
                m[off + i] = (u, 0)
                e = (u, 0)
            ch, b = e
            j = i + 1
            nb = b + 1
            while j < n:
                f = m.get(off + j)
                if f is None or f[0] is not ch or f[1] != nb: break
                j += 1; nb += 1
            parts.append(T.ext(ch, 8 * b, 8 * (j - i)))
            i = j
        return parts[0] if len(parts) == 1 else T.cat(parts)

    def _store_const(self, addr, val, cond=None):
        """store; with cond: conditional"""
        k, o = self.obj_at(addr)
        n = val.w // 8
        if o is None:
            self.violation('store to wild address %#x' % addr, cond)
            return
        off = addr - o.base
        if o.size is not None and (off < 0 or off + n > o.size):
            self.violation('out-of-bounds store of %d bytes at %s%+d (size %d)' % (n, o.name, off, o.size), cond)
        if not o.writable:
            self.violation('store to read-only object %s' % o.name, cond)
        if cond is not None:
            nv = len(self.viol)
            old = self._load_const(addr, n)
            del self.viol[nv:]
            val = T.ite(cond, val, old)
        m = self.st.mem[k]
        for i in range(n):
            m[off + i] = (val, i)

    def addr_values(self, a):
        """candidate concrete values of a symbolic address"""
        vs = possible(a, 4096)
        if vs is not None and len(vs) <= 300: return sorted(vs)
        if self.solver is None: raise Unsupported('symbolic address')
        out = []
        conds = list(self.assumptions) + list(self.st.pc)
        while True:
            m = self.solver.model(conds, a)
            if m is None: break
            if m == 'unknown': raise Unsupported('symbolic address (solver)')
            out.append(m)
            if len(out) > 300: raise Unsupported('too many address values')
            conds.append(T.ne(a, T.const(a.w, m)))
        return sorted(out)

    def addr_cases(self, a):
        """candidate concrete addresses with the conditions under which they are used"""
        vs = T.variables([a])
        if vs and all(v.v in self.ranges for v in vs):
            k = 1
            for v in vs: k *= self.ranges[v.v]
            if k <= 300:
                out = {}
                vs = list(vs)
                for combo in itertools.product(*[range(self.ranges[v.v]) for v in vs]):
                    ad = T.evaluate([a], {v.v: x for v, x in zip(vs, combo)})[0]
                    c = T.conj([T.eq(v, T.const(v.w, x)) for v, x in zip(vs, combo)])
                    out[ad] = T.bor(out[ad], c) if ad in out else c
                return sorted(out.items())
        return [(v, T.eq(a, T.const(64, v))) for v in self.addr_values(a)]

    def check_align(self, a, align, n, cond=None):
        if a % align:
            self.violation('access of %d bytes assumes %d-byte alignment' % (n, align), cond)

    def load(self, a, n, align=1, cond=None):
        if a.op == 'const':
            if align > 8: self.check_align(a.v, align, n, cond)
            return self._load_const(a.v, n, cond)
        vs = self.addr_cases(a)
        if not vs: raise Infeasible()
        r = None
        for v, c in reversed(vs):
            cc = c if cond is None else T.band(c, cond)
            if T.is0(cc): continue
            if align > 8: self.check_align(v, align, n, cc)
            x = self._load_const(v, n, cc)
            r = x if r is None else T.ite(c, x, r)
        return r

    def store(self, a, val, align=1, cond=None):
        if a.op == 'const':
            if align > 8: self.check_align(a.v, align, val.w // 8, cond)
            return self._store_const(a.v, val, cond)
        for v, c in self.addr_cases(a):
            if cond is not None: c = T.band(c, cond)
            if T.is0(c): continue
            if align > 8: self.check_align(v, align, val.w // 8, c)
            self._store_const(v, val, None if T.isc(c) else c)

    # ------------------------------------------------------------ symbols
    def symbol(self, name):
        name = name.lstrip('*')
        o = self.sym_obj.get(name)
        if o is None:
            if name in self.data:
                b = self.data[name]
                o = self.new_obj(name, len(b), writable=False)
                m = self.st.mem[self.nobj]
                for i, c in enumerate(b):
                    m[i] = (T.const(8, c), 0)
                if name in self.syms:
                    for off in self.syms[name]:
                        for i in range(8): m.pop(off + i, None)
            else:
                raise Unsupported('symbol ' + name)
            self.sym_obj[name] = o
            self.sym_obj_id = None
            o.mem_template = dict(self.st.mem[self.nobj])
            o.idx = self.nobj
        elif o.idx not in self.st.mem:
            self.st.mem[o.idx] = dict(o.mem_template)
        return T.const(64, o.base)

    # ------------------------------------------------------------ evaluation
    def getreg(self, mode, n):
        if n >= FIRST_PSEUDO:
            v = self.st.regs.get(n)
            if v is None:
                v = T.undef(minfo(mode)[0])
                self.st.regs[n] = v
            return v
        if n == FRAME: return self.frame
        if n == ARGP: return self.argp
        w = minfo(mode)[0]
        v = self.st.hard.get(n)
        if v is None:
            v = T.undef(w); self.st.hard[n] = v
        if v.w == w: return v
        if v.w > w: return T.ext(v, 0, w)
        if w == 128 and n in (0,):   # ax:dx pair
            d = self.st.hard.get(1)
            if d is not None: return T.cat((v, T.zext(d, 64) if d.w < 64 else d))
        if w == 256 and v.w == 128 and n in XMM: pass
        v = T.cat((v, T.undef(w - v.w)))
        self.st.hard[n] = v
        return v

    def setreg(self, mode, n, v):
        if n >= FIRST_PSEUDO:
            self.st.regs[n] = v
        elif n == FLAGS:
            self.st.flags = v
        else:
            if n < 16 and v.w == 128:
                self.st.hard[n] = T.ext(v, 0, 64); self.st.hard[{0: 1, 5: 4}.get(n, n + 1)] = T.ext(v, 64, 64)
                return
            self.st.hard[n] = v

    def mode_of(self, e):
        m = e[1]
        return m

    def opmode(self, a, b=None):
        m = a[1] if a[0] != 'const_int' else None
        if m is None and b is not None: m = b[1] if b[0] != 'const_int' else None
        return m

    def ev(self, e, mode=None):
        f = DISP.get(e[0])
        if f is None:
            raise Unsupported('rtx %s' % e[0])
        return f(self, e, mode)

    def ev_const_int(self, e, mode):
        if mode is None: raise Unsupported('const_int without mode')
        w, lw, n, fp = minfo(mode)
        if n:      # vector of constant
            return T.const(w, e[2] if e[2] >= 0 else -1 if e[2] == -1 else e[2])
        return T.const(w, e[2])
    def ev_const_wide(self, e, mode):
        return T.const(minfo(mode)[0], e[2])
    def ev_const_double(self, e, mode):
        m = e[1] or mode
        return const_double(m, e[2], e[3])
    def ev_const_vector(self, e, mode):
        w, lw, n, fp = minfo(e[1])
        inner = e[1][len(str(n)) + 1:]
        if fp and all(x[0] == 'const_double' and (x[2] or x[3]) == '-QNaN' for x in e[2]):
            # NaN payloads are not printed; the only NaN constant x86 accepts as an immediate
            # vector operand is all ones, every other one is loaded from the constant pool
            return T.const(w, -1)
        return T.cat([self.ev(x, inner) for x in e[2]])
    def ev_const(self, e, mode):
        return self.ev(e[2], e[1] or mode)
    def ev_reg(self, e, mode):
        if e[2] == FLAGS: return self.st.flags
        return self.getreg(e[1], e[2])
    def ev_symbol(self, e, mode):
        return self.symbol(e[2])
    def ev_subreg(self, e, mode):
        w = minfo(e[1])[0]
        x = self.ev(e[2], None)
        off = e[3] * 8
        if x.w >= w + off: return T.ext(x, off, w)
        if off == 0:
            return T.cat((x, T.undef(w - x.w)))
        raise Unsupported('subreg')
    def address(self, e):
        c = e[0]
        if c in ('pre_dec', 'post_inc', 'pre_inc', 'post_dec', 'pre_modify'):
            raise Unsupported('autoinc')
        return self.ev(e, 'DI')
    def memalign(self, e):
        # alignment the back end may rely on
        w, lw, n, fp = minfo(e[1])
        if n or w >= 128: return min(e[4] // 8, w // 8) if e[4] >= 128 else 1
        return 1
    def ev_mem(self, e, mode):
        w = minfo(e[1])[0]
        return self.load(self.address(e[2]), w // 8, self.memalign(e))

    # lane-wise helpers
    def lanewise(self, mode, f, *xs):
        w, lw, n, fp = minfo(mode)
        if not n: return f(*xs)
        k = n
        return T.cat([f(*[T.ext(x, i * (x.w // k), x.w // k) for x in xs]) for i in range(k)])

    def ev_bin(self, e, mode):
        m = e[1] or mode
        a = self.ev(e[2], m); b = self.ev(e[3], m)
        w, lw, n, fp = minfo(m)
        op = e[0]
        if op in ('and', 'ior', 'xor'):
            return {'and': T.band, 'ior': T.bor, 'xor': T.bxor}[op](a, b)
        if fp:
            if lw == 128 or lw == 16: raise Unsupported('fp mode ' + m)
            f = FPBIN.get(op)
        else:
            f = INTBIN.get(op)
            if op in ('div', 'udiv', 'mod', 'umod'):
                if n: raise Unsupported('vector div')
                self.divcheck(op, a, b)
        if f is None: raise Unsupported('%s:%s' % (op, m))
        return self.lanewise(m, f, a, b)

    def divcheck(self, op, a, b):
        z = T.eq(b, T.const(b.w, 0))
        self.violation('integer division by zero', z)
        if op in ('div', 'mod'):
            self.violation('integer division overflow',
                           T.band(T.eq(a, T.const(a.w, 1 << (a.w - 1))), T.eq(b, T.const(b.w, -1))))

    def ev_shift(self, e, mode):
        m = e[1] or mode
        w, lw, n, fp = minfo(m)
        op = e[0]
        a = self.ev(e[2], m)
        ce = e[3]
        f = {'ashift': T.shl, 'lshiftrt': T.lshr, 'ashiftrt': T.ashr}.get(op)
        if ce[0] == 'const_int':
            k = ce[2]
            if f is None:
                k %= lw
                if op == 'rotatert': k = (lw - k) % lw
                return self.lanewise(m, lambda x: T.cat((T.ext(x, lw - k, k), T.ext(x, 0, lw - k))) if k else x, a)
            if not n:
                k &= 63 if lw > 32 else 31
            elif k < 0: k = 1 << 30
            return self.lanewise(m, lambda x: f(x, T.const(64, k)), a)
        c = self.ev(ce, None)
        if f is None: raise Unsupported('variable rotate')
        if n:
            if ce[1] and minfo(ce[1])[2] == n and (n > 1 or c.w == w):
                return self.lanewise(m, f, a, c)
            c64 = T.ext(c, 0, 64) if c.w > 64 else c
            return self.lanewise(m, lambda x: f(x, c64), a)
        k = 6 if lw == 64 else 5
        if lw > 64: k = 7
        c = T.cat((T.ext(c, 0, k), T.const(64 - k, 0))) if c.w > k else T.zext(c, 64)
        return f(a, c)

    def ev_un(self, e, mode):
        m = e[1] or mode
        w, lw, n, fp = minfo(m)
        a = self.ev(e[2], m)
        op = e[0]
        if op == 'not': return T.bnot(a)
        if fp:
            f = {'neg': T.fneg, 'abs': T.fabs_, 'sqrt': T.fsqrt}.get(op)
            if lw == 128 and op not in ('neg', 'abs'): raise Unsupported('xf')
        else:
            f = {'neg': T.neg, 'abs': lambda x: T.ite(T.msb(x), T.neg(x), x),
                 'popcount': lambda x: T.popcount(x, x.w), 'ctz': lambda x: T.ctz(x, x.w, self.ctz_zero(x)),
                 'clz': lambda x: T.clz(x, x.w, self.clz_zero(x)),
                 'bswap': lambda x: T.cat([T.ext(x, i, 8) for i in range(x.w - 8, -1, -8)])}.get(op)
        if f is None: raise Unsupported('%s:%s' % (op, m))
        return self.lanewise(m, f, a)
    def ctz_zero(self, x):
        # bsf/tzcnt disagree on zero: result undefined at this level
        z = T.eq(x, T.const(x.w, 0))
        if T.is0(z): return None
        if self.st.pc and self.solver is not None:
            if T.is0(T.conj(self.st.pc + (z,))): return None
            if self.solver.feasible(list(self.assumptions) + list(self.st.pc) + [z]) is False: return None
        return T.undef(x.w)
    clz_zero = ctz_zero

    def ev_cmp(self, e, mode):
        """comparison codes, vector or flag based"""
        op = e[0]
        a, b = e[2], e[3]
        m = e[1]
        if a[0] == 'reg' and a[2] == FLAGS:
            if a[1] == 'CCC' and op in ('eq', 'ne'):      # i386.cc put_condition_code: eq/ne on CCC tests the carry
                if self.st.flags is None or self.st.flags.kind != 'zc': raise Unsupported('CCC')
                op = 'ltu' if op == 'eq' else 'geu'
            c = self.flagcond(op, self.st.flags)
            return c if m is None else T.zext(c, minfo(m)[0])
        om = self.opmode(a, b)
        if om and (om.startswith('CC')):
            fl = self.ev(a)
            c = self.flagcond(op, fl)
            return c if m is None else T.zext(c, minfo(m)[0])
        if om is None: raise Unsupported('cmp mode')
        x = self.ev(a, om); y = self.ev(b, om)
        w, lw, n, fp = minfo(om)
        f = (lambda p, q: fcmp(op, p, q)) if fp else (lambda p, q: icmp(op, p, q))
        if not n:
            c = f(x, y)
            if m is None: return c
            rw, _, _, rfp = minfo(m)
            return T.rep(c, rw) if rfp else T.zext(c, rw)     # cmpss: all bits
        cs = [f(p, q) for p, q in zip(T.lanes(x, lw), T.lanes(y, lw))]
        rw, rlw, rn, rfp = minfo(m)
        if rn: return T.cat([T.rep(c, rlw) for c in cs])
        return T.zext(T.cat(cs), rw) if rw >= len(cs) else T.ext(T.cat(cs), 0, rw)

    def flagcond(self, op, fl):
        if fl is None: raise Unsupported('flags undefined')
        k = fl.kind
        if k == 'int': return icmp(op, fl.a, fl.b)
        if k == 'fp':
            u = T.funord(fl.a, fl.b)
            if op in ('gt', 'gtu'): return T.flt(fl.b, fl.a)
            if op in ('ge', 'geu'): return T.fle(fl.b, fl.a)
            if op == 'unlt' or op == 'ltu': return T.bnot(T.fle(fl.b, fl.a))
            if op == 'unle' or op == 'leu': return T.bnot(T.flt(fl.b, fl.a))
            if op == 'unordered': return u
            if op == 'ordered': return T.bnot(u)
            if op == 'uneq' : return T.bor(u, T.feq(fl.a, fl.b))
            if op == 'ltgt': return T.bnot(T.bor(u, T.feq(fl.a, fl.b)))
            if op == 'eq':
                return T.bor(u, T.feq(fl.a, fl.b)) if fl.mode == 'CCFP_zf' else T.feq(fl.a, fl.b)
            if op == 'ne': return T.bnot(T.feq(fl.a, fl.b))
            if op in ('lt', 'le', 'unge', 'ungt'): return fcmp(op, fl.a, fl.b)
        if k == 'zc':       # explicit ZF, CF
            if op == 'eq': return fl.a
            if op == 'ne': return T.bnot(fl.a)
            if op == 'ltu': return fl.b
            if op == 'geu': return T.bnot(fl.b)
            if op == 'gtu': return T.band(T.bnot(fl.a), T.bnot(fl.b))
            if op == 'leu': return T.bor(fl.a, fl.b)
        raise Unsupported('flagcond %s %s' % (op, k))

    def ev_compare(self, e, mode):
        a, b = e[2], e[3]
        om = self.opmode(a, b)
        if om is None: raise Unsupported('compare mode')
        if a[0] == 'reg' and a[2] == FLAGS or om.startswith('CC'): raise Unsupported('compare flags')
        x = self.ev(a, om); y = self.ev(b, om)
        fp = minfo(om)[3]
        if fp and minfo(om)[0] > 64: raise Unsupported('long double compare')
        m = e[1]
        if not fp and m == 'CCC' or m == 'CCO':
            if m == 'CCO': raise Unsupported('CCO')
        return Flags('fp' if fp else 'int', x, y, m)

    def cond(self, e):
        """boolean from an if_then_else condition"""
        if e[0] in ITEFP or e[0] in ('ltu', 'leu', 'gtu', 'geu'):
            if e[1] is None: return self.ev_cmp(e, None)
            r = self.ev_cmp(e, None)
            return T.ext(r, 0, 1)
        if e[0] in ('and', 'ior') and e[1] is None or e[1] == 'BI':
            a, b = self.cond(e[2]), self.cond(e[3])
            return T.band(a, b) if e[0] == 'and' else T.bor(a, b)
        raise Unsupported('cond ' + e[0])

    def ev_ite(self, e, mode):
        m = e[1] or mode
        c = self.cond(e[2])
        return T.ite(c, self.ev(e[3], m), self.ev(e[4], m))

    def ev_vec_select(self, e, mode):
        x = self.ev(e[2])
        w, lw, n, fp = minfo(e[1])
        idx = [self.parint(k) for k in e[3][2]]
        xl = minfo(e[2][1])[1]
        # element width of the source decides
        return T.cat([T.ext(x, i * xl, xl) for i in idx])
    def parint(self, k):
        if k[0] != 'const_int': raise Unsupported('vec_select idx')
        return k[2]
    def ev_vec_concat(self, e, mode):
        w, lw, n, fp = minfo(e[1])
        h = {1: None}
        def half(x):
            if x[0] in ('const_int', 'const_double') and x[1] is None:
                return T.const(w // 2, x[2])
            return self.ev(x)
        a, b = half(e[2]), half(e[3])
        if w >= 256 and e[2][0] in ('ss_truncate', 'us_truncate') and e[3][0] == e[2][0]:
            # gcc 13 writes the 256/512-bit pack instructions this way; the
            # instruction packs within each 128-bit lane
            return T.cat([T.ext(x, k, 64) for k in range(0, w // 2, 64) for x in (a, b)])
        return T.cat((a, b))
    def ev_vec_dup(self, e, mode):
        w, lw, n, fp = minfo(e[1])
        inner = e[1][len(str(n)) + 1:]
        x = self.ev(e[2], inner)
        return T.cat([x] * (w // x.w))
    def ev_vec_merge(self, e, mode):
        m = e[1] or mode
        w, lw, n, fp = minfo(m)
        mk = self.ev(e[4], 'DI') if e[4][0] == 'const_int' else self.ev(e[4])
        if n == 0: n = 1
        bits = [T.bit(mk, i) for i in range(n)]
        a = self.ev_masked(e[2], m, bits, lw)
        b = self.ev_masked(e[3], m, [T.bnot(x) for x in bits], lw)
        return T.cat([T.ite(bits[i], T.ext(a, i * lw, lw), T.ext(b, i * lw, lw)) for i in range(n)])
    def ev_masked(self, x, m, bits, lw):
        """operand of a masked operation; memory is touched only where bits is set"""
        if x[0] == 'mem': return self.masked_load(x, bits, lw)
        if x[0] == 'unspec' and x[3] == 'UNSPEC_MASKLOAD':
            return self.masked_load(x[2][0], bits, lw)
        if x[0] == 'vec_duplicate' and x[2][0] == 'mem': pass
        return self.ev(x, m)
    def masked_load(self, mem, bits, lw):
        a = self.address(mem[2])
        al = self.memalign(mem)
        if al > 8 and T.isc(a): self.check_align(a.v, al, minfo(mem[1])[0] // 8)
        return T.cat([self.load(T.add(a, T.const(64, i * lw // 8)), lw // 8, 1, bits[i])
                      if not T.is0(bits[i]) else T.const(lw, 0)
                      for i in range(len(bits))])
    def masked_store(self, mem, val, bits, lw):
        a = self.address(mem[2])
        al = self.memalign(mem)
        if al > 8 and T.isc(a): self.check_align(a.v, al, minfo(mem[1])[0] // 8)
        for i, c in enumerate(bits):
            if T.is0(c): continue
            self.store(T.add(a, T.const(64, i * lw // 8)), T.ext(val, i * lw, lw), 1, None if T.isc(c) else c)

    def ev_convert(self, e, mode):
        op = e[0]
        m = e[1] or mode
        w, lw, n, fp = minfo(m)
        src = e[2]
        om = src[1]
        if om is None: raise Unsupported('convert of const')
        x = self.ev(src)
        xw, xlw, xn, xfp = minfo(om)
        if lw == 128 or xlw == 128 and xfp: raise Unsupported('long double conversion')
        if op == 'zero_extend': f = lambda p: T.zext(p, lw)
        elif op == 'sign_extend': f = lambda p: T.sext(p, lw)
        elif op == 'truncate': f = lambda p: T.ext(p, 0, lw)
        elif op == 'ss_truncate':
            lo, hi = -(1 << (lw - 1)), (1 << (lw - 1)) - 1
            def f(p):
                if T._sxw(p) <= lw: return T.ext(p, 0, lw)
                return T.ite(T.slt(T.const(p.w, hi), p), T.const(lw, hi),
                             T.ite(T.slt(p, T.const(p.w, lo)), T.const(lw, lo), T.ext(p, 0, lw)))
        elif op == 'us_truncate':
            # x86 packus treats the source as signed; AVX512 vpmovus as unsigned
            f = lambda p: T.ite(T.ult(T.const(p.w, (1 << lw) - 1), p), T.const(lw, -1), T.ext(p, 0, lw))
        elif op == 'float': f = lambda p: T.s2f(p, lw)
        elif op == 'unsigned_float': f = lambda p: T.u2f(p, lw)
        elif op == 'fix': f = lambda p: T.f2s(p, lw)
        elif op == 'unsigned_fix': f = lambda p: T.f2u(p, lw)
        elif op in ('float_extend', 'float_truncate'): f = lambda p: T.fcvt(p, lw)
        else: raise Unsupported(op)
        if not n: return f(x)
        return T.cat([f(T.ext(x, i * xlw, xlw)) for i in range(n)])

    def ev_fma(self, e, mode):
        m = e[1]
        return self.lanewise(m, T.ffma, self.ev(e[2], m), self.ev(e[3], m), self.ev(e[4], m))

    def ev_zero_extract(self, e, mode):
        x = self.ev(e[2], e[1])
        if e[3][0] != 'const_int' or e[4][0] != 'const_int': raise Unsupported('zero_extract var')
        r = T.ext(x, e[4][2], e[3][2])
        w = minfo(e[1])[0]
        return T.zext(r, w) if e[0] == 'zero_extract' else T.sext(r, w)

    def ev_asm(self, e, mode):
        # (asm_operands (template) (constraint) idx [inputs] [input constraints] ...)
        tmpl = e[2]
        ins = None
        for x in e[2:]:
            if isinstance(x, list): ins = x; break
        s = tmpl[1] if isinstance(tmpl, tuple) and tmpl[0] == 'str' else None
        return self.asm_value(e, ins)
    def asm_value(self, e, ins):
        raise Unsupported('asm')

    def ev_call(self, e, mode):
        raise Unsupported('nested call')

    # ------------------------------------------------------------ unspecs
    def ev_unspec(self, e, mode):
        name = e[3] if len(e) > 3 else None
        f = UNSPEC.get(name)
        if f is None: raise Unsupported('unspec %s' % name)
        return f(self, e, e[2], e[1] or mode)

    # ------------------------------------------------------------ statements
    def assign(self, dest, src_val):
        d = dest[0]
        if d == 'reg':
            if dest[2] == FLAGS: self.st.flags = src_val
            else: self.setreg(dest[1], dest[2], src_val)
        elif d == 'subreg':
            self.assign_subreg(dest, src_val)
        elif d == 'mem':
            self.store(self.address(dest[2]), src_val, self.memalign(dest))
        elif d == 'strict_low_part':
            x = dest[2]
            if x[0] == 'subreg':
                r = x[2]
                old = self.ev(r)
                w = minfo(x[1])[0]; off = x[3] * 8
                parts = []
                if off: parts.append(T.ext(old, 0, off))
                parts.append(src_val)
                if off + w < old.w: parts.append(T.ext(old, off + w, old.w - w - off))
                self.assign(r, T.cat(parts) if len(parts) > 1 else src_val)
            else:
                n = x[2]
                old = self.st.hard.get(n) if n < FIRST_PSEUDO else self.st.regs.get(n)
                if old is not None and old.w > src_val.w:
                    src_val = T.cat((src_val, T.ext(old, src_val.w, old.w - src_val.w)))
                self.setreg(x[1], n, src_val)
        elif d == 'zero_extract':
            r = dest[2]
            old = self.ev(r)
            ln, pos = dest[3][2], dest[4][2]
            v = T.ext(src_val, 0, ln)
            parts = []
            if pos: parts.append(T.ext(old, 0, pos))
            parts.append(v)
            if pos + ln < old.w: parts.append(T.ext(old, pos + ln, old.w - pos - ln))
            self.assign(r, T.cat(parts))
        elif d == 'scratch':
            pass
        else:
            raise Unsupported('dest ' + d)

    def assign_subreg(self, dest, v):
        inner = dest[2]
        ow = minfo(dest[1])[0]
        if inner[0] == 'mem':
            raise Unsupported('subreg mem dest')
        iw = minfo(inner[1])[0]
        off = dest[3] * 8
        if ow >= iw:
            return self.assign(inner, T.ext(v, 0, iw))
        # non-paradoxical: other natural-size (8 byte) blocks preserved
        old = self.ev(inner)
        if iw <= 64:
            parts = []
            if off: parts.append(T.undef(off))
            parts.append(v)
            if off + ow < iw: parts.append(T.undef(iw - off - ow))
            return self.assign(inner, T.cat(parts))
        lo = off // 64 * 64
        hi = (off + ow + 63) // 64 * 64
        parts = []
        if lo: parts.append(T.ext(old, 0, lo))
        if off > lo: parts.append(T.undef(off - lo))
        parts.append(v)
        if hi > off + ow: parts.append(T.undef(hi - off - ow))
        if hi < iw: parts.append(T.ext(old, hi, iw - hi))
        self.assign(inner, T.cat(parts))

    def dest_mode(self, d):
        if d[0] == 'strict_low_part': return self.dest_mode(d[2])
        return d[1]

    def eval_set(self, s):
        """returns closure performing the assignment (sources read now)"""
        dest, src = s[2], s[3]
        dm = self.dest_mode(dest)
        if dest[0] == 'mem':
            # masked stores
            if src[0] == 'unspec' and src[3] in ('UNSPEC_MASKMOV', 'UNSPEC_MASKSTORE', 'UNSPEC_MASKSTOREU') and len(src[2]) == 3:
                w, lw, n, fp = minfo(dm)
                if src[3] == 'UNSPEC_MASKMOV' and dm == 'V16QI' and src[2][2][0] == 'mem':
                    # maskmovdqu (data, mask, mem): faults are not suppressed for unselected bytes
                    val = self.ev(src[2][0], dm); mk = self.ev(src[2][1], dm)
                    bits = [T.msb(x) for x in T.lanes(mk, 8)]
                    def f():
                        a = self.address(dest[2])
                        self.store(a, self.load(a, 16, 1), 1)
                        self.masked_store(dest, val, bits, 8)
                    return f
                if src[2][1][0] == 'mem': mk = self.ev(src[2][2]); val = self.ev(src[2][0], dm)
                else: mk = self.ev(src[2][0]); val = self.ev(src[2][1], dm)
                if mk.w == w: bits = [T.msb(x) for x in T.lanes(mk, lw)]
                else: bits = [T.bit(mk, i) for i in range(n)]
                return lambda: self.masked_store(dest, val, bits, lw)
            if src[0] == 'unspec' and src[3] in ('UNSPEC_MASKSTORE', 'UNSPEC_STORE_MASK', 'UNSPEC_STOREU_MASK'):
                raise Unsupported('maskstore form')
            if src[0] == 'subreg' and src[3] == 0 and src[2][0] == 'vec_merge' and low_of_mem(src[2][3], dest[2]):
                # vpmov* truncating store: (subreg (vec_merge val (low lanes of the destination) mask))
                q = src[2]
                w, lw, n, fp = minfo(q[1])
                mk = self.ev(q[4], 'DI') if q[4][0] == 'const_int' else self.ev(q[4])
                val = self.ev(q[2], q[1])
                bits = [T.bit(mk, i) for i in range(n)]
                return lambda: self.masked_store(dest, val, bits, lw)
            if src[0] == 'vec_merge' and src[3][0] == 'mem' and src[3][2] == dest[2]:
                w, lw, n, fp = minfo(dm)
                mk = self.ev(src[4], 'DI') if src[4][0] == 'const_int' else self.ev(src[4])
                val = self.ev(src[2], dm)
                bits = [T.bit(mk, i) for i in range(n)]
                return lambda: self.masked_store(dest, val, bits, lw)
        if dest[0] == 'mem' and dm == 'BLK' or dest[0] == 'mem' and dest[2][0] in ('pre_dec', 'pre_modify', 'post_inc', 'pre_inc', 'post_dec'):
            return self.special_store(dest, src)
        if dm is not None and dm.startswith('CC'):
            v = self.ev_flags(src)
        else:
            v = self.ev(src, dm)
            w = minfo(dm)[0]
            if v.w != w:
                raise Unsupported('width mismatch %s %d vs %d' % (src[0], v.w, w))
        return lambda: self.assign(dest, v)

    def special_store(self, dest, src):
        am = dest[2]
        if am[0] == 'pre_dec':
            n = minfo(dest[1])[0] // 8
            v = self.ev(src, dest[1])
            r = am[2]
            def f():
                a = T.add(self.ev(r), T.const(64, -n))
                self.assign(r, a)
                self.store(a, v)
            return f
        raise Unsupported('special store')

    def ev_flags(self, src):
        if src[0] == 'compare': return self.ev_compare(src, None)
        if src[0] == 'unspec':
            r = self.ev_unspec(src, src[1])
            if isinstance(r, Flags): return r
        if src[0] == 'reg': return self.ev(src)
        raise Unsupported('flags src ' + src[0])

    def exec_pattern(self, p, ins):
        k = p[0]
        if k == 'set':
            if p[3][0] == 'call':
                return self.do_call(p[3], p[2])
            if p[2][0] == 'pc': raise Unsupported('jump in pattern')
            if p[3][0] == 'mem' and p[3][2][0] == 'symbol_ref' and p[3][2][2].lstrip('*') not in self.data:
                # constant-pool entry that the final code no longer needs
                eq = ins.equal
                if eq is None:
                    eq = self.pool.get(p[3][2][2].lstrip('*'))
                    if isinstance(eq, str): eq = self.pool[p[3][2][2].lstrip('*')] = rtl.parse_expr(eq)
                if eq is not None and 'QNaN' not in str(eq): p = (p[0], p[1], p[2], eq)
            self.eval_set(p)()
        elif k == 'parallel':
            acts = []
            for q in p[2]:
                if q[0] == 'set':
                    if q[3][0] == 'call': return self.do_call(q[3], q[2])
                    if q[2][0] == 'reg' and q[2][2] == FLAGS and q[3][0] == 'compare':
                        try: acts.append(self.eval_set(q))
                        except Unsupported:
                            acts.append(self.kill_flags)
                    else:
                        acts.append(self.eval_set(q))
                elif q[0] == 'call': return self.do_call(q, None)
                elif q[0] in ('clobber',):
                    acts.append(self.clobber_fn(q))
                elif q[0] in ('use', 'unspec'):
                    pass
                elif q[0] in ('asm_operands', 'asm_input') and q[2] in (('""', None), ('str', '')): pass
                elif q[0] in ('asm_operands', 'asm_input', 'return', 'simple_return'):
                    raise Unsupported('asm')
                elif q[0] == 'unspec_volatile': raise Unsupported('volatile')
                else: raise Unsupported('parallel ' + q[0])
            # clobbers first
            for a in acts: a()
        elif k == 'clobber': self.clobber_fn(p)()
        elif k == 'use': pass
        elif k == 'call': return self.do_call(p, None)
        elif k == 'prefetch': pass
        elif k == 'trap_if':
            self.violation('trap')
        elif k == 'asm_input' or k == 'asm_operands':
            if p[2] in (('""', None), ('str', '')): return
            raise Unsupported('asm')
        elif k == 'unspec_volatile':
            if p[3] in ('UNSPECV_VZEROUPPER', 'UNSPECV_BLOCKAGE', 'UNSPECV_NOP_ENDBR'): return
            raise Unsupported('unspec_volatile %s' % (p[3] if len(p) > 3 else ''))
        elif k == 'const_int': pass
        else:
            raise Unsupported('stmt ' + k)

    def kill_flags(self): self.st.flags = None

    def clobber_fn(self, q):
        x = q[2]
        def f():
            if x[0] == 'reg':
                if x[2] == FLAGS: self.st.flags = None
                elif x[2] >= FIRST_PSEUDO: self.st.regs.pop(x[2], None)
                elif x[2] not in (SP, FRAME, ARGP): self.st.hard.pop(x[2], None)
        return f

    # ------------------------------------------------------------ calls
    def do_call(self, c, dest):
        target = c[2][2]
        if target[0] != 'symbol_ref': raise Unsupported('indirect call')
        name = target[2].lstrip('*')
        self.called.add(name)
        if name in self.funcs:
            return self.call_internal(name)
        h = LIBM.get(name)
        if h is not None:
            return h(self, name)
        h = LIBC.get(name)
        if h is not None: return h(self, name)
        raise Unsupported('call ' + name)

    def call_internal(self, name):
        if self.depth > 40: raise Unsupported('call depth')
        saved = (self.st.regs, self.frame, self.argp, self.loc)
        self.depth += 1
        argp = self.st.hard[SP]
        pc0 = self.st.pc
        self.st.regs = {}
        end = self.run_function(name, argp)
        self.depth -= 1
        if end is None: raise Infeasible()
        self.st = end
        self.st.regs, self.frame, self.argp, self.loc = saved[0], saved[1], saved[2], saved[3]
        self.st.pc = pc0 if self._complete(end.pc, pc0) else end.pc
        self.st.hard[SP] = argp

    def _complete(self, a, b):
        return len(a) == len(b) or all(T.is1s(x) for x in a[len(b):])

    # ------------------------------------------------------------ control flow
    def cfg(self, name):
        c = self.cfgs.get(name)
        if c is None:
            *c, self.succs[name] = build_cfg(self.funcs[name].insns)
            self.cfgs[name] = c
        return c

    def run_function(self, name, argp):
        blocks, order, entry = self.cfg(name)
        self.covered.add(name)
        fobj = self.new_obj('frame:' + name, None, 4096)
        self.frame = T.const(64, fobj.base + (1 << 20) // 4096 * 4096 - fobj.base % 4096)
        myframe = self.frame
        self.argp = argp
        pending = {entry: [self.st]}
        visits = {}
        finals = []
        rank = {b: i for i, b in enumerate(order)}
        base_pc = self.st.pc
        deferred = {}
        loops = None
        while pending or deferred:
            b = min(pending, key=lambda x: rank[x]) if pending else None
            sts = []
            if deferred:
                # states waiting at a bit-iteration loop run once the rest of the loop has drained
                if loops is None: loops = loop_sets(self.succs[name])
                for d in deferred:
                    if b is None or b == d or b not in loops.get(d, ()):
                        b = d; sts = deferred.pop(d); break
            sts = pending.pop(b, []) + sts
            st = sts[0]
            for o in sts[1:]:
                st = merge_states(st, o)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.max_visits: raise Unsupported('loop bound (%d) reached' % self.max_visits)
            self.st = st
            self.frame = myframe; self.argp = argp
            blk = blocks[b]
            ended = False
            snap = None
            if blk.ctz is not None and self.split_ctz(blk):
                if loops is None: loops = loop_sets(self.succs[name])
                if b in loops:
                    if visits[b] > self.max_visits: raise Unsupported('loop bound (%d) reached' % self.max_visits)
                    snap = self.fork_ctz(blk)
                    if snap is not None: deferred.setdefault(b, []).append(snap)
            try:
                for ins in blk.insns:
                    self.insn_count += 1
                    self.loc = ins.loc or self.loc
                    try:
                        if ins.kind == 'jump_insn':
                            outs = self.do_jump(ins, blk, visits)
                            ended = True
                            for t, s in outs:
                                if t is None: finals.append(s)
                                else: pending.setdefault(t, []).append(s)
                            break
                        self.exec_pattern(ins.pat, ins)
                    except Unsupported as ex:
                        if not getattr(ex, 'where', None):
                            ex.where = '%s insn %d at %s' % (name, ins.uid, ins.loc)
                        raise
            except Infeasible:
                continue
            if not ended:
                if blk.fall is not None:
                    pending.setdefault(blk.fall, []).append(self.st)
                elif blk.noreturn:
                    self.violation('reached a point the compiler assumes unreachable / noreturn')
                else:
                    finals.append(self.st)
        if not finals: return None
        st = finals[0]
        for o in finals[1:]: st = merge_states(st, o)
        return st

    def split_ctz(self, blk):
        """the block looks for the lowest set bit of a register holding symbolic bits"""
        k = self.st.regs.get(blk.ctz)
        return k is not None and k.op != 'const' and T.ctz(k, k.w).op != 'const'

    def fork_ctz(self, blk):
        """case split on the lowest bit of the register that may be set: the current state
        goes on with the bit set (so that the index is a constant); the returned state has
        the bit clear and enters the block again, merged with the next iteration"""
        st = self.st
        k = st.regs[blk.ctz]
        lo = k.a[0].w if k.op == 'cat' and k.a[0].op == 'const' else 0
        bit = T.ext(k, lo, 1)
        def put(v):
            ps = ([T.const(lo, 0)] if lo else []) + [T.const(1, v)]
            if lo + 1 < k.w: ps.append(T.ext(k, lo + 1, k.w - lo - 1))
            return T.cat(tuple(ps))
        k0 = put(0); k1 = put(1)
        s2 = None
        rest = T.ext(k, lo + 1, k.w - lo - 1) if lo + 1 < k.w else T.FALSE()
        if not T.is0(rest):
            s2 = st.copy()
            s2.regs[blk.ctz] = k0
            s2.pc = simp_pc(st.pc, T.bnot(bit))
        elif self.solver is None or self.solver.feasible(list(self.assumptions) + list(st.pc) + [T.bnot(bit)]) is not False:
            return None     # the register may be zero here: leave it to the general rule
        st.regs[blk.ctz] = k1
        st.pc = simp_pc(st.pc, bit)
        return s2

    def do_jump(self, ins, blk, visits):
        p = ins.pat
        if p[0] == 'parallel':
            sets = [q for q in p[2] if q[0] == 'set' and q[2][0] == 'pc']
            if not sets:
                raise Unsupported('jump parallel')
            others = [q for q in p[2] if not (q[0] == 'set' and q[2][0] == 'pc')]
            p = sets[0]
        else: others = []
        if p[0] in ('return', 'simple_return'): return [(None, self.st)]
        if p[0] != 'set' or p[2][0] != 'pc': raise Unsupported('jump ' + p[0])
        src = p[3]
        if src[0] == 'label_ref':
            return [(blk.targets[lref(src)], self.st)]
        if src[0] == 'if_then_else':
            c = self.cond(src[2])
            for q in others:
                if q[0] == 'set': self.eval_set(q)()
            tl, fl = src[3], src[4]
            def tgt(x): return blk.fall if x[0] == 'pc' else blk.targets[lref(x)]
            t, f = tgt(tl), tgt(fl)
            if c.op == 'const': return [(t if c.v else f, self.st)]
            if t == f: return [(t, self.st)]
            # known from path condition?
            for lit in self.st.pc:
                if lit is c: return [(t, self.st)]
                if lit.op == 'not' and lit.a[0] is c or c.op == 'not' and c.a[0] is lit:
                    return [(f, self.st)]
            nc = T.bnot(c)
            if visits.get(t, 0) or visits.get(f, 0) or visits.get(blk.id, 0) > 1:
                if self.solver is None: raise Unsupported('loop without solver')
                base = list(self.assumptions) + list(self.st.pc)
                if self.solver.feasible(base + [c]) is False:
                    return [(f, self.st)]
                if self.solver.feasible(base + [nc]) is False:
                    return [(t, self.st)]
            s2 = self.st.copy()
            s2.pc = self.st.pc + (nc,)
            self.st.pc = self.st.pc + (c,)
            return [(t, self.st), (f, s2)]
        if src[0] == 'reg' or src[0] == 'mem' or src[0] == 'unspec':
            raise Unsupported('indirect jump')
        raise Unsupported('jump src ' + src[0])

def lref(x):
    return x[2]

def low_of_mem(e, addr):
    """e selects lanes 0..n-1 of a vector whose low part is the memory at addr"""
    if e[0] != 'vec_select' or e[3][0] != 'parallel': return False
    if [x[2] for x in e[3][2]] != list(range(len(e[3][2]))): return False
    e = e[2]
    while e[0] == 'subreg' and e[3] == 0: e = e[2]
    while e[0] == 'vec_concat': e = e[2]
    return e[0] == 'mem' and e[2] == addr

def simp_pc(pc, lit):
    return pc if any(x is lit for x in pc) else pc + (lit,)

def loop_sets(succ):
    """block -> blocks of the innermost cycle structure containing it (those reachable
    from it that reach it)"""
    def reach(b):
        seen = set(); work = list(succ.get(b, ()))
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); work.extend(succ.get(x, ()))
        return seen
    r = {b: reach(b) for b in succ}
    return {b: {x for x in r[b] if b in r[x]} for b in succ if b in r[b]}

def find_ctz(blk):
    """pseudo register whose trailing zeros the block counts (not set before in it)"""
    written = set()
    def find(e):
        if isinstance(e, (tuple, list)):
            if e and e[0] == 'ctz' and len(e) > 2:
                x = e[2]
                if x[0] == 'subreg': x = x[2]
                if x[0] == 'reg': return x[2]
            for x in e:
                r = find(x)
                if r is not None: return r
        return None
    def dests(e):
        if isinstance(e, (tuple, list)):
            if e and e[0] == 'set':
                d = e[2]
                while isinstance(d, tuple) and d[0] in ('subreg', 'strict_low_part'): d = d[2]
                if d and d[0] == 'reg': written.add(d[2])
            else:
                for x in e: dests(x)
    for ins in blk.insns:
        if ins.kind == 'jump_insn': break
        r = find(ins.pat)
        if r is not None: return r if r not in written else None
        dests(ins.pat)
    return None

class Block:
    __slots__ = ('id', 'insns', 'fall', 'targets', 'noreturn', 'labels', 'ctz')

def build_cfg(insns):
    blocks = {}
    cur = None
    label_blk = {}
    pend_labels = []
    seq = []
    after_barrier = False
    for ins in insns:
        k = ins.kind
        if k == 'code_label':
            pend_labels.append(ins.uid)
        elif k == 'note':
            b = Block()
            b.id = ins.bb; b.insns = []; b.fall = None; b.targets = {}; b.noreturn = False; b.labels = pend_labels
            for l in pend_labels: label_blk[l] = b.id
            pend_labels = []
            blocks[b.id] = b
            if seq and not after_barrier:
                blocks[seq[-1]].fall = b.id
            seq.append(b.id)
            after_barrier = False
        elif k == 'barrier':
            if seq:
                b = blocks[seq[-1]]
                after_barrier = True
                if not b.insns or b.insns[-1].kind != 'jump_insn' and not b.insns[-1].sib: b.noreturn = True
        elif k == 'jump_table_data':
            pass
        else:
            if not seq:
                b = Block(); b.id = -1; b.insns = []; b.fall = None; b.targets = {}; b.noreturn = False; b.labels = []
                blocks[-1] = b; seq.append(-1)
            blocks[seq[-1]].insns.append(ins)
    for b in blocks.values(): b.targets = label_blk
    succ = {}
    for b in blocks.values():
        s = []
        for ins in b.insns:
            if ins.kind == 'jump_insn':
                collect_labels(ins.pat, s)
        s = [label_blk[x] for x in s if x in label_blk]
        if b.fall is not None: s.append(b.fall)
        succ[b.id] = s
    # reverse post-order in which loop bodies come before loop exits:
    entry = seq[0]
    order = loop_aware_order(entry, succ)
    for b in blocks.values(): b.ctz = find_ctz(b)
    return blocks, order, entry, succ

def collect_labels(p, out):
    if isinstance(p, tuple):
        if p and p[0] == 'label_ref': out.append(p[2])
        else:
            for x in p: collect_labels(x, out)
    elif isinstance(p, list):
        for x in p: collect_labels(x, out)

def loop_aware_order(entry, succ):
    """topological order of the SCC condensation, recursively inside SCCs
    (header first), so that a loop is drained before its exits run"""
    import sys
    def sccs(nodes, heads, banned):
        # Tarjan restricted to nodes, ignoring edges into banned
        idx = {}; low = {}; st = []; on = set(); out = []; c = [0]
        for h in heads:
            if h in idx: continue
            work = [(h, iter([x for x in succ[h] if x in nodes and x not in banned]))]
            idx[h] = low[h] = c[0]; c[0] += 1; st.append(h); on.add(h)
            while work:
                v, it = work[-1]
                for x in it:
                    if x not in idx:
                        idx[x] = low[x] = c[0]; c[0] += 1; st.append(x); on.add(x)
                        work.append((x, iter([y for y in succ[x] if y in nodes and y not in banned])))
                        break
                    elif x in on: low[v] = min(low[v], idx[x])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            y = st.pop(); on.discard(y); comp.append(y)
                            if y == v: break
                        out.append(comp)
        out.reverse()
        return out
    def rec(nodes, head, banned):
        res = []
        for comp in sccs(nodes, [head], banned):
            if len(comp) == 1: res.append(comp[0]); continue
            cs = set(comp)
            # header: the node entered from outside (or head)
            if head in cs: h = head
            else:
                h = None
                for n in nodes:
                    if n in cs: continue
                    for x in succ[n]:
                        if x in cs and x not in banned: h = x; break
                    if h is not None: break
                if h is None: h = comp[0]
            if h in banned: res.extend(comp); continue
            res.append(h)
            sub = set(cs); sub.discard(h)
            heads = [x for x in succ[h] if x in sub]
            done = set()
            inner = []
            b2 = banned | {h}
            # order the rest from a virtual head
            succ[('v', h)] = heads
            nodes2 = sub | {('v', h)}
            o = rec(nodes2, ('v', h), b2)
            res.extend([x for x in o if x != ('v', h)])
            del succ[('v', h)]
            for x in comp:
                if x not in res: res.append(x)
        return res
    allnodes = set(succ)
    return rec(allnodes, entry, frozenset()) + []

def merge_states(a, b):
    """merge two states with disjoint path conditions"""
    pa, pb = a.pc, b.pc
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]: i += 1
    ra, rb = T.conj(pa[i:]), T.conj(pb[i:])
    c = ra
    if len(pb) == i + 1 and len(pa) > i + 1: c = T.bnot(rb)      # disjoint: either works
    d = T.bor(ra, rb)
    pc = pa[:i]
    if not T.is1s(d): pc = pc + (d,)
    s = State()
    s.pc = pc
    s.regs = merge_dict(c, a.regs, b.regs)
    s.hard = merge_dict(c, a.hard, b.hard)
    s.flags = a.flags if (a.flags is not None and a.flags.same(b.flags)) else None
    s.mem = {}
    for k in set(a.mem) | set(b.mem):
        ma = a.mem.get(k); mb = b.mem.get(k)
        if ma is None: s.mem[k] = mb; continue
        if mb is None: s.mem[k] = ma; continue
        if ma == mb: s.mem[k] = ma; continue
        s.mem[k] = merge_mem(c, ma, mb)
    return s

def merge_dict(c, a, b):
    out = {}
    for k, v in a.items():
        u = b.get(k)
        if u is None: continue      # dead on one side -> treat as undefined
        if u is v: out[k] = v
        elif u.w == v.w: out[k] = T.ite(c, v, u)
        else:
            w = min(u.w, v.w)
            out[k] = T.ite(c, T.ext(v, 0, w), T.ext(u, 0, w))
    return out

def merge_mem(c, ma, mb):
    out = {}
    keys = sorted(set(ma) | set(mb))
    i = 0
    memo = {}
    for k in keys:
        x = ma.get(k); y = mb.get(k)
        if x is None: x = (T.undef(8), 0)
        if y is None: y = (T.undef(8), 0)
        if x[0] is y[0] and x[1] == y[1]: out[k] = x; continue
        # same-shape chunks merge as a whole
        if x[0].w == y[0].w and x[1] == y[1]:
            key = (x[0].id, y[0].id)
            m = memo.get(key)
            if m is None:
                m = memo[key] = T.ite(c, x[0], y[0])
            out[k] = (m, x[1])
        else:
            out[k] = (T.ite(c, T.ext(x[0], 8 * x[1], 8), T.ext(y[0], 8 * y[1], 8)), 0)
    return out

def possible(t, limit):
    """over-approximate set of values of t, None if too many"""
    memo = {}
    def go(t):
        r = memo.get(t.id)
        if r is not None or t.id in memo: return r
        op = t.op
        r = None
        if op == 'const': r = {t.v}
        elif op == 'ite':
            a = go(t.a[1]); b = go(t.a[2])
            if a is not None and b is not None: r = a | b
        elif op in ('ctz', 'clz', 'popcount'):
            r = set(range(0, t.v + 1))
        elif op == 'cat':
            acc = {0}; s = 0
            for p in t.a:
                x = go(p)
                if x is None or len(acc) * len(x) > limit: acc = None; break
                acc = {u | v << s for u in acc for v in x}
                s += p.w
            r = acc
        elif op == 'rep': r = {0, (1 << t.w) - 1}
        elif op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr'):
            a = go(t.a[0]); b = go(t.a[1])
            if a is not None and b is not None and len(a) * len(b) <= limit:
                r = {T.evalop(op, t.w, (t.a[0].w, t.a[1].w), (u, v), None) for u in a for v in b}
        elif op in ('not', 'neg', 'ext'):
            a = go(t.a[0])
            if a is not None: r = {T.evalop(op, t.w, (t.a[0].w,), (u,), t.v) for u in a}
        if r is None and t.w <= 3: r = set(range(1 << t.w))
        if r is not None and len(r) > limit: r = None
        memo[t.id] = r
        return r
    return go(t)

def const_double(mode, ann, first):
    """bits of a const_double; ann is the hex form gcc prints, e.g. 0x0.8p+32"""
    w = minfo(mode)[1]
    if w == 128: raise Unsupported('long double constant')
    s = ann if ann is not None else first
    neg = s.startswith('-')
    body = s.lstrip('+-')
    sb = 1 << (w - 1) if neg else 0
    inf = T.ones(T.EB[w]) << T.MB[w]
    if body.startswith('Inf'): return T.const(w, sb | inf)
    if body.startswith('QNaN'): return T.const(w, sb | inf | 1 << (T.MB[w] - 1))
    if body.startswith('SNaN'): return T.const(w, sb | inf | 1 << (T.MB[w] - 2))
    if body.startswith('0x'):
        m = re.match(r'0x0\.([0-9a-f]+)p([+-]\d+)$', body)
        if not m: raise Unsupported('const_double ' + s)
        from fractions import Fraction
        f = Fraction(int(m.group(1), 16), 16 ** len(m.group(1))) * Fraction(2) ** int(m.group(2))
        return T.const(w, sb | T.round_frac(f, w))
    if first is not None and float(first) == 0: return T.const(w, sb)
    raise Unsupported('const_double %s %s' % (ann, first))

def _mulhi(ex):
    def f(a, b):
        w = a.w
        return T.ext(T.mul(ex(a, 2 * w), ex(b, 2 * w)), w, w)
    return f
INTBIN = {'smul_highpart': _mulhi(T.sext), 'umul_highpart': _mulhi(T.zext), 'plus': T.add, 'minus': T.sub, 'mult': T.mul, 'div': T.sdiv, 'udiv': T.udiv, 'mod': T.srem, 'umod': T.urem,
          'smin': T.smin, 'smax': T.smax, 'umin': T.umin, 'umax': T.umax,
          'us_minus': lambda a, b: T.ite(T.ult(a, b), T.const(a.w, 0), T.sub(a, b)),
          'us_plus': lambda a, b: (lambda s: T.ite(T.msb(s), T.const(a.w, -1), T.ext(s, 0, a.w)))(T.add(T.zext(a, a.w + 1), T.zext(b, a.w + 1))),
          'ss_minus': lambda a, b: _ssat(T.sub(T.sext(a, a.w + 1), T.sext(b, a.w + 1))),
          'ss_plus': lambda a, b: _ssat(T.add(T.sext(a, a.w + 1), T.sext(b, a.w + 1))),
          }
def _ssat(x):
    w = x.w - 1
    return T.ite(T.eq(T.bit(x, w), T.bit(x, w - 1)), T.ext(x, 0, w),
                 T.ite(T.bit(x, w), T.const(w, 1 << (w - 1)), T.const(w, (1 << (w - 1)) - 1)))
# smin/smax on FP modes: x86 min/max, the second operand wins on unordered/equal
FPBIN = {'plus': T.fadd, 'minus': T.fsub, 'mult': T.fmul, 'div': T.fdiv,
         'smin': T.fminx, 'smax': T.fmaxx}

DISP = {'const_int': Exec.ev_const_int, 'const_wide_int': Exec.ev_const_wide, 'const_double': Exec.ev_const_double,
        'const_vector': Exec.ev_const_vector, 'const': Exec.ev_const, 'reg': Exec.ev_reg, 'symbol_ref': Exec.ev_symbol,
        'subreg': Exec.ev_subreg, 'mem': Exec.ev_mem, 'if_then_else': Exec.ev_ite,
        'vec_select': Exec.ev_vec_select, 'vec_concat': Exec.ev_vec_concat, 'vec_duplicate': Exec.ev_vec_dup,
        'vec_merge': Exec.ev_vec_merge, 'fma': Exec.ev_fma, 'zero_extract': Exec.ev_zero_extract,
        'sign_extract': Exec.ev_zero_extract, 'unspec': Exec.ev_unspec, 'compare': Exec.ev_compare,
        'asm_operands': Exec.ev_asm}
for _c in ('smul_highpart', 'umul_highpart', 'and', 'ior', 'xor', 'plus', 'minus', 'mult', 'div', 'udiv', 'mod', 'umod', 'smin', 'smax', 'umin', 'umax',
           'us_minus', 'us_plus', 'ss_minus', 'ss_plus'):
    DISP[_c] = Exec.ev_bin
for _c in ('ashift', 'lshiftrt', 'ashiftrt', 'rotate', 'rotatert'): DISP[_c] = Exec.ev_shift
for _c in ('not', 'neg', 'abs', 'sqrt', 'popcount', 'ctz', 'clz', 'bswap'): DISP[_c] = Exec.ev_un
for _c in list(ITEFP) + ['ltu', 'leu', 'gtu', 'geu']: DISP[_c] = Exec.ev_cmp
for _c in ('zero_extend', 'sign_extend', 'truncate', 'ss_truncate', 'us_truncate', 'float', 'unsigned_float',
           'fix', 'unsigned_fix', 'float_extend', 'float_truncate'): DISP[_c] = Exec.ev_convert

# ---------------------------------------------------------------- UNSPECs
UNSPEC = {}
def unspec(*names):
    def d(f):
        for n in names: UNSPEC[n] = f
        return f
    return d

def imm(e):
    if e[0] != 'const_int': raise Unsupported('non-constant immediate')
    return e[2]

@unspec('UNSPEC_MOVMSK')
def _(x, e, a, m):
    v = x.ev(a[0])
    lw = minfo(a[0][1])[1]
    return T.zext(T.cat([T.msb(l) for l in T.lanes(v, lw)]), minfo(m)[0])

@unspec('UNSPEC_CVTINT2MASK')
def _(x, e, a, m):
    v = x.ev(a[0]); lw = minfo(a[0][1])[1]
    return T.zext(T.cat([T.msb(l) for l in T.lanes(v, lw)]), minfo(m)[0])

@unspec('UNSPEC_BLENDV')
def _(x, e, a, m):
    p, q, k = [x.ev(i, m) for i in a]
    lw = minfo(m)[1]
    return T.cat([T.ite(T.msb(c), j, i) for i, j, c in zip(T.lanes(p, lw), T.lanes(q, lw), T.lanes(k, lw))])

@unspec('UNSPEC_MASKMOV')
def _(x, e, a, m):
    w, lw, n, fp = minfo(m)
    mem, mk = (a[0], a[1]) if a[0][0] == 'mem' else (a[1], a[0])
    mk = x.ev(mk)
    bits = [T.msb(l) for l in T.lanes(mk, lw)]
    v = x.masked_load(mem, bits, lw)
    return T.cat([T.ite(c, l, T.const(lw, 0)) for c, l in zip(bits, T.lanes(v, lw))])

@unspec('UNSPEC_MASKLOAD')
def _(x, e, a, m):
    if len(a) == 1: return x.ev(a[0], m)
    raise Unsupported('maskload form')

def _pcmp(x, a, m, tab, fp_ok):
    om = x.opmode(a[0], a[1])
    p, q = x.ev(a[0], om), x.ev(a[1], om)
    w, lw, n, fp = minfo(om)
    k = imm(a[2])
    code = PCMP_FP[k & 15] if fp else tab[k & 7]
    if code == 'false': cs = [T.const(1, 0)] * max(n, 1)
    elif code == 'true': cs = [T.const(1, 1)] * max(n, 1)
    else:
        cs = [(fcmp if fp else icmp)(code, i, j) for i, j in zip(T.lanes(p, lw), T.lanes(q, lw))]
    rw, rlw, rn, rfp = minfo(m)
    if rn: return T.cat([T.rep(c, rlw) for c in cs])
    r = T.cat(cs)
    return T.zext(r, rw)

@unspec('UNSPEC_PCMP')
def _(x, e, a, m): return _pcmp(x, a, m, PCMP_I, True)
@unspec('UNSPEC_UNSIGNED_PCMP')
def _(x, e, a, m): return _pcmp(x, a, m, PCMP_U, False)
@unspec('UNSPEC_MASKED_EQ')
def _(x, e, a, m): return _pcmp(x, list(a) + [('const_int', None, 0)], m, PCMP_I, False)
@unspec('UNSPEC_MASKED_GT')
def _(x, e, a, m): return _pcmp(x, list(a) + [('const_int', None, 6)], m, PCMP_I, False)

@unspec('UNSPEC_TESTM', 'UNSPEC_TESTNM')
def _(x, e, a, m):
    om = x.opmode(a[0], a[1])
    p, q = x.ev(a[0], om), x.ev(a[1], om)
    lw = minfo(om)[1]
    cs = [T.ne(T.band(i, j), T.const(lw, 0)) for i, j in zip(T.lanes(p, lw), T.lanes(q, lw))]
    if e[3] == 'UNSPEC_TESTNM': cs = [T.bnot(c) for c in cs]
    return T.zext(T.cat(cs), minfo(m)[0])

def _zc(p, q, sel=None):
    z = T.band(p, q); c = T.band(T.bnot(p), q)
    return Flags('zc', T.eq(z, T.const(z.w, 0)), T.eq(c, T.const(c.w, 0)))

@unspec('UNSPEC_PTEST')
def _(x, e, a, m):
    om = x.opmode(a[0], a[1])
    return _zc(x.ev(a[0], om), x.ev(a[1], om))
@unspec('UNSPEC_VTESTP')
def _(x, e, a, m):
    om = x.opmode(a[0], a[1]); lw = minfo(om)[1]
    p = T.cat([T.msb(l) for l in T.lanes(x.ev(a[0], om), lw)])
    q = T.cat([T.msb(l) for l in T.lanes(x.ev(a[1], om), lw)])
    return _zc(p, q)
@unspec('UNSPEC_KTEST')
def _(x, e, a, m):
    om = x.opmode(a[0], a[1])
    return _zc(x.ev(a[0], om), x.ev(a[1], om))
@unspec('UNSPEC_KORTEST')
def _(x, e, a, m):
    om = x.opmode(a[0], a[1])
    o = T.bor(x.ev(a[0], om), x.ev(a[1], om))
    return Flags('zc', T.eq(o, T.const(o.w, 0)), T.eq(o, T.const(o.w, -1)))

@unspec('UNSPEC_NOTRAP')
def _(x, e, a, m):
    if a[0][0] == 'compare': return x.ev_compare(a[0], None)
    return x.ev(a[0], m)

@unspec('UNSPEC_MASKOP')
def _(x, e, a, m): return x.ev(a[0], m)

@unspec('UNSPEC_PSHUFB')
def _(x, e, a, m):
    v, k = x.ev(a[0], m), x.ev(a[1], m)
    n = v.w // 8
    out = []
    for i in range(n):
        b = T.ext(k, 8 * i, 8)
        base = i // 16 * 16
        if b.op == 'const':
            out.append(T.const(8, 0) if b.v & 0x80 else T.ext(v, 8 * (base + (b.v & 15)), 8))
        else:
            r = select([T.ext(v, 8 * (base + j), 8) for j in range(16)], T.ext(b, 0, 4))
            out.append(T.ite(T.msb(b), T.const(8, 0), r))
    return T.cat(out)

def select(xs, idx):
    """xs[idx], len(xs) == 2**idx.w"""
    if idx.op == 'const': return xs[idx.v]
    while len(xs) > 1:
        c = T.bit(idx, 0)
        xs = [T.ite(c, xs[i + 1], xs[i]) for i in range(0, len(xs), 2)]
        if idx.w > 1: idx = T.ext(idx, 1, idx.w - 1)
    return xs[0]

@unspec('UNSPEC_ROUND', 'UNSPEC_RNDSCALE')
def _(x, e, a, m):
    k = imm(a[1])
    if k >> 4: raise Unsupported('rndscale fraction bits')
    md = 'RNE' if k & 4 else ROUNDMODE[k & 3]
    return x.lanewise(m, lambda p: T.fround(p, md), x.ev(a[0], m))

@unspec('UNSPEC_IEEE_MIN')
def _(x, e, a, m): return x.lanewise(m, T.fminx, x.ev(a[0], m), x.ev(a[1], m))
@unspec('UNSPEC_IEEE_MAX')
def _(x, e, a, m): return x.lanewise(m, T.fmaxx, x.ev(a[0], m), x.ev(a[1], m))

@unspec('UNSPEC_PALIGNR')
def _(x, e, a, m):
    p, q = x.ev(a[0], m), x.ev(a[1], m)
    k = imm(a[2])
    out = []
    for b in range(0, p.w, 128):
        t = T.cat((T.ext(q, b, min(128, p.w)), T.ext(p, b, min(128, p.w))))
        out.append(T.ext(T.lshr_c(t, k), 0, min(128, p.w)))
    return T.cat(out)

@unspec('UNSPEC_ALIGN')
def _(x, e, a, m):
    p, q = x.ev(a[0], m), x.ev(a[1], m)
    w, lw, n, fp = minfo(m)
    k = imm(a[2]) % n
    t = T.cat((q, p))
    return T.ext(t, k * lw, w)

@unspec('UNSPEC_VPERMVAR')
def _(x, e, a, m):
    w, lw, n, fp = minfo(m)
    v, k = x.ev(a[0], m), x.ev(a[1])
    vl = T.lanes(v, lw); b = n.bit_length() - 1
    return T.cat([select(vl, T.ext(i, 0, b)) for i in T.lanes(k, lw)])

@unspec('UNSPEC_VPERMT2', 'UNSPEC_VPERMI2')
def _(x, e, a, m):
    w, lw, n, fp = minfo(m)
    if e[3] == 'UNSPEC_VPERMT2': k, p, q = x.ev(a[0]), x.ev(a[1], m), x.ev(a[2], m)
    else: p, k, q = x.ev(a[0], m), x.ev(a[1]), x.ev(a[2], m)
    vl = T.lanes(p, lw) + T.lanes(q, lw); b = n.bit_length()
    return T.cat([select(vl, T.ext(i, 0, b)) for i in T.lanes(k, lw)])

@unspec('UNSPEC_VPERMIL')
def _(x, e, a, m):
    w, lw, n, fp = minfo(m)
    v, k = x.ev(a[0], m), x.ev(a[1])
    out = []
    per = 128 // lw
    vl = T.lanes(v, lw)
    for i, c in enumerate(T.lanes(k, lw)):
        base = i // per * per
        idx = T.ext(c, 0, 2) if lw == 32 else T.ext(c, 1, 1)
        out.append(select(vl[base:base + per], idx))
    return T.cat(out)

@unspec('UNSPEC_VPERMTI')
def _(x, e, a, m):
    p, q = x.ev(a[0], m), x.ev(a[1], m)
    k = imm(a[2])
    h = [T.ext(p, 0, 128), T.ext(p, 128, 128), T.ext(q, 0, 128), T.ext(q, 128, 128)]
    def s(c): return T.const(128, 0) if c & 8 else h[c & 3]
    return T.cat((s(k & 15), s(k >> 4 & 15)))

@unspec('UNSPEC_CAST')
def _(x, e, a, m):
    w = minfo(m)[0]
    if a[0][0] == 'const_int': return T.undef(w)
    v = x.ev(a[0])
    return T.cat((v, T.undef(w - v.w))) if w > v.w else T.ext(v, 0, w)

@unspec('UNSPEC_FIX_NOTRUNC')
def _(x, e, a, m):
    w, lw, n, fp = minfo(m)
    v = x.ev(a[0]); xlw = minfo(a[0][1])[1]
    f = lambda p: T.fone('f2s')(lw, p, v='RNE')
    if not n: return f(v)
    return T.cat([f(T.ext(v, i * xlw, xlw)) for i in range(n)])
@unspec('UNSPEC_UNSIGNED_FIX_NOTRUNC')
def _(x, e, a, m):
    w, lw, n, fp = minfo(m)
    v = x.ev(a[0]); xlw = minfo(a[0][1])[1]
    f = lambda p: T.fone('f2u')(lw, p, v='RNE')
    if not n: return f(v)
    return T.cat([f(T.ext(v, i * xlw, xlw)) for i in range(n)])

@unspec('UNSPEC_FPCLASS')
def _(x, e, a, m):
    v = x.ev(a[0]); lw = minfo(a[0][1])[1]
    k = imm(a[1])
    cs = []
    for l in T.lanes(v, lw):
        s = T.msb(l); ns = T.bnot(s)
        nan = T.fisnan(l); q = T.bit(l, T.MB[lw] - 1)
        z = T.fiszero(l); inf = T.fisinf(l); sub = T.fissub(l)
        fin = T.fisfin(l)
        opts = [T.band(nan, q), T.band(z, ns), T.band(z, s), T.band(inf, ns), T.band(inf, s), sub,
                T.band(T.band(fin, s), T.bnot(z)), T.band(nan, T.bnot(q))]
        cs.append(T.disj([o for i, o in enumerate(opts) if k >> i & 1]))
    return T.zext(T.cat(cs), minfo(m)[0])

@unspec('UNSPEC_GETEXP')
def _(x, e, a, m):
    return x.lanewise(m, T.getexp, x.ev(a[0], m))

@unspec('UNSPEC_SCALEF')
def _(x, e, a, m):
    return x.lanewise(m, T.scalef, x.ev(a[0], m), x.ev(a[1], m))

@unspec('UNSPEC_GETMANT')
def _(x, e, a, m):
    k = imm(a[1])
    return x.lanewise(m, lambda p: T.getmant(p, k), x.ev(a[0], m))

@unspec('UNSPEC_PSADBW')
def _(x, e, a, m):
    p, q = x.ev(a[0]), x.ev(a[1])
    out = []
    for i in range(0, p.w, 64):
        s = T.const(64, 0)
        for j in range(0, 64, 8):
            u = T.ext(p, i + j, 8); v = T.ext(q, i + j, 8)
            s = T.add(s, T.zext(T.ite(T.ult(u, v), T.sub(v, u), T.sub(u, v)), 64))
        out.append(s)
    return T.cat(out)

@unspec('UNSPEC_PDEP')
def _(x, e, a, m):
    w = minfo(m)[0]
    src, mask = x.ev(a[0], m), x.ev(a[1], m)
    if not T.isc(mask): raise Unsupported('pdep with variable mask')
    out = []; j = 0
    for i in range(w):
        if mask.v >> i & 1: out.append(T.bit(src, j)); j += 1
        else: out.append(T.const(1, 0))
    return T.cat(out)
@unspec('UNSPEC_PEXT')
def _(x, e, a, m):
    w = minfo(m)[0]
    src, mask = x.ev(a[0], m), x.ev(a[1], m)
    if T.isc(mask):
        out = [T.bit(src, i) for i in range(w) if mask.v >> i & 1]
        return T.zext(T.cat(out), w) if out else T.const(w, 0)
    raise Unsupported('pext with variable mask')
@unspec('UNSPEC_US_TRUNCATE')
def _(x, e, a, m):
    # packus: signed source saturated to an unsigned destination
    v = x.ev(a[0]); sw = minfo(a[0][1])[1]; w, lw, n, fp = minfo(m)
    hi = (1 << lw) - 1
    return T.cat([T.ite(T.msb(p), T.const(lw, 0), T.ite(T.slt(T.const(sw, hi), p), T.const(lw, hi), T.ext(p, 0, lw)))
                  for p in T.lanes(v, sw)])
@unspec('UNSPEC_LDDQU', 'UNSPEC_MOVNT')
def _(x, e, a, m): return x.ev(a[0], m)
@unspec('UNSPEC_TZCNT')
def _(x, e, a, m):
    v = x.ev(a[0], m); return T.ctz(v, v.w)
@unspec('UNSPEC_LZCNT')
def _(x, e, a, m):
    v = x.ev(a[0], m); return T.clz(v, v.w)
@unspec('UNSPEC_COPYSIGN')
def _(x, e, a, m):
    raise Unsupported('copysign unspec')
@unspec('UNSPEC_STC')
def _(x, e, a, m): raise Unsupported('stc')
@unspec('UNSPEC_VTERNLOG')
def _(x, e, a, m):
    p, q, r = x.ev(a[0], m), x.ev(a[1], m), x.ev(a[2], m)
    k = imm(a[3])
    res = T.const(p.w, 0)
    for i in range(8):
        if k >> i & 1:
            t = p if i & 4 else T.bnot(p)
            t = T.band(t, q if i & 2 else T.bnot(q))
            t = T.band(t, r if i & 1 else T.bnot(r))
            res = T.bor(res, t)
    return res

# ---------------------------------------------------------------- libm / libc
LIBM = {}
LIBC = {}
def _fret(x, v): x.clobber_call(); x.st.hard[20] = v
def _iret(x, v): x.clobber_call(); x.st.hard[0] = v

def _clobber_call(self):
    # caller-saved registers die
    for r in list(self.st.hard):
        if r not in (3, 6, 7) and r not in range(40, 44): del self.st.hard[r]
    self.st.flags = None
Exec.clobber_call = _clobber_call

def _farg(x, i, w):
    v = x.st.hard.get(XMM[i])
    if v is None: raise Unsupported('fp arg')
    return T.ext(v, 0, w) if v.w > w else v
def _iarg(x, i, w):
    v = x.st.hard.get(INTARG[i])
    if v is None: raise Unsupported('int arg')
    if v.w < w: return T.cat((v, T.undef(w - v.w)))
    return T.ext(v, 0, w)

UNARY = '''sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log10 log1p log2 cbrt erf erfc
tgamma lgamma logb'''.split()
BINARY = '''pow atan2 fmod remainder hypot fdim nextafter copysign fmin fmax'''.split()

def _mk_unary(n, w):
    def h(x, name):
        a = _farg(x, 0, w)
        _fret(x, libm(n, w, [a]))
    return h
def _mk_binary(n, w):
    def h(x, name):
        a, b = _farg(x, 0, w), _farg(x, 1, w)
        _fret(x, libm(n, w, [a, b]))
    return h

def libm(n, w, a):
    """the scalar C library function as a term (exact where it has a bit-level meaning)"""
    if n == 'copysign': return T.cat((T.ext(a[0], 0, w - 1), T.msb(a[1])))
    if n in ('fmin', 'fmax'): a = sorted(a, key=lambda t: t.id)      # GCC treats them as commutative
    if n in ('floor', 'ceil', 'trunc', 'nearbyint', 'rint', 'round'):
        return T.fround(a[0], {'floor': 'RTN', 'ceil': 'RTP', 'trunc': 'RTZ', 'nearbyint': 'RNE', 'rint': 'RNE', 'round': 'RNA'}[n])
    if n == 'sqrt': return T.fsqrt(a[0])
    if n == 'fma': return T.ffma(*a)
    if n == 'fabs': return T.fabs_(a[0])
    if n == 'logb': return T.getexp(a[0])
    if n == 'hypot':
        x, y = T.fabs_(a[0]), T.fabs_(a[1]); inf = T.const(w, T.ones(T.EB[w]) << T.MB[w])
        r = T.fabs_(T.uf('libm.hypot%d' % w, w, a))
        r = T.ite(T.fisnan(r), inf, r)
        r = T.ite(T.fiszero(x), y, T.ite(T.fiszero(y), x, r))
        r = T.ite(T.bor(T.fisnan(x), T.fisnan(y)), T.const(w, T.QNAN[w]), r)
        return T.ite(T.bor(T.fisinf(x), T.fisinf(y)), inf, r)
    if n in ('sin', 'cos') and a[0].op == 'const':                  # Annex F
        if T.fisinf(a[0]).v or T.fisnan(a[0]).v: return T.const(w, T.QNAN[w])
        if T.fiszero(a[0]).v: return a[0] if n == 'sin' else T.const(w, T.f2b(1.0, w))
    return T.uf('libm.%s%d' % (n, w), w, a)

for _n in UNARY + ['floor', 'ceil', 'trunc', 'nearbyint', 'rint', 'round', 'sqrt', 'fabs']:
    LIBM[_n] = _mk_unary(_n, 64); LIBM[_n + 'f'] = _mk_unary(_n, 32)
for _n in BINARY:
    LIBM[_n] = _mk_binary(_n, 64); LIBM[_n + 'f'] = _mk_binary(_n, 32)
def _fma(w):
    def h(x, name): _fret(x, T.ffma(_farg(x, 0, w), _farg(x, 1, w), _farg(x, 2, w)))
    return h
LIBM['fma'] = _fma(64); LIBM['fmaf'] = _fma(32)
def _mk_int(n, w, iw):
    def h(x, name):
        _iret(x, T.uf('libm.%s%d' % (n, w), iw, [_farg(x, 0, w)]))
    return h
def _mk_lr(n, w):
    m = 'RNA' if 'round' in n else 'RNE'
    def h(x, name): _iret(x, T.f2s(T.fround(_farg(x, 0, w), m), 64))
    return h
for _n in ('lrint', 'llrint', 'lround', 'llround'):
    LIBM[_n] = _mk_lr(_n, 64); LIBM[_n + 'f'] = _mk_lr(_n, 32)
for _n, _w in (('ilogb', 32),):
    LIBM[_n] = _mk_int(_n, 64, _w); LIBM[_n + 'f'] = _mk_int(_n, 32, _w)
def _mk_ldexp(n, w, iw):
    def h(x, name):
        _fret(x, T.scalef(_farg(x, 0, w), T.s2f(_iarg(x, 0, iw), w)))
    return h
for _n, _w in (('ldexp', 32), ('scalbn', 32), ('scalbln', 64)):
    # ldexp == scalbn for radix-2 formats
    LIBM[_n] = _mk_ldexp('scalbn', 64, _w); LIBM[_n + 'f'] = _mk_ldexp('scalbn', 32, _w)
def _mk_frexp(w):
    def h(x, name):
        a = _farg(x, 0, w); p = _iarg(x, 0, 64)
        m, e = T.frexp(a, T.uf('libm.frexp.e%d' % w, 32, [a]))
        x.store(p, e)
        _fret(x, m)
    return h
LIBM['frexp'] = _mk_frexp(64); LIBM['frexpf'] = _mk_frexp(32)
def _mk_modf(w):
    def h(x, name):
        a = _farg(x, 0, w); p = _iarg(x, 0, 64)
        x.store(p, T.fround(a, 'RTZ'))
        f = T.ite(T.fisinf(a), T.const(w, 0), T.fsub(a, T.fround(a, 'RTZ')))
        _fret(x, T.cat((T.ext(f, 0, w - 1), T.msb(a))))
    return h
LIBM['modf'] = _mk_modf(64); LIBM['modff'] = _mk_modf(32)
def _mk_remquo(w):
    def h(x, name):
        a = _farg(x, 0, w); b = _farg(x, 1, w); p = _iarg(x, 0, 64)
        x.store(p, T.uf('libm.remquo.q%d' % w, 32, [a, b]))
        _fret(x, T.uf('libm.remainder%d' % w, w, [a, b]))
    return h
LIBM['remquo'] = _mk_remquo(64); LIBM['remquof'] = _mk_remquo(32)

def _clen(x, i):
    n = _iarg(x, i, 64)
    if not T.isc(n): raise Unsupported('memcpy of variable size')
    return n.v
def _memcpy(x, name):
    d, s = _iarg(x, 0, 64), _iarg(x, 1, 64); n = _clen(x, 2)
    if n:
        v = x.load(s, n); x.store(d, v)
    _iret(x, d)
def _memset(x, name):
    d, c = _iarg(x, 0, 64), _iarg(x, 1, 32); n = _clen(x, 2)
    if n: x.store(d, T.cat([T.ext(c, 0, 8)] * n))
    _iret(x, d)
def _memcmp(x, name):
    a, b = _iarg(x, 0, 64), _iarg(x, 1, 64); n = _clen(x, 2)
    if n == 0: return _iret(x, T.const(32, 0))
    p, q = x.load(a, n), x.load(b, n)
    r = T.const(32, 0)
    for i in reversed(range(n)):
        u, v = T.ext(p, 8 * i, 8), T.ext(q, 8 * i, 8)
        r = T.ite(T.ult(u, v), T.const(32, -1), T.ite(T.ult(v, u), T.const(32, 1), r))
    _iret(x, r)
LIBC['memcpy'] = LIBC['memmove'] = _memcpy
LIBC['memset'] = _memset
LIBC['memcmp'] = _memcmp
def _popc(x, name): _iret(x, T.ext(T.popcount(_iarg(x, 0, 64), 64), 0, 32))
LIBC['__popcountdi2'] = _popc
def _popcs(x, name): _iret(x, T.popcount(_iarg(x, 0, 32), 32))
LIBC['__popcountsi2'] = _popcs
def _abort(x, name):
    x.violation('call to ' + name)
    raise Infeasible()
for _n in ('abort', '__builtin_trap', '_ZSt9terminatev', '__cxa_throw', '_ZSt17__throw_bad_allocv', '__assert_fail',
           '__stack_chk_fail'):
    LIBC[_n] = _abort
