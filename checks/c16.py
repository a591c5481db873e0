from .common import *
META = dict(timeouts={'t_fp': 300000}, bounds='every bit pattern of every lane of the listed instantiations of float and double (lrint, llrint, lround, llround: arguments whose result is representable); -O2',
    assumptions=['round-to-nearest-even floating-point environment'], outside=['floating-point exception flags', 'payload and sign of a NaN result', 'other rounding modes', '-ffast-math'])

FN = dict(trunc='RTZ', floor='RTN', ceil='RTP', rint='RNE', nearbyint='RNE', round='RNA')
def gen_for(tier):
    def gen(s):
        L = []; e = s.e; w = s.w
        def add(nm, decl, body, spec, outs='o:V', **kw): L.append(hv(nm, s, decl, body, spec, outs=outs, **kw))
        for f, m in FN.items():
            add(f, 'a:V', '%%V r = stdx::%s(a); st(r, o);' % f, lambda I, m=m: {'o': [T.fround(x, m) for x in I.a]})
        for f, t, m in (('lrint', 'long', 'RNE'), ('llrint', 'long long', 'RNE'), ('lround', 'long', 'RNA'), ('llround', 'long long', 'RNA')):
            def sp(I, m=m):
                xs = [T.fround(x, m) for x in I.a]
                return {'r': conv(I, xs, e, 'i64')}
            add(f, 'a:V', 'auto q = stdx::%s(a); static_assert(std::is_same_v<decltype(q[0] + 0), %s>); st(q, r);' % (f, t), sp, outs='r:i64*%d' % s.n)
        return L
    return gen
def tus(tier):
    out = []
    for t in groups(tier, 'C16', gen_for(tier), types=(('f32',), ('f64',))):
        if t.name == 'C16_ssse3_f64' and tier == 'quick': continue       # same code as sse2
        if t.arch in ('sse2', 'ssse3') and t.name.endswith('f64'):
            # emulated with additions of 2^52: the expensive queries, one TU per function
            for f in list(FN) + ['l']:
                hs = [h for h in t.harnesses if h.name.startswith(f) and (f != 'l') == (h.name[0] != 'l')]
                if hs:
                    out.append(TU(t.name + '_' + f, t.arch, hs, flags=t.flags, pre=t.pre))
                    out[-1].cost = lambda: 1000
        else: out.append(t)
    return out
