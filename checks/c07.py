from .common import *
META = dict(bounds='all 2^N values of every mask operand; masks produced by loading, comparing, negating, xor, or-ing and selecting; -O2',
    assumptions=['find_first_set and find_last_set are only called on masks with a true element'])
from .c05 import cmpf
def pc(xs):
    t = c(32, 0)
    return T.popcount(T.cat(xs), 32) if len(xs) > 1 else T.zext(xs[0], 32)
def ffs(xs):
    r = c(32, 0)
    for i in range(len(xs) - 1, -1, -1): r = T.ite(xs[i], c(32, i), r)
    return r
def fls(xs):
    r = c(32, 0)
    for i in range(len(xs)): r = T.ite(xs[i], c(32, i), r)
    return r
def gen(s):
    L = []; n = s.n
    src = [('ld', 'a:M', 'a', lambda I: I.a), ('not', 'a:M', '(!a)', lambda I: [T.bnot(a) for a in I.a])]
    src += [('xor', 'a:M b:M', '(a ^ b)', lambda I: zips(T.bxor, I.a, I.b)),
            ('mne', 'a:M b:M', '(a != b)', lambda I: zips(T.bxor, I.a, I.b)),
            ('andnot', 'a:M b:M', '(a && !b)', lambda I: [T.band(a, T.bnot(b)) for a, b in zip(I.a, I.b)])]
    for o, op in (('lt', '<'), ('ne', '!='), ('eq', '=='), ('ge', '>=')):
        src.append((o, 'a:V b:V', '(a %s b)' % op, lambda I, f=cmpf(s.e, o): zips(f, I.a, I.b)))
    src.append(('eq0', 'a:V', '(a == 0)', lambda I, f=cmpf(s.e, 'eq'): [f(a, c(s, 0)) for a in I.a]))
    src.append(('nlt0', 'a:V', '!(a < 0)', lambda I, f=cmpf(s.e, 'lt'): [T.bnot(f(a, c(s, 0))) for a in I.a]))
    if s.tag[0] not in 'npf': src = src[:4] + src[5:7]
    for nm, d, ex, f in src:
        for r, fn in (('all_of', T.conj), ('any_of', T.disj), ('none_of', lambda x: T.bnot(T.disj(x))), ('some_of', lambda x: T.band(T.disj(x), T.bnot(T.conj(x))))):
            L.append(hv('%s_%s' % (r, nm), s, d, '*k = stdx::%s(%s);' % (r, ex), lambda I, f=f, fn=fn: {'k': [fn(f(I))]}, outs='k:bool'))
        L.append(hv('popcount_%s' % nm, s, d, '*k = stdx::popcount(%s);' % ex, lambda I, f=f: {'k': [pc(f(I))]}, outs='k:i32'))
        for r, fn in (('find_first_set', ffs), ('find_last_set', fls)):
            L.append(hv('%s_%s' % (r, nm), s, d, '*k = stdx::%s(%s);' % (r, ex), lambda I, f=f, fn=fn: (I.assume(T.disj(f(I))), {'k': [fn(f(I))]})[1], outs='k:i32'))
    # reductions of one mask in branches
    L.append(hv('branch', s, 'a:M b:M', 'if (all_of(a)) *k = 1; else if (none_of(b)) *k = 2; else if (any_of(a && b)) *k = 3; else *k = 4;',
        lambda I: {'k': [T.ite(T.conj(I.a), c(32, 1), T.ite(T.bnot(T.disj(I.b)), c(32, 2), T.ite(T.disj(zips(T.band, I.a, I.b)), c(32, 3), c(32, 4))))]}, outs='k:i32'))
    return L
def boolh(arch):
    L = []
    for r, f in (('all_of', lambda x: x), ('any_of', lambda x: x), ('none_of', T.bnot), ('some_of', lambda x: T.FALSE())):
        L.append(Harness('b_' + r, '*k = stdx::%s(*x);' % r, [Param('x', 'bool', 1), Param('k', 'bool', 1, 'out')], lambda I, f=f: {'k': [f(I.x[0])]}))
    L.append(Harness('b_popcount', '*k = stdx::popcount(*x);', [Param('x', 'bool', 1), Param('k', 'i32', 1, 'out')], lambda I: {'k': [T.zext(I.x[0], 32)]}))
    for r in ('find_first_set', 'find_last_set'):
        L.append(Harness('b_' + r, '*k = stdx::%s(*x);' % r, [Param('x', 'bool', 1), Param('k', 'i32', 1, 'out')], lambda I: (I.assume(I.x[0]), {'k': [c(32, 0)]})[1]))
    return L
def tus(tier):
    return groups(tier, 'C07', gen) + [TU('C07_bool', 'avx2', boolh('avx2'))]
