"""Runs the translation units of a property over a process pool, replays
counterexamples, writes evidence and prints the verdict."""
import os, sys, time, json, random, shutil, tempfile, traceback, re, threading
import multiprocessing as mp
from . import terms as T
from . import rtl, rexec, solve
from . import harness as H

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_TUS = []
def work_tu(args):
    i, opts = args
    tu = _TUS[i]
    sys.setrecursionlimit(200000)
    res = {}
    def target():
        try:
            res['r'] = _work_tu(tu, opts)
        except Exception:
            res['r'] = {'tu': tu.name, 'error': traceback.format_exc()}
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=target)
    th.start(); th.join()
    return res.get('r') or {'tu': tu.name, 'error': 'worker died'}

def _work_tu(tu, opts):
    t0 = time.time()
    R = {'tu': tu.name, 'arch': tu.arch, 'harnesses': 0, 'obligations': 0, 'discharged': 0, 'folded': 0, 'inconclusive': [], 'unsupported': [],
         'violations': [], 'unconfirmed': [], 'compile_fail': [], 'functions': [], 'insns': 0, 'called': [], 'validated': 0,
         'mismatch': [], 'witness': 0, 'vacuous': [], 'samples': []}
    d = tempfile.mkdtemp(prefix='vtu_')
    deadline = opts.get('deadline')
    try:
        only = None
        try:
            dump, asm = H.compile_rtl(tu, d)
        except H.CompileError as ex:
            bad = H.bad_harnesses(tu, d, [h.name for h in tu.harnesses])
            if not bad:
                return {'tu': tu.name, 'error': 'compile: ' + str(ex)[:2000]}
            R['compile_fail'] = [(n, m) for n, m in bad.items() if m is not None]
            R['unsupported'] += [(n, 'compile failure not bisected further') for n, m in bad.items() if m is None]
            only = {h.name for h in tu.harnesses} - set(bad)
            if only: dump, asm = H.compile_rtl(tu, d, only)
            else: dump, asm = '', ''
        R['compile_s'] = time.time() - t0
        funcs = rtl.split_functions(dump)
        data, syms = rtl.parse_asm_data(asm)
        S = solve.Solver(**opts.get('timeouts', {}))
        ex = rexec.Exec(funcs, data, syms, S)
        rng = random.Random('%s/%s/%s' % (opts['seed'], tu.name, tu.arch))
        hs = [h for h in tu.harnesses if h.name in funcs and (only is None or h.name in only)]
        for h in tu.harnesses:
            if h.name not in funcs and not (only is not None and h.name not in only):
                R['unsupported'].append((h.name, 'no RTL'))
        pend = []
        val = []
        nval = opts.get('validate', 12)
        vset = set(h.name for h in rng.sample(hs, min(nval, len(hs))))
        covered = set()
        for h in hs:
            R['harnesses'] += 1
            if deadline and time.time() > deadline:
                R['inconclusive'].append((h.name, 'time budget of this run exhausted')); continue
            if time.time() - t0 > opts.get('enough', 60) and len({p[0].name for p in pend if p[3] == 'sat'}) >= 6:
                R['inconclusive'].append((h.name, 'not examined: six counterexamples in this unit already')); continue
            try:
                I, obs, outs = H.symbolic(ex, h)
            except rexec.Unsupported as e:
                R['unsupported'].append((h.name, '%s [%s]' % (e, getattr(e, 'where', '')))); continue
            except (RecursionError, NotImplementedError, KeyError, IndexError, AssertionError, TypeError, AttributeError, rexec.Infeasible, rtl.ParseError) as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                R['unsupported'].append((h.name, 'engine: %s %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))); continue
            R['insns'] += ex.insn_count
            covered |= ex.covered
            R['called'] = sorted(set(R['called']) | ex.called)
            # reachability witness: the assumptions admit at least one input
            if I._assume:
                w = S.solve(T.conj(I._assume))
                if w.status == 'unsat': R['vacuous'].append(h.name)
                else: R['witness'] += 1
            else: R['witness'] += 1
            if not obs: R['vacuous'].append(h.name)
            for o in obs:
                R['obligations'] += 1
                r = S.solve(o.cond)
                if r.status in ('sat', 'maybe') and o.full is not o.cond:
                    r = S.solve(o.full)
                if T.is0(o.cond): R['folded'] += 1
                if r.status == 'unsat': R['discharged'] += 1
                elif r.status in ('sat', 'maybe'):
                    pend.append((h, o.label, r.model, r.status, r.tier))
                else:
                    R['inconclusive'].append((h.name, o.label + ' [solver %s]' % r.tier))
                    if r.model is not None: pend.append((h, o.label, r.model, 'maybe', r.tier))
                if len(R['samples']) < 2 and T.reach([o.cond]) and not T.is0(o.cond):
                    R['samples'].append({'harness': h.name, 'body': h.body, 'obligation': o.label,
                                         'violation_condition': T.show(o.cond, 5)[:400], 'verdict': r.status})
            if h.name in vset and outs and not h.noreplay:
                for _ in range(opts.get('val_envs', 3)):
                    env = H.random_env(h, rng)
                    try:
                        if I._assume and not all(T.evaluate(I._assume, env, ufs=H.native_uf)): continue
                        got = {k: T.evaluate(v, env, ufs=H.native_uf) for k, v in outs.items()}
                    except KeyError:
                        continue
                    try: sp = H.spec_eval(h, env)
                    except KeyError: sp = None
                    und = {k: [any(x.v.startswith('undef!') for x in T.variables([t])) for t in v] for k, v in outs.items()}
                    val.append((h, env, got, und, sp))
        R['functions'] = sorted(covered)
        host = H.host_supports(tu.arch)
        concrete = []       # inputs on which the real code itself contradicts the specification
        fmt = lambda df: '; '.join('%s[%s]: got %#x, expected %#x' % x for x in df[:4])
        # counterexamples: at most a few per harness
        per = {}
        chosen = []
        for p in pend:
            k = per.get(p[0].name, 0)
            if k < 3: chosen.append(p)
            per[p[0].name] = k + 1
        undecided = {n for n, _ in R['inconclusive']} | {n for n, m in R['unsupported'] if m != 'no RTL'}
        undecided = [h for h in hs if h.name in undecided and not h.noreplay]
        if host and (chosen or val or undecided):
            names = {p[0].name for p in chosen} | {v[0].name for v in val} | {h.name for h in undecided}
            so = H.compile_so(tu, d, names)
            if val:
                res, rc = H.native(so, [H.case_for(h, env) for h, env, _, _, _ in val])
                for (h, env, got, und, sp), r in zip(val, res):
                    if r is None:
                        concrete.append((h, env, 'native run crashed')); break
                    df = H.compare_native(h, sp, r) if sp else []
                    if df:
                        # where the encoding meets the specification on these inputs, the compiler passes after the
                        # dump (or the encoding) are the suspects: the code must deviate when built differently, too
                        if enc_ok(h, got, und, sp) and not rebuilt_deviates(tu, d, h, env, sp):
                            R['mismatch'].append((h.name, 'only this build deviates: %s' % fmt(df))); continue
                        concrete.append((h, env, fmt(df))); continue
                    by = {p.name: bytes.fromhex(x[0]) for p, x in zip(h.params, r)}
                    bad = None
                    for p in h.params:
                        if p.name not in got: continue
                        b = H.bits(p.e) // 8
                        for i, g in enumerate(got[p.name]):
                            n = int.from_bytes(by[p.name][i * b:(i + 1) * b], 'little')
                            if n != g and not und[p.name][i] and not (H.isfp(p.e) and T._isnan(n, 8 * b) and T._isnan(g, 8 * b)):
                                bad = (h.name, '%s[%d]: encoding %#x native %#x, env %s' % (p.name, i, g, n, {k: hex(v) for k, v in list(env.items())[:6]}))
                    if bad: R['mismatch'].append(bad)
                    else: R['validated'] += 1
        unin = 0
        for h, label, model, status, tier in chosen:
            v = {'tu': tu.name, 'arch': tu.arch, 'harness': h.name, 'obligation': label, 'tier': tier,
                 'inputs': {k: hex(x) for k, x in sorted((model or {}).items()) if not k.startswith('undef!')}}
            if h.noreplay or not host:
                v['replay'] = 'not replayed: ' + ('host lacks ' + tu.arch if not host else 'harness cannot run natively')
                if status == 'sat': R['violations'].append((v, h, model))
                else: R['unconfirmed'].append(v)
                continue
            env = dict(model or {})
            ok = None
            try:
                exp = H.spec_eval(h, env)
            except KeyError as e:
                exp = None
                if 'load' not in label and 'store' not in label and 'access' not in label and 'division' not in label:
                    v['replay'] = 'expectation cannot be evaluated: %s' % e
                    R['unconfirmed'].append(v); continue
            for mode in ('mid', 'end', 'start') if not h.env else ():
                res, rc = H.native(so, [H.case_for(h, env, mode)], timeout=20)
                if res[0] is None:
                    ok = 'native run (%s placement) ended with status %d' % (mode, rc); break
                if exp:
                    df = H.compare_native(h, exp, res[0])
                    if df:
                        ok = '; '.join('%s[%s]: got %#x, expected %#x' % x for x in df[:4]); break
            if not ok and exp and any(k.startswith('undef!') for k in model or {}) and unin < 8:
                # the result depends on an uninitialised value: let the compiler choose another one
                unin += 1
                for fl in (['-ftrivial-auto-var-init=pattern'], ['-ftrivial-auto-var-init=pattern', '-O1'], ['-ftrivial-auto-var-init=pattern', '-O0']):
                    try: so2 = H.compile_so(tu, d, {h.name}, fl, 'tu%d.so' % len(os.listdir(d)))
                    except H.CompileError: continue
                    cs = [env] + [H.random_env(h, rng) for _ in range(12)]
                    es = [exp]
                    for e2 in cs[1:]:
                        try: es.append(H.spec_eval(h, e2))
                        except KeyError: es.append(None)
                    res, rc = H.native(so2, [H.case_for(h, e2) for e2 in cs], timeout=20)
                    for e2, x, r in zip(cs, es, res):
                        df = H.compare_native(h, x, r) if x and r else []
                        if df:
                            ok = 'built with %s (uninitialised value used): ' % ' '.join(fl) + fmt(df); model = e2; break
                    if ok: v['inputs'] = {k: hex(x) for k, x in sorted(model.items()) if not k.startswith('undef!')}; break
            if not ok:
                # the abstract model need not be realisable (uninterpreted library functions):
                # look for concrete inputs of the same harness that are
                hit = search(so, h, rng, 60, model)
                if hit:
                    env, ok = hit; model = env
                    v['inputs'] = {k: hex(x) for k, x in sorted(env.items())}
            if ok:
                v['replay'] = ok
                R['violations'].append((v, h, model))
            else:
                v['replay'] = 'not reproduced natively'
                R['unconfirmed'].append(v)
        if host:
            # what the solver could not decide is at least run on some concrete inputs; this
            # counts as no coverage, but a failing run is a failing run
            left = opts.get('undecided', 60)
            for h in undecided[:left]:
                hit = search(so, h, rng, 12)
                if hit: concrete.append((h,) + hit)
            R['undecided_runs'] = min(left, len(undecided)) * 12
        for h, env, what in concrete:
            if any(x[1] is h for x in R['violations']): continue
            R['violations'].append(({'tu': tu.name, 'arch': tu.arch, 'harness': h.name, 'obligation': 'concrete run', 'tier': 'concrete',
                                     'inputs': {k: hex(x) for k, x in sorted(env.items())}, 'replay': what}, h, env))
        R['violations'] = [(v, replay_doc(tu, h, v, model)) for v, h, model in R['violations']]
        st = S.stats
        R['queries'] = st['queries']; R['cache_hits'] = st['cache_hits']; R['z3_time'] = st['z3_time']; R['tiers'] = st['tiers']
        R['time'] = time.time() - t0
        return R
    finally:
        shutil.rmtree(d, ignore_errors=True)

def enc_ok(h, got, und, sp):
    by = {p.name: p for p in h.params}
    for k, v in got.items():
        b = H.bits(by[k].e) // 8
        for i, g in enumerate(v):
            if und[k][i]: return False
    fake = []
    for p in h.params:
        b = H.bits(p.e) // 8
        fake.append((b''.join(g.to_bytes(b, 'little') for g in got[p.name]) if p.name in got else bytes(b * p.n)).hex())
    try: return not H.compare_native(h, [x for x in sp if x[0].name in got], [(x, None) for x in fake])
    except Exception: return False
def rebuilt_deviates(tu, d, h, env, sp):
    for fl in (['-O1'], ['-O0']):
        try: so = H.compile_so(tu, d, {h.name}, fl, 'tu%d.so' % len(os.listdir(d)))
        except H.CompileError: continue
        res, rc = H.native(so, [H.case_for(h, env)] * 3, timeout=20)
        if any(r is None or H.compare_native(h, sp, r) for r in res): return True
    return False
def search(so, h, rng, n, base=None):
    envs = []; exps = []
    for i in range(n):
        env = H.random_env(h, rng)
        if base and i < n // 2:
            for k in env:
                if k in base and rng.random() < 0.7 and (not h.env or H.isbool(h, k)): env[k] = base[k]
        try: exp = H.spec_eval(h, env)
        except KeyError: return None
        if exp is None: continue
        envs.append(env); exps.append(exp)
    if not envs: return None
    res, rc = H.native(so, [H.case_for(h, e) for e in envs])
    for env, exp, r in zip(envs, exps, res):
        if r is None: return env, 'native run ended with status %d' % rc
        df = H.compare_native(h, exp, r)
        if df: return env, '; '.join('%s[%s]: got %#x, expected %#x' % x for x in df[:4])
    return None

def replay_doc(tu, h, v, model):
    doc = dict(v)
    one = H.TU(tu.name, tu.arch, [h], tu.flags, tu.pre)
    doc['source'] = one.source()
    doc['compile'] = ' '.join(H.gxx_cmd(tu, 'replay.cpp', ['-shared', '-fPIC', '-o', 'replay.so']))
    doc['cases'] = [H.case_for(h, dict(model or {}), m) for m in ('mid', 'end', 'start')]
    try:
        e = H.spec_eval(h, dict(model or {}))
        doc['expected'] = [[p.name, i, hex(x)] for p, i, x in e] if e else None
    except Exception:
        doc['expected'] = None
    return doc

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))['findings'] if f.get('status') == 'open']

def match_known(known, prop, hname, tu, label):
    for f in known:
        if f['property'] == prop and re.fullmatch(f['harness'], hname) and re.fullmatch(f.get('tu', '.*'), tu) \
           and re.fullmatch(f.get('obligation', '.*'), label, re.S):
            return f
    return None

def run_check(prop, tus, tier, meta, jobs=None, budget=None, verbose=False, opts=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = jobs or min(8, os.cpu_count() or 4)
    budget = budget or (780 if tier == 'quick' else 6 * 3600)
    o = {'seed': seed, 'deadline': t0 + budget * 0.8, 'timeouts': {'t_bv': 30000, 't_uf': 15000, 't_fp': 60000} if tier == 'quick'
         else {'t_bv': 300000, 't_uf': 60000, 't_fp': 600000, 'lost_max': 3600}}
    if tier == 'quick': o['timeouts'].update(meta.get('timeouts', {}))
    o.update(opts or {})
    results = []
    stop = None; cut = 0        # quick runs end soon after the first confirmed violation
    known = load_known()
    ctx = mp.get_context('fork')
    global _TUS
    _TUS = sorted(tus, key=lambda t: -t.cost())
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        try:
            it = pool.imap_unordered(work_tu, [(i, o) for i in range(len(_TUS))])
            while True:
                try: r = it.next(timeout=2)
                except StopIteration: break
                except mp.TimeoutError: r = None
                if r is not None:
                    results.append(r)
                    if verbose: summary(r)
                    if tier == 'quick' and stop is None and any(not match_known(known, prop, v['harness'], v['tu'], v['obligation']) for v, _ in r.get('violations', [])):
                        stop = time.time() + max(60, 0.5 * (time.time() - t0))
                if stop and time.time() > stop or time.time() - t0 > budget * 1.05: cut = len(_TUS) - len(results); break
        finally:
            pool.terminate()
    return finish(prop, results, tier, meta, seed, t0, verbose, cut)

def summary(r):
    if 'error' in r:
        print('TU %s ERROR %s' % (r['tu'], r['error'])); return
    print('TU %-28s %6.1fs (compile %.1f z3 %.1f q %d hits %d) h=%d ob=%d dis=%d folded=%d inc=%d uns=%d viol=%d unconf=%d cf=%d val=%d mm=%d vac=%d' % (
        r['tu'], r['time'], r['compile_s'], r['z3_time'], r['queries'], r['cache_hits'], r['harnesses'], r['obligations'], r['discharged'], r['folded'],
        len(r['inconclusive']), len(r['unsupported']), len(r['violations']), len(r['unconfirmed']), len(r['compile_fail']), r['validated'],
        len(r['mismatch']), len(r['vacuous'])))
    for k in ('inconclusive', 'unsupported', 'compile_fail', 'mismatch', 'vacuous'):
        seen = {}
        for x in r[k]:
            key = re.sub(r'\d+', '#', x[1]) if not isinstance(x, str) else x
            seen.setdefault(key[:160], []).append(x)
        for key, xs in list(seen.items())[:8]: print('    %s x%d: %s' % (k, len(xs), xs[0]))
    for v in r['violations'][:5]: print('    VIOL', {k: v[0][k] for k in ('harness', 'obligation', 'replay', 'inputs')})
    for v in r['unconfirmed'][:5]: print('    UNCONF', {k: v[k] for k in ('harness', 'obligation', 'replay', 'tier', 'inputs')})
    sys.stdout.flush()

def finish(prop, results, tier, meta, seed, t0, verbose, cut=0):
    errs = [r for r in results if 'error' in r]
    ok = [r for r in results if 'error' not in r]
    known = load_known()
    new = []; hits = {}
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '_'): os.unlink(os.path.join(rdir, f))
    for r in ok:
        for v, doc in r['violations']:
            k = match_known(known, prop, v['harness'], v['tu'], v['obligation'])
            if k: hits.setdefault(k['id'], (k, []))[1].append(v)
            else: new.append((v, doc))
        for n, m in r['compile_fail']:
            k = match_known(known, prop, n, r['tu'], 'compile')
            v = {'tu': r['tu'], 'arch': r['arch'], 'harness': n, 'obligation': 'compile', 'replay': m, 'inputs': {}}
            if k: hits.setdefault(k['id'], (k, []))[1].append(v)
            else: new.append((v, dict(v)))
    tot = lambda k: sum(r[k] for r in ok)
    cat = lambda k: [(r['tu'],) + tuple(x) if not isinstance(x, (str, dict)) else (r['tu'], x) for r in ok for x in r[k]]
    inc = cat('inconclusive'); uns = cat('unsupported'); unc = cat('unconfirmed'); mm = cat('mismatch'); vac = cat('vacuous')
    tiers = {}
    for r in ok:
        for k, n in r['tiers'].items(): tiers[k] = tiers.get(k, 0) + n
    samples = []
    for r in ok:
        samples.extend(r['samples'][:1])
        if len(samples) >= 4: break
    cov = {
        'explanation': meta.get('explanation', 'Bounded symbolic execution of the GCC RTL generated from /repo\'s headers; every obligation is an SMT query over all lane values.'),
        'functions_encoded': sum(len(r['functions']) for r in ok),
        'rtl_insns_executed': tot('insns'), 'translation_units': len(ok), 'harnesses': tot('harnesses'),
        'obligations': tot('obligations'), 'discharged': tot('discharged'),
        'closed_by_normalisation_then_trivial_query': tot('folded'),
        'solver_queries': tot('queries'), 'alpha_equivalent_reuse': tot('cache_hits'), 'solver_time_s': round(tot('z3_time'), 2),
        'distinct_queries_by_theory_and_verdict': tiers,
        'reachability_witnesses': tot('witness'), 'vacuous': vac[:20],
        'native_validation_runs_agreeing': tot('validated'), 'native_validation_mismatches': mm[:20],
        'inconclusive': inc[:60], 'inconclusive_count': len(inc), 'not_encoded': uns[:60], 'not_encoded_count': len(uns),
        'solver_counterexamples_not_reproduced': unc[:20],
        'translation_units_not_examined': cut,
        'bounds': meta.get('bounds', ''), 'architectures': sorted({r['arch'] for r in ok}),
        'libm_and_external_calls_modelled': sorted({c for r in ok for c in r['called'] if not c.startswith('_Z')})[:80],
        'samples': samples,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'other'), 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d TUs, %d harnesses, %d obligations, %d discharged, %d queries (%.1f s z3), %d inconclusive, %d not encoded, %d unreproduced, %d mismatches, %.1f s' % (
        prop, len(ok), tot('harnesses'), tot('obligations'), tot('discharged'), tot('queries'), tot('z3_time'), len(inc), len(uns), len(unc), len(mm), time.time() - t0))
    for k, (f, vs) in hits.items():
        print('KNOWN-FINDING: property=%s %s (%d obligations)' % (prop, f['what'], len(vs)))
    if new:
        seen = set(); n = 0
        for v, doc in new:
            key = (v['harness'].split('__')[0], v['obligation'].split('[')[0])
            if key in seen and n >= 3: continue
            seen.add(key)
            p = os.path.join(rdir, '%s_%d.json' % (prop, n)); n += 1
            json.dump(doc, open(p, 'w'), indent=1)
            print('  %s %s %s: %s' % (v['tu'], v['harness'], v['obligation'], v['replay']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
            if n >= 12: break
        return 1
    if errs:
        for r in errs: print('ERROR in %s: %s' % (r['tu'], r['error']))
        return 2
    if mm:
        print('WARNING: the encoding disagrees with native execution (those harnesses count as not encoded): %s' % (mm[:3],))
        if len(mm) * 4 > tot('harnesses') or os.environ.get('VERIF_STRICT'): return 2
    if tot('discharged') == 0 or (vac and len(vac) > 0):
        print('ERROR: vacuous harnesses: %s' % vac[:5]); return 2
    if (len(uns) + len({(m[0], m[1]) for m in mm})) * 4 > tot('harnesses'):
        print('ERROR: too much of the code could not be encoded'); return 2
    return 0
