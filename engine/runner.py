"""Runs the contract harnesses of one property and reports."""
import os, sys, time, json, re, importlib, multiprocessing as mp, traceback, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, sym, std, native
import z3
VERIF = build.VERIF
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.setrecursionlimit(20000)

def model_inputs(ex, m):
    """solver model -> {name: hex}"""
    out = {}
    for n, d in ex.inputs.items():
        try:
            if d[0] == 'bytes':
                sz = d[2] if isinstance(d[2], int) else m.eval(d[2], model_completion=True).as_long()
                k = min(sz, 1 << 14)
                # only the bytes the model constrains matter; beyond that zeros
                bs = []
                for i in range(k):
                    v = m.eval(z3.Select(d[1], z3.BitVecVal(i, 64)), model_completion=True)
                    bs.append(v.as_long() if z3.is_bv_value(v) else 0)
                out[n] = ''.join('%02x' % b for b in bs)
            elif d[0] == 'text':
                out[n] = ''.join('%02x' % b for b in d[1](m))
            elif d[0] == 'f64':
                v = m.eval(d[1], model_completion=True)
                if z3.is_bv_value(v): out[n] = '%x' % v.as_long()
                else:
                    import struct
                    from fractions import Fraction
                    if z3.is_algebraic_value(v): v = v.approx(20)
                    f = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                    out[n] = '%x' % struct.unpack('<Q', struct.pack('<d', f))[0]
            elif d[0] == 1:
                out[n] = '1' if z3.is_true(m.eval(d[1], model_completion=True)) else '0'
            else:
                out[n] = '%x' % m.eval(d[1], model_completion=True).as_long()
        except Exception as e:
            pass
    return out

class Ctx: pass

def make_exec(chk, prog, h, deadline, cutset):
    ex = sym.Exec(prog, fpmode=getattr(chk, 'FPMODE', {}).get(h, getattr(chk, 'FP', 'bits')), timeout=getattr(chk, 'TIMEOUT', 20000))
    std.install(ex)
    ex.cutset = cutset
    ex.deadline = deadline
    if hasattr(chk, 'setup'): chk.setup(ex, h)
    return ex

def verify_one(chk, prog, h, budget):
    """all obligations of one harness; restarts when a loop needs an invariant"""
    t0 = time.time()
    cutset = dict(getattr(chk, 'CUTS', {}))
    res = {'harness': h, 'obls': [], 'error': None}
    ex = None
    try:
        for it in range(40):
            ex = make_exec(chk, prog, h, t0 + budget, cutset)
            try:
                st = sym.State()
                if hasattr(chk, 'prepare'): chk.prepare(ex, st, h)
                outs = ex.run(st, h, chk.args(ex, st, h) if hasattr(chk, 'args') else [])
                break
            except sym.NeedCut as e:
                cutset[(e.fn, e.hdr)] = True
        else: raise sym.Unsupported('too many loops to cut')
        nthrow = 0
        for (s, k, v) in outs:
            if k == 'throw' and not getattr(chk, 'THROW_OK', False):
                nthrow += 1
                if nthrow > 6: continue
                ex.obls.append(sym.Obligation('no exception escapes', 'failed', 'engine', 0.0, detail='exception %s' % (s.exc,), st=s, model=path_model(ex, s)))
        res['paths'] = len(outs)
    except sym.Unsupported as e:
        res['error'] = 'Unsupported: %s' % e
        if os.environ.get('VF_TRACE'): traceback.print_exc()
    except Exception as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finish(res, ex, t0)
    return res

def path_model(ex, st):
    r, sol = ex._check(list(st.pc), None, True)
    return sol.model() if r == z3.sat else None

def finish(res, ex, t0):
    if ex is None: return
    seen = {}
    for o in ex.obls:
        d = {'label': o.label, 'status': o.status, 'backend': o.backend, 't': round(o.t, 4)}
        if o.status != 'ok':
            d['detail'] = str(o.detail)[:500]; d['goal'] = str(o.goal)[:1500]
            k = seen.get(o.label, 0); seen[o.label] = k + 1
            if k < 4 and o.model is not None: d['inputs'] = model_inputs(ex, o.model)
        res['obls'].append(d)
    s = ex.stats
    res['funcs'] = sorted(ex.dem(f) for f in s.funcs)
    res['contracts'] = {ex.dem(k): v for k, v in s.contracts.items()}
    res['cuts'] = ['%s:%s' % (ex.dem(a), b) for (a, b) in s.cuts]
    res['covered'] = sorted(ex.covered); res['coverpts'] = sorted(ex.coverpts)
    res['stats'] = dict(queries=s.queries, solver_s=round(s.solver_s, 2), insts=s.insts, paths=s.paths, timeouts=s.timeouts)
    res['assumed'] = sorted(ex.assumed)
    res['t'] = round(time.time() - t0, 2)

def known():
    """known findings: lines  finding: property=<id> harness=<h> label=<label> :: <what>"""
    l = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) label="(.*?)" :: (.*)', line)
            if m: l.append(m.groups())
    return l

def pool_run(chk, prog, hs, budget, jobs):
    """one forked process per harness"""
    results = {}
    pending = list(hs)
    running = {}
    while pending or running:
        while pending and len(running) < jobs:
            h = pending.pop(0)
            r, w = mp.Pipe(False)
            def go(h=h, w=w):
                try: w.send(verify_one(chk, prog, h, budget))
                except BaseException as e:
                    try: w.send({'harness': h, 'obls': [], 'error': 'crash %r' % e})
                    except Exception: pass
                w.close(); os._exit(0)
            p = mp.Process(target=go); p.start(); w.close()
            running[h] = (p, r, time.time())
        for h in list(running):
            p, r, t = running[h]
            if r.poll(0.02):
                try: results[h] = r.recv()
                except EOFError: results[h] = {'harness': h, 'obls': [], 'error': 'worker ended'}
                p.join(); del running[h]
            elif time.time() - t > budget + 60:
                p.kill(); p.join(); results[h] = {'harness': h, 'obls': [], 'error': 'time budget exhausted'}; del running[h]
            elif not p.is_alive() and not r.poll(0.05):
                results[h] = {'harness': h, 'obls': [], 'error': 'worker ended'}; del running[h]
    return [results[h] for h in hs]

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = argv[1:] 
    t0 = time.time()
    chk = importlib.import_module(prop.lower())
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    evf = os.path.join(ev, prop + '.json')
    rc = 2
    try:
        rc = check(prop, chk, tier, seed, only, t0, evf, ev)
    except build.BuildError as e:
        print('ERROR property=%s build: %s' % (prop, e))
    except sym.Unsupported as e:
        print('ERROR property=%s %s' % (prop, e))
    return rc

def check(prop, chk, tier, seed, only, t0, evf, ev):
    spec = [os.path.join(VERIF, 'spec', s) for s in getattr(chk, 'SPEC', [])]
    if hasattr(chk, 'generate'): spec += chk.generate(tier)
    mods = build.modules(spec + list(chk.SOURCES), getattr(chk, 'FLAGS', ()))
    prog = sym.Program(mods, build.demangle(mods))
    z3.set_param('smt.random_seed', seed)
    hs = [n for m in mods for n in m.funcs if n.startswith(prop + '_')]
    skip = getattr(chk, 'QUICK_SKIP', ()) if tier == 'quick' else ()
    allhs = hs
    hs = [h for h in hs if h not in skip]
    if only: hs = [h for h in hs if any(re.search(o, h) for o in only)]
    if not hs: raise sym.Unsupported('no harness')
    if hasattr(chk, 'ORDER'): hs.sort(key=chk.ORDER)
    budget = getattr(chk, 'BUDGET', 500) * (4 if tier == 'thorough' else 1)
    if hasattr(chk, 'program'): chk.program(prog)
    results = pool_run(chk, prog, hs, budget, getattr(chk, 'JOBS', 8))
    if hasattr(chk, 'post'): results += chk.post(prog, tier)
    fails = []; unknown = []; errors = []
    n_ob = n_ok = 0
    backends = {}
    for r in results:
        if r['error']: errors.append((r['harness'], r['error']))
        for o in r['obls']:
            n_ob += 1
            if o['status'] == 'ok':
                n_ok += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['status'] == 'failed': fails.append((r['harness'], o))
            else: unknown.append((r['harness'], o))
        if not r['error']:
            miss = set(r.get('coverpts', ())) - set(r.get('covered', ()))
            if miss: errors.append((r['harness'], 'vacuous: precondition never satisfiable at %s' % sorted(miss)))
            if not r['obls']: errors.append((r['harness'], 'vacuous: no obligation generated'))
    if os.environ.get('VF_VERBOSE'):
        for r in results:
            print('--', r['harness'], r.get('t'), 'paths', r.get('paths'), r.get('stats'), r['error'] or '')
            c = {}
            for o in r['obls']: c[(o['label'], o['status'])] = c.get((o['label'], o['status']), 0) + 1
            for k, v in c.items(): print('    %-8s %4d  %s' % (k[1], v, k[0]))
            for o in r['obls']:
                if o['status'] != 'ok': print('      !!', o['label'], o.get('detail'), o.get('goal', '')[:400], str(o.get('inputs'))[:300]); break
    # known findings
    kf = known(); live = []; found = {}
    for h, o in fails:
        k = [x for x in kf if x[0] == prop and x[1] == h and x[2] == o['label']]
        if k: found[k[0]] = True
        else: live.append((h, o))
    for k in found: print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    viol = []
    exe = None
    def getexe():
        nonlocal exe
        if exe is None:
            if hasattr(chk, 'native_binary'): exe = chk.native_binary(spec, allhs)
            else:
                nspec = [os.path.join(VERIF, 'spec', s) for s in getattr(chk, 'NATIVE_SPEC', [])] + [s for s in spec if s not in getattr(chk, 'IR_ONLY', ())]
                exe = native.binary(prop, nspec, allhs, getattr(chk, 'FLAGS', ()), getattr(chk, 'NATIVE_NOLIB', False))
        return exe
    bylab = {}
    for h, o in live: bylab.setdefault((h, o['label']), []).append(o)
    confirmed = 0
    groups = [(h, l, os_, 'failed') for (h, l), os_ in bylab.items()]
    gu = {}
    for h, o in unknown: gu.setdefault((h, o['label']), []).append(o)
    groups += [(h, l, os_, 'undecided') for (h, l), os_ in gu.items()]
    groups += [(h, e, [], 'engine') for h, e in errors if not e.startswith('vacuous')]
    nsearch = 0
    tsearch = time.time()
    nonat = getattr(chk, 'NO_NATIVE', False)     # True, or a pattern of harness names
    canrep = nonat is not True
    for i, (h, label, os_, kind) in enumerate(groups):
        ok = None; src = ''; inp_txt = ''
        path = os.path.join(ev, 'replay', '%s-%d.txt' % (prop, i))
        if i < 12 and canrep and h in allhs and not (nonat and re.search(nonat, h)) and (time.time() - t0 < 700 or tier == 'thorough'):
            try: x = getexe()
            except build.BuildError as e:
                print('note: native replay not available: %s' % str(e)[:1000]); canrep = False; x = None
            if x:
                for o in os_:
                    if 'inputs' not in o: continue
                    inf = path + '.in'
                    with open(inf, 'w') as f:
                        for k, v in o['inputs'].items(): f.write('%s=%s\n' % (k, v))
                    v, txt = native.once(x, h, inf)
                    inp_txt = open(inf).read(); os.remove(inf)
                    if v in ('failed', 'timeout'): ok = txt; src = 'solver model'; break
                if ok is None and time.time() - tsearch < 150:
                    lg = path + '.log'
                    txt, n = native.search(x, h, seed, 25 if len(groups) < 4 else 12, lg); nsearch += n
                    if txt:
                        ok = txt; src = 'witness search guided by the failed obligation (%d runs)' % n
                        if os.path.exists(lg): inp_txt = open(lg).read()
                    for k in range(8):
                        for q in (lg, '%s.%d' % (lg, k)):
                            if os.path.exists(q): os.remove(q)
        with open(path, 'w') as f:
            f.write('property: %s\nharness: %s\nobligation: %s\nverifier verdict: %s\n' % (prop, h, label, kind))
            if os_:
                f.write('verifier detail: %s\ngoal (negation satisfiable): %s\nsolver inputs: %s\n' % (os_[0].get('detail'), os_[0].get('goal'), json.dumps(os_[0].get('inputs', {}))[:4000]))
            f.write('native replay: %s\n' % ('FAILS on the real code (%s)' % src if ok else 'no failing input found'))
            if ok: f.write('inputs:\n%s\nnative output:\n%s\n' % (inp_txt, ok))
        if ok: viol.append((path, True, h, label))
        elif kind == 'failed': viol.append((path, False, h, label))
    conf = [v for v in viol if v[1]]
    rc = 0
    if viol:
        rc = 1
        for path, c, h, label in (conf or viol)[:5]:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if c else ' no-failing-input-found'))
            print('  obligation: %s [%s]' % (label, h))
    elif unknown or errors:
        rc = 2
        for h, e in errors[:8]: print('ERROR property=%s harness=%s %s' % (prop, h, e))
        for h, o in unknown[:8]: print('ERROR property=%s harness=%s undecided obligation: %s' % (prop, h, o['label']))
    # evidence
    funcs = set(); ctr = {}; cuts = set(); assumed = set(); sol = 0.0; nq = 0; insts = 0
    for r in results:
        funcs.update(r.get('funcs', ())); cuts.update(r.get('cuts', ())); assumed.update(r.get('assumed', ()))
        for k, v in r.get('contracts', {}).items(): ctr[k] = ctr.get(k, 0) + v
        s = r.get('stats', {}); sol += s.get('solver_s', 0); nq += s.get('queries', 0); insts += s.get('insts', 0)
    own = [f for f in sorted(funcs) if not re.match(r'(std::|__gnu_cxx::|void std::|bool std::|vf_|%s_)' % prop, f) and ' std::' not in f.split('(')[0]]
    known_n = len(found)
    E = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {
            'obligations': n_ob, 'discharged': n_ok, 'checker_cmd': 'python3-vt check.py %s' % prop,
            'trusted_base': getattr(chk, 'TRUSTED', []) + ['clang 18 front end and sroa/simplifycfg/early-cse', 'engine/sym.py VC generator', 'z3 %s' % z3.get_version_string(), 'contracts of C/C++ runtime functions in engine/std.py'],
            'discharged_by_backend': backends, 'solver_seconds': round(sol, 2), 'solver_queries': nq, 'ir_instructions_executed': insts,
            'harnesses': [{'name': r['harness'], 'obligations': len(r['obls']), 'paths': r.get('paths'), 'seconds': r.get('t'), 'error': r['error']} for r in results],
            'functions_verified': len(own), 'functions': own[:400],
            'contracts_assumed_at_calls': {k: v for k, v in sorted(ctr.items()) if not k.startswith('vf_')},
            'loops_cut_with_invariants': sorted(cuts),
            'known_findings_reproduced': known_n, 'native_witness_runs': nsearch},
         'assumptions': list(getattr(chk, 'ASSUMPTIONS', [])) + sorted(assumed),
         'wall_s': round(time.time() - t0, 2), 'violations': len(conf or viol)}
    with open(evf, 'w') as f: json.dump(E, f, indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses, %.1fs -> exit %d' % (prop, n_ob, n_ok, len(results), time.time() - t0, rc))
    return rc

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
