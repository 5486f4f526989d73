"""development aid: dbg.py <ID> <harness>  - one harness in process, with the failing obligations and their call stacks"""
import sys, os, importlib, time, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, build, sym
prop, h = sys.argv[1], sys.argv[2]
chk = importlib.import_module(prop.lower())
spec = [os.path.join(build.VERIF, 'spec', s) for s in getattr(chk, 'SPEC', [])]
if hasattr(chk, 'generate'): spec += chk.generate('quick')
mods = build.modules(spec + list(chk.SOURCES), getattr(chk, 'FLAGS', ()))
prog = sym.Program(mods, build.demangle(mods))
if hasattr(chk, 'program'): chk.program(prog)
orig = sym.Exec.oblige
def ob(s, st, c, label, detail=''):
    n = len(s.obls)
    try: return orig(s, st, c, label, detail)
    finally:
        if len(s.obls) > n and s.obls[-1].status != 'ok':
            print('!!', s.obls[-1].status, label)
            for f in st.frames: print('     ', s.dem(f.fn.name)[:150], f.blk.name, f.blk.insts[min(f.i, len(f.blk.insts)-1)].line.strip()[:160])
sym.Exec.oblige = ob
os.environ['VF_TRACE'] = '1'
cutset = dict(getattr(chk, 'CUTS', {}))
t0 = time.time()
while True:
    ex = runner.make_exec(chk, prog, h, time.time() + 600, cutset)
    st = sym.State()
    if hasattr(chk, 'prepare'): chk.prepare(ex, st, h)
    try:
        outs = ex.run(st, h, chk.args(ex, st, h) if hasattr(chk, 'args') else [])
        break
    except sym.NeedCut as e:
        print('cut', ex.dem(e.fn), e.hdr); cutset[(e.fn, e.hdr)] = True
    except sym.Unsupported as e:
        import traceback; traceback.print_exc()
        for f in getattr(ex, 'last_st', st).frames: print('   ', ex.dem(f.fn.name)[:150], f.blk.name, f.blk.insts[min(f.i, len(f.blk.insts)-1)].line.strip()[:160])
        break
print('obls', len(ex.obls), 'ok', sum(o.status == 'ok' for o in ex.obls), 'queries', ex.stats.queries, 'solver', round(ex.stats.solver_s, 2), 't', round(time.time() - t0, 2))
if '-f' in sys.argv:
    for f in sorted(ex.stats.funcs): print('  inl', ex.dem(f)[:200])
    for f in sorted(ex.stats.contracts): print('  ctr', ex.dem(f)[:200])
