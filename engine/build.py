"""Compile /repo's current sources (and the contract harnesses) to LLVM IR in a scratch directory."""
import os, subprocess, tempfile, shutil, atexit, sys, time, re, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import irparse

REPO = os.environ.get('VF_REPO', '/repo')		# VF_REPO: development aid (seedtool.py)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
FILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
DEFS = ['-DGS_LIN', '-D_LINUX', '-DUNICODE', '-D_UNICODE', '-DBUILD_MVR_XCHANGE', '-DDONT_USE_XERCES_AS_XMLLIB', '-DIS_UNITTEST']
INCS = ['-I' + REPO + '/src', '-I' + REPO + '/mdns_cpp/include', '-I' + VERIF + '/spec']
CFL = ['-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-delete-null-pointer-checks', '-fno-access-control', '-S', '-emit-llvm', '-ffp-contract=off']
PASSES = "-passes=function(sroa,simplifycfg,early-cse,simplifycfg),function(loop-simplify)"

class BuildError(Exception): pass
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vfbuild.')
        d = _scratch
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _scratch

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-3000:]))
    return p.stdout

def compile_one(src, extra=(), passes=PASSES, std='-std=gnu++14'):
    d = scratch()
    base = os.path.join(d, re.sub(r'\W', '_', src))
    ll, o = base + '.ll', base + '.o.ll'
    if not os.path.exists(o):
        run([CLANG, std] + DEFS + INCS + CFL + list(extra) + [src, '-o', ll])
        run([OPT, '-S', passes, '-strip-debug', ll, '-o', o])
        os.remove(ll)
    return o

def modules(srcs, extra=(), passes=PASSES):
    """compile (in parallel) and parse; relative names are under /repo/src"""
    srcs = [s if os.path.isabs(s) else os.path.join(REPO, 'src', s) for s in srcs]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: compile_one(s, extra, passes), srcs))
    mods = []
    for s, o in zip(srcs, outs):
        mods.append(irparse.Module(open(o).read(), os.path.relpath(s, REPO) if s.startswith(REPO) else os.path.basename(s)))
    return mods

def demangle(mods):
    names = set()
    for m in mods:
        names.update(m.funcs); names.update(m.decls)
        names.update(getattr(m, 'aliases', {}))
    names = sorted(names)
    out = run([FILT], input='\n'.join(names).encode()).decode().split('\n')
    return dict(zip(names, out))
