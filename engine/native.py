"""Native replay: the same contract harnesses compiled against /repo's current sources with sanitizers."""
import os, subprocess, re, glob, time
from concurrent.futures import ThreadPoolExecutor
import build
SAN = ['-O0', '-g1', '-w', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,nonnull-attribute,float-cast-overflow,enum,bool,signed-integer-overflow,shift,float-divide-by-zero', '-fno-sanitize-recover=all', '-include', 'algorithm']
LEAN = ['-O1', '-w', '-fno-access-control', '-include', 'algorithm']
def libsrcs():
    l = []
    for r, d, fs in os.walk(build.REPO + '/src'):
        if re.search(r'xerces|Minizip|XMLLib', r, re.I): continue
        l += [os.path.join(r, f) for f in fs if f.endswith('.cpp') and not re.search('xerces', f, re.I)]
    l += glob.glob(build.REPO + '/mdns_cpp/src/*.cpp')
    return sorted(l)
def cc(src, out, flags=()):
    build.run([build.CLANG, '-std=gnu++14'] + build.DEFS + build.INCS + SAN + list(flags) + ['-c', src, '-o', out])
    return out
def binary(prop, spec_srcs, harnesses, flags=(), skip_lib=False):
    d = os.path.join(build.scratch(), 'native_' + prop)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'replay')
    if os.path.exists(exe): return exe
    tab = os.path.join(d, 'table.cpp')
    with open(tab, 'w') as f:
        f.write('#include <cstring>\nextern "C" {\n')
        for h in harnesses: f.write('void %s();\n' % h)
        f.write('typedef void (*H)();\nH vf_lookup(const char* n) {\n')
        for h in harnesses: f.write('if (!strcmp(n, "%s")) return %s;\n' % (h, h))
        f.write('return 0; }\n}\n')
    srcs = list(spec_srcs) + [tab, build.VERIF + '/spec/vf_native.cpp']
    if not skip_lib: srcs += libsrcs()
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: cc(s, os.path.join(d, re.sub(r'\W', '_', s) + '.o'), flags if s in spec_srcs else ()), srcs))
    build.run([build.CLANG, '-fsanitize=address,undefined'] + objs + ['-luuid', '-lpthread', '-o', exe])
    for o in objs: os.remove(o)
    return exe
ENV = dict(ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:max_allocation_size_mb=4096:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='exitcode=99:halt_on_error=1:print_stacktrace=0')
def once(exe, harness, inp='', seed=None, log=None, timeout=10):
    """-> (verdict, text): verdict in 'held','rejected','failed'"""
    env = dict(os.environ); env.update(ENV)
    if log: env['VF_LOG'] = log
    cmd = [exe, harness, inp] + ([str(seed)] if seed is not None else [])
    cwd = os.path.join(build.scratch(), 'cwd'); os.makedirs(cwd, exist_ok=True)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        return 'timeout', 'no termination within %ds' % timeout
    out = p.stdout.decode(errors='replace')
    if p.returncode == 0: return 'held', ''
    if p.returncode == 77: return 'rejected', ''
    if p.returncode == 1 and 'FAILED' in out:
        return 'failed', out[out.find('FAILED'):][:3000]
    if p.returncode == 3 and 'no harness' in out: return 'held', ''
    return 'failed', ('exit %d\n' % p.returncode) + out[:3000]
def search(exe, harness, seed0, budget_s, log, jobs=8):
    """random witness search"""
    t0 = time.time()
    n = [0]
    found = []
    def job(k):
        while not found and time.time() - t0 < budget_s:
            i = n[0]; n[0] += 1
            lg = log + '.%d' % k
            v, txt = once(exe, harness, '', seed0 * 1000003 + i, lg)
            if v == 'failed':
                found.append((v, txt, lg)); return
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(job, range(jobs)))
    if found:
        v, txt, lg = found[0]
        try: os.replace(lg, log)
        except OSError: pass
        return txt, n[0]
    return None, n[0]
