#!/usr/bin/env python3
"""Keeps a planted bug: seedtool.py add DIR PROP FILE OLD NEW NEEDS BREAKS DEMO.cpp [extra g++ flags]
   verifies one or all: seedtool.py test [ID...]   (scratch copy of /repo, build, tests, demo both ways, check)"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__)); S = V + '/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property held; nonzero: it did not (or the demonstration does not build)
H="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O0 -g -w -fno-access-control -DBUILD_MVR_XCHANGE -DDONT_USE_XERCES_AS_XMLLIB -DGS_LIN -DUNICODE -D_LINUX -D_UNICODE -I"$R/src" -I"$R/mdns_cpp/include" %s "$H/demo.cpp" -o "$T/demo" %s "$R/_build/libs/libMvrGdtf.a" "$R/_build/libs/libmdns_cpp.a" -luuid -lpthread || exit 2
cd "$T" && HOME="$T" timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def add(d, prop, f, old, new, needs, breaks, demo, flags='', srcs=''):
    p = S + '/' + d; os.makedirs(p, exist_ok=True)
    fn = '/repo/' + f
    t = open(fn, encoding='latin-1', newline='').read()
    if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    assert t.count(old) == 1, '%d matches' % t.count(old)
    open(fn, 'w', encoding='latin-1', newline='').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff', '--', f], stdout=subprocess.PIPE).stdout
    open(fn, 'w', encoding='latin-1', newline='').write(t)
    open(p + '/patch.diff', 'wb').write(diff)
    open(p + '/demo.cpp', 'w').write(demo)
    open(p + '/demo.sh', 'w').write(DEMO % (flags, srcs)); os.chmod(p + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(p + '/meta.json', 'w'), indent=1)
def test(ids, check=True):
    """in a copy of /repo (build.sh and test.sh rewritten to it); the check reads the copy through VF_REPO, a development aid"""
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    T = tempfile.mkdtemp(prefix='seedtest.'); R = T + '/repo'; env = dict(os.environ, VF_REPO=R)
    try:
        sh(['cp', '-a', '/repo', R])
        for s in ('build.sh', 'test.sh'): open(T + '/' + s, 'w').write(open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', T + '/build.sh').replace('/repo', R))
        sh(['git', '-C', R, 'checkout', '--', '.']); shutil.rmtree(R + '/_build', ignore_errors=True)
        for i in ids:
            p = S + '/' + i; prop = json.load(open(p + '/meta.json'))['property']
            r = {}
            b = sh(['bash', T + '/build.sh']); r['demo_clean'] = sh(['bash', p + '/demo.sh'], cwd=R).returncode
            a = sh(['git', '-C', R, 'apply', p + '/patch.diff'])
            if a.returncode: print(i, 'does not apply', a.stdout.decode()[-300:]); continue
            b = sh(['bash', T + '/build.sh']); r['build'] = b.returncode
            sh(['bash', T + '/test.sh', T + '/t.json'])
            r['tests_missing'] = len(base - set(json.load(open(T + '/t.json'))['passed']))
            o = sh(['bash', p + '/demo.sh'], cwd=R); r['demo_patched'] = o.returncode
            if check:
                c = sh(['python3-vt', V + '/check.py', prop], cwd=V, env=env); r['check'] = c.returncode
                r['violation'] = [l for l in c.stdout.decode().splitlines() if 'VIOLATION' in l or 'ERROR' in l][:3]
            sh('git -C %s checkout -- .' % R)
            print(i, r, flush=True)
    finally: shutil.rmtree(T, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1] == 'test': test(sys.argv[2:] or sorted(os.listdir(S)))
    else: add(*sys.argv[2:])
