"""The public interfaces as the current headers declare them: classes, methods, wrapper classes and their binding."""
import re, glob, os, build
def _read(f):
    s = open(f, encoding='latin-1').read().replace('\r\n', '\n')
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)
class Method:
    """ret, name, args = [(type without default, name)]"""
    def __init__(s, ret, name, args): s.ret, s.name, s.args = ret, name, args
    def sig(s): return '%s(%s)' % (s.name, ', '.join(t for t, n in s.args))
def norm(t):
    t = re.sub(r'\s+', ' ', t.strip())
    t = re.sub(r'\s*([&*])\s*', r'\1', t)
    t = re.sub(r'^const\s+', 'const ', t)
    return t.replace('VectorworksMVR::', '')
def parse_args(a):
    r = []
    for i, x in enumerate(a.split(',')):
        x = x.split('=')[0].strip()
        if not x or x == 'void': continue
        m = re.match(r'^(.*[\s&*])(\w+)\s*$', x, re.S)
        if m and norm(m.group(1)) not in ('const', 'unsigned', 'GdtfDefines::'): r.append((norm(m.group(1)), m.group(2)))
        else: r.append((norm(x), 'a%d' % i))
    return r
def interfaces():
    r = {}
    fs = [f for f in glob.glob(build.REPO + '/src/**/*.h', recursive=True)]
    for f in sorted(fs):
        s = _read(f)
        if 'VCOM_CALLTYPE' not in s: continue
        for m in re.finditer(r'class\s+(?:DYNAMIC_ATTRIBUTE\s+)?(I\w+)\s*:\s*public\s+(?:VectorworksMVR::)?IVWUnknown\s*\{(.*?)\n\s*\};', s, re.S):
            ms = []
            for d in re.split(r';', m.group(2)):
                d = re.sub(r'\b(public|private|protected)\s*:', '', d).strip()
                k = re.match(r'virtual\s+(.*?)\s*(?:VCOM_CALLTYPE\s+)?(\w+)\s*\((.*)\)\s*(const)?\s*=\s*0$', d, re.S)
                if not k: continue
                ret = norm(re.sub(r'VCOM_CALLTYPE', '', k.group(1)))
                if '<' in k.group(3): ms.append(Method(ret, k.group(2), None)); continue
                ms.append(Method(ret, k.group(2), parse_args(k.group(3))))
            if m.group(1) not in r or len(ms) > len(r[m.group(1)]): r[m.group(1)] = ms
    return r
class Impl:
    def __init__(s, cls, iface, hdr, bind): s.cls, s.iface, s.hdr, s.bind = cls, iface, hdr, bind
def impls():
    """interface -> wrapper class, header and binding method (name, [arg types])"""
    r = {}
    for f in sorted(glob.glob(build.REPO + '/src/Implementation/*.h')):
        s = _read(f)
        for m in re.finditer(r'class\s+(\w+)\s*:\s*public\s+VCOM\w*Impl<(?:VectorworksMVR::)?(\w+)>\s*\{(.*?)\n\s*\};', s, re.S):
            b = re.search(r'void\s+([sS]etPointer)\s*\((.*?)\)', m.group(3), re.S)
            r[m.group(2)] = Impl(m.group(1), m.group(2), os.path.basename(f), (b.group(1), parse_args(b.group(2))) if b else None)
    return r
if __name__ == '__main__':
    I = interfaces(); P = impls()
    for i, p in P.items(): print(i, p.cls, p.bind, len(I.get(i, [])))
    T = {}
    for i in P:
        for m in I.get(i, []):
            if m.args is None: print('skipped', i, m.name); continue
            if m.ret != 'VCOMError': print('  RET', i, m.ret, m.sig())
            for t, n in m.args: T[t] = T.get(t, 0) + 1
    print(T)
