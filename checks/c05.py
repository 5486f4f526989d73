import txs, re, os, build, iface, c17
SPEC = []
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = c17.SOURCES + ['VWTransformMatrix.cpp', 'VWPoint3D.cpp', 'HashManager.cpp', 'GdtfError.cpp', 'FeedbackDispatcher.cpp']
# methods that bind the object (or do not concern bound data)
SKIP = {('IGdtfFixture', m) for m in ('OpenForWrite', 'ReadFromFile', 'ReadFromMemory', 'FromBuffer', 'AddImageRessource', 'SetFeedbackCallback', 'SetAbortCallback')}
OWN = {'IMediaRessourceVectorInterface', 'IUtility', 'IGdtfUserPreset'}  # not bound to data of another object
# (interface, method): another error may come first (the kind of the object, a missing argument)
OTHER = {'IGdtfXmlParsingError'} | {tuple(x.split('.')) for x in '''IGdtfDmxMode.CreateDmxRelation IGdtfDmxMode.GetBreakCount IGdtfFixture.AddFileToGdtfFile
    IGdtfFixture.AddBufferToGdtfFile IGdtfFixture.Close IGdtfFixture.GetBufferLength IGdtfFixture.RefreshBuffer IGdtfGeometry.GetWidth IGdtfGeometry.GetHeight IGdtfGeometry.GetIsCurved
    ISceneObj.SetClass ISceneObj.GetGdtfFixture ISceneObj.SetFocusPoint ISceneObj.SetMultipatchParent ISceneObj.SetPosition ISceneObj.AddAdress ISceneObj.AddMapping ISceneObj.AddProtocol ISceneObj.CreateCustomCommand'''.split()}
# (documented neutral value in the output argument)
WRITES = {('IGdtfFixture', 'GetBufferLength')}
NEUTRAL = {'MvrString': '!{r} || !*{r}', 'void*': '!{r}', 'bool': '!{r}', 'size_t': '{r} == 0'}
def decl(t, n, tag):
    """declarations of an argument, expression to pass, checks that an output argument was left alone"""
    if t == 'MvrString': return 'MvrString %s = "text";' % n, n, None
    if t in ('const char*', 'char*'): return 'char %s_[4] = "abc"; %s %s = %s_;' % (n, t, n, n), n, None
    if t == 'const MvrString&': return 'MvrString %s = "text";' % n, n, None
    if t == 'void*': return 'char %s_; void* %s = &%s_;' % (n, n, n), n, None
    if t.endswith('**'):
        return '%s %s = nullptr;' % (t[:-1], n), '&' + n, '!' + n
    if t.endswith('*'):
        if t[:-1] in IMPL: return '%s %s = given ? new %s() : nullptr;' % (t, n, IMPL[t[:-1]].cls), n, None
        return '%s %s = nullptr;' % (t, n), n, None
    if t.endswith('&') and not t.startswith('const '):
        b = t[:-1]
        return '%s %s; any("%s", %s); const auto %s0 = bits(%s);' % (b, n, tag, n, n, n), n, 'same(%s, %s0)' % (n, n)
    b = re.sub(r'^const ', '', t.rstrip('&'))
    return '%s %s; any("%s", %s);' % (b, n, tag, n), n, None
HEAD = '''#include "Prefix/StdAfx.h"
#include "vf.h"
#include <cstring>
#include <array>
#include "Include/VectorworksMVR.h"
using namespace VectorworksMVR; using namespace VectorworksMVR::GdtfDefines;
template<class T> static void any(const char* n, T& t) { vf_havoc(n, (void*)&t, sizeof(T)); }
static void any(const char* n, bool& t) { t = vf_bool(n); }
template<class T> struct Bits { unsigned char b[sizeof(T)]; };
template<class T> static Bits<T> bits(const T& t) { Bits<T> r; memcpy(r.b, (const void*)&t, sizeof(T)); return r; }
template<class T> static bool same(const T& t, const Bits<T>& b) { return memcmp((const void*)&t, b.b, sizeof(T)) == 0; }
'''
def methods():
    I, P = iface.interfaces(), iface.impls()
    for i, p in sorted(P.items()):
        if i in OWN: continue
        ms = [m for m in I.get(i, []) if m.args is not None and (i, m.name) not in SKIP]
        if ms: yield i, p, ms
IMPL = {}
def generate(tier):
    IMPL.update(iface.impls())
    o = [HEAD] + ['#include "Implementation/%s"' % p.hdr for i, p in sorted(IMPL.items())]
    for i, p, ms in methods():
        # several harnesses for the big interfaces; every method is a case of its own
        for part in range(0, len(ms), 40):
            M = ms[part:part + 40]
            o.append('extern "C" void C05_%s%s()\n{\n\t%s* o = new %s(); bool given = vf_choice("given", 0, 1); (void)given; vf_cover("c");\n\tswitch (vf_choice("method", 0, %d)) {' % (i, '_%d' % (part // 40) if part else '', p.cls, p.cls, len(M) - 1))
            for k, m in enumerate(M):
                d, a, c = [], [], []
                for j, (t, n) in enumerate(m.args):
                    x, y, z = decl(t, 'x%d' % j, '%d.%d' % (k, j))
                    d.append(x); a.append(y)
                    if z: c.append(z)
                call = 'o->%s(%s)' % (m.name, ', '.join(a))
                s = '\tcase %d: { ' % k + ' '.join(d) + ' '
                if m.ret == 'VCOMError':
                    anyerr = (i, m.name) in OTHER or i in OTHER
                    s += 'VCOMError r = %s; vf_assert(r %s, "%s::%s of an unbound object reports %s");' % (call, '!= kVCOMError_NoError' if anyerr else '== kVCOMError_NotInitialized', i, m.name, 'an error' if anyerr else 'that it is not initialized')
                elif m.ret == 'void': s += call + ';'
                else: s += 'auto r = %s; vf_assert(%s, "%s::%s of an unbound object returns the neutral value");' % (call, NEUTRAL[m.ret].format(r='r'), i, m.name)
                if c and (i, m.name) not in WRITES: s += ' vf_assert(%s, "%s::%s of an unbound object leaves its output arguments untouched");' % (' && '.join(c), i, m.name)
                o.append(s + ' break; }')
            o.append('\t}\n}')
    f = os.path.join(build.scratch(), 'c05_gen.cpp')
    open(f, 'w').write('\n'.join(o) + '\n')
    return [f]
def setup(ex, h):
    c17.setup(ex, h)
