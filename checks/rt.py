"""Save/load round trips (C02, C03).  For every kind of object a harness is generated
from the class definition in the current headers: an object whose fields hold arbitrary
values is written to an XML element by the real code and read back by the real code into
a fresh object of the same kind; every field of the fresh object must hold the value.
The converters between values and texts are under contract here (they are proved in
C01, C07, C10, C21): reading the text a converter family wrote for some values restores
exactly these values, and what is read from a text of another family is not specified."""
import re, os, json, build, txs, z3, std, c17, c01, sym
from txs import SV, Atom, sget, sput
from sym import Inline, BV, isc, bv, Unsupported, Ptr, INT
SOURCES = c17.SOURCES + ['VWTransformMatrix.cpp', 'VWPoint3D.cpp', 'HashManager.cpp', 'GdtfError.cpp', 'FeedbackDispatcher.cpp', 'VWLine2D.cpp']
SOURCES = [s for s in SOURCES if os.path.exists(build.REPO + '/src/' + s)]
FLAGS = ['-fno-access-control']
NATIVE_SPEC = ['vf_txt_native.cpp', 'vf_rt_native.cpp']
FP = 'ieee'
# ---------------------------------------------------------------- conversion layer
def converters():
    s = open(build.REPO + '/src/XmlFileHelper.h', encoding='latin-1').read().replace('\r\n', '\n')
    s = re.sub(r'/\*.*?\*/', '', re.sub(r'//[^\n]*', '', s), flags=re.S)
    for m in re.finditer(r'static\s+(TXString|bool)\s+(Convert\w+)\s*\(([^;]*)\)\s*;', s):
        a = []
        for p in m.group(3).split(','):
            p = re.sub(r'\s+', ' ', p.split('=')[0]).strip()
            t = re.match(r'(.*?[\s&*])(\w+)$', p)
            a.append((re.sub(r'\s*([&*])\s*', r'\1', t.group(1)).strip(), t.group(2)) if t else (p, ''))
        yield m.group(1) == 'TXString', m.group(2), a
FORM = {'fourLines', 'includeBrackets'}     # parameters that choose the form of the text only
def isout(t): return t.endswith('&') and not t.startswith('const') and 'IXMLFileNodePtr' not in t
def standins():
    o = []; R = []
    for k, (to, name, a) in enumerate(converters()):
        fam = name[7:]
        if 'UnitTest' in name: continue
        if to:
            a = [(t, n or 'x%d' % i) for i, (t, n) in enumerate(a)]
            b = ' '.join('vfw::put(p, %s);' % n for t, n in a if n not in FORM)
            if fam == 'HexValue': b = 'vfw::put(p, value > 0xFFFF ? 0xFFFF : value);'
            o.append('extern "C" TXString vfx_%d(%s) { TXString r; uint64_t w[64]; uint64_t* p = w; %s vf_enc(&r, "%s", p - w, w); return r; }' % (k, ', '.join('%s %s' % x for x in a), b, fam))
        else:
            a = [(t, n or 'x%d' % i) for i, (t, n) in enumerate(a)]
            outs = [(t, n) for t, n in a if isout(t)]
            if not outs: continue
            hav = ' '.join('vf_havoc("unspecified", (void*)&%s, sizeof %s);' % (n, n) for t, n in outs if 'Array' not in t)
            if name == 'ConvertDMXValue':
                b = 'DmxValue v; EGdtfChannelBitResolution r; bool none = false; vfw::get(p, e, v); vfw::get(p, e, r); if (p < e) vfw::get(p, e, none); '
                if len(outs) == 2: b += 'if (none) { vf_havoc("unspecified", &intValue, sizeof intValue); noneValue = true; return true; } '
                else: b += 'if (none) { %s return vf_bool("unspecified"); } ' % hav
                b += 'if (r != chanlReso || v > GdtfConverter::GetChannelMaxDmx(chanlReso)) { %s return vf_bool("unspecified"); } intValue = v;%s' % (hav, ' noneValue = false;' if len(outs) == 2 else '')
            elif name == 'ConvertRotation':
                b = 'VWTransformMatrix m; vfw::get(p, e, m); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) %s.fMatrix.mat[i][j] = m.fMatrix.mat[i][j];' % outs[0][1]
            elif name == 'ConvertDmxOffset':
                x = [n for t, n in outs]
                b = ' '.join('vfw::get(p, e, %s);' % n for n in x) + ' if (!(%s ? %s && %s && %s : %s ? %s && %s : %s ? %s != 0 : 1)) { %s }' % (x[3], x[0], x[1], x[2], x[2], x[0], x[1], x[1], x[0], hav)
            elif fam == 'Integer':
                b = 'int64_t i = (int64_t)*p; vfw::get(p, e, %s); if ((int64_t)%s != i || i != (int32_t)i) { vf_havoc("unspecified", &%s, sizeof %s); }' % ((outs[0][1],) * 4) + (' noneValue = false;' if len(outs) == 2 else '')
            else:
                b = ' '.join('vfw::get(p, e, %s);' % n for t, n in outs)
            sig = ', '.join('%s %s' % x for x in a)
            o.append('extern "C" bool vfx_%d(%s) { uint64_t w[64]; uint64_t* e = w + vf_dec(&%s, 64, w); const uint64_t* p = w; (void)e; (void)p; %s return true; }' % (k, sig, a[0][1], b))
            o.append('extern "C" bool vfy_%d(%s) { %s return vf_bool("unspecified"); }' % (k, sig, hav))
        R.append((k, to, name, a))
    return o, R
def enc(ex, st, a, ci):
    fam = std.cstr(ex, st, a[1]); n = a[2]
    if not isc(n): raise Unsupported('number of words of a text')
    p = a[3]
    w = tuple(ex.load(st, Ptr(p.obj, ex.addoff(p.off, 8 * i), p.null, p.key), INT(64), 8) for i in range(n))
    sput(ex, st, a[0], SV([Atom('enc', (fam,) + w)]))
def enc_of(v):
    return v.p[0] if len(v.p) == 1 and isinstance(v.p[0], Atom) and v.p[0].kind == 'enc' else None
def dec(ex, st, a, ci):
    t = enc_of(sget(ex, st, a[0])); p = a[2]
    for i, w in enumerate(t.args[1:]): ex.store(st, Ptr(p.obj, ex.addoff(p.off, 8 * i), p.null, p.key), w, INT(64), 8)
    return len(t.args) - 1
def tkey(t):
    """the type's last name, for telling overloads apart"""
    t = re.sub(r'\b(const|unsigned|struct|class)\b', lambda m: 'u' if m.group(0) == 'unsigned' else '', t)
    t = re.sub(r'\w+::', '', t); t = re.sub(r'[\s&]', '', t)
    return {'Sint32': 'int', 'Uint32': 'uint', 'Sint16': 'short', 'Uint16': 'ushort', 'DMXAddress': 'ushort', 'Sint8': 'signedchar', 'Uint8': 'uchar', 'size_t': 'ulong', 'DmxValue': 'ulong', 'Uint64': 'ulong', 'Sint64': 'longlong', 'IXMLFileNodePtr': 'VCOMPtr<IXMLFileNode>', 'TXString': 'TXString', 'GdtfFixtureGUID': 'VWUUID', 'TCCieColorArray': 'vector', 'TDMXAddressArray': 'vector', 'TDoubleArray': 'vector', 'TSint32Array': 'vector'}.get(t, t)
def splitargs(s):
    d = 0; o = ['']
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: o.append(''); continue
        o[-1] += c
    return [x.strip() for x in o]
def install(ex, R):
    ex.contracts['vf_enc'] = enc; ex.contracts['vf_dec'] = dec
    names = {}
    for m, d in ex.prog.dem.items():
        x = re.match(r'^(?:SceneData::)?GdtfConverter::(Convert\w+)\((.*)\)$', d)
        if x: names.setdefault(x.group(1), []).append((m, [tkey(t) for t in splitargs(x.group(2))]))
    todo = []
    for k, to, name, a in R:
        want = [tkey(t) for t, n in a]
        hit = [m for m, ks in names.get(name, ()) if len(ks) == len(want) and all(x == y or y == 'vector' and x.startswith('vector') or x.startswith('VCOMPtr') and y.startswith('VCOMPtr') for x, y in zip(ks, want))]
        if len(hit) > 1: raise Unsupported('overloads of %s' % name)
        if not hit:
            if names.get(name): todo.append((name, want, names.get(name)))
            continue
        if to: ex.contracts[hit[0]] = lambda ex, st, a, ci, k=k: Inline('vfx_%d' % k, a)
        else:
            sret = 0
            def h(ex, st, a, ci, k=k, fam=name[7:]):
                t = enc_of(sget(ex, st, a[0]))
                if t is None: return Inline(None, a)
                return Inline('vf%s_%d' % ('x' if t.args[0] == fam else 'y', k), a)
            ex.contracts[hit[0]] = h
    ex.nonempty_enc = {n[7:] for to, n, a in converters()} - {'DmxOffset', 'ColorArray'}
    if todo: raise Unsupported('converters not found: %s' % (todo,))
# ---------------------------------------------------------------- classes
def classes():
    R = {}
    for f in ('GDTFManager.h', 'SceneDataExchange.h'):
        s = open(build.REPO + '/src/' + f, encoding='latin-1').read().replace('\r\n', '\n')
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S); s = re.sub(r'//[^\n]*', '', s)
        for m in re.finditer(r'\bclass\s+(\w+)\s*(?:final\s*)?(?::\s*public\s+(\w+)\s*)?\{(.*?)\n\t?[ \t]*\};', s, re.S):
            ms = []
            for d in re.findall(r'(?:^|(?<=[;:{}])|(?<=\n))\s*((?:const\s+)?[\w:<>,\s\*]+?[\s\*&])(\w+)\s*(?:=\s*[^;()]+)?;', m.group(3)):
                t = re.sub(r'\s+', ' ', d[0]).strip()
                t = re.sub(r'^(public|private|protected)\s*:?\s*', '', t)
                if not t or re.search(r'\b(return|friend|using|typedef)\b', t): continue
                ms.append((t, d[1]))
            R[m.group(1)] = (m.group(2), ms)
    return R
HEAD = r'''#include "Prefix/StdAfx.h"
#include "vf.h"
#include "vf_txt.h"
#include <cstring>
#include <cmath>
#include "Include/VectorworksMVR.h"
#include "GDTFManager.h"
#include "SceneDataExchange.h"
#include "XmlFileHelper.h"
#include "Utility.h"
#include "vf_node.h"
#include "vf_enc.h"
using namespace VectorworksMVR::GdtfDefines; using namespace SceneData; using namespace VectorworksMVR::VWFC::Math; using namespace VectorworksMVR::VWFC::Tools;
// numbers of the files: in native runs those whose text is exact
static void any(const char* n, double& v) { v = vf_f64(n); if (vf_native()) { v = v == v ? std::trunc(std::fmod(v, 1000)) : 1; } }
static void any(const char* n, bool& v) { v = vf_bool(n); }
template<class T> static void anyi(const char* n, T& v, int64_t lo, int64_t hi) { v = (T)vf_u64(n); vf_assume(((int64_t)v >= lo) & ((int64_t)v <= hi)); }
static void any(const char* n, Uint8& v) { v = vf_u8(n); }
static void any(const char* n, Sint8& v) { v = (Sint8)vf_u8(n); }
static void any(const char* n, Uint16& v) { v = vf_u16(n); if (vf_native() && !v) v = 1; vf_assume(v != 0); }
static void any(const char* n, Sint32& v) { v = (Sint32)vf_u32(n); }
static void any(const char* n, Uint32& v) { v = vf_u32(n) & 0x7FFFFFFF; }
static void any(const char* n, size_t& v) { v = vf_u32(n) & 0x7FFFFFFF; }
static void any(const char* n, CCieColor& v) { any(n, v.fx); any(n, v.fy); any(n, v.fY_luminance); if (vf_native()) { v.fx = std::fmod(std::fabs(v.fx), 64) / 64; v.fy = std::fmod(std::fabs(v.fy), 64) / 64; v.fY_luminance = std::fabs(v.fY_luminance); } }
static void any(const char* n, VWPoint3D& v) { any(n, v.x); any(n, v.y); any(n, v.z); }
static void any(const char* n, VWTransformMatrix& v) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) any(n, v.fMatrix.mat[i][j]); }
static void any(const char* n, STime& v) { v.fYear = vf_range(n, 1970, 2100); v.fMonth = vf_range(n, 1, 12); v.fDay = vf_range(n, 1, 28); v.fHour = vf_range(n, 0, 23); v.fMinute = vf_range(n, 0, 59); v.fSecond = vf_range(n, 0, 59); }
static void any(const char* n, VWUUID& v) { for (int i = 0; i < 16; ++i) v.fData[i] = vf_u8(n); }
static size_t sPart = 99;
static bool same(double a, double b) { return (a == b) | vf_same(a, b); }
static bool same(const TXString& a, const TXString& b) { return vf_text_same(&a, &b); }
static bool same(const CCieColor& a, const CCieColor& b) { return same(a.fx, b.fx) & same(a.fy, b.fy) & same(a.fY_luminance, b.fY_luminance); }
static bool same(const VWPoint3D& a, const VWPoint3D& b) { return same(a.x, b.x) & same(a.y, b.y) & same(a.z, b.z); }
static bool same(const VWTransformMatrix& a, const VWTransformMatrix& b) { bool r = true; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) r &= same(a.fMatrix.mat[i][j], b.fMatrix.mat[i][j]); return r; }
static bool same(const STime& a, const STime& b) { return (a.fYear == b.fYear) & (a.fMonth == b.fMonth) & (a.fDay == b.fDay) & (a.fHour == b.fHour) & (a.fMinute == b.fMinute) & (a.fSecond == b.fSecond); }
static bool same(const VWUUID& a, const VWUUID& b) { bool r = true; for (int i = 0; i < 16; ++i) r &= a.fData[i] == b.fData[i]; return r; }
static bool same(const SceneDataGUID& a, const SceneDataGUID& b) { return (a._type == b._type) & same(a._uuid, b._uuid); }
template<class T> static bool same(const T& a, const T& b) { return a == b; }
template<class T> static bool same(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= same(a[i], b[i]); return r; }
static bool same(const TCCieColorArray& a, const TCCieColorArray& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= same(*a[i], *b[i]); return r; }
static void any(const char* n, SceneDataGUID& v) { VWUUID u; any(n, u); v = SceneDataGUID(u); }
static SceneDataGUID guid(const char* n) { VWUUID u; any(n, u); return SceneDataGUID(u); }
'''
SCALAR = {'SceneDataGUID', 'bool', 'double', 'Uint8', 'Sint8', 'Uint16', 'Sint32', 'Uint32', 'size_t', 'DmxValue', 'DMXAddress', 'CCieColor', 'VWPoint3D', 'VWTransformMatrix', 'STime', 'GdtfFixtureGUID', 'VWUUID'}
class K:
    """one kind: constructor, fields left out, conditions, references, lists, embedded and owned objects, extra code"""
    def __init__(s, cls, ctor='', excl='', refs=None, lists=None, embed=None, owned=None, pre='', post='', cond=None, name=None, bound=2, light=None, elem=None, parts=None):
        s.parts = parts            # not None: references, lists and this many further parts (numbered from len(lists)+1) one at a time
        s.elem = elem or {}        # lists: adjustments of element i (x written, y expected)
        s.light = light or {}      # lists: how to fill the elements after the first
        s.cls = cls; s.ctor = ctor; s.excl = set(excl.split()); s.refs = refs or {}; s.lists = lists or {}; s.embed = embed or {}; s.owned = owned or {}
        s.pre = pre; s.post = post; s.cond = cond or {}; s.name = name or cls; s.bound = bound
KNOWN = json.load(open(build.VERIF + '/spec/rt_fields.json'))
def fields(C, cls):
    """the fields the property speaks about: those of the base version (a field added later is not known to be part of the description)"""
    while cls in C:
        b, ms = C[cls]
        for t, f in ms:
            if f in KNOWN.get(cls, ()): yield cls, re.sub(r'\w+::', '', t) if not t.startswith('std::') else t, f
        cls = b
def source(prop, kinds, extra='', enums=()):
    C = classes(); E = c01.enums(); KD = {k.name: k for k in kinds}
    o, R = standins()
    out = [HEAD] + o
    used = set(enums) | {t for k in kinds for _, t, f in fields(C, k.cls)}
    for e in sorted(used & set(E)):
        cl, vals = E[e]
        q = lambda v: (e + '::' if cl else '') + v
        out.append('static void any(const char* n, %s& v) { static const %s k[] = { %s }; if (vf_native()) { v = k[vf_u32(n) %% %d]; return; } v = (%s)vf_u32(n); vf_assume(%s); }' % (e, e, ', '.join(map(q, vals)), len(vals), e, ' | '.join('(v == %s)' % q(v) for v in vals)))
    refs3 = lambda r: (r[0], r[1], r[2] if len(r) > 2 else 't->GetNodeReference()')
    unresolved = {k.name: {r[1] for p, r in k.refs.items() if r[1]} for k in kinds}
    out.append(extra)
    for k in kinds:
        out.append('static %s* make_%s();' % (k.cls, k.name))
        out.append('static void fill_%s(%s* a, %s* c, bool deep);' % (k.name, k.cls, k.cls))
        out.append('static void cmp_%s(%s* b, %s* c);' % (k.name, k.cls, k.cls))
    H = []
    for k in kinds:
        F = []; left = []
        for cl, t, f in fields(C, k.cls):
            if f in k.excl: continue
            if f in k.refs or f in k.lists or f in k.embed or f in k.owned: continue
            if t in SCALAR or t == 'TXString' or t in E: F.append((t, f))
            elif t == 'TCCieColorArray': F.append((t, f))
            else: left.append((t, f))
        if left: raise Unsupported('fields of %s not accounted for: %s' % (k.cls, left))
        n = k.name
        out.append('static %s* make_%s() { return new %s(%s); }' % (k.cls, n, k.cls, k.ctor))
        b = []
        for t, f in F:
            if f in unresolved[n]: continue
            if t == 'TXString': b.append('a->%s = c->%s = vf_text("%s");' % (f, f, f))
            elif t == 'DmxValue': b.append('a->%s = vf_u32("%s"); if (vf_native()) a->%s &= maxDmx(); vf_assume(a->%s <= maxDmx()); c->%s = a->%s;' % (f, f, f, f, f, f))
            elif t == 'TCCieColorArray': b.append('if (deep) { for (size_t i = 0, m = vf_choice("%s.n", 0, 3); i < m; ++i) { auto* x = new CCieColor(); any("%s", *x); a->%s.push_back(x); c->%s.push_back(new CCieColor(*x)); } }' % (f, f, f, f))
            else: b.append('any("%s", a->%s); c->%s = a->%s;' % (f, f, f, f))
        if k.parts is not None: b.append('size_t list = deep ? sPart < 99 ? sPart : vf_choice("part", 0, %d) : 99;' % (len(k.lists) + k.parts))
        if k.refs:
            b.append('size_t refs = deep%s ? vf_choice("refs", 0, %d) : 0;' % (' && list == %d' % len(k.lists) if k.parts is not None else '', len(k.refs) + 1 if len(k.refs) > 1 else 1))
            for i, (p, r) in enumerate(k.refs.items()):
                e, u, txt = refs3(r)
                b.append('if (refs == 1 || refs == %d) { auto* t = %s; a->%s = t; %s }' % (i + 2, e, p, 'c->%s = %s;' % (u, txt) if u else 'c->%s = t;' % p))
        for f, e in k.embed.items(): b.append('fill_%s(&a->%s, &c->%s, %s);' % (e.split(':')[0], f, f, e.split(':')[1] if ':' in e else 'deep'))
        if len(k.owned) > 1: b.append('size_t own = deep ? vf_choice("owned", 0, %d) : 0;' % (len(k.owned) + 1))
        for i, (f, e) in enumerate(k.owned.items()): b.append(('if (own == 1 || own == %d) {' % (i + 2) if len(k.owned) > 1 else 'if (deep%s && vf_choice("%s", 0, 1)) {' % (' && list == %d' % len(k.lists) if k.parts is not None else '', f)) + ' if (!a->%s) a->%s = make_%s(); if (!c->%s) c->%s = make_%s(); fill_%s(a->%s, c->%s, deep); }' % (f, f, e, f, f, e, e, f, f))
        if k.lists:
            if k.parts is None: b.append('size_t list = deep ? vf_choice("list", 0, %d) : 99;' % (len(k.lists) if len(k.lists) > 1 else 1))
            for i, (f, e) in enumerate(k.lists.items()):
                fl = 'fill_%s(x, y, false);' % e
                fl += ' ' + k.elem.get(f, '')
                if f in k.light: fl = 'if (i == 0) { %s } else { %s }' % (fl, k.light[f])
                b.append('if (list == %d) for (size_t i = 0, m = vf_choice("%s.n", 0, %d); i < m; ++i) { auto* x = make_%s(); auto* y = make_%s(); %s a->%s.push_back(x); c->%s.push_back(y); }' % (i, f, k.bound, e, e, fl, f, f))
        b.append(k.pre)
        out.append('static void fill_%s(%s* a, %s* c, bool deep)\n{\n\t%s\n}' % (n, k.cls, k.cls, '\n\t'.join(b)))
        b = []
        for t, f in F:
            x = 'vf_assert(same(b->%s, c->%s), "%s.%s is restored");' % (f, f, n, f)
            if f in k.cond: x = 'if (%s) %s' % (k.cond[f], x)
            b.append(x)
        for p, r in k.refs.items():
            if not r[1]: b.append('vf_assert(b->%s == c->%s, "%s.%s is restored");' % (p, p, n, p))
        for f, e in k.embed.items(): b.append('cmp_%s(&b->%s, &c->%s);' % (e.split(':')[0], f, f))
        for f, e in k.owned.items(): b.append('if (c->%s) { vf_assert(b->%s != nullptr, "%s.%s is restored"); cmp_%s(b->%s, c->%s); } else vf_assert(b->%s == nullptr, "%s.%s is restored");' % (f, f, n, f, e, f, f, f, n, f))
        for f, e in k.lists.items():
            b.append('vf_assert(b->%s.size() == c->%s.size(), "%s.%s has as many elements"); for (size_t i = 0; i < c->%s.size(); ++i) cmp_%s(static_cast<%s*>(b->%s[i]), static_cast<%s*>(c->%s[i]));' % (f, f, n, f, f, e, KD[e].cls, f, KD[e].cls, f))
        b.append(k.post)
        out.append('static void cmp_%s(%s* b, %s* c)\n{\n\t%s\n}' % (n, k.cls, k.cls, '\n\t'.join(b)))
    return out, R
def common(ex, R):
    c17.setup(ex, '')
    ex.contracts['vf_text_same'] = h_same
    ex.contract(r'::OnErrorCheck\(', lambda ex, st, a, ci: None)
    ex.contract(r'GdtfFixture::AddError\(', lambda ex, st, a, ci: None)
    ex.contract(r'GdtfParsingError::GdtfParsingError\(', lambda ex, st, a, ci: None)
    ex.contract(r'GdtfParsingError::~GdtfParsingError\(', lambda ex, st, a, ci: None)
    ex.contract(r'FeedbackDispatcher::Send\(', lambda ex, st, a, ci: None)
    for n in ('pthread_mutex_lock', 'pthread_mutex_unlock'): ex.contracts[n] = lambda ex, st, a, ci: 0
    return install(ex, R)
def h_same(ex, st, a, ci):
    r = txs.seq(ex, st, sget(ex, st, a[0]), sget(ex, st, a[1]), False)
    return int(r) if isinstance(r, bool) else z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
TRUSTED = ['the XML back end stores element names, texts and attributes and returns them (spec/vf_node.h stands for it)',
           'the converters of XmlFileHelper: reading a text a converter family wrote restores the values (proved per family in C01, C07, C08, C10, C21; decimal texts of doubles and integers assumed)',
           'OnErrorCheck, GdtfFixture::AddError, GdtfParsingError, FeedbackDispatcher::Send: diagnostics only'] + c17.TRUSTED
ASSUMPTIONS = ['integers written as decimal text are within the signed 32 bit range of the conversion layer', 'lists: up to two elements (bounded); their elements with empty lists of their own']
