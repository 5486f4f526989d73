import txs, re, os, build, iface, c17, std, z3
SPEC = []
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = c17.SOURCES + ['VWTransformMatrix.cpp', 'VWPoint3D.cpp', 'HashManager.cpp', 'GdtfError.cpp', 'FeedbackDispatcher.cpp']
FLAGS = ['-fno-access-control']
G = 'SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))'
# interface | kind | data object behind it
KINDS = '''
IAlignment || SceneDataAlignment()
IConnection || SceneDataConnectionObj()
ICustomCommand || SceneDataCustomCommand()
IGdtfAttribute || GdtfAttribute()
IGdtfBreak || GdtfBreak()
IGdtfCRI || GdtfCRI()
IGdtfCRIGroup || GdtfCRIGroup()
IGdtfColorSpace | Any | GdtfColorSpace()
IGdtfColorSpace | Custom | GdtfColorSpace("name", EGdtfColorSpace::Custom)
IGdtfConnector || GdtfConnector()
IGdtfDMXPersonality || GdtfDMXPersonality()
IGdtfDMXProfile || GdtfDMXProfile()
IGdtfDmxChannel || GdtfDmxChannel(nullptr)
IGdtfDmxChannelFunction || GdtfDmxChannelFunction(nullptr)
IGdtfDmxChannelSet || GdtfDmxChannelSet(nullptr)
IGdtfDmxLogicalChannel || GdtfDmxLogicalChannel(nullptr)
IGdtfDmxMode || GdtfDmxMode(nullptr, "mode")
IGdtfDmxSubChannelSet || GdtfDmxSubChannelSet()
IGdtfFeature || GdtfFeature(nullptr)
IGdtfFeatureGroup || GdtfFeatureGroup()
IGdtfFilter || GdtfFilter()
IGdtfFixture || GdtfFixture()
IGdtfGamut || GdtfGamut()
IGdtfGeometry | Geometry | GdtfGeometry(nullptr)
IGdtfGeometry | Axis | GdtfGeometryAxis(nullptr)
IGdtfGeometry | BeamFilter | GdtfGeometryBeamFilter(nullptr)
IGdtfGeometry | ColorFilter | GdtfGeometryColorFilter(nullptr)
IGdtfGeometry | GoboFilter | GdtfGeometryGoboFilter(nullptr)
IGdtfGeometry | ShaperFilter | GdtfGeometryShaperFilter(nullptr)
IGdtfGeometry | Camera | GdtfGeometryMediaServerCamera(nullptr)
IGdtfGeometry | MediaLayer | GdtfGeometryMediaServerLayer(nullptr)
IGdtfGeometry | Master | GdtfGeometryMediaServerMaster(nullptr)
IGdtfGeometry | Display | GdtfGeometryDisplay(nullptr)
IGdtfGeometry | Laser | GdtfGeometryLaser(nullptr)
IGdtfGeometry | Wiring | GdtfGeometryWiringObject(nullptr)
IGdtfGeometry | Inventory | GdtfGeometryInventory(nullptr)
IGdtfGeometry | Structure | GdtfGeometryStructure(nullptr)
IGdtfGeometry | Support | GdtfGeometrySupport(nullptr)
IGdtfGeometry | Magnet | GdtfGeometryMagnet(nullptr)
IGdtfGeometry | Lamp | GdtfGeometryLamp(nullptr)
IGdtfGeometry | Reference | GdtfGeometryReference(nullptr)
IGdtfLaserProtocol || GdtfLaserProtocol()
IGdtfMacro || GdtfMacro()
IGdtfMacroVisualStep || GdtfMacroVisualStep()
IGdtfMacroVisualValue || GdtfMacroVisualValue()
IGdtfMap || GdtfMap()
IGdtfMeasurement | Emitter | GdtfMeasurement(false)
IGdtfMeasurement | Filter | GdtfMeasurement(true)
IGdtfMeasurementPoint || GdtfMeasurementPoint()
IGdtfModel || GdtfModel(nullptr)
IGdtfPhysicalEmitter || GdtfPhysicalEmitter()
IGdtfPinPatch || GdtfPinPatch()
IGdtfPoint || GdtfPoint()
IGdtfRevision || GdtfRevision()
IGdtfSoftwareVersionID || GdtfSoftwareVersionID()
IGdtfSubPhysicalUnit || GdtfSubPhysicalUnit()
IGdtfWheelSlot || GdtfWheelSlot(nullptr)
IGdtfWheelSlotAnimationSystem || GdtfWheelSlotAnimationSystem()
IGdtfWheelSlotPrismFacet || GdtfWheelSlotPrismFacet()
IGdtf_FTRDM || GdtfFTRDM()
IMapping || SceneDataMappingObj()
IMappingDefinition || SceneDataMappingDefinitionObj(@)
IOverwrite || SceneDataOverwrite()
ISceneObj | Layer | SceneDataLayerObj(@)
ISceneObj | FocusPoint | SceneDataFocusPointObj(@)
ISceneObj | Group | SceneDataGroupObj(@)
ISceneObj | Fixture | SceneDataFixtureObj(@)
ISceneObj | Scenery | SceneDataSceneryObj(@)
ISceneObj | Truss | SceneDataTrussObj(@)
ISceneObj | SupportObj | SceneDataSupportObj(@)
ISceneObj | VideoScreen | SceneDataVideoScreenObj(@)
ISceneObj | Projector | SceneDataProjectorObj(@)
ISource || SceneDataSourceObj()
'''.replace('@', G)
# object an interface argument is bound to
ARG = {'IGdtfActivationGroup': 'GdtfActivationGroup()', 'IGdtfWheel': 'GdtfWheel(nullptr)', 'ISceneObj': 'SceneDataFocusPointObj(%s)' % G, 'IClass': 'SceneDataClassObj(%s)' % G, 'IPosition': 'SceneDataPositionObj(%s)' % G}
SKIP = {('IGdtfModel', 'SetGeometryFile')}  # no getter of that name
# properties that are not independent of one another: (interface, setter) -> getters it may change
DEPEND = {
    ('IGdtfSubPhysicalUnit', 'SetType'): {'GetPhysicalUnit'},   # a type comes with its unit
    ('IGdtfDmxChannelFunction', 'SetModeMasterChannel'): {'GetModeMasterFunction'},   # one mode master
    ('IGdtfDmxChannelFunction', 'SetModeMasterFunction'): {'GetModeMasterChannel'},
}
# values that stand for 'not set'
NOTSET = {('ISceneObj', 'SetFixtureIdNumeric'): '{v} != SIZE_MAX'}
# setters left alone in a kind: the predefined colour spaces have fixed primaries, those of a custom one can be set
SKIPK = {('IGdtfColorSpace', 'Any'): {'SetRed', 'SetGreen', 'SetBlue', 'SetWhite'}, ('IGdtfColorSpace', 'Custom'): {'SetColorSpace'}}
DEPEND[('IGdtfColorSpace', 'SetColorSpace')] = {'GetRed', 'GetGreen', 'GetBlue', 'GetWhite'}
HEAD = r'''#include "Prefix/StdAfx.h"
#include "vf.h"
#include "vf_txt.h"
#include <cstring>
#include "Include/VectorworksMVR.h"
#include "SceneDataExchange.h"
using namespace VectorworksMVR; using namespace VectorworksMVR::GdtfDefines; using namespace SceneData;
extern "C" bool vf_text_same(const TXString* a, const TXString* b);
template<class T> struct Held { T v; };
template<class T> static void any(const char* n, T& t) { vf_havoc(n, (void*)&t, sizeof(T)); }
static void any(const char* n, bool& t) { t = vf_bool(n); }
static void any(const char* n, double& t) { t = vf_f64(n); }
template<class T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(double a, double b) { return vf_same(a, b); }
static bool same(const TXString& a, const TXString& b) { return vf_text_same(&a, &b); }
static bool same(const CieColor& a, const CieColor& b) { return vf_same(a.fx, b.fx) & vf_same(a.fy, b.fy) & vf_same(a.f_Y, b.f_Y); }
static bool same(const SVector3& a, const SVector3& b) { return vf_same(a.x, b.x) & vf_same(a.y, b.y) & vf_same(a.z, b.z); }
static bool same(const MvrUUID& a, const MvrUUID& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c) & (a.d == b.d); }
static bool same(const STime& a, const STime& b) { return (a.fYear == b.fYear) & (a.fMonth == b.fMonth) & (a.fDay == b.fDay) & (a.fHour == b.fHour) & (a.fMinute == b.fMinute) & (a.fSecond == b.fSecond); }
static bool same(const STransformMatrix& a, const STransformMatrix& b) { bool r = true; const double *x = &a.ux, *y = &b.ux; for (int i = 0; i < 12; ++i) r &= vf_same(x[i], y[i]); return r; }
static void any(const char* n, STransformMatrix& t) { double* x = &t.ux; for (int i = 0; i < 12; ++i) x[i] = vf_f64(n); }
static void any(const char* n, CieColor& t) { t.fx = vf_f64(n); t.fy = vf_f64(n); t.f_Y = vf_f64(n); }
static void any(const char* n, SVector3& t) { t.x = vf_f64(n); t.y = vf_f64(n); t.z = vf_f64(n); }
// the object an interface object is bound to
template<class T> static void* bound(T* o) { return o ? ((void**)o)[2] : nullptr; }
static_assert(sizeof(CGdtfFeatureImpl) >= 24, "layout of the interface objects: table, count, object");
struct Src { TXString v, g; ESourceType t; };
static bool same(const Src& a, const Src& b) { return same(a.v, b.v) & same(a.g, b.g) & (a.t == b.t); }
struct Buf { char* p; size_t n; };
static bool same(const Buf& a, const Buf& b) { if (a.n != b.n) return false; if (!a.n) return true; size_t k = vf_range("k", 0, a.n - 1); return a.p[k] == b.p[k]; }
struct Mast { void* o; DmxValue from, to; };
static bool same(const Mast& a, const Mast& b) { return (a.o == b.o) & (a.from == b.from) & (a.to == b.to); }
static Src src(ISource* s) { Src r; if (!s) { r.t = ESourceType(77); return r; } r.v = TXString(s->GetValue()); r.g = TXString(s->GetLinkedGeometry()); r.t = ESourceType(78); s->GetType(r.t); return r; }
'''
MATRIX = 12
def low(t): return re.sub(r'^const ', '', t).rstrip('&').rstrip('*').strip()
class Pair:
    """set: code setting property to the value held in {v}; get: code reading it into {s}; type of the value"""
def pairs(i, ms, P):
    g = {m.name: m for m in ms if m.args is not None}
    for m in ms:
        if m.args is None or not m.name.startswith('Set') or (i, m.name) in SKIP: continue
        b = m.name[3:]
        q = g.get('Get' + b) or g.get('Is' + b) or g.get(b)
        if q is None: continue
        x = Pair(); x.name = m.name; x.get = q.name; x.prop = b
        T = [t for t, n in m.args]
        if T == ['MvrString'] or T == ['const MvrString&']:
            x.type = 'TXString'; x.any = 'vf_text("%s")'; x.set = 'o->%s({v}.GetCharPtr())' % m.name; x.read = '{s} = TXString(o->%s()); {r} = kVCOMError_NoError;' % q.name
        elif T == ['double'] * 3:
            x.type = 'SVector3'; x.any = None; x.set = 'o->%s({v}.x, {v}.y, {v}.z)' % m.name; x.read = '{r} = o->%s({s});' % q.name
        elif T == ['void*', 'size_t']:
            x.type = 'Buf'; x.any = 'buf'; x.set = 'o->%s({v}.p, {v}.n)' % m.name; x.read = 'void* t_ = nullptr; {r} = o->%s(&t_, {s}.n); {s}.p = (char*)t_;' % q.name
        elif len(T) == 3 and low(T[0]) in P:
            w = P[low(T[0])].cls
            x.type = 'Mast'; x.any = 'mast'; x.w = w; x.i = low(T[0]); x.set = 'o->%s({v}_o, {v}.from, {v}.to)' % m.name
            x.read = '%s* t_ = nullptr; {r} = o->%s(&t_, {s}.from, {s}.to); {s}.o = bound(static_cast<%s*>(t_));' % (low(T[0]), q.name, w)
        elif len(T) == 3 and T[0] == 'MvrString':
            x.type = 'Src'; x.any = 'src'; x.set = 'o->%s({v}.v.GetCharPtr(), {v}.g.GetCharPtr(), {v}.t)' % m.name
            x.read = 'ISource* t_ = nullptr; {r} = o->%s(&t_); {s} = src(t_);' % q.name
        elif len(T) == 1 and low(T[0]) in P:
            w = P[low(T[0])].cls
            x.type = 'void*'; x.any = 'obj'; x.w = w; x.i = low(T[0])
            x.set = 'o->%s(%s)' % (m.name, '{v}_p' if T[0].endswith('**') else '{v}_o')
            x.read = '%s* t_ = nullptr; {r} = o->%s(&t_); {s} = bound(static_cast<%s*>(t_));' % (low(T[0]), q.name, w)
        elif len(T) == 1:
            t = low(T[0])
            x.type = t; x.any = None; x.set = 'o->%s({v})' % m.name; x.read = '{r} = o->%s({s});' % q.name
            if q.args and not q.args[0][0].endswith('&'): x.byval = True
        else: raise Exception((i, m.sig()))
        yield x
def declare(x, v, tag):
    if x.any is None: return '%s %s; any("%s", %s);' % (x.type, v, tag, v)
    if x.any == 'obj' or x.any == 'mast':
        p = iface.impls()[x.i]
        a = p.bind[1] if p.bind else None
        d = ARG.get(x.i) or DATA[x.i]
        s = 'auto* %s_w = new %s(); auto* %s_d = new %s; %s %s* %s_o = %s_w; %s** %s_p = &%s_o; (void)%s_p;' % (v, p.cls, v, d, ('%s_w->%s(%s_d%s);' % (v, p.bind[0], v, ''.join(', (%s)vf_bytes("context", 8)' % t for t, n in a[1:]))), x.i, v, v, x.i, v, v, v)
        s += ' void* %s_b = bound(%s_w);' % (v, v)
        return s + (' void* %s = %s_b;' % (v, v) if x.any == 'obj' else ' Mast %s = { %s_b, vf_u64("%s.from"), vf_u64("%s.to") };' % (v, v, tag, tag))
    if x.any == 'buf': return 'Buf %s; %s.n = vf_range("%s.n", 0, 1 << 20); %s.p = (char*)vf_bytes("%s", %s.n);' % (v, v, tag, v, tag, v)
    if x.any == 'src': return 'Src %s = { vf_text("%s.value"), vf_text("%s.geometry"), ESourceType(vf_u32("%s.type")) };' % (v, tag, tag, tag)
    return '%s %s = %s;' % (x.type, v, x.any % tag)
DATA = {}
def kinds():
    for l in KINDS.strip().split('\n'):
        f = [x.strip() for x in l.split('|')]
        DATA.setdefault(f[0], f[2])
        yield f
def generate(tier):
    I, P = iface.interfaces(), iface.impls()
    o = [HEAD] + ['#include "Implementation/%s"' % p.hdr for i, p in sorted(P.items())]
    o[0], inc = '', o[0]
    inc = inc.replace("SceneDataExchange.h\"\n", "SceneDataExchange.h\"\n#include \"Utility.h\"\n")
    o = [inc.split('// the object an')[0]] + o[1:] + ['// the object an' + inc.split('// the object an')[1]]
    K = list(kinds()); seen = set()
    for i, k, d in K:
        ps = list(pairs(i, I[i], P)); p = P[i]
        n = 'C06_%s%s' % (i, '_' + k if k else '')
        if i not in seen:
            seen.add(i)
            o.append('struct S_%s {' % i + ''.join(' VCOMError r%d; %s v%d;' % (j, x.type, j) for j, x in enumerate(ps)) + ' };')
            o.append('static void take_%s(%s* o, S_%s& s) {' % (i, p.cls, i))
            for j, x in enumerate(ps):
                z = 's.v%d = TXString();' % j if x.type == 'TXString' else '' if x.type == 'Src' else 'memset((void*)&s.v%d, 0, sizeof s.v%d);' % (j, j)
                o.append('\t{ %s %s }' % (z, x.read.format(s='s.v%d' % j, r='s.r%d' % j)))
            o.append('}')
            # the snapshots agree in every property outside the list
            o.append('static bool rest_%s(S_%s& a, S_%s& b, uint64_t s, uint64_t t) {\n\tbool r = true; (void)t;' % (i, i, i))
            for j, x in enumerate(ps): o.append('\tif (!(%s >> %d & 1)) { r &= (a.r%d == b.r%d) & same(a.v%d, b.v%d);%s }' % ('st'[j // 64], j % 64, j, j, j, j, ' vf_assert(r, "keeps %s");' % x.get if os.environ.get('C06_DETAIL') else ''))
            o.append('\treturn r;\n}')
        for part in range(0, len(ps), 16):
            Q = [(j, x) for j, x in list(enumerate(ps))[part:part + 16] if x.name not in SKIPK.get((i, k), ())]
            o.append('extern "C" void %s%s()\n{' % (n, '_%d' % (part // 16) if part else ''))
            b = '%s->%s(d%s);' % ('o', p.bind[0], ''.join(', (%s)vf_bytes("context", 8)' % t for t, a in p.bind[1][1:])) if p.bind else 'o->fFixtureObject = d;'
            o.append('\tauto* d = new %s; auto* o = new %s(); %s' % (d, p.cls, b))
            o.append('\tif (vf_choice("prior", 0, 1)) {')
            for j, x in enumerate(ps):
                if x.name in SKIPK.get((i, k), ()): continue
                o.append('\t\t{ %s %s; }' % (declare(x, 'p', 'prior.' + x.prop), x.set.format(v='p')))
            o.append('\t}\n\tvf_cover("c");\n\tS_%s a; take_%s(o, a); S_%s b;' % (i, i, i))
            o.append('\tswitch (vf_choice("setter", 0, %d)) {' % (len(Q) - 1))
            for c, (j, x) in enumerate(Q):
                dep = sum(1 << h for h, y in enumerate(ps) if y.get in DEPEND.get((i, x.name), ())) | 1 << j
                o.append('\tcase %d: { %s%s VCOMError r = %s; take_%s(o, b);\n\t\tif (r != kVCOMError_NoError) { vf_assert(rest_%s(a, b, 0, 0), "a refused %s changes no property"); break; }' % (c, declare(x, 'v', x.prop), ' vf_assume(%s);' % NOTSET[(i, x.name)].format(v='v') if (i, x.name) in NOTSET else '', x.set.format(v='v'), i, i, x.name))
                o.append('\t\tvf_assert(b.r%d == kVCOMError_NoError, "%s succeeds after %s"); vf_assert(same(b.v%d, v), "%s returns the value given to %s");' % (j, x.get, x.name, j, x.get, x.name))
                o.append('\t\tvf_assert(rest_%s(a, b, %dull, %dull), "%s changes no other property");' % (i, dep & (1 << 64) - 1, dep >> 64, x.name))
                o.append('\t\tbreak; }')
            o.append('\t}\n}')
    o.append(NAMES)
    f = os.path.join(build.scratch(), 'c06_gen.cpp')
    open(f, 'w').write('\n'.join(o) + '\n')
    return [f]
NAMES = r'''
// contract of DoesNameContainInvalidChars as used above; bounded: names of up to six characters
extern "C" void C06_name_filter()
{
	size_t n = vf_choice("n", 0, 6); TXString t = vf_ascii("name", n); vf_cover("c");
	char c[8]; const char* p = t.GetCharPtr();
	for (size_t i = 0; i < n; ++i) { c[i] = p[i]; vf_assume(c[i] == 0x20 || (c[i] >= 0x22 && c[i] <= 0x3E) || (c[i] >= 0x40 && c[i] <= 0x5A) || (c[i] >= 0x5F && c[i] <= 0x7A)); }
	TXString s = t; GdtfUtil::DoesNameContainInvalidChars(s);
	vf_assert(vf_text_same(&s, &t), "a name of permitted characters is left as it is");
}
'''
def h_same(ex, st, a, ci):
    r = txs.seq(ex, st, txs.sget(ex, st, a[0]), txs.sget(ex, st, a[1]), False)
    return int(r) if isinstance(r, bool) else z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
def setup(ex, h):
    c17.setup(ex, h)
    ex.contracts['vf_text_same'] = h_same
    if h != 'C06_name_filter': ex.contract(r'GdtfUtil::DoesNameContainInvalidChars\(', lambda ex, st, a, ci: None)
TRUSTED = ['GdtfUtil::DoesNameContainInvalidChars: leaves names of permitted characters as they are (names with other characters are out of scope here)'] + c17.TRUSTED
ASSUMPTIONS = list(c17.ASSUMPTIONS[1:])
