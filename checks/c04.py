import txs, re, os, build, iface, c17
SPEC = []
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = c17.SOURCES + ['VWTransformMatrix.cpp', 'VWPoint3D.cpp', 'HashManager.cpp', 'GdtfError.cpp', 'FeedbackDispatcher.cpp']
FLAGS = ['-fno-access-control']
# interface method | data object behind it | collection of the data object | (element that is looked into)
TABLE = '''
IGdtfActivationGroup.GetAttributeAt | GdtfActivationGroup() | GetLinkedAttributes()
IGdtfArtNet.GetMapAt | GdtfArtNet() | GetMapArray()
IGdtfAttribute.GetSubPhysicalUnitAt | GdtfAttribute() | GetSubPhysicalUnitArray()
IGdtfCRIGroup.GetCRIAt | GdtfCRIGroup() | fCRI_Array
IGdtfDMXProfile.GetPointAt | GdtfDMXProfile() | fPoints
IGdtfDmxChannel.GetLogicalChannelAt | GdtfDmxChannel(nullptr) | GetLogicalChannelArray()
IGdtfDmxChannelFunction.GetDmxChannelSetAt | GdtfDmxChannelFunction(nullptr) | GetChannelSets()
IGdtfDmxChannelFunction.GetDmxSubChannelSetAt | GdtfDmxChannelFunction(nullptr) | GetSubChannelSets()
IGdtfDmxLogicalChannel.GetDmxFunctionAt | GdtfDmxLogicalChannel(nullptr) | GetDmxChannelFunctions()
IGdtfDmxMode.GetDmxChannelAt | GdtfDmxMode(nullptr, "mode") | GetChannelArray()
IGdtfDmxMode.GetDmxRelationAt | GdtfDmxMode(nullptr, "mode") | GetDmxRelations()
IGdtfDmxMode.GetDmxMacroAt | GdtfDmxMode(nullptr, "mode") | GetDmxMacrosArray()
IGdtfFeature.GetAttributeAt | GdtfFeature(nullptr) | GetLinkedAttributes()
IGdtfFeatureGroup.GetFeatureAt | GdtfFeatureGroup() | GetFeatureArray()
IGdtfFilter.GetMeasurementAt | GdtfFilter() | GetMeasurementsArray()
IGdtfFixture.GetActivationGroupAt | GdtfFixture() | GetActivationGroupArray()
IGdtfFixture.GetFeatureGroupAt | GdtfFixture() | GetFeatureGroupArray()
IGdtfFixture.GetAttributeAt | GdtfFixture() | GetAttributeArray()
IGdtfFixture.GetWheelAt | GdtfFixture() | GetWheelArray()
IGdtfFixture.GetModelAt | GdtfFixture() | GetModelArray()
IGdtfFixture.GetGeometryAt | GdtfFixture() | GetGeometryArray() | GdtfGeometry(nullptr)
IGdtfFixture.GetDmxModeAt | GdtfFixture() | GetDmxModeArray()
IGdtfFixture.GetRevisionAt | GdtfFixture() | GetRevisionArray()
IGdtfFixture.GetPresetAt | GdtfFixture() | GetPresetArray()
IGdtfFixture.GetEmitterAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetPhysicalEmitterArray()
IGdtfFixture.GetFilterAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetFilterArray()
IGdtfFixture.GetDMXProfileAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetDmxProfileArray()
IGdtfFixture.GetCRIGroupAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetCRIGroupArray()
IGdtfFixture.GetConnectorAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetConnectorArray()
IGdtfFixture.GetAdditionalColorSpaceAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetAdditionalColorSpaceArray()
IGdtfFixture.GetGamutAt | GdtfFixture() | GetPhysicalDesciptionsContainer().GetGamutArray()
IGdtfGeometry.GetInternalGeometryAt | GdtfGeometry(nullptr) | GetInternalGeometries() | GdtfGeometry(nullptr)
IGdtfGeometry.GetBreakAt | GdtfGeometryReference(nullptr) | fBreaks
IGdtfGeometry.GetLaserProtocolAt | GdtfGeometryLaser(nullptr) | GetLaserProtocolArray()
IGdtfGeometry.GetPinPatchAt | GdtfGeometryWiringObject(nullptr) | GetPinPatchArray()
IGdtfMacroDMX.GetStepAt | GdtfMacroDMX() | fDMXSetps
IGdtfMacroDMXStep.GetDMXValueAt | GdtfMacroDMXStep() | fDMXValues
IGdtfMacroVisual.GetVisualStepAt | GdtfMacroVisual() | fVisualSteps
IGdtfMacroVisualStep.GetVisualValueAt | GdtfMacroVisualStep() | fVisualValues
IGdtfMeasurement.GetMeasurementPointAt | GdtfMeasurement(false) | GetMeasurementPointsArray()
IGdtfPhysicalEmitter.GetMeasurementAt | GdtfPhysicalEmitter() | fMeasurements
IGdtfSACN.GetMapAt | GdtfsAcn() | GetMapArray()
IGdtfSoftwareVersionID.GetDMXPersonalityAt | GdtfSoftwareVersionID() | GetDMXPersonalityArray()
IGdtfWheel.GetWheelSlotAt | GdtfWheel(nullptr) | GetWheelSlotArray()
IGdtf_FTRDM.GetSoftwareVersionIDAt | GdtfFTRDM() | GetSoftwareVersIDs()
ISceneObj.GetGeometryAt | SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | GetGeometryArr() | SceneDataGeometryObj()
ISceneObj.GetMappingAt | SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | fMappings
ISceneObj.GetConnectionAt | SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | GetConnectionArr()
ISceneObj.GetCustomCommandAt | SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | GetCustomCommandArray()
ISceneObj.GetAlignmentAt | SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | GetAlignmentArray()
ISceneObj.GetOverwriteAt | SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | GetOverwriteArray()
ISymDef.GetGeometryAt | SceneDataSymDefObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))) | getGeometryArray() | SceneDataGeometryObj()
IMediaRessourceVectorInterface.GetDataProviderObjectAt | | fExchangeObj.GetProviderObjects()
IMediaRessourceVectorInterface.GetPositionObjectAt | | fExchangeObj.GetPositionObjects()
IMediaRessourceVectorInterface.GetSymDefAt | | fExchangeObj.GetSymDefObjects() | SceneDataSymDefObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4)))
IMediaRessourceVectorInterface.GetClassAt | | fExchangeObj.GetClassObjects()
IMediaRessourceVectorInterface.GetMappingDefinitionAt | | fExchangeObj.GetMappingDefinitionObjects()
'''
# methods without an entry: copied values (own harnesses below), or named under not covered
HEAD = '''#include "Prefix/StdAfx.h"
#include "vf.h"
#include <cstring>
#include "Include/VectorworksMVR.h"
#include "SceneDataExchange.h"
using namespace VectorworksMVR; using namespace VectorworksMVR::GdtfDefines; using namespace SceneData;
// the collection holds n elements, the one at index 'at' is e
template<class V> static void fill(const V& v, size_t n, size_t at, const void* e)
{
	struct Raw { void **b, **e, **c; };
	static_assert(sizeof(V) == sizeof(Raw), "vector of pointers");
	Raw& r = *(Raw*)&v;
	r.b = vf_slots("slots", n, at, e); r.e = r.b + n; r.c = r.e;
}
// the interface object is bound to e: one of its words is the address of e
template<class T> static bool holds(T* o, const void* e)
{
	void** w = (void**)o;
	for (size_t i = 1; i < sizeof(T) / sizeof(void*); ++i) if (w[i] == e) return true;
	return false;
}
template<class W, class I> static void outcome(VCOMError r, size_t n, size_t at, I* out, W* old, const void* e)
{
	if (at < n) {
		vf_assert(r == kVCOMError_NoError, "an index below the count succeeds");
		vf_assert(out && out != old, "an index below the count hands out an object");
		vf_assert(holds(static_cast<W*>(out), e), "the object handed out is the n-th element");
		vf_assert(!old || !vf_live(old), "the object held before is released once");
		if (vf_choice("release", 0, 1)) { out->Release(); vf_assert(!vf_live(out), "the caller owns exactly one reference"); }
	} else {
		vf_assert(r != kVCOMError_NoError, "an index at or beyond the count is an error");
		vf_assert(out == old, "on an error the caller's pointer is unchanged");
		vf_assert(!old || vf_live(old), "on an error the caller's object is not released");
		if (old) { old->Release(); vf_assert(!vf_live(old), "on an error the caller's object gets no further reference"); }
	}
}
'''
EXTRA = r'''
#include "vf_txt.h"
using VectorworksMVR::CieColor;
extern "C" void C04_IGdtfGamut_GetPointAt()
{
	auto* d = new GdtfGamut(); auto* o = new CGdtfGamutImpl(); o->SetPointer(d);
	size_t n = vf_range("n", 0, 1 << 20), at = vf_u64("at"); vf_cover("c");
	CieColor in; in.fx = vf_f64("x"); in.fy = vf_f64("y"); in.f_Y = vf_f64("Y");
	auto* e = new CCieColor(in.fx, in.fy, in.f_Y); fill(d->GetGamutPoints(), n, at, e);
	CieColor out; vf_havoc("out", &out, sizeof out); CieColor out0 = out;
	VCOMError r = o->GetPointAt(at, out);
	if (at < n) { vf_assert(r == kVCOMError_NoError, "an index below the count succeeds"); vf_assert(vf_same(out.fx, in.fx) && vf_same(out.fy, in.fy) && vf_same(out.f_Y, in.f_Y), "the value handed out is the n-th element"); }
	else { vf_assert(r != kVCOMError_NoError, "an index at or beyond the count is an error"); vf_assert(vf_same(out.fx, out0.fx) && vf_same(out.fy, out0.fy) && vf_same(out.f_Y, out0.f_Y), "on an error the caller's value is unchanged"); }
}
extern "C" void C04_ISceneObj_GetAdressAt()
{
	auto* d = new SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))); auto* o = new CSceneObjImpl(); o->SetPointer(d, (SceneDataExchange*)vf_bytes("context", 8));
	size_t n = vf_range("n", 0, 1 << 20), at = vf_u64("at"); vf_cover("c");
	const SceneDataAdressArray& v = d->GetAdressesArray(); typedef SceneDataAdressArray::value_type T;
	struct Raw { T *b, *e, *c; }; Raw& w = *(Raw*)&v; w.b = (T*)vf_bytes("elements", n * sizeof(T)); w.e = w.c = w.b + n;
	size_t k = ~n; vf_assert(o->GetAdressCount(k) == kVCOMError_NoError && k == n, "the reported count is the number of elements");
	SDmxAdress out; vf_havoc("out", &out, sizeof out); const SDmxAdress out0 = out;
	VCOMError r = o->GetAdressAt(at, out);
	if (at < n) { vf_assert(r == kVCOMError_NoError, "an index below the count succeeds"); vf_assert(out.fAbsuluteAdress == w.b[at].fAbsuluteAdress && out.fBreakId == w.b[at].fBreak, "the value handed out is the n-th element"); }
	else { vf_assert(r != kVCOMError_NoError, "an index at or beyond the count is an error"); vf_assert(out.fAbsuluteAdress == out0.fAbsuluteAdress && out.fBreakId == out0.fBreakId, "on an error the caller's value is unchanged"); }
}
extern "C" void C04_IGdtfFixture_GetParsingErrorAt()
{
	auto* d = new GdtfFixture(); auto* o = new CGdtfFixtureImpl(); o->fFixtureObject = d;
	size_t n = vf_range("n", 0, 1 << 20), at = vf_u64("at"); vf_cover("c");
	typedef GdtfParsingError T; auto& v = d->GetParsingErrorArray();
	struct Raw { T *b, *e, *c; }; Raw& w = *(Raw*)&v; w.b = (T*)vf_bytes("elements", n * sizeof(T)); w.e = w.c = w.b + n;
	size_t k = ~n; vf_assert(o->GetParsingErrorCount(k) == kVCOMError_NoError && k == n, "the reported count is the number of elements");
	CGdtfXmlParsingErrorImpl* old = vf_choice("held", 0, 1) ? new CGdtfXmlParsingErrorImpl() : nullptr; if (old) old->AddRef();
	IGdtfXmlParsingError* out = old; VCOMError r = o->GetParsingErrorAt(at, &out);
	outcome(r, n, at, out, old, w.b + (at < n ? at : 0));
}
// bounded: at most three protocols / entries, any texts
extern "C" void C04_ISceneObj_GetProtocolAt()
{
	auto* d = new SceneDataFixtureObj(SceneDataGUID(VWFC::Tools::VWUUID(1,2,3,4))); auto* o = new CSceneObjImpl(); o->SetPointer(d, (SceneDataExchange*)vf_bytes("context", 8));
	size_t n = vf_choice("n", 0, 3), at = vf_u64("at"); vf_cover("c");
	TXString t[3][4] = { { vf_text("g0"), vf_text("n0"), vf_text("t0"), vf_text("v0") }, { vf_text("g1"), vf_text("n1"), vf_text("t1"), vf_text("v1") }, { vf_text("g2"), vf_text("n2"), vf_text("t2"), vf_text("v2") } };
	SceneDataProtocolsArray& v = const_cast<SceneDataProtocolsArray&>(d->GetProtocolsArray());
	for (size_t i = 0; i < n; ++i) v.push_back(SceneDataProtocols(t[i][0], t[i][1], t[i][2], t[i][3], ETransmissionType(i)));
	if (vf_choice("inside", 0, 1)) { vf_assume(at < n); at = vf_choice("element", 0, 2); vf_assume(at < n); } else vf_assume(at >= n);
	SProtocol* out = nullptr; VCOMError r = o->GetProtocolAt(at, &out);
	if (at < n) {
		vf_assert(r == kVCOMError_NoError, "an index below the count succeeds"); vf_assert(out != nullptr, "an index below the count hands out a value");
		vf_assert(TXString(out->fName) == t[at][1] && TXString(out->fType) == t[at][2] && TXString(out->fVersion) == t[at][3] && out->fTransmision == ETransmissionType(at), "the value handed out is the n-th element");
	} else { vf_assert(r != kVCOMError_NoError, "an index at or beyond the count is an error"); vf_assert(out == nullptr, "on an error the caller's pointer is unchanged"); }
}
extern "C" void C04_ISceneDataProvider_Entries()
{
	auto* d = new SceneDataProviderObj(); auto* o = new CSceneDataProviderImpl(); o->SetPointer(d);
	size_t n = vf_choice("n", 0, 3), at = vf_u64("at"); vf_cover("c");
	TXString t[3][2] = { { vf_text("k0"), vf_text("v0") }, { vf_text("k1"), vf_text("v1") }, { vf_text("k2"), vf_text("v2") } };
	for (size_t i = 0; i < n; ++i) d->AddEntry(t[i][0], t[i][1]);
	if (vf_choice("inside", 0, 1)) { vf_assume(at < n); at = vf_choice("element", 0, 2); vf_assume(at < n); } else vf_assume(at >= n);
	MvrString k = o->GetKeyAt(at), v = o->GetValueAt(at);
	if (at < n) { vf_assert(TXString(k) == t[at][0], "the key handed out is the n-th one"); vf_assert(TXString(v) == t[at][1], "the value handed out is the n-th one"); }
	else vf_assert(k && v && !*k && !*v, "an index at or beyond the count yields empty texts");
}
// the lists a mode computes (contract: arbitrary list, C04_*_list)
static TSint32Array* gBreaks; static TGdtfDmxChannelArray* gChannels;
extern "C" void vfx_breaks(TSint32Array* out) { new (out) TSint32Array(*gBreaks); }
extern "C" void vfx_channels(TGdtfDmxChannelArray* out) { new (out) TGdtfDmxChannelArray(*gChannels); }
extern "C" void C04_IGdtfDmxMode_GetBreakAt()
{
	auto* d = new GdtfDmxMode(nullptr, "mode"); auto* o = new CGdtfDmxModeImpl(); o->setPointer(d);
	size_t n = vf_range("n", 0, 1 << 20), at = vf_u64("at"); vf_cover("c");
	gBreaks = new TSint32Array(); typedef TSint32Array::value_type T;
	struct Raw { T *b, *e, *c; }; Raw& w = *(Raw*)gBreaks; w.b = (T*)vf_bytes("elements", n * sizeof(T)); w.e = w.c = w.b + n;
	size_t k = ~n; vf_assert(o->GetBreakCount(k) == kVCOMError_NoError && k == n, "the reported count is the number of elements");
	size_t out = vf_u64("out"); const size_t out0 = out;
	VCOMError r = o->GetBreakAt(at, out);
	if (at < n) { vf_assert(r == kVCOMError_NoError, "an index below the count succeeds"); vf_assert(out == (size_t)w.b[at], "the value handed out is the n-th element"); }
	else { vf_assert(r != kVCOMError_NoError, "an index at or beyond the count is an error"); vf_assert(out == out0, "on an error the caller's value is unchanged"); }
}
extern "C" void C04_IGdtfGeometry_GetLinkedDmxChannelAt()
{
	auto* d = new GdtfGeometry(nullptr); auto* o = new CGdtfGeometryImpl(); o->SetPointer(d);
	auto* md = new GdtfDmxMode(nullptr, "mode"); auto* mo = new CGdtfDmxModeImpl(); mo->setPointer(md);
	size_t n = vf_range("n", 0, 1 << 20), at = vf_u64("at"); vf_cover("c");
	gChannels = new TGdtfDmxChannelArray(); char* e = (char*)vf_bytes("element", 8); fill(*gChannels, n, at, e);
	size_t k = ~n; vf_assert(o->GetCountLinkedDmxChannel(k, mo) == kVCOMError_NoError && k == n, "the reported count is the number of elements");
	CGdtfDmxChannelImpl* old = vf_choice("held", 0, 1) ? new CGdtfDmxChannelImpl() : nullptr; if (old) old->AddRef();
	IGdtfDmxChannel* out = old; VCOMError r = o->GetLinkedDmxChannelAt(at, &out, mo);
	outcome(r, n, at, out, old, e);
}
'''
NO_NATIVE = 'IGdtfDmxMode_GetBreakAt|GetLinkedDmxChannelAt'
TRUSTED = ['GdtfDmxMode::GetBreakArray, GdtfDmxMode::GetChannelsForGeometry (in the two harnesses of the methods that index their result): return some list, the same one on every call',
    'SceneDataExchange::SceneDataExchange (harnesses of IMediaRessourceVectorInterface): empty collections; its working-folder set-up is left out'] + c17.TRUSTED
ASSUMPTIONS = ['collections of at most 2^20 elements'] + c17.ASSUMPTIONS[1:]
def covered():
    for l in TABLE.strip().split('\n'):
        f = [x.strip() for x in l.split('|')]
        i, m = f[0].split('.')
        yield i, m, f[1], f[2], f[3] if len(f) > 3 else None
def bindcall(p, o='o', d='d'):
    if p.bind is None: return '%s->fFixtureObject = %s;' % (o, d)
    a = p.bind[1]
    return '%s->%s(%s%s);' % (o, p.bind[0], d, ''.join(', (%s)vf_bytes("context", 8)' % t for t, n in a[1:]))
def generate(tier):
    I, P = iface.interfaces(), iface.impls()
    o = [HEAD] + ['#include "Implementation/%s"' % p.hdr for i, p in sorted(P.items())]
    for i, m, d, c, e in covered():
        p = P[i]; M = [x for x in I[i] if x.name == m][0]
        ri = M.args[1][0][:-2]; w = P[ri].cls
        cm = [x for x in I[i] if x.name in ('Get' + m[3:-2] + 'Count', 'GetCount' + m[3:-2], 'Get' + m[3:-2] + 'sCount')]
        o.append('extern "C" void C04_%s_%s()\n{' % (i, m))
        if d: o.append('\tauto* d = new %s; auto* o = new %s(); %s' % (d, p.cls, bindcall(p)))
        else: o.append('\tauto* o = new %s(); auto* d = o;' % p.cls)
        o.append('\tsize_t n = vf_range("n", 0, 1 << 20), at = vf_u64("at"); vf_cover("c");')
        o.append('\tauto* e = %s; fill(d->%s, n, at, e);' % ('new %s' % e if e else '(char*)vf_bytes("element", 8)', c))
        if cm: o.append('\tsize_t k = ~n; vf_assert(o->%s(k) == kVCOMError_NoError && k == n, "the reported count is the number of elements");' % cm[0].name)
        o.append('\t%s* old = vf_choice("held", 0, 1) ? new %s() : nullptr; if (old) old->AddRef();' % (w, w))
        o.append('\t%s* out = old; VCOMError r = o->%s(at, &out);\n\toutcome(r, n, at, out, old, e);\n}' % (ri, m))
    o.append(EXTRA)
    f = os.path.join(build.scratch(), 'c04_gen.cpp')
    open(f, 'w').write('\n'.join(o) + '\n')
    return [f]
from sym import Inline
def szof(ex, st):
    for m in ex.prog.mods:
        for k in m.types:
            if k.endswith('class.SceneData::SceneDataExchange'): return m.size(m.type(k))
def setup(ex, h):
    c17.setup(ex, h)
    ex.contract(r'^SceneData::SceneDataExchange::SceneDataExchange\(\)$', lambda ex, st, a, ci: ex.memset(st, a[0], 0, szof(ex, st)))
    if 'GetBreakAt' in h: ex.contract(r'^SceneData::GdtfDmxMode::GetBreakArray\(\) const$', lambda ex, st, a, ci: Inline('vfx_breaks', [a[0]]))
    if 'GetLinkedDmxChannelAt' in h: ex.contract(r'^SceneData::GdtfDmxMode::GetChannelsForGeometry\(', lambda ex, st, a, ci: Inline('vfx_channels', [a[0]]))
