import txs, os, re, build
# (enum, converter, documented default, keeps the value on an unknown text)
P = [('EGdtfModel_PrimitiveType', 'ConvertPrimitiveType', 'eGdtfModel_PrimitiveType_Undefined', 0), ('EGdtfSpecial', 'ConvertSpecialAttrEnum', 'None', 0),
     ('EGdtfPhysicalUnit', 'ConvertPhysicalUnitEnum', 'None', 0), ('EGdtfBeamType', 'ConvertBeamType', 'eGdtfBeamType_Wash', 0), ('EGdtfLampType', 'ConvertLampeType', 'eGdtfLampType_Dischange', 0),
     ('EGdtfDmxSnap', 'ConvertSnapEnum', 'eGdtfDmxMaster_No', 0), ('EGdtfDmxMaster', 'ConvertMasterEnum', 'eGdtfDmxMaster_None', 0), ('EGdtfDmxRelationType', 'ConvertRelationEnum', 'eGdtfDmxRelationType_Override', 0),
     ('EGdtfColorSample', 'ConvertEGdtfColorSampleEnum', 'CES_01', 1), ('EGdtfColorSpace', 'ConvertEGdtfColorSpace', 'sRGB', 1), ('EGdtfInterpolationTo', 'ConvertEGdtfInterpolationTo', 'Linear', 0),
     ('ESourceType', 'ConvertESourceType', 'NDI', 0), ('EScaleHandlingType', 'ConvertEScaleHandlingType', 'ScaleKeepRatio', 0), ('EGdtfLaserColorType', 'ConvertLaserColorTypeEnum', 'RGB', 0),
     ('EGdtfComponentType', 'ConvertComponentTypeEnum', 'Input', 0), ('EGdtfOrientation', 'ConvertOrientationEnum', 'Left', 0), ('EGdtfFuseRating', 'ConvertFuseRatingEnum', 'B', 0),
     ('EGdtfStructureType', 'ConvertStructureTypeEnum', 'CenterLineBased', 0), ('EGdtfCrossSectionType', 'ConvertCrossSectionTypeEnum', 'TrussFramework', 0), ('EGdtfSupportType', 'ConvertSupportTypeEnum', 'Rope', 0),
     ('EGdtfSubPhysicalUnitType', 'ConvertSubPhysicalUnitTypeEnum', 'PlacementOffset', 0), ('ETransmissionType', 'ConvertTransmissionTypeEnum', 'Anycast', 0)]
SPEC = []
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = ['XmlFileHelper.cpp']
TRUSTED = ['GdtfFixture::AddError and the GdtfParsingError constructor: record a diagnostic and change nothing else']
ASSUMPTIONS = ['the XML node passed to a reader is only used for diagnostics']
def enums():
    """the enumerators that the current public header declares"""
    s = open(build.REPO + '/src/Include/GDTFPrefix.h', encoding='latin-1').read()
    s = re.sub(r'/\*.*?\*/', '', re.sub(r'//[^\n]*', '', s), flags=re.S)
    r = {}
    for m in re.finditer(r'\benum\s+(class\s+|struct\s+)?(\w+)\s*(?::\s*\w+\s*)?\{([^}]*)\}', s):
        r[m.group(2)] = (bool(m.group(1)), [re.match(r'\w+', x.strip()).group(0) for x in m.group(3).split(',') if re.match(r'\w+', x.strip())])
    return r
def generate(tier):
    E = enums()
    o = ['#include "Prefix/StdAfx.h"', '#include "vf_txt.h"', '#include "Include/GDTFPrefix.h"', '#include "XmlFileHelper.h"', 'using namespace VectorworksMVR; using namespace VectorworksMVR::GdtfDefines; using namespace SceneData;',
         'static IXMLFileNodePtr sNode;']
    for e, fn, dflt, keep in P:
        cls, vals = E[e]
        q = lambda v: (e + '::' if cls else '') + v
        n = len(vals)
        o.append('static const %s k_%s[] = { %s };' % (e, e, ', '.join(map(q, vals))))
        o.append('''extern "C" void C01_roundtrip_%(e)s()
{
	%(e)s v = k_%(e)s[vf_choice("enumerator", 0, %(n)d - 1)]; vf_cover("c");
	TXString t = GdtfConverter::%(fn)s(v);
	for (int i = 0; i < %(m)d; i++) {
		%(e)s r = k_%(e)s[i ? %(n)d - 1 : 0];
		vf_assert(GdtfConverter::%(fn)s(t, sNode, r), "reading the spelling of an enumerator succeeds");
		vf_assert(r == v, "reading the spelling of an enumerator gives that enumerator");
	}
	if (vf_native()) for (int i = 0; i < %(n)d; i++) if (k_%(e)s[i] != v) vf_assert(!(GdtfConverter::%(fn)s(k_%(e)s[i]) == t), "no two enumerators share a spelling");
}
extern "C" void C01_unknown_%(e)s()
{
	TXString t = vf_text("text");
	for (int i = 0; i < %(n)d; i++) vf_assume(!(t == GdtfConverter::%(fn)s(k_%(e)s[i])));
	vf_cover("c");
	%(e)s b = k_%(e)s[vf_choice("before", 0, 1) ? %(n)d - 1 : 0], r = b;
	if (GdtfConverter::%(fn)s(t, sNode, r)) vf_assert(r == %(d)s%(k)s, "an unknown text falls back to the documented default");
}''' % dict(e=e, fn=fn, n=n, m=min(2, n), d=q(dflt), k=' || r == b' if keep else ''))
    # flags
    for fn, dflt in (('ConvertBool', None), ('ConvertEGdtfCanHaveChildren', 'true')):
        o.append('''extern "C" void C01_roundtrip_%(fn)s()
{
	bool v = vf_bool("v"), r = vf_bool("before"); vf_cover("c");
	TXString t = GdtfConverter::%(fn)s(v);
	vf_assert(GdtfConverter::%(fn)s(t, sNode, r), "reading the spelling of a flag succeeds");
	vf_assert(r == v, "reading the spelling of a flag gives that flag");
}
extern "C" void C01_unknown_%(fn)s()
{
	TXString t = vf_text("text"); bool r = vf_bool("before");
	vf_assume(!(t == GdtfConverter::%(fn)s(true)) && !(t == GdtfConverter::%(fn)s(false))); vf_cover("c");
	bool ok = GdtfConverter::%(fn)s(t, sNode, r);
	vf_assert(!ok || %(d)s, "an unknown text is reported as a failure or falls back to the documented default");
}''' % dict(fn=fn, d='false' if dflt is None else 'r == ' + dflt))
    f = os.path.join(build.scratch(), 'c01_gen.cpp')
    open(f, 'w').write('\n'.join(o) + '\n')
    return [f]
def setup(ex, h):
    txs.install(ex)
    nop = lambda ex, st, a, ci: None
    ex.contract(r'GdtfFixture::AddError\(', nop)
    ex.contract(r'GdtfParsingError::GdtfParsingError\(', nop)
    ex.contract(r'GdtfParsingError::~GdtfParsingError\(', nop)
