import rt, os, build
from rt import K
SPEC = []
for n in ('SOURCES', 'FLAGS', 'NATIVE_SPEC', 'FP', 'TRUSTED', 'ASSUMPTIONS'): globals()[n] = getattr(rt, n)
ASSUMPTIONS = ASSUMPTIONS + ['fixture names without a slash (the reader replaces it by an underscore)', 'hexadecimal ids of 16 bits', 'the first channel function of a logical channel starts at 0', 'an object referenced by a macro value is set']
GEO = dict(excl='fParent', refs={'fModelReference': ('namedModel()', 'fUnresolvedModelRef')})
def geo(cls, refs=None, lists=None, **k):
    r = {'fModelReference': ('modelRef()', 'fUnresolvedModelRef')}; r.update(refs or {})
    l = {'fInternalGeometries': 'GdtfGeometryAxis'} if cls == 'GdtfGeometry' else {}
    l.update(lists or {})
    return K(cls, 'nullptr', excl='fParent' + ('' if cls == 'GdtfGeometry' else ' fInternalGeometries'), refs=r, lists=l, **k)
EXTRA = r'''
static GdtfModel* modelRef() { auto* t = new GdtfModel(nullptr); t->fUniqueName = vf_text("ref.model"); return t; }
static GdtfPhysicalEmitter* emitterRef() { auto* t = new GdtfPhysicalEmitter(); t->fName = vf_text("ref.emitter"); return t; }
static GdtfGeometry* geometryRef() { auto* t = new GdtfGeometry(nullptr); t->fUniqueName = vf_text("ref.geometry"); return t; }
static GdtfGeometryWiringObject* wiringRef() { auto* t = new GdtfGeometryWiringObject(nullptr); t->fUniqueName = vf_text("ref.wiring"); return t; }
static GdtfAttribute* attributeRef() { auto* t = new GdtfAttribute(); t->fName = vf_text("ref.attribute"); return t; }
static GdtfActivationGroup* groupRef() { auto* t = new GdtfActivationGroup(); t->fName = vf_text("ref.group"); return t; }
static GdtfFeature* featureRef() { auto* g = new GdtfFeatureGroup(); g->fName = vf_text("ref.featuregroup"); auto* t = new GdtfFeature(g); t->fName = vf_text("ref.feature"); return t; }
static GdtfWheel* wheelRef() { auto* t = new GdtfWheel(nullptr); t->fName = vf_text("ref.wheel"); return t; }
static GdtfFilter* filterRef() { auto* t = new GdtfFilter(); t->fName = vf_text("ref.filter"); return t; }
static GdtfColorSpace* spaceRef() { auto* t = new GdtfColorSpace(); t->fUniqueName = vf_text("ref.space"); return t; }
static GdtfGamut* gamutRef() { auto* t = new GdtfGamut(); t->fUniqueName = vf_text("ref.gamut"); return t; }
static GdtfDMXProfile* profileRef() { auto* t = new GdtfDMXProfile(); t->fUniqueName = vf_text("ref.profile"); return t; }
static GdtfSubPhysicalUnit* unitRef() { auto* t = new GdtfSubPhysicalUnit(); any("ref.unit", t->fType); return t; }
static GdtfDmxMode* modeRef() { return new GdtfDmxMode(nullptr, vf_text("ref.mode")); }
// a DMX channel of any resolution, and what hangs off it
static bool sTwoBytes = false;
static GdtfDmxChannel* newChannel(const char* n) { auto* t = new GdtfDmxChannel(nullptr); t->fName_AutoGenerated = vf_text(n); size_t k = sTwoBytes ? 2 : vf_choice("bytes", 0, 4);
	t->fCoarse = k > 0 ? 1 : 0; t->fFine = k > 1 ? 2 : 0; t->fUltra = k > 2 ? 3 : 0; t->fUber = k > 3 ? 4 : 0; return t; }
static GdtfDmxChannel* sChannel = nullptr; static GdtfDmxLogicalChannel* sLogical = nullptr; static GdtfDmxChannelFunction* sFunction = nullptr;
static GdtfDmxChannel* channel() { if (!sChannel) sChannel = newChannel("channel"); return sChannel; }
static GdtfDmxLogicalChannel* logical() { if (!sLogical) { sLogical = new GdtfDmxLogicalChannel(channel()); sLogical->fName_AutoGenerated = vf_text("logical"); } return sLogical; }
static GdtfDmxChannelFunction* function() { if (!sFunction) { sFunction = new GdtfDmxChannelFunction(logical()); sFunction->fName = vf_text("ref.function"); } return sFunction; }
static DmxValue maxDmx() { return GdtfConverter::GetChannelMaxDmx(channel()->GetChannelBitResolution()); }
'''
GN = '!(a->fMatrix.fMatrix.mat[0][0] != a->fMatrix.fMatrix.mat[0][0])'
KINDS = [
 K('GdtfActivationGroup', excl='fLinkedAttributes'),
 K('GdtfFeature', 'nullptr', excl='fParent fLinkedAttributes'),
 K('GdtfFeatureGroup', lists={'fFeatures': 'GdtfFeature'}),
 K('GdtfSubPhysicalUnit'),
 K('GdtfAttribute', refs={'fActivationGroup': ('groupRef()', 'fUnresolvedActGroup'), 'fFeature': ('featureRef()', 'fUnresolvedFeature'), 'fMainAttribute': ('attributeRef()', 'fUnresolvedMainAttrib')}, lists={'fSubPhysicalUnits': 'GdtfSubPhysicalUnit'}, cond={'fColor': 'c->fHasColor'}),
 K('GdtfWheelSlotPrismFacet', pre='for (int i = 0; i < 3; ++i) a->fTransform.fMatrix.mat[3][i] = c->fTransform.fMatrix.mat[3][i] = 0;   // a facet is a rotation'),
 K('GdtfWheelSlotAnimationSystem'),
 K('GdtfWheelSlot', 'nullptr', excl='fWheelParent fGoboFile', refs={'fFilter': ('filterRef()', 'fUnresolvedFilter')}, lists={'fPrismFacts': 'GdtfWheelSlotPrismFacet'}, owned={'fAnimationSystem': 'GdtfWheelSlotAnimationSystem'}),
 K('GdtfWheel', 'nullptr', excl='fParentFixture', lists={'fWheelSlots': 'GdtfWheelSlot'}, light={'fWheelSlots': 'x->fName = y->fName = vf_text("fName");'}),
 K('GdtfColorSpace', cond={f: 'c->fColorSpace == EGdtfColorSpace::Custom' for f in ('fRed', 'fGreen', 'fBlue', 'fWhitePoint')}),
 K('GdtfGamut'),
 K('GdtfMeasurementPoint'),
 K('GdtfMeasurement', 'true', name='MeasurementOfFilter', excl='fIsForFilter fLuminousIntensity', lists={'fMeasurementPoints': 'GdtfMeasurementPoint'}),
 K('GdtfMeasurement', 'false', name='MeasurementOfEmitter', excl='fIsForFilter fTransmission', lists={'fMeasurementPoints': 'GdtfMeasurementPoint'}),
 K('GdtfFilter', lists={'fMeasurementsArray': 'MeasurementOfFilter'}),
 K('GdtfPhysicalEmitter', lists={'fMeasurements': 'MeasurementOfEmitter'}),
 K('GdtfPoint'),
 K('GdtfDMXProfile', lists={'fPoints': 'GdtfPoint'}),
 K('GdtfCRI'),
 K('GdtfCRIGroup', lists={'fCRI_Array': 'GdtfCRI'}),
 K('GdtfConnector'),
 K('GdtfPhysicalDescriptions', embed={'fColorSpace': 'GdtfColorSpace'}, lists={'fAdditionalColorSpaces': 'GdtfColorSpace', 'fGamuts': 'GdtfGamut', 'fEmitters': 'GdtfPhysicalEmitter', 'fFilters': 'GdtfFilter', 'fDmxProfiles': 'GdtfDMXProfile', 'fCRI_Groups': 'GdtfCRIGroup', 'fConnectors': 'GdtfConnector'}),
 K('GdtfModel', 'theFixture()', excl='fFullPath3DS fFullPathSVG fFullPathGLTF fBuffer3DS fBufferSVG fBufferGLTF fBufferSize3DS fBufferSizeSVG fBufferSizeGLTF fParentFixture'),
 geo('GdtfGeometry'), geo('GdtfGeometryAxis'), geo('GdtfGeometryBeamFilter'), geo('GdtfGeometryColorFilter'), geo('GdtfGeometryGoboFilter'), geo('GdtfGeometryShaperFilter'),
 geo('GdtfGeometryMediaServerCamera'), geo('GdtfGeometryMediaServerLayer'), geo('GdtfGeometryMediaServerMaster'), geo('GdtfGeometryMagnet'), geo('GdtfGeometryDisplay'),
 K('GdtfLaserProtocol'),
 geo('GdtfGeometryLaser', {'fEmitter': ('emitterRef()', 'fUnresolvedEmitter')}, {'fLaserProtocols': 'GdtfLaserProtocol'}),
 K('GdtfPinPatch', refs={'fToWiringObject': ('wiringRef()', 'fUnresolvedWiringObject')}),
 geo('GdtfGeometryWiringObject', None, {'fPinPatches': 'GdtfPinPatch'}),
 geo('GdtfGeometryInventory'),
 geo('GdtfGeometryStructure', {'fLinkedGeometry': ('geometryRef()', 'fUnresolvedLinkedGeometry')}),
 geo('GdtfGeometrySupport'),
 geo('GdtfGeometryLamp', {'fEmitterSpectrum': ('emitterRef()', 'fUnresolvedEmitterRef')}),
 K('GdtfBreak'),
 geo('GdtfGeometryReference', {'fLinkedGeometry': ('geometryRef()', 'fUnresolvedGeoRef')}, {'fBreaks': 'GdtfBreak'}),
 K('GdtfDmxSubChannelSet', refs={'fSubPhysicalUnit': ('unitRef()', 'fUnresolvedSubPhysicalUnitRef'), 'fDMXProfile': ('profileRef()', 'fUnresolvedDMXProfileRef')}),
 K('GdtfDmxChannelSet', 'function()', excl='fDmxEnd fValid fParentChnlFunction fNextChannelSet', cond={'fPhysicalStart': 'c->fSetPhysical', 'fPhysicalEnd': 'c->fSetPhysical'}),
 K('GdtfDmxRelation', refs={'fMasterDmxChannel': ('channel()', 'fUnresolvedMasterRef'), 'fSlaveChannelFunction': ('function()', 'fUnresolvedSlaveRef')}),
 K('GdtfRevision'),
 K('GdtfMap'), K('GdtfArtNet', lists={'fMaps': 'GdtfMap'}), K('GdtfsAcn', lists={'fMaps': 'GdtfMap'}),
 K('GdtfKiNET'), K('GdtfPosiStageNet'), K('GdtfOpenSoundControl'), K('GdtfCITP'),
 K('GdtfDMXPersonality', excl='fDMXMode', pre='a->fValue &= 0xFFFF; c->fValue &= 0xFFFF; { a->fDMXMode = modeRef(); c->fDMXMode_Unresolved = a->fDMXMode->GetModeName(); }'),
 K('GdtfSoftwareVersionID', pre='a->fValue &= 0xFFFF; c->fValue &= 0xFFFF;', lists={'fDmxPersonalityArray': 'GdtfDMXPersonality'}),
 K('GdtfFTRDM', pre='a->fManufacturerID &= 0xFFFF; c->fManufacturerID &= 0xFFFF; a->fDeviceModelID &= 0xFFFF; c->fDeviceModelID &= 0xFFFF;', lists={'fSoftwareVersionIDArray': 'GdtfSoftwareVersionID'}),
 K('GdtfProtocols', owned={'fRDM': 'GdtfFTRDM', 'fArtNet': 'GdtfArtNet', 'fsACN': 'GdtfsAcn', 'fKiNET': 'GdtfKiNET', 'fPosiStageNet': 'GdtfPosiStageNet', 'fOpenSoundControl': 'GdtfOpenSoundControl', 'fCITP': 'GdtfCITP'}),
 # ---- macros
 K('GdtfMacroDMXValue', excl='fValue fDMXChannel', pre="""any("fValue", a->fValue); a->fValue = a->fValue & maxDmx(); a->fDMXChannel = channel(); c->funresolvedDMXChannel = channel()->GetNodeReference(); c->funresolvedValue = GdtfConverter::ConvertDMXValue(a->fValue, channel()->GetChannelBitResolution());"""),
 K('GdtfMacroDMXStep', lists={'fDMXValues': 'GdtfMacroDMXValue'}),
 K('GdtfMacroDMX', lists={'fDMXSetps': 'GdtfMacroDMXStep'}),
 K('GdtfMacroVisualValue', excl='fDmxValue fChannelFunctionRef', pre="""any("fValue", a->fDmxValue); a->fDmxValue = a->fDmxValue & maxDmx(); a->fChannelFunctionRef = function(); c->fUnresolvedChannelFunctionRef = function()->GetNodeReference(); c->funresolvedValue = GdtfConverter::ConvertDMXValue(a->fDmxValue, channel()->GetChannelBitResolution());"""),
 K('GdtfMacroVisualStep', lists={'fVisualValues': 'GdtfMacroVisualValue'}),
 K('GdtfMacroVisual', lists={'fVisualSteps': 'GdtfMacroVisualStep'}),
 K('GdtfMacro', refs={'fChannelFunction': ('function()', 'fUnresolvedChannelFunction')}, owned={'fMacroDMX': 'GdtfMacroDMX', 'fMacroVisual': 'GdtfMacroVisual'}),
 # ---- DMX
 K('GdtfDmxChannelFunction', 'logical()', excl='fDmxModeStart fDmxModeEnd fModeMaster_Channel fModeMaster_Function fUnresolvedDmxModeStart fUnresolvedDmxModeEnd fUnresolvedModeMaster fChannelSets fParentLogicalChannel fNextFunction',
   refs={'fAttribute': ('attributeRef()', 'fUnresolvedAttrRef'), 'fOnWheel': ('wheelRef()', 'fUnresolvedWheelRef'), 'fEmitter': ('emitterRef()', 'fUnresolvedEmitterRef'), 'fFilter': ('filterRef()', 'fUnresolvedFilterRef'), 'fColorSpace': ('spaceRef()', 'fUnresolvedColorSpaceRef'), 'fGamut': ('gamutRef()', 'fUnresolvedGamutRef'), 'fDMXProfile': ('profileRef()', 'fUnresolvedDMXProfileRef')},
   lists={'fSubChannelSets': 'GdtfDmxSubChannelSet'}),
 K('GdtfDmxChannelFunction', 'logical()', name='FunctionModeMaster', excl='fDmxModeStart fDmxModeEnd fModeMaster_Channel fModeMaster_Function fChannelSets fSubChannelSets fParentLogicalChannel fNextFunction fAttribute fOnWheel fEmitter fFilter fColorSpace fGamut fDMXProfile',
   pre="""sTwoBytes = false; size_t m = vf_choice("mode master", 0, 1); auto* ch = newChannel("master"); auto r = ch->GetChannelBitResolution();
	a->fDmxModeStart = vf_u32("from") & GdtfConverter::GetChannelMaxDmx(r); a->fDmxModeEnd = vf_u32("to") & GdtfConverter::GetChannelMaxDmx(r);
	for (TXString* t : { &c->fUnresolvedAttrRef, &c->fUnresolvedWheelRef, &c->fUnresolvedEmitterRef, &c->fUnresolvedFilterRef, &c->fUnresolvedColorSpaceRef, &c->fUnresolvedGamutRef, &c->fUnresolvedDMXProfileRef }) t->Clear();
	if (m == 0) { a->fModeMaster_Channel = ch; c->fUnresolvedModeMaster = ch->GetNodeReference(); }
	if (m == 1) { auto* f = new GdtfDmxChannelFunction(new GdtfDmxLogicalChannel(ch)); f->fName = vf_text("master function"); a->fModeMaster_Function = f; c->fUnresolvedModeMaster = f->GetNodeReference(); }
	c->fUnresolvedDmxModeStart = GdtfConverter::ConvertDMXValue(a->fDmxModeStart, r); c->fUnresolvedDmxModeEnd = GdtfConverter::ConvertDMXValue(a->fDmxModeEnd, r);"""),
 K('GdtfDmxLogicalChannel', 'channel()', excl='fName_AutoGenerated fParentDmxChannel fNextLogicalChannel', refs={'fAttribute': ('attributeRef()', 'fUnresolvedAttribRef')}, lists={'fFunctions': 'GdtfDmxChannelFunction'},
   elem={'fFunctions': 'if (i == 0) x->fAdressStart = y->fAdressStart = 0;'}),
 K('GdtfDmxChannel', 'nullptr', excl='fName_AutoGenerated fDefaultValue_old fParent fCoarse fFine fUltra fUber fHeighlight fInitialFunction', refs={'fGeomRef': ('geometryRef()', 'fUnresolvedGeomRef'), 'fInitialFunction': ('function()', 'fUnresolvedInitialFunction')}, lists={'fLogicalChannels': 'GdtfDmxLogicalChannel'},
   pre="""size_t bytes = deep ? vf_choice("bytes", 0, 4) : 2; DMXAddress* o[4] = { &a->fCoarse, &a->fFine, &a->fUltra, &a->fUber }; for (size_t i = 0; i < 4; ++i) if (i < bytes) any("offset", *o[i]); else *o[i] = 0;
	c->fCoarse = a->fCoarse; c->fFine = a->fFine; c->fUltra = a->fUltra; c->fUber = a->fUber;
	a->fHeighlight = vf_u32("highlight") & GdtfConverter::GetChannelMaxDmx(a->GetChannelBitResolution()); c->fHeighlight = a->fHeighlight;""",
   post="""vf_assert((b->fCoarse == c->fCoarse) & (b->fFine == c->fFine) & (b->fUltra == c->fUltra) & (b->fUber == c->fUber), "GdtfDmxChannel: the offsets are restored");
	if (!c->fHeighlightNone) vf_assert(b->fHeighlight == c->fHeighlight, "GdtfDmxChannel.fHeighlight is restored");"""),
 K('GdtfDmxMode', 'nullptr, TXString()', excl='fFixture fChannelIndex fFunctionIndex', refs={'fGeomRef': ('geometryRef()', 'fUnresolvedGeomRef')}, lists={'fChannels': 'GdtfDmxChannel', 'fRelations': 'GdtfDmxRelation', 'fMacros': 'GdtfMacro'}),
 K('GdtfFixture', excl='fFunction fTumbnailFullPath_PNG fTumbnailFullPath_SVG fPresets fLocalFiles fLocalFilesFullPath fReaded fWorkingFolder fParsingErrors fTotalNodesCount fMajorVersion fMinorVersion fNoFeature fFileBuffers fAttributeIndex fWheelIndex fEmitterIndex fFilterIndex fConnectorIndex fColorSpaceIndex fGamutIndex fDMXProfileIndex fModelIndex fGeometryIndex fSubPhysicalUnitIndex fUseIndexes __ERROR_CONTAINER_POINTER fErrorContainer',
   cond={'fLinkedGuid': 'c->fHasLinkedGuid'}, embed={'fProtocollContainer': 'GdtfProtocols:false', 'fPhysicalDesciptions': 'GdtfPhysicalDescriptions:false'},
   lists={'fActivationGroups': 'GdtfActivationGroup', 'fFeatureGroups': 'GdtfFeatureGroup', 'fAttributes': 'GdtfAttribute', 'fWheels': 'GdtfWheel', 'fModels': 'GdtfModel', 'fGeometries': 'GdtfGeometry', 'fDmxModes': 'GdtfDmxMode', 'fRevisions': 'GdtfRevision'},
   pre='if (vf_native()) { a->fName.Replace("/", "_"); c->fName = a->fName; }'),
]
MAIN = '''extern "C" void C02_%(n)s()
{
	sTwoBytes = %(two)s;
	%(t)s *a = make_%(n)s(), *c = make_%(n)s(), *b = make_%(n)s();
	fill_%(n)s(a, c, true); vf_cover("c");
	RNode* root = newRoot();
	a->WriteToNode(IXMLFileNodePtr(root));
	vf_assert(root->first != nullptr && root->count == 1, "%(n)s is written as one element");
	b->ReadFromNode(IXMLFileNodePtr(root->first));
	cmp_%(n)s(b, c);
}'''
def generate(tier):
    global R
    out, R = rt.source('C02', KINDS, EXTRA + 'static DmxValue maxDmx(); static GdtfFixture* sFixture = nullptr; static GdtfFixture* theFixture() { if (!sFixture) sFixture = new GdtfFixture(); return sFixture; }\n')
    out += [MAIN % {'n': k.name, 't': k.cls, 'two': 'true' if k.name in ('GdtfMacro', 'FunctionModeMaster', 'GdtfDmxChannel', 'GdtfDmxMode', 'GdtfFixture') else 'false'} for k in KINDS]
    geos = [k.name for k in KINDS if k.cls.startswith('GdtfGeometry')]
    mk = ' '.join('case %d: { auto *x = make_%s(), *y = make_%s(); x->fUniqueName = y->fUniqueName = vf_text("name"); return {x, y}; }' % (i, g, g) for i, g in enumerate(geos))
    out.append('static std::pair<GdtfGeometry*, GdtfGeometry*> anyGeometry(size_t k) { switch (k) { %s } return {nullptr, nullptr}; }' % mk)
    body = '''{
	auto a = %(new)s; auto b = %(new)s; auto p = anyGeometry(vf_choice("kind", 0, %(n)d)); a->%(f)s.push_back(p.first); vf_cover("c");
	RNode* root = newRoot(); a->WriteToNode(IXMLFileNodePtr(root)); b->ReadFromNode(IXMLFileNodePtr(root->first));
	vf_assert(b->%(f)s.size() == 1, "a geometry of any kind is read back");
	vf_assert(b->%(f)s[0]->GetObjectType() == p.second->GetObjectType(), "a geometry is read back as what it was");
	vf_assert(same(b->%(f)s[0]->fUniqueName, p.second->fUniqueName), "with its name");
}'''
    out.append('extern "C" void C02_ChildGeometry() ' + body % {'new': 'new GdtfGeometry(nullptr)', 'f': 'fInternalGeometries', 'n': len(geos) - 1})
    out.append('extern "C" void C02_FixtureGeometry() ' + body % {'new': 'new GdtfFixture()', 'f': 'fGeometries', 'n': len(geos) - 1})
    f = os.path.join(build.scratch(), 'c02_gen.cpp'); open(f, 'w').write('\n'.join(out) + '\n')
    return [f]
def setup(ex, h):
    rt.common(ex, R)
    if 'Fixture' in h: ex.contract(r'TXString::Replace\(', lambda ex, st, a, ci: a[0])      # names without '/'

