import rt, os, build, std, txs, sym, z3
from sym import Inline
from rt import K
SPEC = []
for n in ('SOURCES', 'FLAGS', 'NATIVE_SPEC', 'FP', 'TRUSTED', 'ASSUMPTIONS'): globals()[n] = getattr(rt, n)
ASSUMPTIONS = ASSUMPTIONS + ['a matrix within 1e-7 of the identity counts as the identity (VWPoint3D equality)']
MAT = 'fGuid fMultipatchObj fInContainer fNextObj'
LISTS = {'fGeometries': 'SceneDataGeometryObj', 'fCustomCommands': 'SceneDataCustomCommand', 'fAlignments': 'SceneDataAlignment', 'fOverwrites': 'SceneDataOverwrite', 'fConnections': 'SceneDataConnectionObj'}
def mat(cls, excl='', refs=None, lists=None, **k):
    r = {'fClass': ('classRef()', 'fUnresolvedClass', 't->getGuid().GetUUIDString()')}; r.update(refs or {})
    l = dict(LISTS); l.update(lists or {})
    return K(cls, k.pop('ctor', 'guid("guid")'), excl=MAT + ' fChildObjs fIsSymbol ' + excl, refs=r, lists=l, bound=k.pop('bound', 1), parts=k.pop('parts', 0), **k)
EXTRA = r'''
static SceneDataClassObj* classRef() { return new SceneDataClassObj(guid("ref.class")); }
static SceneDataFocusPointObj* focusRef() { return new SceneDataFocusPointObj(guid("ref.focus")); }
static SceneDataPositionObj* positionRef() { return new SceneDataPositionObj(guid("ref.position")); }
static SceneDataSymDefObj* symdefRef() { return new SceneDataSymDefObj(guid("ref.symdef")); }
static DmxValue maxDmx() { return 255; }
// an exchange with no objects (its constructor works on the disk)
static SceneDataExchange* sExchange = nullptr;
static SceneDataExchange* exchange() { if (!sExchange) { sExchange = (SceneDataExchange*)::operator new(sizeof(SceneDataExchange)); memset((void*)sExchange, 0, sizeof(SceneDataExchange)); } return sExchange; }
extern "C" bool vfq_equal(const VWPoint3D* a, const VWPoint3D* b, double) { return (a->x == b->x) & (a->y == b->y) & (a->z == b->z); }
extern "C" double vfq_magnitude(const VWPoint3D* a) { return (a->x == 0) & (a->y == 0) & (a->z == 0) ? 0.0 : 1.0; }
template<class T> static void putGuid(T*, RNode*, ...) {}
'''
BASE = 'fGuid fMultipatchObj'
KINDS = [
 K('SceneDataSourceObj', excl=BASE),
 K('SceneDataMappingDefinitionObj', 'guid("guid")', excl=BASE, owned={'fSource': 'SceneDataSourceObj'}),
 K('SceneDataMappingObj', excl=BASE),
 K('SceneDataAlignment', excl=BASE),
 K('SceneDataOverwrite', excl=BASE),
 K('SceneDataConnectionObj', excl=BASE),
 K('SceneDataCustomCommand', excl=BASE, pre='vf_assume(a->fChannelFunction.Find("/") == -1); vf_assume(a->fChannelFunction.Find(",") == -1);'),
 K('SceneDataPositionObj', 'guid("guid")', excl=BASE),
 K('SceneDataClassObj', 'guid("guid")', excl=BASE),
 K('SceneDataSymDefObj', 'guid("guid")', excl=BASE + ' fContainsSymbolGeometry', lists={'fGeometries': 'SceneDataGeometryObj'}),
 K('SceneDataProviderObj', excl=BASE + ' fName fKeyArr fDataArr',
   pre='for (size_t i = 0, m = deep ? vf_choice("entries", 0, 2) : 0; i < m; ++i) { TXString k = vf_text("key"), v = vf_text("data"); a->fKeyArr.push_back(k); c->fKeyArr.push_back(k); a->fDataArr.push_back(v); c->fDataArr.push_back(v); }',
   post='vf_assert(same(b->fKeyArr, c->fKeyArr), "SceneDataProviderObj: the keys are restored"); vf_assert(same(b->fDataArr, c->fDataArr), "SceneDataProviderObj: the data are restored");'),
 mat('SceneDataGeometryObj', 'fFileFullPath', ctor=''),
 mat('SceneDataSymbolObj', refs={'fSymDef': ('symdefRef()', 'fUnresolvedSymDef', 't->getGuid().GetUUIDString()')}),
 mat('SceneDataGroupObj', pre='if (deep) a->fChildObjs.push_back(new SceneDataSceneryObj(guid("child")));'), mat('SceneDataLayerObj', bound=2), mat('SceneDataFocusPointObj'),
 mat('SceneDataSceneryObj'), mat('SceneDataTrussObj'), mat('SceneDataSupportObj'),
 mat('SceneDataVideoScreenObj', owned={'fSource': 'SceneDataSourceObj'}), mat('SceneDataProjectorObj', owned={'fSource': 'SceneDataSourceObj'}),
 mat('SceneDataFixtureObj', parts=2, excl='fGoboFullPath fAdresses fProtocols', refs={'fFocusPoint': ('focusRef()', 'fUnresolvedFocus', 't->getGuid().GetUUIDString()'), 'fPosition': ('positionRef()', 'fUnresolvedPosition', 't->getGuid().GetUUIDString()')}, lists={'fMappings': 'SceneDataMappingObj'},
   cond={'fGoboRotation': '!c->fGobo.IsEmpty()'},
   pre="""if (deep && list != 6) { vf_assume(!c->fGobo.IsEmpty()); vf_assume(!c->fFunction.IsEmpty()); vf_assume(c->fFixtureIdNumeric != 0); }
	for (size_t i = 0, m = list == 7 ? vf_choice("addresses", 0, 2) : 0; i < m; ++i) { size_t x, y; any("address", x); any("break", y); a->fAdresses.push_back(SceneDataDmxAdress(x, y)); c->fAdresses.push_back(SceneDataDmxAdress(x, y)); }
	for (size_t i = 0, m = list == 8 ? vf_choice("protocols", 0, 2) : 0; i < m; ++i) { ETransmissionType t; any("transmission", t); SceneDataProtocols p(vf_text("geometry"), vf_text("name"), vf_text("type"), vf_text("version"), t); a->fProtocols.push_back(p); c->fProtocols.push_back(p); }""",
   post="""vf_assert(b->fAdresses.size() == c->fAdresses.size(), "SceneDataFixtureObj: as many addresses are restored"); for (size_t i = 0; i < c->fAdresses.size(); ++i) vf_assert((b->fAdresses[i].fAbsuluteAdress == c->fAdresses[i].fAbsuluteAdress) & (b->fAdresses[i].fBreak == c->fAdresses[i].fBreak), "SceneDataFixtureObj: an address and its break are restored");
	vf_assert(b->fProtocols.size() == c->fProtocols.size(), "SceneDataFixtureObj: as many protocols are restored"); for (size_t i = 0; i < c->fProtocols.size(); ++i) { auto &p = b->fProtocols[i], &q = c->fProtocols[i];
	vf_assert(same(p.fGeometry, q.fGeometry) & same(p.fName, q.fName) & same(p.fType, q.fType) & same(p.fVersion, q.fVersion) & (p.fTransmision == q.fTransmision), "SceneDataFixtureObj: a protocol is restored"); }"""),
]
MAIN = '''extern "C" void C03_%(n)s%(sfx)s()
{
	%(part)s
	%(t)s *a = make_%(n)s(), *c = make_%(n)s(), *b = make_%(n)s();
	fill_%(n)s(a, c, true); vf_cover("c");
	%(multi)s
	RNode* root = newRoot();
	a->PrintToFile(IXMLFileNodePtr(root), exchange());
	vf_assert(root->first != nullptr && root->count == 1, "%(n)s is written as one element");
	if (a->getGuid().GetType() == eNormal) { TXString u; root->first->GetNodeAttributeValue(TXString("uuid"), u); vf_assert(same(u, a->getGuid().GetUUIDString()), "%(n)s: its id is written"); }
	b->ReadFromNode(IXMLFileNodePtr(root->first), exchange());
	cmp_%(n)s(b, c);
	%(multi2)s
}'''
def generate(tier):
    global R
    out, R = rt.source('C03', KINDS, EXTRA, ['ETransmissionType'])
    m1 = 'auto* m = new SceneDataGroupObj(guid("multipatch")); exchange()->fSceneObjects.push_back(m); if (vf_choice("multipatch", 0, 1)) a->setMultipatchParent(m);'
    m2 = 'vf_assert(b->getMultipatchParent() == a->getMultipatchParent(), "%s: the multipatch parent is restored");'
    for k in KINDS:
        mp = k.name in ('SceneDataFixtureObj', 'SceneDataSceneryObj')
        n = len(k.lists) + k.parts if k.parts is not None else 0
        for i in range(n + 1) if n > 6 or k.bound > 1 and n else [None]: out.append(MAIN % {'sfx': '' if i is None else '_%d' % i, 'part': '' if i is None else 'sPart = %d;' % i, 'n': k.name, 't': k.cls, 'multi': m1 if mp else '', 'multi2': m2 % k.name if mp else ''})
    f = os.path.join(build.scratch(), 'c03_gen.cpp'); open(f, 'w').write('\n'.join(out) + '\n')
    return [f]
def itoa(ex, st, a, ci):
    # decimal text of an integer, as ConvertInteger writes it
    v = a[-1]
    if sym.isc(v): v = v & ((1 << 64) - 1)
    elif v.size() < 64: v = z3.SignExt(64 - v.size(), v)
    txs.sput(ex, st, a[0], txs.SV([txs.Atom('enc', ('Integer', v))]))
    return a[0]
def setup(ex, h):
    rt.common(ex, R)
    def atof(ex, st, a, ci):
        v = txs.sget(ex, st, a[0])
        if len(v.p) == 1 and isinstance(v.p[0], txs.Atom) and v.p[0].kind == 'fp': return v.p[0].args[0]
        raise sym.Unsupported('value of %r' % v)
    ex.contract(r'TXString::atof\(', atof)
    ex.contract(r'TXString::itoa\(', itoa)
    ex.contract(r'VWPoint3D::Equal\(.*VWPoint3D', lambda ex, st, a, ci: Inline('vfq_equal', a))
    ex.contract(r'VWPoint3D::Magnitude\(', lambda ex, st, a, ci: Inline('vfq_magnitude', a))
