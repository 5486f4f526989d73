import txs, glob, os, build
SPEC = ['c17.cpp']
R = build.REPO + '/src/'
def _s(*pats): return sorted(p[len(R):] for pat in pats for p in glob.glob(R + pat))
SOURCES = ['ModuleMain.cpp'] + [s for s in _s('Implementation/*.cpp', 'rapidxmlsupport/XMLFile*.cpp', 'Wrapper/FileIdentifier.cpp', 'Wrapper/FolderIdentifier.cpp', 'Wrapper/ZIPFileImpl.cpp', 'Wrapper/ZIPFileBuffer.cpp', 'Wrapper/RawOSFile*.cpp') if 'MVRxchange' not in s] + ['Utility.cpp', 'rapidxmlsupport/tinyxml2.cpp', 'GDTFManager.cpp', 'SceneDataExchange.cpp', 'UUID.cpp', 'CieColor.cpp', 'RGBColor.cpp', 'XmlFileHelper.cpp']
def setup(ex, h):
    txs.install(ex)
    for f in ('CFolderIdentifier::Set\\(EFolderSpecifier, bool\\)', 'CFolderIdentifier::SetFullPath'): ex.contract(r'^VectorworksMVR::Filing::' + f, lambda ex, st, a, ci: ex.fresh(32, 'folder'))
TRUSTED = ['CFolderIdentifier::Set(folder specifier): only changes the path of its own object (file system look-up, used by the constructor of folder identifiers)']
ASSUMPTIONS = ['IMVRxchangeService objects are excluded from the factory harness (their constructor starts network threads)', 'fewer than 2^31 holders of one object']
