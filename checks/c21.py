import txs
SPEC = ['c21.cpp']
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = ['RGBColor.cpp', 'CieColor.cpp', 'XmlFileHelper.cpp', 'GSString.cpp']
def setup(ex, h):
    txs.install(ex)
