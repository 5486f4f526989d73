import txs
SPEC = ['c10.cpp']
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = ['UUID.cpp']
def setup(ex, h):
    txs.install(ex)
