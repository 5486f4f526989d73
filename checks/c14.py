import txs
SPEC = ['c14.cpp']
SOURCES = ['Wrapper/ZIPFileBuffer.cpp', 'Wrapper/ZIPFileImpl.cpp']
ASSUMPTIONS = ['sizes below 2^40 bytes', 'ZIPFileBuffer::Open/Close on a file identifier (real file I/O) is not under contract here']
def setup(ex, h):
    txs.install(ex)
