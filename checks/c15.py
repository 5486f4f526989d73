import re, z3
import txs, std
from sym import *
SPEC = ['c15.cpp']
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = ['Wrapper/ZIPFileBuffer.cpp', 'Wrapper/ZIPFileImpl.cpp']
TRUSTED = ['contract of CZIPFileImpl::Inflate (any verdict; on success any content in the output buffer)']
ASSUMPTIONS = ['archives below 2^40 bytes', 'entry names and comments of at most 65535 bytes when written (the format holds no more)', 'decompression (miniz) is not under contract']
def c_inflate(ex, st, a, ci):
    ex.memok(st, a[1], a[2], 'compressed data')
    return int(ex.decide(st, z3.Bool('inflate.ok#%d' % st.ghost.get('inflates', 0))))
def number(k):
    def h(ex, st, a, ci):
        ex.memok(st, a[0], 8, 'archive object')
        ex.store(st, a[1], ex.fresh(8 * k, 'read'), INT(8 * k))
        p = ex.load(st, a[2], INT(32))
        adv = z3.Bool(ex.fresh(32, 'whole').decl().name() + '.b')
        ex.store(st, a[2], simp(z3.If(adv, bv(p, 32) + BV(k, 32), bv(p, 32))), INT(32))
        return None
    return h
def raw(ex, st, a, ci):
    n = ex.load(st, a[2], INT(64))
    if not (isc(n) and n == 0):
        os_ = ex.memok(st, a[3], n, 'archive bytes written')
        w = st.wos(a[3].obj)
        if w.arr is not None: w.arr = z3.Array('archive#%s' % ex.fresh(8, 'a').decl().name(), z3.BitVecSort(64), z3.BitVecSort(8))
        else:
            if not isc(a[3].off): raise Unsupported('archive bytes to a computed place')
            ex.clear_range(st, a[3].obj, w, a[3].off, 64)
            for i in range(64): w.cells[a[3].off + i] = (1, ex.fresh(8, 'archive'))
    got = ex.fresh(64, 'got')
    st.assume(z3.ULE(got, bv(n, 64)))
    ex.store(st, a[2], got, INT(64))
    p = ex.load(st, a[1], INT(32))
    ex.store(st, a[1], simp(bv(p, 32) + z3.Extract(31, 0, got)), INT(32))
    return None
def setup(ex, h):
    txs.install(ex)
    if '_walk_' in h and h != 'C15_walk_unopened':
        ex.contract(r'CZIPFileImpl::ReadLong\(', number(4)); ex.contract(r'CZIPFileImpl::ReadShort\(', number(2)); ex.contract(r'CZIPFileImpl::ReadFromFile\(', raw)
    ex.contract(r'CZIPFileImpl::Inflate\(', c_inflate)
    ex.contract(r'GdtfFixture::AddError\(', std.nop); ex.contract(r'GdtfParsingError::', std.nop)
