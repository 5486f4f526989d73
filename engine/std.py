"""Contracts of the C/C++ runtime and of the harness interface (spec/vf.h)."""
import re, z3
from sym import *

def cstr(ex, st, p):
    """concrete C string at p"""
    out = bytearray()
    off = p.off
    if not isc(off): raise Unsupported('C string at symbolic offset')
    while True:
        v = ex.load(st, Ptr(p.obj, off, p.null, p.key), INT(8), 1, 'string read')
        if not isc(v): raise Unsupported('symbolic byte in a constant string')
        if v == 0: return out.decode('utf-8', 'replace')
        out.append(v); off += 1

def newmem(ex, st, n, name='new'):
    ex.fresh_n += 1
    o = ex.new_obj(st, '%s#%d' % (name, ex.fresh_n), n, 'heap')
    return Ptr(o, 0)

def i_new(ex, st, a, ci):
    n = a[0]
    if not isc(n):
        ex.assumed.add('operator new does not return for sizes of 2^47 bytes or more (it throws bad_alloc; paths that run out of memory are not verified)')
        st.assume(z3.ULT(n, BV(1 << 47, 64)))
        if not ex.feasible(st): raise PathEnd()
    elif n >= 1 << 47: raise PathEnd()
    return newmem(ex, st, n)
def i_malloc(ex, st, a, ci): return newmem(ex, st, a[0], 'malloc')
def i_calloc(ex, st, a, ci):
    n = ex.binop(st, 'mul', INT(64), a[0], a[1])
    p = newmem(ex, st, n, 'calloc')
    if isc(n): p.obj.meta['zero'] = [(0, n)]
    else: st.wos(p.obj).arr = z3.K(z3.BitVecSort(64), BV(0, 8))
    return p
def i_free(ex, st, a, ci):
    p = a[0]
    if p is UNDEF: p = ex.deundef(p, PTR)
    nl = ex.pnull(p)
    if p.obj is None:
        if isc(p.off) and p.off == 0: return None
        ex.oblige(st, nl if not isinstance(nl, bool) else nl, 'memory: free of a wild pointer')
        raise PathEnd() if nl is False else None if False else PathEnd()
    if nl is not False:
        if isinstance(nl, bool): return None
        if ex.decide(st, nl): return None
    os_ = st.os(p.obj)
    if not os_.alive:
        ex.oblige(st, False, 'memory: double free'); raise PathEnd()
    if p.obj.kind in ('alloca', 'global'):
        ex.oblige(st, False, 'memory: free of non-heap object'); raise PathEnd()
    if not (isc(p.off) and p.off == 0):
        ex.oblige(st, bv(p.off, 64) == BV(0, 64), 'memory: free of interior pointer')
    if p.obj.fam and p.key is not None:
        # an element of an input family: its liveness is tracked per key
        h = p.obj.meta.get('onfree')
        if h: h(ex, st, p); return None
        raise Unsupported('free of a family element')
    hook = p.obj.meta.get('onfree')
    if hook: hook(ex, st, p)
    w = st.wos(p.obj); w.alive = False
    return None
def i_realloc(ex, st, a, ci):
    p, n = a
    if p.obj is None: return newmem(ex, st, n, 'realloc')
    q = newmem(ex, st, n, 'realloc')
    old = st.os(p.obj).size
    if isc(old) and isc(n): m = min(old, n)
    else: m = z3.If(z3.ULT(bv(old, 64), bv(n, 64)), bv(old, 64), bv(n, 64))
    ex.memcpy(st, q, p, m, 'realloc')
    st.wos(p.obj).alive = False
    return q

def i_memcpy(ex, st, a, ci): ex.memcpy(st, a[0], a[1], a[2], 'memcpy'); return a[0]
def i_memset(ex, st, a, ci):
    c = a[1]
    c = c & 255 if isc(c) else z3.Extract(7, 0, c)
    ex.memset(st, a[0], c, a[2]); return a[0]
def bload(ex, st, p, i):
    return ex.load(st, Ptr(p.obj, ex.addoff(p.off, i), p.null, p.key), INT(8), 1, 'string read')
def diff32(x, y):
    if isc(x) and isc(y): return (x - y) & mask(32)
    return z3.ZeroExt(24, bv(x, 8)) - z3.ZeroExt(24, bv(y, 8))
def i_memcmp(ex, st, a, ci):
    n = a[2]
    if not isc(n):
        # the bytes compared must be there; the verdict is arbitrary
        ex.memok(st, a[0], n, 'memcmp read'); ex.memok(st, a[1], n, 'memcmp read')
        return ex.fresh(32, 'memcmp')
    if n > 4096: raise Unsupported('memcmp of %d' % n)
    if n: ex.memok(st, a[0], n, 'memcmp read'); ex.memok(st, a[1], n, 'memcmp read')
    r = 0
    for i in reversed(range(n)):
        # the whole ranges have been checked
        x, y = [ex.load_raw(st, Ptr(p.obj, ex.addoff(p.off, i), p.null, p.key), INT(8), 1) for p in a[:2]]
        d = diff32(x, y)
        if isc(d):
            if d: r = d
        else: r = z3.If(bv(x, 8) == bv(y, 8), bv(r, 32), d)
    return simp(r)
def i_strlen(ex, st, a, ci):
    p = a[0]
    i = 0
    while True:
        v = bload(ex, st, p, i)
        if v is UNDEF: raise Unsupported('strlen of uninitialised memory')
        if isc(v):
            if v == 0: return i
        else:
            os_ = st.os(p.obj)
            if os_.arr is not None and not z3.is_bv_value(z3.simplify(v)) :
                h = ex.strlen_hook
                if h: 
                    r = h(ex, st, p)
                    if r is not None: return r
            if ex.decide(st, v == BV(0, 8)): return i
        i += 1
        if i > 4096: raise Unsupported('strlen over %d symbolic bytes' % i)
def i_strcmp(ex, st, a, ci, n=None):
    i = 0
    while n is None or i < n:
        x, y = bload(ex, st, a[0], i), bload(ex, st, a[1], i)
        if isc(x) and isc(y):
            if x != y: return (x - y) & mask(32)
            if x == 0: return 0
        else:
            e = bv(x, 8) == bv(y, 8)
            if not ex.decide(st, e): return diff32(x, y)
            if isc(x) or isc(y):
                if (x if isc(x) else y) == 0: return 0
            elif ex.decide(st, x == BV(0, 8)): return 0
        i += 1
    return 0
def i_strncmp(ex, st, a, ci):
    if not isc(a[2]): raise Unsupported('strncmp of symbolic length')
    return i_strcmp(ex, st, a, ci, a[2])
def i_strcpy(ex, st, a, ci):
    n = i_strlen(ex, st, [a[1]], ci)
    ex.memcpy(st, a[0], a[1], ex.addoff(n, 1), 'strcpy'); return a[0]
def i_strncpy(ex, st, a, ci):
    if not isc(a[2]): raise Unsupported('strncpy of symbolic length')
    z = False
    for i in range(a[2]):
        if not z:
            v = bload(ex, st, a[1], i)
            if isc(v): z = v == 0
            elif ex.decide(st, v == BV(0, 8)): z = True
        ex.store(st, Ptr(a[0].obj, ex.addoff(a[0].off, i), a[0].null, a[0].key), 0 if z else v, INT(8), 1, 'strncpy write')
    return a[0]

# ---- exceptions
def c_alloc_exc(ex, st, a, ci): return newmem(ex, st, a[0], 'exception')
def c_throw(ex, st, a, ci):
    t = a[1]
    nm = t.obj.meta.get('glob') if isinstance(t, Ptr) and t.obj is not None else '?'
    return Throw(nm)
def c_throwstd(ty):
    return lambda ex, st, a, ci: Throw(ty)
def nop(ex, st, a, ci): return None
def ret0(ex, st, a, ci): return 0
def ret1(ex, st, a, ci): return 1

def c_unreach(ex, st, a, ci):
    ex.oblige(st, False, 'control: abnormal termination (%s)' % ex.dem(ci.name)); raise PathEnd()

# ---- harness interface
def sym_name(ex, st, p): 
    n = cstr(ex, st, p)
    c = st.ghost.get(('inname', n), 0)
    st.ghost[('inname', n)] = c + 1
    return n if c == 0 else '%s@%d' % (n, c)
def h_sym(bits):
    def h(ex, st, a, ci):
        n = sym_name(ex, st, a[0])
        v = z3.Bool('in.' + n) if bits == 1 else z3.BitVec('in.' + n, bits)
        ex.inputs[n] = (bits, v)
        return v
    return h
def h_symreal(ex, st, a, ci):
    n = sym_name(ex, st, a[0])
    if ex.fpmode == 'real': v = z3.Real('in.' + n)
    else: v = z3.BitVec('in.' + n, 64)
    ex.inputs[n] = ('f64', v)
    return v
def h_range(ex, st, a, ci):
    n = sym_name(ex, st, a[0])
    v = z3.BitVec('in.' + n, 64)
    ex.inputs[n] = (64, v)
    st.assume(z3.And(z3.UGE(v, bv(a[1], 64)), z3.ULE(v, bv(a[2], 64))))
    return v
def h_choice(ex, st, a, ci):
    """finite case split: every value lo..hi is explored with a concrete value"""
    n = sym_name(ex, st, a[0])
    v = z3.BitVec('in.' + n, 64)
    ex.inputs[n] = (64, v)
    lo, hi = a[1], a[2]
    if not (isc(lo) and isc(hi)): raise Unsupported('vf_choice with symbolic bounds')
    st.assume(z3.And(z3.UGE(v, BV(lo, 64)), z3.ULE(v, BV(hi, 64))))
    for k in range(lo, hi):
        if ex.decide(st, v == BV(k, 64)): return k
    return hi
def asbool(v):
    """bool argument (i1 / i8 / i32)"""
    if isc(v): return v != 0
    if z3.is_bool(v): return v
    v = z3.simplify(v)
    if z3.is_bool(v): return v
    return v != BV(0, v.size())
def h_assume(ex, st, a, ci):
    c = asbool(a[0])
    if a[0] is UNDEF: raise Unsupported('assume(undef)')
    st.assume(c if isinstance(c, bool) else z3.simplify(c))
    if not isinstance(c, bool) and not ex.feasible(st): raise PathEnd()
    return None
def h_assert(ex, st, a, ci):
    if a[0] is UNDEF: ex.oblige(st, False, cstr(ex, st, a[1]) + ' (undefined value)'); return None
    ex.oblige(st, asbool(a[0]), cstr(ex, st, a[1])); return None
def h_cover(ex, st, a, ci):
    n = cstr(ex, st, a[0])
    if n not in ex.covered and not ex.quiet:
        if ex.rounded: import mixed; r, sol = mixed.check(list(ex.axioms) + list(st.pc), ex.timeout, True)
        else: r, sol = ex._check(list(st.pc), None, True)
        if r == z3.sat: ex.covered.add(n)
    ex.coverpts.add(n)
    return None
def h_fail(ex, st, a, ci):
    ex.oblige(st, False, cstr(ex, st, a[0])); raise PathEnd()
def h_bytes(ex, st, a, ci):
    """fresh heap block of a[1] bytes with arbitrary content"""
    n = sym_name(ex, st, a[0])
    arr = z3.Array('in.' + n, z3.BitVecSort(64), z3.BitVecSort(8))
    sz = a[1]
    if isc(sz) and sz <= ex.small_block:
        o = ex.new_obj(st, 'in:' + n, sz, 'heap')
        w = st.wos(o)
        for i in range(sz): w.cells[i] = (1, z3.Select(arr, BV(i, 64)))
    else:
        o = ex.new_obj(st, 'in:' + n, sz, 'heap', arr=arr)
    ex.inputs[n] = ('bytes', arr, sz)
    return Ptr(o, 0)
def h_slots(ex, st, a, ci):
    """fresh block of a[1] pointers: slot a[2] holds a[3], the others arbitrary addresses"""
    n = sym_name(ex, st, a[0])
    k = a[1]
    o = ex.new_obj(st, 'in:' + n, k * 8 if isc(k) else k << 3, 'heap')
    st.wos(o).view = (k * 8 if isc(k) else k << 3, a[2], a[3], n)
    return Ptr(o, 0)
def h_havoc(ex, st, a, ci):
    """arbitrary content for an existing block"""
    n = sym_name(ex, st, a[0])
    p, sz = a[1], a[2]
    ex.memok(st, p, sz, 'havoc')
    arr = z3.Array('in.' + n, z3.BitVecSort(64), z3.BitVecSort(8))
    ex.inputs[n] = ('bytes', arr, sz)
    os_ = st.os(p.obj)
    if isc(sz) and isc(p.off) and os_.arr is None:
        w = st.wos(p.obj)
        ex.clear_range(st, p.obj, w, p.off, sz)
        for i in range(sz): w.cells[p.off + i] = (1, z3.Select(arr, BV(i, 64)))
    elif isc(sz) and sz <= 256:
        for i in range(sz): ex.store_raw(st, Ptr(p.obj, ex.addoff(p.off, i), p.null, p.key), z3.Select(arr, BV(i, 64)), INT(8), 1)
    else: raise Unsupported('havoc of symbolic block')
    return None
def h_symbolic_end(ex, st, a, ci): return None

def h_live(ex, st, a, ci):
    return bool(a[0].obj is not None and st.os(a[0].obj).alive)
def h_region(ex, st, a, ci):
    a[0].obj.meta['regions'] = tuple(x for x in a[0].obj.meta.get('regions', ()) if x[0] != a[0].off) + ((a[0].off, a[1]),)
    return None
def install(ex):
    ex.inputs = {}; ex.covered = set(); ex.coverpts = set(); ex.small_block = 512
    ex.strlen_hook = None
    C = ex.contracts
    for n in ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t'): C[n] = i_new
    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): C[n] = i_free
    C['malloc'] = i_malloc; C['calloc'] = i_calloc; C['realloc'] = i_realloc
    C['memcpy'] = C['memmove'] = i_memcpy; C['memset'] = i_memset; C['memcmp'] = C['bcmp'] = i_memcmp
    C['strlen'] = i_strlen; C['strcmp'] = i_strcmp; C['strncmp'] = i_strncmp; C['strcpy'] = i_strcpy; C['strncpy'] = i_strncpy
    C['__cxa_allocate_exception'] = c_alloc_exc; C['__cxa_throw'] = c_throw
    C['__cxa_free_exception'] = nop
    C['__cxa_begin_catch'] = lambda ex, st, a, ci: a[0]
    C['__cxa_end_catch'] = nop
    C['__cxa_get_exception_ptr'] = lambda ex, st, a, ci: a[0]
    C['__cxa_rethrow'] = lambda ex, st, a, ci: Throw(st.exc[0])
    C['__cxa_guard_acquire'] = ret1; C['__cxa_guard_release'] = nop; C['__cxa_guard_abort'] = nop
    C['__cxa_atexit'] = ret0
    C['__clang_call_terminate'] = C['_ZSt9terminatev'] = C['__cxa_pure_virtual'] = C['abort'] = C['__assert_fail'] = c_unreach
    C['_ZSt17__throw_bad_allocv'] = c_throwstd('_ZTISt9bad_alloc')
    C['_ZSt28__throw_bad_array_new_lengthv'] = c_throwstd('_ZTISt20bad_array_new_length')
    C['_ZSt20__throw_length_errorPKc'] = c_throwstd('_ZTISt12length_error')
    C['_ZSt19__throw_logic_errorPKc'] = c_throwstd('_ZTISt11logic_error')
    C['_ZSt20__throw_out_of_rangePKc'] = C['_ZSt24__throw_out_of_range_fmtPKcz'] = c_throwstd('_ZTISt12out_of_range')
    C['vf_u8'] = h_sym(8); C['vf_u16'] = h_sym(16); C['vf_u32'] = h_sym(32); C['vf_u64'] = h_sym(64); C['vf_bool'] = h_sym(1)
    C['vf_f64'] = h_symreal; C['vf_range'] = h_range; C['vf_choice'] = h_choice
    C['vf_assume'] = h_assume; C['vf_assert'] = h_assert; C['vf_cover'] = h_cover; C['vf_fail'] = h_fail
    C['vf_bytes'] = h_bytes; C['vf_slots'] = h_slots; C['vf_havoc'] = h_havoc; C['vf_region'] = h_region; C['vf_live'] = h_live; C['vf_native'] = lambda ex, st, a, ci: 0
    ret0th = lambda ex, st, a, ci: a[0]
    for pat in (r'^(std::ostream|std::basic_ostream<.*>)& std::__ostream_insert', r'^std::(ostream|basic_ostream<.*>)::(operator<<|put|flush|_M_insert)',
                r'^std::(ostream|basic_ostream<.*>)& std::(endl|flush|operator<<)'):
        ex.contract(pat, ret0th)
