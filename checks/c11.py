import re, z3
import txs, std
from sym import *
SPEC = ['c11.cpp']
NATIVE_SPEC = ['vf_c11_native.cpp']
SOURCES = ['mvrxchange/mvrxchange_message.cpp', 'mvrxchange/mvrxchange_dynamic_buffer.cpp']
FLAGS = ('-DNDEBUG',)
TRUSTED = ['contracts of nlohmann::json (parse, at, [], contains, get, iteration), of std::snprintf/strncpy and of GdtfConverter::ConvertUUID (any verdict, any uuid)']
ASSUMPTIONS = ['JSON messages: arrays (Commits, ForStationsUUID, FromStationUUID) are explored with 0 or 1 element each (bounded); every scalar member is unrestricted',
               'JSON texts: nlohmann::json itself is a dependency, taken at its documented contract']
JS = 'nlohmann::basic_json<std::map, std::vector, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TE = '_ZTIN8nlohmann6detail10type_errorE'
OOR = '_ZTIN8nlohmann6detail12out_of_rangeE'
def setup(ex, h):
    txs.install(ex)
    ex.contract(r'^snprintf$', c_snprintf)
    ex.contracts['strncpy'] = c_strncpy
    ex.contracts['vf_json_body'] = c_body
    if h != 'C11_receive_json': return
    B = r'nlohmann::basic_json<[^()]*>::'
    # every call decides its own arbitrary facts; the number identifies the call on its path
    def fork(ex, st, name):
        c = z3.Bool('json.%s#%d' % (name, st.ghost.get('jn', 0)))
        for p in reversed(st.pc):
            if p.eq(c): return True
            if z3.is_not(p) and p.arg(0).eq(c): return False
        raise Fork(c)
    ex.contracts['__cxa_begin_catch'] = c_catch
    ex.contracts['vf_exc_what'] = c_what
    def val(ex, st): return std.newmem(ex, st, 16, 'json')
    def C(pat, h):
        def w(ex, st, a, ci):
            r = h(ex, st, a, ci)
            st.ghost['jn'] = st.ghost.get('jn', 0) + 1
            return r
        ex.contract(pat, w)
    def c_parse(ex, st, a, ci): return None
    C(r'%sparse<char' % B, c_parse)
    C(r'^%sbasic_json\(' % B, std.nop); C(r'^%s~basic_json\(' % B, std.nop); C(r'^%soperator=\(' % B, lambda ex, st, a, ci: a[0])
    def c_type(ex, st, a, ci): return ex.fresh(8, 'jsontype')
    C(r'^%stype\(\) const' % B, c_type)
    for n in ('is_number', 'is_boolean', 'is_string', 'is_object', 'is_array', 'is_null', 'is_discarded'):
        C(r'^%s%s\(\) const' % (B, n), lambda ex, st, a, ci: int(fork(ex, st, 'is')))
    C(r'^bool %scontains<' % B, lambda ex, st, a, ci: int(fork(ex, st, 'contains')))
    def c_at(ex, st, a, ci):
        if fork(ex, st, 'missing'): return Throw(OOR if fork(ex, st, 'object') else TE)
        return val(ex, st)
    C(r'^%sat\(' % B, c_at)
    def c_idx(ex, st, a, ci):
        if fork(ex, st, 'notobject'): return Throw(TE)
        if ci.name.startswith('_ZNK'):
            ex.oblige(st, z3.Bool('json.present#%d' % st.ghost.get('jn', 0)), 'JSON: a member read through const [] is present')
        return val(ex, st)
    C(r'^%s(const_reference |)operator\[\]' % B, c_idx); C(r'^.*basic_json<[^()]*>& %soperator\[\]<' % B, c_idx); C(r'^.*basic_json<[^()]*> const& %soperator\[\]<' % B, c_idx)
    def c_getstr(ex, st, a, ci):
        if fork(ex, st, 'nostring'): return Throw(TE)
        ex.fresh_n += 1
        ex.gset(st, a[0], 'sstr', txs.SV([txs.Atom('sym', ('json.text%d' % ex.fresh_n,))])); return None
    C(r'^std::__cxx11::basic_string<.*%sget<std::__cxx11' % B, c_getstr)
    def c_getnum(bits):
        def f(ex, st, a, ci):
            if fork(ex, st, 'nonumber'): return Throw(TE)
            return ex.fresh(bits, 'jsonnum') if bits > 1 else int(fork(ex, st, 'true'))
        return f
    C(r'^bool %sget<bool' % B, c_getnum(1)); C(r'^unsigned int %sget<' % B, c_getnum(32))
    C(r'%soperator unsigned int<' % B, c_getnum(32)); C(r'%soperator unsigned long<' % B, c_getnum(64)); C(r'%soperator bool<' % B, c_getnum(1))
    C(r'^bool nlohmann::operator==<char const\*', lambda ex, st, a, ci: int(fork(ex, st, 'equal')))
    def c_stoul(ex, st, a, ci):
        if fork(ex, st, 'nonum'): return Throw('_ZTISt16invalid_argument')
        if fork(ex, st, 'range'): return Throw('_ZTISt12out_of_range')
        return ex.fresh(64, 'stoul')
    C(r'std::__cxx11::stoul\(', c_stoul); C(r'std::stoul\(', c_stoul)
    C(r'^std::runtime_error::(runtime_error|~runtime_error)', std.nop)
    C(r'^std::function<bool \(int, nlohmann', std.nop); C(r'^std::_Function_base::~', std.nop)
    # iteration: begin ... end over an array (other values have no elements)
    C(r'^%s(begin|end)\(\) const' % B, lambda ex, st, a, ci: None)
    def c_ne(ex, st, a, ci):
        n = ('jsonit', a[0].obj.id)
        if st.ghost.get(n): return 0
        if fork(ex, st, 'more'): return 1
        return 0
    C(r'iter_impl<.*>::operator!=', c_ne)
    C(r'iter_impl<.*>::operator\*\(\) const', lambda ex, st, a, ci: val(ex, st))
    def c_inc(ex, st, a, ci): st.ghost[('jsonit', a[0].obj.id)] = 1; return a[0]
    C(r'iter_impl<.*>::operator\+\+\(\)', c_inc)
    def c_uuid(ex, st, a, ci):
        for i in range(4): ex.store(st, Ptr(a[1].obj, ex.addoff(a[1].off, 4 * i), a[1].null, a[1].key), ex.fresh(32, 'uuid'), INT(32), 4)
        return int(fork(ex, st, 'uuidok'))
    C(r'^SceneData::GdtfConverter::ConvertUUID\(VectorworksMVR::TXString const&, VectorworksMVR::MvrUUID&\)', c_uuid)
    C(r'^std::exception::what\(\) const|^nlohmann::detail::exception::what\(\) const', c_what)
    C(r'^VectorworksMVR::TXString::(TXString|~TXString)', std.nop)
def c_catch(ex, st, a, ci):
    """the caught object: its virtual functions are what() under contract"""
    e = std.newmem(ex, st, 16, 'caught'); v = std.newmem(ex, st, 64, 'caught vtable')
    w = st.wos(v.obj)
    for o in range(0, 64, 8): w.cells[o] = (8, FnRef('vf_exc_what', ex.prog.mods[0]))
    st.wos(e.obj).cells[0] = (8, v)
    return e
def c_what(ex, st, a, ci): return std.newmem(ex, st, 16, 'what')
def c_body(ex, st, a, ci):
    f = [x for x in ex.prog.mods[0].funcs if x == '_ZN17MVRxchangeNetwork16MVRxchangePacket7SetBodyEmPc']
    n = ex.fresh(64, 'bodysize'); st.assume(z3.ULT(n, BV(1 << 40, 64)))
    src = std.newmem(ex, st, n, 'json text'); st.wos(src.obj).arr = z3.Array('in.jsontext', z3.BitVecSort(64), z3.BitVecSort(8))
    return Inline('_ZN17MVRxchangeNetwork16MVRxchangePacket7SetBodyEmPc', [a[0], n, src])
def c_snprintf(ex, st, a, ci):
    """writes at most n bytes, terminated"""
    ex.memok(st, a[0], a[1], 'snprintf write')
    blur(ex, st, a[0], a[1])
    return ex.fresh(32, 'snprintf')
def blur(ex, st, p, n):
    if not isc(n): raise Unsupported('symbolic size')
    w = st.wos(p.obj)
    ex.clear_range(st, p.obj, w, p.off, n)
    i = 0
    while i < n:
        k = 8 if i + 8 <= n else 1
        w.cells[p.off + i] = (k, ex.fresh(8 * k, 'txt')); i += k
def c_strncpy(ex, st, a, ci):
    """writes exactly n bytes; reads the source up to its end or n"""
    d, s, n = a
    l = ex.strlen_hook(ex, st, s)
    if l is None: return std.i_strncpy(ex, st, a, ci)
    ex.memok(st, d, n, 'strncpy write')
    blur(ex, st, d, n)
    return d
