"""Parser for the textual LLVM IR that clang emits for /repo's sources.

Only what the executor needs is kept: types, constants, instructions.  Function
bodies are parsed on demand.  An instruction or constant the parser does not
know raises IRError (the check then ends as an *error*, never as a verdict).
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', 'name', '_sz', '_al')
    def __init__(s, k, n=0, el=None, els=None, packed=False, name=None):
        s.k = k; s.n = n; s.el = el; s.els = els; s.packed = packed; s.name = name
        s._sz = None; s._al = None
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'named': return '%' + s.name
        if s.k == 'array': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.els))
        return s.k

PTR = Ty('ptr'); VOID = Ty('void'); DOUBLE = Ty('double'); FLOAT = Ty('float')
LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token'); X86FP = Ty('x86_fp80')
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+)
 | (?P<cstr>c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hexfp>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:e[+-]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<punct>[\[\]{}()<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mo = m(s, pos)
        if not mo:
            if s[pos] == ';':
                e = s.find('\n', pos)
                pos = n if e < 0 else e
                continue
            raise IRError('token at %r' % s[pos:pos+40])
        k = mo.lastgroup
        if k != 'ws':
            out.append((k, mo.group(k)))
        pos = mo.end()
    return out

def unq(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','writeonly','readnone',
  'returned','inreg','nest','immarg','swiftself','swifterror','dead_on_unwind','writable','noalias','nofree','allocptr','allocalign','noext','nofpclass'}
PARAM_ATTRS_P = {'dereferenceable','dereferenceable_or_null','align','sret','byval','byref','inalloca','preallocated','elementtype','range','nofpclass','captures','initializes','memory'}
FNHEAD = {'dso_local','dso_preemptable','internal','linkonce_odr','weak_odr','weak','linkonce','private','external','available_externally','hidden','protected','default','unnamed_addr','local_unnamed_addr',
  'fastcc','ccc','coldcc','tail','musttail','notail','extern_weak','common','appending','constant','global','thread_local','addrspace','dllexport','dllimport','externally_initialized','extern_weak'}
FASTM = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

# value operand encodings (tuples):
#  ('l',name) ('g',name) ('i',int) ('fp',bits) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)]) ('str',bytes) ('ce',op,...) ('meta',)
class P:
    """token cursor"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.mod = mod
    def peek(s): return s.t[s.i] if s.i < len(s.t) else (None, None)
    def pk(s, v): return s.i < len(s.t) and s.t[s.i][1] == v
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v:
            s.i += 1; return True
        return False
    def exp(s, v):
        x = s.next()
        if x[1] != v: raise IRError('expected %r got %r at %s' % (v, x, ' '.join(a for _, a in s.t[max(0, s.i-10):s.i+10])))
    def end(s): return s.i >= len(s.t)

    def ty(s):
        k, v = s.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = INT(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if s.acc('addrspace'):
                    s.exp('('); s.next(); s.exp(')')
            elif v == 'void': t = VOID
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'x86_fp80': t = X86FP
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'token': t = TOKEN
            elif v == 'opaque': t = Ty('opaque')
            else: raise IRError('type %r' % v)
        elif k == 'local':
            t = Ty('named', name=unq(v))
        elif v == '[':
            n = int(s.next()[1]); s.exp('x'); el = s.ty(); s.exp(']')
            t = Ty('array', n=n, el=el)
        elif v == '{':
            els = []
            if not s.acc('}'):
                els.append(s.ty())
                while s.acc(','): els.append(s.ty())
                s.exp('}')
            t = Ty('struct', els=els)
        elif v == '<':
            if s.acc('{'):
                els = []
                if not s.acc('}'):
                    els.append(s.ty())
                    while s.acc(','): els.append(s.ty())
                    s.exp('}')
                s.exp('>')
                t = Ty('struct', els=els, packed=True)
            else:
                n = int(s.next()[1]); s.exp('x'); el = s.ty(); s.exp('>')
                t = Ty('vec', n=n, el=el)
        else:
            raise IRError('type tok %r' % v)
        # function type suffix
        if s.pk('('):
            # ret (args...)
            s.next()
            args = []; va = False
            while not s.acc(')'):
                if s.acc('...'): va = True
                else: args.append(s.ty())
                s.acc(',')
            t = Ty('func', el=t, els=args, packed=va)
        return t

    def attrs(s):
        """skip parameter attributes; returns dict of interesting ones"""
        d = {}
        while True:
            k, v = s.peek()
            if k == 'word' and v in PARAM_ATTRS:
                s.next(); d[v] = True
            elif k == 'word' and v in PARAM_ATTRS_P:
                s.next()
                if s.acc('('):
                    depth = 1; toks = []
                    while depth:
                        kk, vv = s.next()
                        if vv == '(': depth += 1
                        if vv == ')': depth -= 1
                        toks.append((kk, vv))
                    d[v] = toks[:-1]
                else:
                    s.next()
            elif k == 'str':
                s.next()
                if s.acc('='): s.next()
            elif k == 'attr':
                s.next()
            else:
                return d

    def val(s, ty):
        k, v = s.next()
        if k == 'local': return ('l', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if ty.k in ('double', 'float'):
                import struct
                return ('fp', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            return ('i', int(v))
        if k == 'hexfp':
            if v[2] in 'KLMHR': return ('fpx', v)
            return ('fp', int(v, 16))
        if k == 'cstr':
            b = v[2:-1]
            b = re.sub(r'\\(\\|[0-9A-Fa-f]{2})', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), b)
            return ('str', b.encode('latin1'))
        if k == 'meta' or (k == 'punct' and v == '!'):
            return ('meta',)
        if k == 'word':
            if v == 'true': return ('i', 1)
            if v == 'false': return ('i', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('zero',)
            if v in ('getelementptr',):
                while s.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    s.next()
                    if s.pk('('):
                        # inrange(...) or the argument list; inrange(a, b) only after inrange
                        if s.t[s.i-1][1] == 'inrange':
                            while s.next()[1] != ')': pass
                s.exp('(')
                sty = s.ty(); s.exp(',')
                pt = s.ty(); s.attrs(); pv = s.val(pt)
                idx = []
                while s.acc(','):
                    if s.acc('inrange'):
                        pass
                    it = s.ty(); idx.append((it, s.val(it)))
                s.exp(')')
                return ('ce', 'gep', sty, pv, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.exp('('); ft = s.ty(); fv = s.val(ft); s.exp('to'); tt = s.ty(); s.exp(')')
                return ('ce', v, ft, fv, tt)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                while s.peek()[1] in ('nuw', 'nsw'): s.next()
                s.exp('('); t1 = s.ty(); a = s.val(t1); s.exp(','); t2 = s.ty(); b = s.val(t2); s.exp(')')
                return ('ce', 'bin', v, t1, a, b)
            if v in ('icmp',):
                pr = s.next()[1]
                s.exp('('); t1 = s.ty(); a = s.val(t1); s.exp(','); t2 = s.ty(); b = s.val(t2); s.exp(')')
                return ('ce', 'icmp', pr, t1, a, b)
            if v == 'asm':
                return s._asm()
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return s.val(ty)
        if v == '[' or v == '{' or v == '<':
            if v == '<' and s.pk('{'):
                s.next(); close = '}'; extra = '>'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[v]; extra = None
            els = []
            if not s.acc(close):
                while True:
                    t = s.ty(); els.append((t, s.val(t)))
                    if not s.acc(','): break
                s.exp(close)
            if extra: s.exp(extra)
            return ('agg', els)
        raise IRError('value %r (%s)' % (v, ty))

    def _asm(s):
        while s.peek()[0] == 'word': s.next()
        a = s.next()[1]; s.exp(','); s.next()
        return ('asm', a)

    def tv(s):
        t = s.ty()
        s.attrs()
        if t.k == 'metadata':
            # metadata operand: skip till , or )
            depth = 0
            while not s.end():
                k, v = s.peek()
                if depth == 0 and v in (',', ')'): break
                if v in '({[': depth += 1
                if v in ')}]': depth -= 1
                s.next()
            return t, ('meta',)
        return t, s.val(t)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')
    def __init__(s, op, res, ty, a, line):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.line = line
    def __repr__(s): return s.line.strip()

class Block:
    __slots__ = ('name', 'insts', 'phis', 'idx')
    def __init__(s, name): s.name = name; s.insts = []; s.phis = []; s.idx = 0

class Func:
    def __init__(s, name, mod, head, body):
        s.name = name; s.mod = mod; s.head = head; s.body = body
        s._parsed = False
    def parse(s):
        if s._parsed: return s
        p = P(tokenize(s.head), s.mod)
        p.exp('define')
        s.linkage = None
        while p.peek()[1] in FNHEAD:
            v = p.next()[1]
            if v in ('internal', 'linkonce_odr', 'private', 'weak_odr', 'available_externally'): s.linkage = v
        p.attrs()
        s.ret = p.ty()
        p.next()
        p.exp('(')
        s.params = []
        n = 0
        s.sret = None
        s.vararg = False
        while not p.acc(')'):
            if p.acc('...'): s.vararg = True; p.acc(','); continue
            t = p.ty(); at = p.attrs()
            k, v = p.peek()
            if k == 'local':
                p.next(); nm = unq(v)
            else:
                nm = str(n)
            n += 1
            if 'sret' in at: s.sret = len(s.params)
            s.params.append((t, nm, at))
            p.acc(',')
        s.blocks = {}
        s.order = []
        cur = None
        lines = s.body
        i = 0
        N = len(lines)
        anon = n
        first = True
        while i < N:
            ln = lines[i]; i += 1
            st = ln.strip()
            if not st or st[0] == ';': continue
            m = LBL.match(ln)
            if m:
                nm = m.group(1)
                if nm.startswith('"'): nm = nm[1:-1]
                cur = Block(nm); cur.idx = len(s.order)
                s.blocks[nm] = cur; s.order.append(nm)
                continue
            if cur is None:
                nm = str(anon)
                cur = Block(nm); s.blocks[nm] = cur; s.order.append(nm)
            # multi-line: switch / invoke / landingpad
            if st.startswith('switch') and not st.rstrip().endswith(']') and '[' in st:
                while ']' not in lines[i]:
                    st += ' ' + lines[i].strip(); i += 1
                st += ' ' + lines[i].strip(); i += 1
            while i < N and (lines[i].strip().startswith('to label') or lines[i].strip() == 'cleanup' or lines[i].strip().startswith('catch ') or lines[i].strip().startswith('filter ')):
                st += ' ' + lines[i].strip(); i += 1
            ins = s.inst(st)
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.insts.append(ins)
        s._parsed = True
        return s

    def inst(s, st):
        # cut metadata and comments
        c = st.find('; ')
        m = MDCUT.search(st)
        if m: st = st[:m.start()]
        p = P(tokenize(st), s.mod)
        res = None
        k, v = p.peek()
        if k == 'local' and p.t[1][1] == '=':
            res = unq(v); p.i = 2
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        f = getattr(s, 'i_' + op, None)
        if f is None:
            if op in BIN: return s.binop(op, res, p, st)
            if op in CAST: return s.cast(op, res, p, st)
            raise IRError('instruction %s' % st)
        return f(op, res, p, st)

    def binop(s, op, res, p, st):
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FASTM: p.next()
        t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
        return Inst(op, res, t, (a, b), st)
    def cast(s, op, res, p, st):
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.ty(); a = p.val(t); p.exp('to'); t2 = p.ty()
        return Inst(op, res, t2, (t, a), st)
    def i_fneg(s, op, res, p, st):
        while p.peek()[1] in FASTM: p.next()
        t = p.ty(); a = p.val(t)
        return Inst(op, res, t, (a,), st)
    def i_freeze(s, op, res, p, st):
        t = p.ty(); a = p.val(t)
        return Inst(op, res, t, (a,), st)
    def i_alloca(s, op, res, p, st):
        p.acc('inalloca')
        t = p.ty(); cnt = None
        while p.acc(','):
            if p.acc('align'): p.next()
            else:
                ct = p.ty(); cnt = (ct, p.val(ct))
        return Inst(op, res, PTR, (t, cnt), st)
    def i_load(s, op, res, p, st):
        p.acc('atomic'); p.acc('volatile')
        t = p.ty(); p.exp(','); pt = p.ty(); a = p.val(pt)
        return Inst(op, res, t, (a,), st)
    def i_store(s, op, res, p, st):
        p.acc('atomic'); p.acc('volatile')
        t = p.ty(); v = p.val(t); p.exp(','); pt = p.ty(); a = p.val(pt)
        return Inst(op, res, t, (v, a), st)
    def i_getelementptr(s, op, res, p, st):
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
        t = p.ty(); p.exp(','); pt = p.ty(); b = p.val(pt)
        idx = []
        while p.acc(','):
            it = p.ty(); idx.append((it, p.val(it)))
        return Inst(op, res, PTR, (t, b, idx), st)
    def i_icmp(s, op, res, p, st):
        p.acc('samesign')
        pr = p.next()[1]; t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
        return Inst(op, res, t, (pr, a, b), st)
    def i_fcmp(s, op, res, p, st):
        while p.peek()[1] in FASTM: p.next()
        return s.i_icmp(op, res, p, st)
    def i_phi(s, op, res, p, st):
        while p.peek()[1] in FASTM: p.next()
        t = p.ty(); inc = []
        while True:
            p.exp('['); v = p.val(t); p.exp(','); l = unq(p.next()[1]); p.exp(']')
            inc.append((v, l))
            if not p.acc(','): break
        return Inst(op, res, t, inc, st)
    def i_select(s, op, res, p, st):
        while p.peek()[1] in FASTM: p.next()
        ct = p.ty(); c = p.val(ct); p.exp(','); t = p.ty(); a = p.val(t); p.exp(','); p.ty(); b = p.val(t)
        return Inst(op, res, t, (c, a, b), st)
    def i_br(s, op, res, p, st):
        if p.acc('label'):
            return Inst('jmp', None, VOID, unq(p.next()[1]), st)
        t = p.ty(); c = p.val(t); p.exp(','); p.exp('label'); a = unq(p.next()[1]); p.exp(','); p.exp('label'); b = unq(p.next()[1])
        return Inst('br', None, VOID, (c, a, b), st)
    def i_switch(s, op, res, p, st):
        t = p.ty(); v = p.val(t); p.exp(','); p.exp('label'); d = unq(p.next()[1]); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.ty(); cv = p.val(ct); p.exp(','); p.exp('label'); cs.append((cv[1], unq(p.next()[1])))
        return Inst('switch', None, t, (v, d, cs), st)
    def i_ret(s, op, res, p, st):
        t = p.ty()
        if t.k == 'void': return Inst('ret', None, t, None, st)
        return Inst('ret', None, t, p.val(t), st)
    def i_unreachable(s, op, res, p, st): return Inst(op, None, VOID, None, st)
    def i_fence(s, op, res, p, st): return Inst('nop', None, VOID, None, st)
    def i_resume(s, op, res, p, st):
        t = p.ty(); return Inst(op, None, t, p.val(t), st)
    def i_landingpad(s, op, res, p, st):
        t = p.ty(); cl = []; cleanup = False
        while not p.end():
            if p.acc('cleanup'): cleanup = True
            elif p.acc('catch'):
                ct = p.ty(); cl.append(('catch', p.val(ct)))
            elif p.acc('filter'):
                ct = p.ty(); cl.append(('filter', p.val(ct)))
            else: raise IRError(st)
        return Inst(op, res, t, (cl, cleanup), st)
    def i_extractvalue(s, op, res, p, st):
        t = p.ty(); a = p.val(t); ix = []
        while p.acc(','): ix.append(int(p.next()[1]))
        return Inst(op, res, t, (a, ix), st)
    def i_insertvalue(s, op, res, p, st):
        t = p.ty(); a = p.val(t); p.exp(','); t2 = p.ty(); b = p.val(t2); ix = []
        while p.acc(','): ix.append(int(p.next()[1]))
        return Inst(op, res, t, (a, t2, b, ix), st)
    def i_atomicrmw(s, op, res, p, st):
        p.acc('volatile')
        rop = p.next()[1]; pt = p.ty(); a = p.val(pt); p.exp(','); t = p.ty(); v = p.val(t)
        return Inst(op, res, t, (rop, a, v), st)
    def i_cmpxchg(s, op, res, p, st):
        raise IRError('cmpxchg')
    def i_va_arg(s, op, res, p, st):
        raise IRError('va_arg')
    def i_call(s, op, res, p, st):
        while p.peek()[1] in FASTM: p.next()
        while p.peek()[1] in FNHEAD: p.next()
        p.attrs()
        t = p.ty()
        rt = t.el if t.k == 'func' else t
        callee = p.val(PTR)
        p.exp('(')
        args = []
        sret = None
        while not p.acc(')'):
            at = p.ty(); d = p.attrs()
            if at.k == 'metadata':
                depth = 0
                while True:
                    k, v = p.peek()
                    if depth == 0 and v in (',', ')'): break
                    if v in ('(', '{', '['): depth += 1
                    if v in (')', '}', ']'): depth -= 1
                    p.next()
                args.append((at, ('meta',), d))
            else:
                av = p.val(at)
                args.append((at, av, d))
            p.acc(',')
        norm = unw = None
        if op == 'invoke':
            p.attrs()
            if p.acc('['):
                while not p.acc(']'): p.next()
            p.exp('to'); p.exp('label'); norm = unq(p.next()[1]); p.exp('unwind'); p.exp('label'); unw = unq(p.next()[1])
        return Inst(op, res, rt, (callee, args, norm, unw), st)
    i_invoke = i_call

LBL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
MDCUT = re.compile(r', !(tbaa|prof|srcloc|noundef|nonnull|range|llvm|heapallocsite|noalias|alias|align|invariant|dbg|dereferenceable|unpredictable|annotation|nosanitize|callees|tbaa\.struct)\b.*$')
BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','ptrtoint','inttoptr','bitcast','fptoui','fptosi','uitofp','sitofp','fpext','fptrunc','addrspacecast'}

DEFN = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
class Module:
    def __init__(s, text, name):
        s.name = name
        s.types = {}
        s.funcs = {}
        s.decls = {}
        s.globs = {}      # name -> raw line (parsed lazily)
        s.aliases = {}
        s._gp = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln: i += 1; continue
            c = ln[0]
            if c == '%':
                nm, rest = ln.split(' = type ', 1)
                s.types[unq(nm)] = rest
            elif c == '@':
                nm = ln[:ln.index(' = ')]
                rest = ln[len(nm)+3:]
                nm = unq(nm)
                ws = rest.split(' ', 8)
                if 'alias' in ws[:6]:
                    s.aliases[nm] = rest
                else:
                    s.globs[nm] = rest
            elif ln.startswith('define '):
                m = DEFN.search(ln)
                nm = unq('@' + m.group(1))
                j = i + 1
                while lines[j] != '}': j += 1
                s.funcs[nm] = Func(nm, s, ln[:-1].rstrip(), lines[i+1:j])
                i = j
            elif ln.startswith('declare '):
                m = DEFN.search(ln)
                nm = unq('@' + m.group(1))
                s.decls[nm] = ln
            i += 1
    def type(s, name):
        t = s.types[name]
        if isinstance(t, str):
            t = P(tokenize(t), s).ty()
            s.types[name] = t
        return t
    def res(s, t):
        while t.k == 'named': t = s.type(t.name)
        return t
    def size(s, t):
        return s.lay(t)[0]
    def lay(s, t):
        """(size, align) in bytes for x86-64 SysV"""
        t = s.res(t)
        if t._sz is not None: return t._sz, t._al
        k = t.k
        if k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b: a *= 2
            if a > 16: a = 16
            r = (a if t.n <= 64 or True else b, a)
            if t.n > 128: r = ((b + 15)//16*16, 16)
        elif k in ('ptr', 'double'): r = (8, 8)
        elif k == 'float': r = (4, 4)
        elif k == 'x86_fp80': r = (16, 16)
        elif k == 'array':
            e, a = s.lay(t.el); r = (e * t.n, a)
        elif k == 'vec':
            e, a = s.lay(t.el); r = (e * t.n, e * t.n)
        elif k == 'struct':
            off = 0; al = 1
            for e in t.els:
                es, ea = s.lay(e)
                if t.packed: ea = 1
                off = (off + ea - 1) // ea * ea + es
                al = max(al, ea)
            r = ((off + al - 1) // al * al, al)
        elif k == 'opaque': r = (0, 1)
        else: raise IRError('size of %r' % t)
        t._sz, t._al = r
        return r
    def foff(s, t, i):
        t = s.res(t)
        off = 0
        for j, e in enumerate(t.els):
            es, ea = s.lay(e)
            if t.packed: ea = 1
            off = (off + ea - 1) // ea * ea
            if j == i: return off
            off += es
        raise IRError('field')
    def glob(s, nm):
        """(type, const?, initializer or None) for a global"""
        if nm in s._gp: return s._gp[nm]
        rest = s.globs[nm]
        m = MDCUT2.search(rest)
        p = P(tokenize(rest), s)
        const = False; ext = False
        while True:
            k, v = p.peek()
            if v in FNHEAD:
                if v == 'constant': const = True; p.next(); break
                if v == 'global': p.next(); break
                if v in ('external', 'extern_weak'): ext = True
                p.next()
                if v in ('thread_local', 'addrspace') and p.acc('('):
                    while p.next()[1] != ')': pass
            else: raise IRError('global %s' % rest[:80])
        t = p.ty()
        init = None
        if not ext and not p.end() and not p.pk(','):
            init = p.val(t)
        r = (t, const, init)
        s._gp[nm] = r
        return r
MDCUT2 = re.compile(r', (align|comdat|section)\b')
