"""Contract-level model of VectorworksMVR::TXString: a string value is a rope of
concrete text, symbolic characters and opaque atoms (decimal numerals, encodings
produced by a writer under contract, arbitrary texts)."""
import re, z3, struct
from sym import *
import std

KEY = 'str'
B64 = z3.BitVecSort(64)
decl_declen = z3.Function('declen', B64, B64)

class Ch:
    """one symbolic UTF-16 unit"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'Ch(%s)' % s.v
class Atom:
    __slots__ = ('kind', 'args', 'excl')
    def __init__(s, kind, args, excl=()): s.kind = kind; s.args = args; s.excl = excl
    def __repr__(s): return '%s%r' % (s.kind, s.args)
    @property
    def name(s): return s.args[0]
def is_sym(p): return isinstance(p, Atom) and p.kind == 'sym'
def same_piece(a, b):
    if isinstance(a, Slice) or isinstance(b, Slice): return isinstance(a, Slice) and a.same(b)
    if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, Ch) and isinstance(b, Ch): return same(a.v, b.v)
    if isinstance(a, Atom) and isinstance(b, Atom):
        return a.kind == b.kind and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    return False
class Slice:
    """characters [a, b) of another string value"""
    __slots__ = ('v', 'a', 'b')
    kind = 'slice'; excl = ()
    def __init__(s, v, a, b): s.v = v; s.a = a; s.b = b
    def __repr__(s): return 'Slice(%r,%s,%s)' % (s.v, s.a, s.b)
    def same(s, o): return isinstance(o, Slice) and s.v.same(o.v) and same_off(s.a, o.a) and same_off(s.b, o.b)
ROPEAT = {}      # name of a character array -> string value
def same_off(a, b):
    if same(a, b): return True
    d = z3.simplify(bv(a, 64) - bv(b, 64))
    return z3.is_bv_value(d) and d.as_long() == 0
def at_of(c):
    """(string, index) when the character term is the opaque i-th character of a string"""
    if z3.is_expr(c) and z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(c.arg(0)):
        v = ROPEAT.get(c.arg(0).decl().name())
        if v is not None: return v, c.arg(1)
    return None
class Recur:
    """s = start + src[first .. phi+d)"""
    def __init__(s, src, phi, d): s.src = src; s.phi = phi; s.d = d
    def value(s, ex, st, st0, entry, vals, obj, off):
        init = st0.heap[obj.id].cells[off]
        a = simp(bv(entry[s.phi], 64) + bv(s.d, 64)); b = simp(bv(vals[s.phi], 64) + bv(s.d, 64))
        return SV(list(init.p) + [Slice(s.src, a, b)])
class SV:
    __slots__ = ('p',)
    def recur(s, ex, st, old, hv, nv):
        """s is the value after one iteration that started from 'old': a string built by
        appending the i-th character of another string for a counter i?"""
        if len(old.p) == 1 and isinstance(old.p[0], Atom) and str(old.p[0].args[0]).startswith('hv') and len(s.p) == 2 and s.p[0] is old.p[0]: add = s.p[1]
        elif len(s.p) == len(old.p) + 1 and all(same_piece(x, y) for x, y in zip(s.p, old.p)): add = s.p[-1]
        else: return None
        if isinstance(add, Slice): src, idx = add.v, add.a
        elif isinstance(add, Ch):
            r = at_of(add.v)
            if r is None: return None
            src, idx = r
        else: return None
        for r, x in hv.items():
            y = nv.get(r)
            if not (z3.is_expr(x) and z3.is_bv(x) and x.size() == 64) or not z3.is_expr(y): continue
            d = z3.simplify(bv(idx, 64) - x)
            if not z3.is_bv_value(d): continue
            if not same_off(y, x + BV(1, 64)): continue
            return Recur(src, r, d.as_long())
        return None
    def __init__(s, pieces):
        out = []
        for x in pieces:
            if isinstance(x, Ch):
                r = at_of(x.v)
                if r is not None:
                    if out and isinstance(out[-1], Slice) and out[-1].v.same(r[0]) and same_off(out[-1].b, r[1]):
                        out[-1] = Slice(out[-1].v, out[-1].a, simp(r[1] + BV(1, 64))); continue
            if isinstance(x, Slice) and same_off(x.a, x.b): continue
            if isinstance(x, str):
                if not x: continue
                if out and isinstance(out[-1], str): out[-1] += x; continue
            elif isinstance(x, Ch) and isc(x.v):
                c = chr(x.v)
                if out and isinstance(out[-1], str): out[-1] += c
                else: out.append(c)
                continue
            out.append(x)
        s.p = tuple(out)
    def __repr__(s): return 'S%r' % (list(s.p),)
    def same(s, o): return isinstance(o, SV) and len(s.p) == len(o.p) and all(same_piece(a, b) for a, b in zip(s.p, o.p))
    def havoc(s, ex, name):
        ex.fresh_n += 1
        return SV([Atom('sym', ('hv%d' % ex.fresh_n,))])
    @property
    def lit(s):
        if not s.p: return ''
        if len(s.p) == 1 and isinstance(s.p[0], str): return s.p[0]
        return None
EMPTY = SV([])
def L(t): return SV([t])
def dec(v): 
    v = simp(v) if not isc(v) else v
    if isc(v): return L(str(sx(v, 64)))
    return SV([Atom('dec', (v,))])
def udec(v):
    v = simp(v) if not isc(v) else v
    if isc(v): return L(str(v))
    return SV([Atom('udec', (v,))])

# ---- logical functions on atoms
_lit = {}
def litid(t):
    """id of the case-folded literal"""
    t = t.upper()
    if t not in _lit: _lit[t] = len(_lit)
    return z3.IntVal(_lit[t])
litid('')
def fold_of(a): return z3.Int('fold.%s' % aname(a))
def aname(a):
    if a.kind == 'sym': return a.args[0]
    return a.kind + '(' + ','.join(str(x) for x in a.args) + ')'
def alen(ex, st, a):
    if isinstance(a, Slice): return simp(bv(a.b, 64) - bv(a.a, 64))
    if a.kind == 'dec':
        l = decl_declen(a.args[0])
        st.assume(z3.And(z3.UGE(l, BV(1, 64)), z3.ULE(l, BV(20, 64))))
        return l
    l = z3.BitVec('len.%s' % aname(a), 64)
    st.assume(z3.ULT(l, BV(1 << 31, 64)))
    if a.kind in ('udec', 'fp'): st.assume(z3.UGE(l, BV(1, 64)))
    else: st.assume((l == BV(0, 64)) == (fold_of(a) == litid('')))
    ex.assumed.add('texts have fewer than 2^31 code units')
    return l

def reslice(ex, st, v):
    """replace slices whose ends lie on known boundaries by the text they denote"""
    out = []; ch = False
    for p in v.p:
        if isinstance(p, Slice):
            # a string never shrinks below its start: an empty range denotes no text
            if ex.valid(st, bv(p.a, 64) == bv(p.b, 64)): ch = True; continue
            try:
                a = cutpoint(ex, st, p.v, p.a, True)
                if a is not None:
                    r = cutsv(ex, st, SV(a), 0, simp(bv(p.b, 64) - bv(p.a, 64)), True)
                    out += list(r.p); ch = True; continue
            except Unsupported: pass
        out.append(p)
    return SV(out) if ch else v
def norm(ex, st, v):
    if any(isinstance(p, Slice) for p in v.p) and not ex.quiet: v = reslice(ex, st, v)
    sub = st.ghost.get('subst')
    if not sub: return v
    out = []
    ch = False
    def go(p):
        nonlocal ch
        if is_sym(p) and p.args[0] in sub:
            ch = True
            for q in sub[p.args[0]].p: go(q)
        else: out.append(p)
    for p in v.p: go(p)
    return SV(out) if ch else v

def sget(ex, st, p):
    """string value of the TXString at p"""
    ex.memok(st, p, 8, 'string access')
    v = ex.gget(st, p, KEY)
    if v is None: raise Unsupported('TXString at %r has no value' % p)
    return norm(ex, st, v)
def sput(ex, st, p, v):
    ex.memok(st, p, 8, 'string write')
    ex.gset(st, p, KEY, v)
    killbuf(ex, st, p)
def killbuf(ex, st, p):
    if p.obj.fam: return
    b = st.os(p.obj).cells.get(('cbuf', p.off))
    if b is not None:
        st.wos(b).alive = False
        del st.wos(p.obj).cells[('cbuf', p.off)]

def up16(c):
    return z3.If(z3.And(z3.UGE(c, BV(97, 16)), z3.ULE(c, BV(122, 16))), c - BV(32, 16), c)
def upc(c):
    if isc(c): return c - 32 if 97 <= c <= 122 else c
    return up16(c)

def chars(v):
    """list of units when the rope has concrete length, else None"""
    out = []
    for p in v.p:
        if isinstance(p, str): out += [ord(c) for c in p]
        elif isinstance(p, Ch): out.append(p.v)
        else: return None
    return out

def first_set(p):
    """over-approximation of the possible first characters of a non-empty piece"""
    if isinstance(p, str): return set(p[0].upper())
    if isinstance(p, Atom):
        if p.kind == 'dec': return set('-0123456789')
        if p.kind in ('udec',): return set('0123456789')
        if p.kind == 'fp': return set('-0123456789IN')
    return None
def last_set(p):
    if isinstance(p, str): return set(p[-1].upper())
    if isinstance(p, Atom):
        if p.kind in ('dec', 'udec'): return set('0123456789')
        if p.kind == 'fp': return set('0123456789FN')
    return None
def charset(p):
    if isinstance(p, str): return set(p.upper())
    if isinstance(p, Atom):
        if p.kind == 'dec': return set('-0123456789')
        if p.kind == 'udec': return set('0123456789')
        if p.kind == 'fp': return set('-.0123456789INFA')
    return None

def litnum(t, signed=True):
    """v such that the canonical decimal numeral of v is t"""
    if not re.fullmatch(r'-?(0|[1-9][0-9]*)' if signed else r'(0|[1-9][0-9]*)', t) or t == '-0': return None
    v = int(t)
    if signed and not -(1 << 63) <= v < 1 << 63: return None
    if not signed and v >= 1 << 64: return None
    return v & mask(64)

def seq(ex, st, a, b, nocase=True):
    """equality of two string values: python bool or z3 Bool"""
    if a.same(b): return True
    ca, cb = chars(a), chars(b)
    if ca is not None and cb is not None:
        if len(ca) != len(cb): return False
        cs = []
        for x, y in zip(ca, cb):
            if isc(x) and isc(y):
                if (upc(x) if nocase else x) != (upc(y) if nocase else y): return False
            else:
                x, y = bv(x, 16), bv(y, 16)
                cs.append(up16(x) == up16(y) if nocase else x == y)
        return z3.simplify(z3.And(*cs)) if cs else True
    # both made of pieces: strip equal ends
    pa, pb = list(a.p), list(b.p)
    cs = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if same_piece(x, y): pa.pop(0); pb.pop(0); continue
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[:n].upper() if nocase else x[:n]) != (y[:n].upper() if nocase else y[:n]): return False
            pa[0:1] = [x[n:]] if x[n:] else []
            pb[0:1] = [y[n:]] if y[n:] else []
            continue
        # numerals delimited by the same non-digit text (or the end)
        if isinstance(x, Atom) and isinstance(y, Atom) and x.kind == y.kind and x.kind in ('dec', 'udec'):
            nx = pa[1] if len(pa) > 1 else None
            ny = pb[1] if len(pb) > 1 else None
            fx = first_set(nx) if nx is not None else set()
            fy = first_set(ny) if ny is not None else set()
            if fx is not None and fy is not None and not (fx & set('0123456789')) and not (fy & set('0123456789')):
                cs.append(x.args[0] == y.args[0]); pa.pop(0); pb.pop(0); continue
        break
    if not pa and not pb: return z3.simplify(z3.And(*cs)) if cs else True
    while pa and pb and same_piece(pa[-1], pb[-1]): pa.pop(); pb.pop()
    def andc(c):
        if c is False: return False
        if c is True: return z3.simplify(z3.And(*cs)) if cs else True
        return z3.simplify(z3.And(*(cs + [c])))
    if not pa and not pb: return andc(True)
    if not pa or not pb:
        r = pa or pb
        return andc(empty(ex, st, SV(r)))
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(y, Atom) and not isinstance(x, Atom): x, y = y, x
        if isinstance(x, Atom) and isinstance(y, str):
            if x.kind == 'dec' or x.kind == 'udec':
                n = litnum(y, x.kind == 'dec')
                return andc(False if n is None else x.args[0] == BV(n, 64))
            if x.kind == 'fp': 
                if not re.fullmatch(r'-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?|-?(nan|inf)', y, re.I): return andc(False)
                raise Unsupported('comparison of a real numeral with %r' % y)
            if is_sym(x) and any(c in y for c in x.excl): return andc(False)
            return andc(fold_of(x) == litid(y)) if nocase else andc(z3.And(fold_of(x) == litid(y), z3.Int('exact.%s' % aname(x)) == z3.IntVal(hash(y) & 0xffffffff)))
        if isinstance(x, Atom) and isinstance(y, Atom):
            if x.kind == y.kind and x.kind in ('dec', 'udec', 'fp'): return andc(x.args[0] == y.args[0])
            if x.kind == 'enc' and y.kind == 'enc' and x.args[0] == y.args[0]:
                # equal arguments give equal texts; otherwise undetermined
                e = z3.And(*[bveq(u, w) for u, w in zip(x.args[1:], y.args[1:])])
                f = z3.simplify(z3.Or(e, fold_of(x) == fold_of(y)))
                return andc(f)
            return andc(fold_of(x) == fold_of(y)) if nocase else andc(z3.And(fold_of(x) == fold_of(y), z3.Int('exact.%s' % aname(x)) == z3.Int('exact.%s' % aname(y))))
    # quick disequalities
    fx, fy = first_set(pa[0]), first_set(pb[0])
    if fx is not None and fy is not None and not fx & fy: return False
    lx, ly = last_set(pa[-1]), last_set(pb[-1])
    if lx is not None and ly is not None and not lx & ly: return False
    sa = [charset(p) for p in pa]; sb = [charset(p) for p in pb]
    for one, other in ((pa, sb), (pb, sa)):
        if all(s is not None for s in other):
            u = set().union(*other)
            for p in one:
                if isinstance(p, str) and any(c.upper() not in u for c in p): return False
    # whole-rope folded identity (sound: an unconstrained boolean)
    if getattr(ex, 'rope_eq_free', False):
        return andc(ropeid(SV(pa)) == ropeid(SV(pb)))
    raise Unsupported('string comparison %r == %r' % (SV(pa), SV(pb)))
def bveq(u, w):
    if isc(u) and isc(w): return z3.BoolVal(u == w)
    if isinstance(u, str) or isinstance(w, str): return z3.BoolVal(u == w)
    if isc(u): u = BV(u, w.size()) if z3.is_bv(w) else u
    if isc(w): w = BV(w, u.size()) if z3.is_bv(u) else w
    return u == w
def ropeid(v):
    return z3.Int('rope.%r' % (v,))

def empty(ex, st, v):
    cs = []
    for p in v.p:
        if isinstance(p, (str, Ch)): return False
        if p.kind in ('dec', 'udec', 'fp'): return False
        if p.kind == 'enc' and p.args[0] in ex.nonempty_enc: return False
        cs.append(fold_of(p) == litid(''))
    return z3.And(*cs) if cs else True
def slen(ex, st, v):
    n = 0
    for p in v.p:
        if isinstance(p, str): n = ex.addoff(n, len(p))
        elif isinstance(p, Ch): n = ex.addoff(n, 1)
        else: n = ex.addoff(n, alen(ex, st, p))
    return n

# ---- searching and cutting
def split_sym(ex, st, a, c):
    """decide whether text atom a contains character c; splits it at the first one"""
    if c in a.excl: return None
    cont = z3.Bool('contains.%s.%d' % (aname(a), ord(c)))
    nm = aname(a)
    if ex.decide(st, cont):
        pre = Atom('sym', (nm + '<%d' % ord(c),), a.excl + (c,)); post = Atom('sym', (nm + '>%d' % ord(c),), a.excl)
        v = SV([pre, c, post])
        st.assume(fold_of(a) != litid(''))
        l = z3.BitVec('len.%s' % nm, 64)
        st.assume(l == alen(ex, st, pre) + BV(1, 64) + alen(ex, st, post))
        s = dict(st.ghost.get('subst', {})); s[nm] = v
        st.ghost['subst'] = s
        return v
    s = dict(st.ghost.get('subst', {}))
    if is_sym(a):
        na = Atom('sym', (nm + '!%d' % ord(c),), a.excl + (c,))
        s[nm] = SV([na]); st.ghost['subst'] = s
        # same text under a new name: same folded identity and length
        st.assume(fold_of(na) == fold_of(a))
        st.assume(z3.BitVec('len.%s' % aname(na), 64) == z3.BitVec('len.%s' % nm, 64))
    return False

def findlit(ex, st, v, t, start=0):
    """position of the first occurrence of literal t: (pos expr) or -1"""
    if len(t) != 1:
        cv = chars(v)
        if v.lit is not None and isc(start):
            return v.lit.find(t, start) if start <= len(v.lit) else -1
        # multi-character needle: only when it cannot straddle pieces
        pos = 0
        for p in v.p:
            if isinstance(p, str):
                i = p.find(t)
                if i >= 0: return ex.addoff(pos, i)
                pos = ex.addoff(pos, len(p))
            elif is_sym(p) and t[0] in p.excl:
                k = v.p.index(p)
                if k and not (isinstance(v.p[k - 1], str) and not any(v.p[k - 1].endswith(t[:j]) for j in range(1, len(t)))): raise Unsupported('search for %r in %r' % (t, v))
                pos = ex.addoff(pos, alen(ex, st, p))
            elif isinstance(p, Atom):
                cs = charset(p)
                if cs is None or any(c.upper() in cs for c in (t[0], t[-1])): raise Unsupported('search for %r in %r' % (t, v))
                pos = ex.addoff(pos, alen(ex, st, p))
            else: raise Unsupported('search for %r in %r' % (t, v))
        return -1
    while True:
        pos = 0; again = False
        rest = list(v.p)
        # start offset
        if not isc(start) or start:
            cut = cutpoint(ex, st, v, start)
            if cut is None: return -1
            pos = start; rest = cut
        for p in rest:
            if isinstance(p, str):
                i = p.find(t)
                if i >= 0: return ex.addoff(pos, i)
                pos = ex.addoff(pos, len(p))
            elif isinstance(p, Ch):
                if ex.decide(st, p.v == BV(ord(t), 16)): return pos
                pos = ex.addoff(pos, 1)
            elif p.kind in ('dec', 'udec', 'fp'):
                if t.upper() in charset(p):
                    if t == '-' and p.kind == 'dec':
                        if ex.decide(st, p.args[0] < BV(0, 64)): return pos
                    else: raise Unsupported('search for %r in a numeral' % t)
                pos = ex.addoff(pos, alen(ex, st, p))
            elif is_sym(p):
                if t in p.excl: pos = ex.addoff(pos, alen(ex, st, p)); continue
                split_sym(ex, st, p, t)
                v = norm(ex, st, v); again = True
                break
            else:
                if t in p.excl: pos = ex.addoff(pos, alen(ex, st, p)); continue
                cont = z3.Bool('contains.%s.%d' % (aname(p), ord(t)))
                raise Unsupported('search for %r in %r' % (t, v))
        if not again: return -1

def cutpoint(ex, st, v, n, nofork=False):
    """pieces of v from position n on (None when n is beyond the end)"""
    pos = 0
    ps = list(v.p)
    for i, p in enumerate(ps):
        if same(pos, n) or (isc(pos) and isc(n) and pos == n): return ps[i:]
        if isinstance(p, str):
            for k in range(1, len(p)):
                q = ex.addoff(pos, k)
                if isc(q) and isc(n):
                    if q == n: return [p[k:]] + ps[i + 1:]
                elif isc(q) == isc(n) and same(simp(q), simp(n)): return [p[k:]] + ps[i + 1:]
            pos = ex.addoff(pos, len(p))
        elif isinstance(p, Ch): pos = ex.addoff(pos, 1)
        else: pos = ex.addoff(pos, alen(ex, st, p))
    if isc(pos) and isc(n):
        if pos == n: return []
        if n > pos: return None
        raise Unsupported('cut inside')
    # semantic comparison against every boundary
    pos = 0
    for i, p in enumerate(ps):
        if ex.valid(st, bv(pos, 64) == bv(n, 64)): return ps[i:]
        if isinstance(p, str):
            for k in range(1, len(p)):
                if ex.valid(st, bv(ex.addoff(pos, k), 64) == bv(n, 64)): return [p[k:]] + ps[i + 1:]
            pos = ex.addoff(pos, len(p))
        elif isinstance(p, Ch): pos = ex.addoff(pos, 1)
        else: pos = ex.addoff(pos, alen(ex, st, p))
    if ex.valid(st, bv(pos, 64) == bv(n, 64)): return []
    if nofork: raise Unsupported('cut of %r at %s' % (v, n))
    if ex.decide(st, z3.UGE(bv(n, 64), bv(pos, 64))):
        if ex.decide(st, bv(n, 64) == bv(pos, 64)): return []
        return None
    # concrete small offset into a text atom: expose its first characters
    raise Unsupported('cut of %r at %s' % (v, n))

def cutsv(ex, st, v, a, n, nofork=False):
    """substring [a, a+n) clipped"""
    r = cutpoint(ex, st, v, a, nofork)
    if r is None: return EMPTY
    r = SV(r)
    if isc(n) and n >= 1 << 62: return r
    t = cutpoint(ex, st, r, n, nofork)
    if t is None or not t: return r
    # drop suffix t from r
    rp = list(r.p); t = list(SV(t).p)
    k = len(rp) - len(t)
    if isinstance(t[0], str) and isinstance(rp[k], str) and rp[k] != t[0]:
        return SV(rp[:k] + [rp[k][:len(rp[k]) - len(t[0])]])
    return SV(rp[:k])

def nosur(ex, st, v):
    """the cutting operations drop half surrogates; only texts without surrogates at the ends are modelled"""
    for q in v.p[:1] + v.p[-1:]:
        if isinstance(q, str):
            if any(0xd800 <= ord(c) < 0xe000 for c in (q[0], q[-1])): raise Unsupported('cut next to a surrogate')
        elif isinstance(q, Ch) and not ex.valid(st, z3.Or(z3.ULT(q.v, BV(0xd800, 16)), z3.UGE(q.v, BV(0xe000, 16)))): raise Unsupported('cut next to a possible surrogate')
    return v

def getat(ex, st, v, i):
    cv = chars(v)
    if cv is not None and isc(i):
        return cv[i] if i < len(cv) else None
    if cv is not None:
        n = len(cv)
        if not ex.decide(st, z3.ULT(i, BV(n, 64))): return None
        r = bv(cv[-1], 16) if cv else 0
        for k in range(n - 2, -1, -1): r = z3.If(i == BV(k, 64), bv(cv[k], 16), r)
        return r
    # rope
    if not isc(i):
        import cand
        i = simp(i)
        if not isc(i) and any('!' in x for x in cand.termvars(i)):
            # a position that is a loop variable: the character stays opaque
            inside = ex.decide(st, z3.ULT(i, bv(slen(ex, st, v), 64)))
            if not inside: return None
            nm = 'chars.%r' % (v,)
            ROPEAT[nm] = v
            return z3.Select(z3.Array(nm, B64, z3.BitVecSort(16)), i)
    pos = 0
    for p in v.p:
        l = len(p) if isinstance(p, str) else 1 if isinstance(p, Ch) else alen(ex, st, p)
        nx = ex.addoff(pos, l)
        c = z3.ULT(bv(i, 64), bv(nx, 64))
        inside = ex.decide(st, c) if not (isc(i) and isc(nx)) else i < nx
        if inside:
            off = simp(bv(i, 64) - bv(pos, 64))
            if isinstance(p, str):
                if isc(off): return ord(p[off])
                return getat(ex, st, L(p), off)
            if isinstance(p, Ch): return p.v
            arr = z3.Array('chars.%s' % aname(p), B64, z3.BitVecSort(16))
            ch = z3.Select(arr, bv(off, 64))
            if is_sym(p):
                for c in p.excl: st.assume(ch != BV(ord(c), 16))
            st.assume(ch != BV(0, 16))
            if p.kind in ('dec', 'udec') and not isc(off) and ex.rounded:
                st.assume(z3.Or(z3.And(z3.UGE(ch, BV(48, 16)), z3.ULE(ch, BV(57, 16))), z3.And(ch == BV(45, 16), off == BV(0, 64))))
            if p.kind in ('dec', 'udec') and isc(off) and off == 0:
                neg = p.args[0] < BV(0, 64) if p.kind == 'dec' else z3.BoolVal(False)
                st.assume(z3.If(neg, ch == BV(45, 16), z3.And(z3.UGE(ch, BV(48, 16)), z3.ULE(ch, BV(57, 16)))))
            return ch
        pos = nx
    return None

def toint(ex, st, v, bits):
    """value of strtol(text) truncated to bits"""
    if v.lit is not None:
        m = re.match(r'[ \t\n\r\f\v]*([-+]?[0-9]+)', v.lit)
        n = int(m.group(1)) if m else 0
        n = max(-(1 << 63), min((1 << 63) - 1, n))
        return n & mask(bits)
    p = v.p[0]
    nxt = v.p[1] if len(v.p) > 1 else None
    if isinstance(p, Atom) and p.kind in ('dec', 'udec', 'fp'):
        if nxt is not None:
            f = first_set(nxt)
            if f is None and is_sym(nxt): f = set()  if ex.decide(st, fold_of(nxt) == litid('')) else None
            if f is None or f & set('0123456789'): raise Unsupported('numeral followed by %r' % (nxt,))
        if p.kind == 'fp': 
            return z3.BitVec('fptoi.%s' % aname(p), bits)
        x = p.args[0]
        if p.kind == 'udec':
            x = z3.If(z3.UGE(x, BV(1 << 63, 64)), BV((1 << 63) - 1, 64), x)
        return x if bits == 64 else simp(z3.Extract(bits - 1, 0, x))
    if len(v.p) == 1 and isinstance(p, Atom):
        x = z3.BitVec('strtol.%s' % aname(p), 64)
        if is_sym(p): 
            base = basename_atom(p.args[0])
            if base != p.args[0]: x = z3.BitVec('strtol.%s' % base, 64)
        st.assume(z3.Implies(fold_of(p) == litid(''), x == BV(0, 64)))
        return x if bits == 64 else simp(z3.Extract(bits - 1, 0, x))
    cv = chars(v)
    if cv is not None: return z3.BitVec('strtol.%r' % (v,), bits)
    if isinstance(p, str) and not re.match(r'[ \t\n\r\f\v]*[-+]?[0-9]*$', p): return toint(ex, st, L(p), bits)
    return simp(z3.Extract(bits - 1, 0, z3.BitVec('strtol.%r' % (v,), 64))) if bits < 64 else z3.BitVec('strtol.%r' % (v,), 64)
def basename_atom(n):
    while True:
        m = re.match(r'(.*)!\d+$', n)
        if not m: return n
        n = m.group(1)

def toreal(ex, st, v):
    if v.lit is not None:
        m = re.match(r'\s*([-+]?[0-9]*\.?[0-9]*(?:[eE][-+]?[0-9]+)?)', v.lit)
        try: d = float(m.group(1))
        except Exception: d = 0.0
        bits = struct.unpack('<Q', struct.pack('<d', d))[0]
        return ex.fpconst(bits, DOUBLE)
    if len(v.p) == 1 and isinstance(v.p[0], Atom):
        p = v.p[0]
        if p.kind == 'fp' and getattr(ex, 'fp_exact', False): return p.args[0]
        if ex.rounded and p.kind in ('dec', 'udec'):
            import mixed
            return mixed.RD(z3.ToReal(z3.BV2Int(p.args[0], p.kind == 'dec')))
        if ex.fpmode == 'real': return z3.Real('strtod.%s' % aname(p))
        return z3.BitVec('strtod.%s' % aname(p), 64)
    return z3.Real('strtod.%r' % (v,)) if ex.fpmode == 'real' else z3.BitVec('strtod.%r' % (v,), 64)

# ---- C strings
def cchars(ex, st, p, n=None, w=1):
    """text of a char buffer (w bytes per unit)"""
    if p.obj is not None and not p.obj.fam:
        g = st.os(p.obj).cells.get(('cstr', p.off)) if isc(p.off) else None
        if g is not None and n is None: 
            ex.memok(st, p, 1, 'string read')
            return norm(ex, st, g)
        if g is not None and n is not None and same(simp(bv(n, 64)), simp(bv(slen(ex, st, norm(ex, st, g)), 64))): return norm(ex, st, g)
    units = []
    off = p.off
    if n is not None and not isc(n): raise Unsupported('text of symbolic length from a buffer')
    if p.obj is None:
        ex.oblige(st, False, 'memory: string read through null or wild pointer'); raise PathEnd()
    while n is None or len(units) < n:
        v = ex.load(st, Ptr(p.obj, off, p.null, p.key), INT(8 * w), w, 'string read')
        if v is UNDEF: v = ex.freshof(INT(8 * w), 'uninit')
        if isc(v):
            if v == 0: break
        elif ex.decide(st, v == BV(0, 8 * w)): break
        units.append(v)
        off = ex.addoff(off, w)
        if len(units) > 3000: raise Unsupported('unbounded text in buffer')
    if all(isc(u) for u in units):
        if w == 1: return L(bytes(units).decode('utf-8', 'replace')) 
        return L(''.join(chr(u) for u in units))
    out = []
    for u in units:
        if isc(u):
            if u >= 0x80 and w == 1: raise Unsupported('mixed non-ASCII text')
            out.append(chr(u))
        elif w == 1:
            if not ex.decide(st, z3.ULT(u, BV(0x80, 8))): raise PathEnd() if ex.ascii_only(st) else Unsupported('non-ASCII symbolic text')
            out.append(Ch(z3.ZeroExt(8, u)))
        elif w == 2: out.append(Ch(u))
        else: out.append(Ch(z3.Extract(15, 0, u)))
    return SV(out)

def nbytes(ex, st, v):
    """number of bytes of v in UTF-8 (a function of the text)"""
    cv = chars(v)
    if cv is not None:
        n = 0
        for c in cv:
            if isc(c): n += len(chr(c).encode('utf-8', 'surrogatepass'))
            else:
                if not ex.decide(st, z3.ULT(c, BV(0x80, 16))): raise Unsupported('UTF-8 of a symbolic non-ASCII character')
                n += 1
        return n
    if len(v.p) == 1 and is_sym(v.p[0]) and aname(v.p[0]).startswith('bytes!'): return alen(ex, st, v.p[0])
    b = z3.BitVec('bytes.%s' % ropeid(v), 64)
    st.assume(z3.ULT(b, BV(1 << 33, 64)))
    return b
def symbuf(ex, st, p, n, exact):
    """text made of n bytes (n symbolic) of a buffer"""
    ex.memok(st, p, n, 'string read')
    ex.fresh_n += 1
    at = Atom('sym', (('bytes!%d' if exact else 'buf%d') % ex.fresh_n,))
    l = alen(ex, st, at)
    st.assume(l == n if exact else z3.ULE(l, n))
    return SV([at])
def cbuf(ex, st, p, v, w=1):
    """char buffer holding v, owned by the string at p"""
    cv = chars(v)
    if cv is not None:
        n = len(cv)
        o = ex.new_obj(st, 'chars of string', None, 'strbuf')
        os_ = st.os(o)
        bs = []
        for c in cv:
            if isc(c):
                if w == 1: bs += list(chr(c).encode('utf-8', 'surrogatepass'))
                else: bs.append(c)
            else:
                if w == 1:
                    if not ex.decide(st, z3.ULT(c, BV(0x80, 16))): raise Unsupported('UTF-8 of a symbolic non-ASCII character')
                    bs.append(simp(z3.Extract(7, 0, c)))
                elif w == 2: bs.append(c)
                else: bs.append(z3.ZeroExt(16, c))
        for i, b in enumerate(bs): os_.cells[i * w] = (w, b)
        os_.cells[len(bs) * w] = (w, 0)
        os_.size = (len(bs) + 1) * w
    else:
        blen = nbytes(ex, st, v) if w == 1 else None
        if blen is None:
            ex.fresh_n += 1
            blen = z3.BitVec('bytes.%d' % ex.fresh_n, 64)
            st.assume(z3.ULT(blen, BV(1 << 33, 64)))
            o = ex.arr_obj(st, 'chars of string', simp(blen + BV(1, 64)))
        else:
            o = ex.arr_obj(st, 'chars of string', simp(blen + BV(1, 64)), z3.Array('chars.%s' % ropeid(v), z3.BitVecSort(64), z3.BitVecSort(8)))
        a = st.os(o).arr
        st.assume(z3.Select(a, blen) == BV(0, 8))
        i = z3.BitVec('bi', 64)
        st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, blen), z3.Select(a, i) != BV(0, 8)), patterns=[z3.Select(a, i)])) if getattr(ex, 'cstr_quant', False) else None
        st.wos(o).cells[('cslen', 0)] = blen
        o.kind = 'strbuf'
    st.wos(o).cells[('cstr', 0)] = v
    return Ptr(o, 0)

def strlen_hook(ex, st, p):
    if isc(p.off) and p.off == 0:
        c = st.os(p.obj).cells.get(('cslen', 0))
        if c is not None: return c
    return None

# ---- contracts on TXString's members
def _install(ex):
    T = 'VectorworksMVR::TXString'
    H = {}
    def reg(*names):
        def d(f):
            for n in names: H[n] = f
            return f
        return d
    def ctor(fn):
        def h(ex, st, a, ci):
            v = fn(ex, st, a)
            ex.memok(st, a[0], 8, 'string construction')
            ex.gset(st, a[0], KEY, v)
            if not a[0].obj.fam: st.wos(a[0].obj).cells.pop(('cbuf', a[0].off), None)
            return None
        return h
    enc = 'VectorworksMVR::ETXEncoding'
    C = lambda *sig: ['%s::TXString(%s)' % (T, x) for x in sig]
    for n in C(''): H[n] = ctor(lambda ex, st, a: EMPTY)
    for n in C('VectorworksMVR::TXString const&'): H[n] = ctor(lambda ex, st, a: sget(ex, st, a[1]))
    def mv(ex, st, a):
        v = sget(ex, st, a[1])
        ex.gset(st, a[1], KEY, EMPTY)
        return v
    for n in C('VectorworksMVR::TXString&&'): H[n] = ctor(mv)
    for n in C('char const*, ' + enc, 'unsigned char const*, ' + enc, 'char const*', 'unsigned char const*'):
        H[n] = ctor(lambda ex, st, a: EMPTY if ptrnull(ex, st, a[1]) else cchars(ex, st, a[1]))
    for n in C('char const*, unsigned long, ' + enc):
        H[n] = ctor(lambda ex, st, a: EMPTY if ptrnull(ex, st, a[1]) else (cchars(ex, st, a[1], a[2]) if isc(a[2]) else symbuf(ex, st, a[1], a[2], False)))
    for n in C('char16_t const*', 'unsigned short const*'): H[n] = ctor(lambda ex, st, a: EMPTY if ptrnull(ex, st, a[1]) else cchars(ex, st, a[1], None, 2))
    for n in C('wchar_t const*'): H[n] = ctor(lambda ex, st, a: EMPTY if ptrnull(ex, st, a[1]) else cchars(ex, st, a[1], None, 4))
    def chn(ex, st, a, bits):
        if not isc(a[2]): raise Unsupported('string fill of symbolic length')
        c = a[1]
        c = (c & 0xffff) if isc(c) else (z3.ZeroExt(16 - bits, c) if bits < 16 else z3.Extract(15, 0, c) if bits > 16 else c)
        return SV([Ch(c)] * a[2])
    for t, b in (('char', 8), ('unsigned char', 8), ('char16_t', 16), ('wchar_t', 32), ('unsigned short', 16)):
        H['%s::TXString(%s, unsigned long)' % (T, t)] = ctor(lambda ex, st, a, b=b: chn(ex, st, a, b))
    for n in C('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, ' + enc):
        H[n] = ctor(lambda ex, st, a: ssget(ex, st, a[1]))
    def dtor(ex, st, a, ci):
        ex.memok(st, a[0], 8, 'string destruction')
        killbuf(ex, st, a[0])
        ex.gdel(st, a[0], KEY)
        return None
    H['%s::~TXString()' % T] = dtor
    H['void std::_Destroy<%s>(%s*)' % (T, T)] = dtor
    H['void std::__new_allocator<%s>::destroy<%s>(%s*)' % (T, T, T)] = lambda ex, st, a, ci: dtor(ex, st, a[1:], ci)
    A = lambda *sig: ['%s::operator=(%s)' % (T, x) for x in sig]
    def asg(fn):
        def h(ex, st, a, ci):
            sput(ex, st, a[0], fn(ex, st, a)); return a[0]
        return h
    for n in A('VectorworksMVR::TXString const&'): H[n] = asg(lambda ex, st, a: sget(ex, st, a[1]))
    def mvasg(ex, st, a, ci):
        v = sget(ex, st, a[1])
        o = sget(ex, st, a[0])
        sput(ex, st, a[0], v)
        if not (a[0].obj is a[1].obj and same(a[0].off, a[1].off)): ex.gset(st, a[1], KEY, EMPTY)
        return a[0]
    for n in A('VectorworksMVR::TXString&&'): H[n] = mvasg
    for n in A('char const*', 'unsigned char const*'): H[n] = asg(lambda ex, st, a: EMPTY if ptrnull(ex, st, a[1]) else cchars(ex, st, a[1]))
    for n in A('char16_t const*', 'unsigned short const*'): H[n] = asg(lambda ex, st, a: EMPTY if ptrnull(ex, st, a[1]) else cchars(ex, st, a[1], None, 2))
    for n in A('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&'): H[n] = asg(lambda ex, st, a: ssget(ex, st, a[1]))
    def chv(c, bits):
        if isc(c): return chr(c & 0xffff)
        return Ch(z3.ZeroExt(16 - bits, c) if bits < 16 else z3.Extract(15, 0, c) if bits > 16 else c)
    for t, b in (('char', 8), ('unsigned char', 8), ('char16_t', 16), ('wchar_t', 32)):
        H['%s::operator=(%s)' % (T, t)] = asg(lambda ex, st, a, b=b: SV([chv(a[1], b)]))
        for op in ('+=', '<<'):
            H['%s::operator%s(%s)' % (T, op, t)] = asg(lambda ex, st, a, b=b: SV(sget(ex, st, a[0]).p + (chv(a[1], b),)))
    for op in ('+=', '<<'):
        H['%s::operator%s(VectorworksMVR::TXString const&)' % (T, op)] = asg(lambda ex, st, a: SV(sget(ex, st, a[0]).p + sget(ex, st, a[1]).p))
        for t, w in (('char const*', 1), ('unsigned char const*', 1), ('char16_t const*', 2), ('wchar_t const*', 4)):
            H['%s::operator%s(%s)' % (T, op, t)] = asg(lambda ex, st, a, w=w: SV(sget(ex, st, a[0]).p + (() if ptrnull(ex, st, a[1]) else cchars(ex, st, a[1], None, w).p)))
    for t, b, sg in (('int', 32, 1), ('long long', 64, 1), ('unsigned int', 32, 0), ('unsigned long long', 64, 0), ('long', 64, 1), ('unsigned long', 64, 0)):
        def num(ex, st, a, b=b, sg=sg):
            x = a[1]
            if isc(x): x = sx(x, b) & mask(64) if sg else x
            elif b < 64: x = (z3.SignExt if sg else z3.ZeroExt)(64 - b, x)
            d = dec(x) if sg or b < 64 else udec(x)
            return SV(sget(ex, st, a[0]).p + d.p)
        H['%s::operator<<(%s)' % (T, t)] = asg(num)
    @reg('%s::GetLength() const' % T)
    def _(ex, st, a, ci): return slen(ex, st, sget(ex, st, a[0]))
    @reg('%s::IsEmpty() const' % T)
    def _(ex, st, a, ci):
        e = empty(ex, st, sget(ex, st, a[0]))
        return b2v(e)
    @reg('%s::Clear()' % T)
    def _(ex, st, a, ci): sput(ex, st, a[0], EMPTY); return a[0]
    @reg('%s::Equal(VectorworksMVR::TXString const&) const' % T)
    def _(ex, st, a, ci): return b2v(seq(ex, st, sget(ex, st, a[0]), sget(ex, st, a[1]), False))
    def eqop(neg, l, r):
        def h(ex, st, a, ci):
            def val(p, t):
                if t == 's': return sget(ex, st, p)
                if ptrnull(ex, st, p): return None
                return cchars(ex, st, p, None, t)
            x, y = val(a[0], l), val(a[1], r)
            if x is None or y is None: return int(neg)
            e = seq(ex, st, x, y)
            if isinstance(e, bool): return int(e != neg)
            return b2v(z3.simplify(z3.Not(e) if neg else e))
        return h
    S = 'VectorworksMVR::TXString const&'
    for op, neg in (('==', False), ('!=', True)):
        for ls, lt in ((S, 's'), ('char const*', 1), ('char16_t const*', 2)):
            for rs, rt in ((S, 's'), ('char const*', 1), ('char16_t const*', 2)):
                if lt == 's' or rt == 's': H['VectorworksMVR::operator%s(%s, %s)' % (op, ls, rs)] = eqop(neg, lt, rt)
    @reg('%s::EqualNoCase(VectorworksMVR::TXString const&) const' % T)
    def _(ex, st, a, ci): return b2v(seq(ex, st, sget(ex, st, a[0]), sget(ex, st, a[1])))
    def plus(l, r):
        def h(ex, st, a, ci):
            def val(p, t):
                if t == 's': return sget(ex, st, p).p
                if t == 'c': return () if isc(p) and p == 0 else (chv(p, 16),)
                if ptrnull(ex, st, p): return ()
                return cchars(ex, st, p, None, 2).p
            v = SV(val(a[1], l) + val(a[2], r))
            ex.gset(st, a[0], KEY, v); return None
        return h
    for ls, lt in ((S, 's'), ('char16_t const*', 'p'), ('char16_t', 'c')):
        for rs, rt in ((S, 's'), ('char16_t const*', 'p'), ('char16_t', 'c')):
            if lt == 's' or rt == 's': H['VectorworksMVR::operator+(%s, %s)' % (ls, rs)] = plus(lt, rt)
    def find(ex, st, a, ci):
        v = sget(ex, st, a[0]); t = sget(ex, st, a[1])
        if t.lit is None: raise Unsupported('search for a symbolic needle')
        if t.lit == '': return mask(64)
        ic = a[3]
        if not isc(ic): raise Unsupported('find flag')
        if ic:
            if t.lit.upper() != t.lit.lower(): 
                if v.lit is None: raise Unsupported('case-insensitive search')
                r = v.lit.lower().find(t.lit.lower(), a[2])
                return r & mask(64)
        r = findlit(ex, st, v, t.lit, a[2])
        return r & mask(64) if isc(r) else r
    H['%s::Find(VectorworksMVR::TXString const&, unsigned long, bool) const' % T] = find
    def findch(ex, st, a, ci):
        if not isc(a[1]): raise Unsupported('search for a symbolic character')
        r = findlit(ex, st, sget(ex, st, a[0]), chr(a[1] & 0xff), a[2])
        return r & mask(64) if isc(r) else r
    H['%s::Find(char, unsigned long, bool) const' % T] = findch
    def repl(ex, st, a, ci):
        v = sget(ex, st, a[0]); t = sget(ex, st, a[1]); u = sget(ex, st, a[2])
        if t.lit is None or not (isc(a[3]) and (not a[3] or t.lit.upper() == t.lit.lower())): raise Unsupported('replacement')
        if v.lit is not None and u.lit is not None and t.lit: sput(ex, st, a[0], L(v.lit.replace(t.lit, u.lit))); return a[0]
        if len(t.lit) != 1: raise Unsupported('replacement in %r' % v)
        r = []
        for p in v.p:
            if isinstance(p, str):
                k = p.split(t.lit)
                for j, x in enumerate(k): r += ([*u.p] if j else []) + ([x] if x else [])
            elif isinstance(p, Ch): r += [*u.p] if ex.decide(st, p.v == BV(ord(t.lit), 16)) else [p]
            else:
                cs = charset(p)
                if not (t.lit in p.excl or cs is not None and t.lit.upper() not in cs): raise Unsupported('replacement in %r' % v)
                r.append(p)
        sput(ex, st, a[0], SV(r)); return a[0]
    H['%s::Replace(VectorworksMVR::TXString const&, VectorworksMVR::TXString const&, bool)' % T] = repl
    def rfind(ex, st, a, ci):
        v = sget(ex, st, a[0]); t = sget(ex, st, a[1])
        if t.lit is None or len(t.lit) != 1 or not (isc(a[2]) and a[2] == mask(64)) or not (isc(a[3]) and not a[3]): raise Unsupported('backward search')
        for k in range(len(v.p) - 1, -1, -1):
            p = v.p[k]; i = -1
            if isinstance(p, str): i = p.rfind(t.lit)
            elif isinstance(p, Ch): i = 0 if ex.decide(st, p.v == BV(ord(t.lit), 16)) else -1
            else:
                cs = charset(p)
                if not (t.lit in p.excl or cs is not None and t.lit.upper() not in cs): raise Unsupported('backward search for %r in %r' % (t.lit, v))
            if i >= 0:
                for q in v.p[:k]: i = ex.addoff(i, len(q) if isinstance(q, str) else 1 if isinstance(q, Ch) else alen(ex, st, q))
                return i
        return mask(64)
    H['%s::ReverseFind(VectorworksMVR::TXString const&, unsigned long, bool) const' % T] = rfind
    H['%s::Find(int, unsigned long, bool) const' % T] = findch
    def sub(which):
        def h(ex, st, a, ci):
            v = sget(ex, st, a[1])
            if which == 'left': r = cutsv(ex, st, v, 0, a[2])
            elif which == 'mid': r = cutsv(ex, st, v, a[2], a[3])
            else:
                n = slen(ex, st, v)
                k = a[2]
                if isc(k) and isc(n): r = v if k >= n else cutsv(ex, st, v, n - k, mask(64))
                elif ex.decide(st, z3.UGE(bv(k, 64), bv(n, 64))): r = v
                else: r = cutsv(ex, st, v, simp(bv(n, 64) - bv(k, 64)), mask(64))
            ex.gset(st, a[0], KEY, nosur(ex, st, r)); return None
        return h
    H['%s::Left(unsigned long) const' % T] = sub('left')
    H['%s::Mid(unsigned long, unsigned long) const' % T] = sub('mid')
    H['%s::Right(unsigned long) const' % T] = sub('right')
    def at(ex, st, a, ci):
        c = getat(ex, st, sget(ex, st, a[0]), a[1])
        return 0 if c is None else c
    H['%s::GetAt(unsigned long) const' % T] = at
    H['%s::operator[](long) const' % T] = at
    def atref(ex, st, a, ci):
        i = a[1] if len(a) > 1 else None
        v = sget(ex, st, a[0])
        if i is None:
            n = slen(ex, st, v)
            if isc(n): i = n - 1 if n else 0
            elif ex.decide(st, bv(n, 64) == BV(0, 64)): i = 0
            else: i = simp(n - BV(1, 64))
        c = getat(ex, st, v, i)
        o = ex.new_obj(st, 'character reference', 2, 'charref')
        st.wos(o).cells[0] = (2, 0 if c is None else c)
        return Ptr(o, 0)
    for n in ('GetAt(unsigned long)', 'operator[](long)', 'GetLast()'): H['%s::%s' % (T, n)] = atref
    @reg('%s::GetLast() const' % T)
    def _(ex, st, a, ci):
        v = sget(ex, st, a[0])
        if not v.p: return 0
        if isinstance(v.p[-1], str): return ord(v.p[-1][-1])
        if isinstance(v.p[-1], Ch): return v.p[-1].v
        if isinstance(v.p[-1], Atom) and v.p[-1].kind in ('dec', 'udec', 'fp'):
            c = z3.BitVec('last.%s' % aname(v.p[-1]), 16)
            st.assume(z3.And(z3.UGE(c, BV(48, 16)), z3.ULE(c, BV(57, 16)))); return c
        raise Unsupported('last character of %r' % v)
    for n in ('DeleteLast()',):
        def dellast(ex, st, a, ci):
            v = sget(ex, st, a[0])
            if not v.p: return a[0]
            q = v.p[-1]
            if isinstance(q, str): r = SV(v.p[:-1] + ((q[:-1],) if q[:-1] else ()))
            elif isinstance(q, Ch): r = SV(v.p[:-1])
            else:
                n = slen(ex, st, v)
                if ex.decide(st, bv(n, 64) == BV(0, 64)): return a[0]
                r = cutsv(ex, st, v, 0, simp(bv(n, 64) - BV(1, 64)))
            sput(ex, st, a[0], r); return a[0]
        H['%s::%s' % (T, n)] = dellast
    @reg('%s::Truncate(unsigned long)' % T)
    def _(ex, st, a, ci):
        v = sget(ex, st, a[0]); n = slen(ex, st, v); k = a[1]
        if isc(k) and isc(n): c = k < n
        else: c = ex.decide(st, z3.ULT(bv(k, 64), bv(n, 64)))
        if c: sput(ex, st, a[0], nosur(ex, st, cutsv(ex, st, v, 0, k)))
        return a[0]
    @reg('%s::SetAt(unsigned long, char16_t)' % T)
    def _(ex, st, a, ci):
        v = sget(ex, st, a[0]); cv = chars(v)
        if cv is None or not isc(a[1]): raise Unsupported('SetAt on %r' % v)
        if a[1] < len(cv):
            cv[a[1]] = a[2]; sput(ex, st, a[0], SV([chr(k) if isc(k) else Ch(k) for k in cv]))
        return a[0]
    @reg('%s::Delete(unsigned long, unsigned long)' % T)
    def _(ex, st, a, ci):
        v = sget(ex, st, a[0])
        head = cutsv(ex, st, v, 0, a[1])
        t = cutpoint(ex, st, v, a[1])
        if t is None: return a[0]
        t = SV(t)
        if isc(a[2]) and a[2] >= 1 << 62: tail = EMPTY
        else:
            q = cutpoint(ex, st, t, a[2]); tail = SV(q) if q else EMPTY
        sput(ex, st, a[0], SV(head.p + tail.p)); return a[0]
    @reg('%s::Insert(unsigned long, VectorworksMVR::TXString const&)' % T)
    def _(ex, st, a, ci):
        v = sget(ex, st, a[0])
        head = cutsv(ex, st, v, 0, a[1]); q = cutpoint(ex, st, v, a[1])
        sput(ex, st, a[0], SV(head.p + sget(ex, st, a[2]).p + (SV(q).p if q else ()))); return a[0]
    def conv(w):
        def h(ex, st, a, ci):
            v = sget(ex, st, a[0])
            killbuf(ex, st, a[0])
            b = cbuf(ex, st, a[0], v, w)
            if not a[0].obj.fam: st.wos(a[0].obj).cells[('cbuf', a[0].off)] = b.obj
            return b
        return h
    for n in ('char const*', 'unsigned char const*'): H['%s::operator %s() const' % (T, n)] = conv(1)
    H['%s::operator char16_t const*() const' % T] = conv(2)
    H['%s::operator unsigned short const*() const' % T] = conv(2)
    H['%s::GetData() const' % T] = conv(2)
    H['%s::swap(VectorworksMVR::TXString&)' % T] = lambda ex, st, a, ci: swapstr(ex, st, a)
    H['%s::TrimLeft()' % T] = H['%s::TrimRight()' % T] = H['%s::Trim()' % T] = trim(T)
    def toup(f):
        def h(ex, st, a, ci):
            v = sget(ex, st, a[0])
            if v.lit is None: raise Unsupported('case change of %r' % v)
            sput(ex, st, a[0], L(f(v.lit))); return a[0]
        return h
    H['%s::MakeUpper()' % T] = toup(lambda t: t.upper()); H['%s::MakeLower()' % T] = toup(lambda t: t.lower())
    # numeric conversions
    def cint(bits):
        def h(ex, st, a, ci): return toint(ex, st, cchars(ex, st, a[0]), bits)
        return h
    ex.contracts['atoi'] = cint(32); ex.contracts['atol'] = ex.contracts['atoll'] = cint(64)
    def strtolx(ex, st, a, ci):
        if not (isc(a[2]) and a[2] == 10 and isinstance(a[1], Ptr) and a[1].obj is None): raise Unsupported('strtol form')
        return toint(ex, st, cchars(ex, st, a[0]), 64)
    for n in ('strtol', 'strtoll', 'strtoul', 'strtoull', '__isoc23_strtol', '__isoc23_strtoll'): ex.contracts[n] = strtolx
    ex.contracts['atof'] = lambda ex, st, a, ci: toreal(ex, st, cchars(ex, st, a[0]))
    @reg('%s::itoa(long long)' % T, '%s::itoa(long)' % T)
    def _(ex, st, a, ci): sput(ex, st, a[0], dec(a[1])); return a[0]
    @reg('%s::ToStringInt(long long)' % T, '%s::ToStringInt(long)' % T)
    def _(ex, st, a, ci): ex.gset(st, a[0], KEY, dec(a[1])); return None
    @reg('%s::ToStringReal(double)' % T, '%s::ToStringReal(double, int, bool)' % T)
    def _(ex, st, a, ci): ex.gset(st, a[0], KEY, SV([Atom('fp', (a[1],))])); return None
    @reg('%s::ftoa(double)' % T, '%s::ftoa(double, int)' % T)
    def _(ex, st, a, ci): sput(ex, st, a[0], SV([Atom('fp', (a[1],))])); return a[0]
    # std::to_string
    def tostr(bits, sg):
        def h(ex, st, a, ci):
            x = a[1]
            if isc(x): x = sx(x, bits) & mask(64) if sg else x
            elif bits < 64: x = (z3.SignExt if sg else z3.ZeroExt)(64 - bits, x)
            ex.gset(st, a[0], 'sstr', dec(x) if sg or bits < 64 else udec(x)); return None
        return h
    for t, b, sg in (('int', 32, 1), ('unsigned int', 32, 0), ('long', 64, 1), ('unsigned long', 64, 0), ('long long', 64, 1), ('unsigned long long', 64, 0)):
        H['std::__cxx11::to_string(%s)' % t] = tostr(b, sg)
    H['std::__cxx11::to_string(double)'] = lambda ex, st, a, ci: ex.gset(st, a[0], 'sstr', SV([Atom('fp', (a[1],))]))
    # std::string (text values; byte level uses inline the library code instead)
    SS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
    def sctor(fn):
        def h(ex, st, a, ci):
            v = fn(ex, st, a)
            ex.memok(st, a[0], 32, 'string construction')
            ex.gset(st, a[0], 'sstr', v)
            if not a[0].obj.fam: st.wos(a[0].obj).cells.pop(('cbuf', a[0].off), None)
            return None
        return h
    def ssput(ex, st, p, v):
        ex.memok(st, p, 32, 'string write')
        ex.gset(st, p, 'sstr', v); killbuf(ex, st, p)
    def sasg(fn):
        def h(ex, st, a, ci): ssput(ex, st, a[0], fn(ex, st, a)); return a[0]
        return h
    nul = lambda ex, st, p: (ex.oblige(st, False, 'memory: std::string from a null pointer'))
    def fromc(ex, st, p):
        if ptrnull(ex, st, p): nul(ex, st, p); raise PathEnd()
        return cchars(ex, st, p)
    H[SS + '::basic_string()'] = sctor(lambda ex, st, a: EMPTY)
    H[SS + '::basic_string(char const*, std::allocator<char> const&)'] = H[SS + '::basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)'] = sctor(lambda ex, st, a: fromc(ex, st, a[1]))
    H[SS + '::basic_string(char const*, unsigned long, std::allocator<char> const&)'] = sctor(lambda ex, st, a: cchars(ex, st, a[1], a[2]) if isc(a[2]) else symbuf(ex, st, a[1], a[2], True))
    H['%s::GetEncodingLength(VectorworksMVR::ETXEncoding) const' % T] = lambda ex, st, a, ci: nbytes(ex, st, sget(ex, st, a[0]))
    H[SS + '::basic_string(%s const&)' % SS] = sctor(lambda ex, st, a: ssget(ex, st, a[1]))
    def smv(ex, st, a):
        v = ssget(ex, st, a[1]); ex.gset(st, a[1], 'sstr', EMPTY); return v
    H[SS + '::basic_string(%s&&)' % SS] = sctor(smv)
    def sdtor(ex, st, a, ci):
        ex.memok(st, a[0], 32, 'string destruction'); killbuf(ex, st, a[0]); ex.gdel(st, a[0], 'sstr'); return None
    H[SS + '::~basic_string()'] = sdtor
    H[SS + '::operator=(%s const&)' % SS] = sasg(lambda ex, st, a: ssget(ex, st, a[1]))
    def smvasg(ex, st, a, ci):
        v = ssget(ex, st, a[1]); ssput(ex, st, a[0], v)
        if not (a[0].obj is a[1].obj and same(a[0].off, a[1].off)): ex.gset(st, a[1], 'sstr', EMPTY)
        return a[0]
    H[SS + '::operator=(%s&&)' % SS] = smvasg
    H[SS + '::operator=(char const*)'] = sasg(lambda ex, st, a: fromc(ex, st, a[1]))
    H[SS + '::operator=(char)'] = sasg(lambda ex, st, a: SV([chv(a[1], 8)]))
    for n in ('append', 'operator+='):
        H[SS + '::%s(%s const&)' % (n, SS)] = sasg(lambda ex, st, a: SV(ssget(ex, st, a[0]).p + ssget(ex, st, a[1]).p))
        H[SS + '::%s(char const*)' % n] = sasg(lambda ex, st, a: SV(ssget(ex, st, a[0]).p + fromc(ex, st, a[1]).p))
        H[SS + '::%s(char)' % n] = sasg(lambda ex, st, a: SV(ssget(ex, st, a[0]).p + (chv(a[1], 8),)))
    H[SS + '::push_back(char)'] = sasg(lambda ex, st, a: SV(ssget(ex, st, a[0]).p + (chv(a[1], 8),)))
    for n in ('reserve(unsigned long)', 'reserve()', 'shrink_to_fit()'): H[SS + '::' + n] = lambda ex, st, a, ci: None
    def sclear(ex, st, a, ci): ssput(ex, st, a[0], EMPTY); return None
    H[SS + '::clear()'] = sclear
    def scstr(ex, st, a, ci):
        v = ssget(ex, st, a[0]); killbuf(ex, st, a[0])
        b = cbuf(ex, st, a[0], v, 1)
        if not a[0].obj.fam: st.wos(a[0].obj).cells[('cbuf', a[0].off)] = b.obj
        return b
    for n in ('c_str() const', 'data() const', 'data()'): H[SS + '::' + n] = scstr
    def ssize(ex, st, a, ci):
        v = ssget(ex, st, a[0]); 
        for p in v.p:
            if isinstance(p, str) and not p.isascii(): raise Unsupported('byte length of non-ASCII text')
        return slen(ex, st, v)
    for n in ('size() const', 'length() const'): H[SS + '::' + n] = ssize
    H[SS + '::empty() const'] = lambda ex, st, a, ci: b2v(empty(ex, st, ssget(ex, st, a[0])))
    def spl(l, r):
        def h(ex, st, a, ci):
            g = lambda p, t: (chv(p, 8),) if t == 'k' else (fromc(ex, st, p).p if t == 'c' else ssget(ex, st, p).p)
            v = SV(g(a[1], l) + g(a[2], r)); ex.gset(st, a[0], 'sstr', v); return None
        return h
    PT = 'std::char_traits<char>, std::allocator<char>'
    for ls, l in ((SS + ' const&', 's'), (SS + '&&', 's'), ('char const*', 'c'), ('char', 'k')):
        for rs, r in ((SS + ' const&', 's'), (SS + '&&', 's'), ('char const*', 'c'), ('char', 'k')):
            if l == 's' or r == 's': H['%s std::operator+<char, %s >(%s, %s)' % (SS, PT, ls, rs)] = spl(l, r)
    def sseq(neg, l, r):
        def h(ex, st, a, ci):
            g = lambda p, t: fromc(ex, st, p) if t == 'c' else ssget(ex, st, p)
            e = seq(ex, st, g(a[0], l), g(a[1], r), False)
            if isinstance(e, bool): return int(e != neg)
            return b2v(z3.simplify(z3.Not(e) if neg else e))
        return h
    for op, neg in (('==', False), ('!=', True)):
        for ls, l in ((SS + ' const&', 's'), ('char const*', 'c')):
            for rs, r in ((SS + ' const&', 's'), ('char const*', 'c')):
                if l == 's' or r == 's':
                    H['bool std::operator%s<char, %s >(%s, %s)' % (op, PT, ls, rs)] = sseq(neg, l, r)
                    H['bool std::operator%s<char>(%s, %s)' % (op, ls, rs)] = sseq(neg, l, r)
    def toss(ex, st, a, ci): ex.gset(st, a[0], 'sstr', sget(ex, st, a[1])); return None
    H['%s::GetStdString() const' % T] = toss
    H['%s::operator %s() const' % (T, SS)] = toss
    H['std::allocator<char>::allocator()'] = H['std::allocator<char>::~allocator()'] = lambda ex, st, a, ci: None
    ex.txs = H
    ex.strlen_hook = strlen_hook
    ex.nonempty_enc = set()
    ex.ascii_only = lambda st: False
    def disp(name):
        d = ex.dem(name)
        d = re.sub(r'\[abi:cxx11\]', '', d)
        if 'operator>>' not in d: d = re.sub(r'>(?=>)', '> ', d)
        return H.get(d)
    old = ex.contract_for
    def contract_for(name):
        if name in ex._ctr: return ex._ctr[name]
        h = old(name)
        if h is None:
            h = disp(name)
            ex._ctr[name] = h
        return h
    ex.contract_for = contract_for
    # harness inputs
    ex.contracts['vf_text_raw'] = h_text
    ex.contracts['vf_ascii_raw'] = h_ascii

def trim(T):
    def h(ex, st, a, ci):
        v = sget(ex, st, a[0])
        d = ex.dem(ci.name); t = v.lit
        if v.lit is None:
            # nothing to cut next to a numeral or another visible character
            solid = lambda p: isinstance(p, Atom) and p.kind in ('dec', 'udec', 'fp')
            l = solid(v.p[0]) or isinstance(v.p[0], str) and v.p[0][0] not in ' \t'
            r = solid(v.p[-1]) or isinstance(v.p[-1], str) and v.p[-1][-1] not in ' \t'
            if ('TrimRight' in d or l) and ('TrimLeft' in d or r): return a[0]
            raise Unsupported('trim of %r' % v)
        if 'TrimLeft' in d or '::Trim()' in d: t = t.lstrip(' \t')
        if 'TrimRight' in d or '::Trim()' in d: t = t.rstrip(' \t')
        sput(ex, st, a[0], L(t)); return a[0]
    return h
def swapstr(ex, st, a):
    x, y = sget(ex, st, a[0]), sget(ex, st, a[1])
    sput(ex, st, a[0], y); sput(ex, st, a[1], x)
def ptrnull(ex, st, p):
    n = ex.pnull(p)
    if isinstance(n, bool): return n
    return ex.decide(st, n)
def ssget(ex, st, p):
    v = ex.gget(st, p, 'sstr')
    if v is None: raise Unsupported('std::string without value')
    return norm(ex, st, v)

def h_text(ex, st, a, ci):
    """void vf_text_raw(TXString* out, const char* name): any text"""
    n = std.sym_name(ex, st, a[1])
    at = Atom('sym', ('in.' + n,))
    ex.gset(st, a[0], KEY, SV([at]))
    ex.inputs[n] = ('text', lambda m, at=at: text_of(m, at))
    alen(ex, st, at)
    return None
def h_ascii(ex, st, a, ci):
    """void vf_ascii_raw(TXString* out, const char* name, size_t n): n characters 1..127"""
    n = std.sym_name(ex, st, a[1])
    cs = [z3.BitVec('in.%s.c%d' % (n, i), 8) for i in range(a[2])]
    for c in cs: st.assume(z3.And(z3.UGE(c, BV(1, 8)), z3.ULE(c, BV(127, 8))))
    ex.gset(st, a[0], KEY, SV([Ch(z3.ZeroExt(8, c)) for c in cs]))
    ex.inputs[n] = ('text', lambda m, cs=cs: bytes(m.eval(c, model_completion=True).as_long() for c in cs))
    return None
def text_of(m, at):
    f = m.eval(fold_of(at), model_completion=True)
    try: k = f.as_long()
    except Exception: k = None
    # was the atom split?
    names = {d.name() for d in m.decls()}
    nm = aname(at)
    for d in m.decls():
        mm = re.match(re.escape('contains.' + nm) + r'\.(\d+)$', d.name())
        if mm and z3.is_true(m[d]):
            c = int(mm.group(1))
            return text_of(m, Atom('sym', (nm + '<%d' % c,))) + chr(c).encode() + text_of(m, Atom('sym', (nm + '>%d' % c,)))
    for d in m.decls():
        mm = re.match(re.escape('contains.' + nm) + r'\.(\d+)$', d.name())
        if mm: 
            r = text_of(m, Atom('sym', (nm + '!%d' % int(mm.group(1)),)))
            return r
    base = basename_atom(nm)
    if 'strtol.%s' % base in names:
        v = m.eval(z3.BitVec('strtol.%s' % base, 64), model_completion=True).as_long()
        return str(sx(v, 64)).encode()
    for t, i in _lit.items():
        if i == k: return t.encode()
    l = m.eval(z3.BitVec('len.%s' % nm, 64), model_completion=True).as_long()
    base = ('txt%s' % (k if k is not None else 0)).encode()
    if 0 < l < 200: return (base * 100)[:l] if l < len(base) else base + b'x' * (l - len(base))
    return base

def install(ex): _install(ex)
