"""Candidate loop invariants (filtered by Houdini in sym.cut): bounds, monotonicity,
affine equalities between counters, strides."""
import z3
from sym import *

_vc = {}
def termvars(e):
    """names of the free constants of a term"""
    k = e.get_id()
    r = _vc.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out = set(); seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif z3.is_quantifier(x): stack.append(x.body())
        else: stack += x.children()
    out = frozenset(out)
    _vc[k] = (e, out)
    return out

def widen(x, n):
    if isc(x): return BV(x, 64)
    if z3.is_bool(x): return z3.If(x, BV(1, 64), BV(0, 64))
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
def sext(x, n):
    if isc(x): return BV(sx(x, n), 64)
    if z3.is_bool(x): return widen(x, 1)
    return z3.SignExt(64 - x.size(), x) if x.size() < 64 else x

class Var:
    def __init__(s, name, get, n, e): s.name = name; s.get = get; s.n = n; s.e = e

def collect(ex, st, f, tgt, entry, hv, h):
    blk = f.fn.blocks[tgt]
    key = (f.fn.name, tgt)
    vs = []
    for ph in blk.phis:
        e = entry[ph.res]; x = hv[ph.res]
        ty = ph.ty
        if ty.k == 'int' and ty.n > 1:
            if e is UNDEF or isinstance(e, PInt): continue
            vs.append(Var(ph.res, lambda st, vals, r=ph.res: vals.get(r), ty.n, e))
        elif ty.k == 'ptr' and isinstance(e, Ptr) and e.obj is not None and isinstance(x, Ptr) and e.key is None:
            def g(st, vals, r=ph.res, o=e.obj):
                p = vals.get(r)
                return p.off if isinstance(p, Ptr) and p.obj is o else None
            vs.append(Var('&' + ph.res, g, 64, e.off))
    for m in sorted(ex.cutmods.get(key, ()), key=str):
        if m[0] == 'cell' and not isinstance(m[2], tuple):
            obj, off, n = m[1], m[2], m[3]
            if obj.id not in st.heap: continue
            c = st.heap[obj.id].cells.get(off)
            if c is None or c[0] != n: continue
            e = c[1]
            if isinstance(e, Ptr):
                if e.obj is None or e.key is not None: continue
                def g(st, vals, obj=obj, off=off, o=e.obj):
                    os_ = st.heap.get(obj.id)
                    c = os_.cells.get(off) if os_ else None
                    return c[1].off if c is not None and isinstance(c[1], Ptr) and c[1].obj is o else None
                vs.append(Var('*%s+%s' % (obj.name, off), g, 64, e.off))
                continue
            if not (isc(e) or (z3.is_expr(e) and z3.is_bv(e))): continue
            def g(st, vals, obj=obj, off=off, n=n):
                os_ = st.heap.get(obj.id)
                c = os_.cells.get(off) if os_ else None
                if c is None or c[0] != n: return None
                return c[1] if isc(c[1]) or (z3.is_expr(c[1]) and z3.is_bv(c[1])) else None
            vs.append(Var('%s+%s' % (obj.name, off), g, 8 * n, e))
        elif m[0] == 'size':
            obj = m[1]
            if obj.id in st.heap: vs.append(Var('size(%s)' % obj.name, lambda st, vals, obj=obj: st.heap[obj.id].size if obj.id in st.heap else None, 64, st.heap[obj.id].size))
        elif m[0] == 'ghost':
            e = st.ghost.get(m[1])
            if isc(e) or (z3.is_expr(e) and z3.is_bv(e)):
                vs.append(Var('ghost(%s)' % (m[1],), lambda st, vals, g=m[1]: st.ghost.get(g), 64 if isc(e) else e.size(), e))
    return vs

def gen(ex, st, f, tgt, entry, hv, h):
    out = []
    vs = collect(ex, st, f, tgt, entry, hv, h)
    key = (f.fn.name, tgt)
    def fun1(v, fn):
        def k(ex, st, vals):
            x = v.get(st, vals)
            if x is None or x is UNDEF or not (isc(x) or z3.is_bv(x)): return None
            return z3.simplify(fn(x))
        return k
    for v in vs:
        n = v.n
        e = v.e
        B = lambda x, n=n: bv(x, n)
        out.append(('%s >=u start' % v.name, fun1(v, lambda x, B=B, e=e: z3.UGE(B(x), B(e)))))
        out.append(('%s <=u start' % v.name, fun1(v, lambda x, B=B, e=e: z3.ULE(B(x), B(e)))))
        if n <= 64:
            out.append(('%s >=s start' % v.name, fun1(v, lambda x, B=B, e=e: B(x) >= B(e))))
            out.append(('%s <=s start' % v.name, fun1(v, lambda x, B=B, e=e: B(x) <= B(e))))
            out.append(('%s >=s 0' % v.name, fun1(v, lambda x, B=B: B(x) >= B(0))))
            out.append(('%s >=s -1' % v.name, fun1(v, lambda x, B=B, n=n: B(x) >= B(mask(n)))))
        for c in (2, 4, 8, 16, 64):
            if c < (1 << n): out.append(('%s congruent start mod %d' % (v.name, c), fun1(v, lambda x, B=B, e=e, c=c: (B(x) - B(e)) & B(c - 1) == B(0))))
        for bi, b in enumerate(ex.cutmods.get((key, 'bounds'), ())):
            bn = b.size() if not isc(b) else None
            if bn is not None and bn != n: continue
            nm = 'bound%d' % bi
            out.append(('%s <=u %s' % (v.name, nm), fun1(v, lambda x, B=B, b=b: z3.ULE(B(x), B(b)))))
            out.append(('%s <u %s' % (v.name, nm), fun1(v, lambda x, B=B, b=b: z3.ULT(B(x), B(b)))))
            out.append(('%s >=u %s' % (v.name, nm), fun1(v, lambda x, B=B, b=b: z3.UGE(B(x), B(b)))))
            out.append(('%s <=s %s' % (v.name, nm), fun1(v, lambda x, B=B, b=b: B(x) <= B(b))))
            out.append(('%s <s %s' % (v.name, nm), fun1(v, lambda x, B=B, b=b: B(x) < B(b))))
            out.append(('%s >=s %s' % (v.name, nm), fun1(v, lambda x, B=B, b=b: B(x) >= B(b))))
    for i, v in enumerate(vs):
        for w in vs[i + 1:]:
            for c, d in ((1, 1), (1, mask(64)), (2, 1), (1, 2), (4, 1), (1, 4), (8, 1), (1, 8), (16, 1), (1, 16), (24, 1), (1, 24)):
                def k(ex, st, vals, v=v, w=w, c=c, d=d):
                    x, y = v.get(st, vals), w.get(st, vals)
                    if x is None or y is None or x is UNDEF or y is UNDEF: return None
                    dx = widen(x, v.n) - widen(v.e, v.n); dy = widen(y, w.n) - widen(w.e, w.n)
                    return z3.simplify(dx * BV(c, 64) == dy * BV(d, 64))
                out.append(('%d*(%s-start) = %d*(%s-start)' % (c, v.name, sx(d, 64), w.name), k))
    return out
