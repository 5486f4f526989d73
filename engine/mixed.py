"""Queries over bit vectors, integers and reals translated to linear integer/real
arithmetic.  Bit-vector terms become integers in [0, 2^n); an operation that may wrap is
written with mod.  A term outside this fragment becomes an unconstrained integer of its
range (or an unconstrained truth value): the translation of a set of assertions is implied
by the set, so 'unsat' carries over; 'sat' says nothing."""
import z3
K = z3
class Tr:
    def __init__(s): s.side = []; s.bc = {}; s.ic = {}; s.rc = {}; s.n = 0; s.keep = []; s.exact = True; s.apps = False
    def var(s, e, lo, hi):
        v = z3.Int('m!%d' % e.get_id()); s.side += [v >= lo, v <= hi]; return v, lo, hi
    def opaque(s, e):
        # an applied uninterpreted function is only inexact by missing congruence
        if e.decl().kind() in (K.Z3_OP_UNINTERPRETED, K.Z3_OP_SELECT): s.apps = True
        else: s.exact = False
        return s.var(e, 0, (1 << e.size()) - 1)
    def norm(s, r, n):
        x, lo, hi = r; M = 1 << n
        if lo >= 0 and hi < M: return r
        if lo >= -M and hi < 0: return x + M, lo + M, hi + M
        return x % M, 0, M - 1
    def i(s, e):
        k = e.get_id()
        if k not in s.ic: s.ic[k] = s.i_(e); s.keep.append(e)
        return s.ic[k]
    def sgn(s, e):
        x, lo, hi = s.i(e); n = e.size(); H = 1 << (n - 1)
        if hi < H: return x, lo, hi
        if lo >= H: return x - 2 * H, lo - 2 * H, hi - 2 * H
        return z3.If(x >= H, x - 2 * H, x), -H, H - 1
    def i_(s, e):
        n = e.size(); M = 1 << n
        if z3.is_bv_value(e): v = e.as_long(); return z3.IntVal(v), v, v
        d = e.decl(); k = d.kind(); a = e.children()
        if k == K.Z3_OP_UNINTERPRETED and not a:
            v = z3.Int('m!' + d.name()); s.side += [v >= 0, v < M]; return v, 0, M - 1
        if k == K.Z3_OP_BADD:
            t = [s.i(x) for x in a]
            # a constant close to 2^n stands for a negative one
            t = [(x, lo, hi) if not (z3.is_int_value(x) and lo >= M >> 1) else (z3.IntVal(lo - M), lo - M, lo - M) for x, lo, hi in t]
            r = (z3.Sum([x for x, _, _ in t]), sum(l for _, l, _ in t), sum(h for _, _, h in t))
            return s.norm(r, n)
        if k == K.Z3_OP_BSUB and len(a) == 2:
            (x, l, h), (y, m, g) = s.i(a[0]), s.i(a[1]); return s.norm((x - y, l - g, h - m), n)
        if k == K.Z3_OP_BNEG: x, l, h = s.i(a[0]); return s.norm((-x, -h, -l), n)
        if k == K.Z3_OP_BNOT: x, l, h = s.i(a[0]); return M - 1 - x, M - 1 - h, M - 1 - l
        if k == K.Z3_OP_BMUL:
            r = s.i(a[0])
            for y in a[1:]:
                q = s.i(y)
                c, o = (r, q) if z3.is_int_value(r[0]) else (q, r)
                if not z3.is_int_value(c[0]): return s.opaque(e)
                c = c[1]; c = c - M if c >= M >> 1 else c
                l, h = sorted((c * o[1], c * o[2])); r = s.norm((c * o[0], l, h), n)
            return r
        if k == K.Z3_OP_BSHL and z3.is_bv_value(a[1]):
            c = a[1].as_long(); x, l, h = s.i(a[0])
            return (z3.IntVal(0), 0, 0) if c >= n else s.norm((x * (1 << c), l << c, h << c), n)
        if k == K.Z3_OP_BLSHR and z3.is_bv_value(a[1]):
            c = a[1].as_long(); x, l, h = s.i(a[0])
            return (z3.IntVal(0), 0, 0) if c >= n else (x / (1 << c), l >> c, h >> c)
        if k in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I) and z3.is_bv_value(a[1]) and a[1].as_long():
            c = a[1].as_long(); x, l, h = s.i(a[0]); return x / c, l // c, h // c
        if k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I) and z3.is_bv_value(a[1]) and a[1].as_long():
            c = a[1].as_long(); x, l, h = s.i(a[0])
            return (x, l, h) if h < c else (x % c, 0, c - 1)
        if k == K.Z3_OP_BAND and len(a) == 2:
            for u, w in (a, a[::-1]):
                if z3.is_bv_value(u) and (u.as_long() & (u.as_long() + 1)) == 0:
                    c = u.as_long() + 1; x, l, h = s.i(w); return (x, l, h) if h < c else (x % c, 0, c - 1)
        if k in (K.Z3_OP_BOR, K.Z3_OP_BAND, K.Z3_OP_BXOR):
            t = [s.i(x) for x in a]
            # operands that differ in their last bit only
            B = [l & ~1 for _, l, _ in t]
            if all(h <= q + 1 for q, (_, _, h) in zip(B, t)):
                y = [x == q + 1 for q, (x, _, _) in zip(B, t)]; c = B[0]
                for q in B[1:]: c = c | q if k == K.Z3_OP_BOR else c & q if k == K.Z3_OP_BAND else c ^ q
                if k == K.Z3_OP_BXOR:
                    r = y[0]
                    for q in y[1:]: r = z3.Xor(r, q)
                else: r = (z3.Or if k == K.Z3_OP_BOR else z3.And)(*y)
                return z3.If(r, c + 1, c), c, c + 1
        if k == K.Z3_OP_CONCAT:
            r = (z3.IntVal(0), 0, 0)
            for x in a:
                y = s.i(x); w = 1 << x.size(); r = (r[0] * w + y[0] if not (z3.is_int_value(r[0]) and r[1] == 0) else y[0], r[1] * w + y[1], r[2] * w + y[2])
            return r
        if k == K.Z3_OP_ZERO_EXT: return s.i(a[0])
        if k == K.Z3_OP_SIGN_EXT: return s.norm(s.sgn(a[0]), n)
        if k == K.Z3_OP_EXTRACT:
            hi, lo = d.params(); x, l, h = s.i(a[0])
            if lo: x, l, h = x / (1 << lo), l >> lo, h >> lo
            return s.norm((x, l, h), hi - lo + 1) if h >= M else (x, l, h)
        if k == K.Z3_OP_ITE:
            (x, l, h), (y, m, g) = s.i(a[1]), s.i(a[2]); return z3.If(s.b(a[0]), x, y), min(l, m), max(h, g)
        if k == K.Z3_OP_INT2BV:
            x = s.r(a[0]); return x % M, 0, M - 1
        return s.opaque(e)
    def r(s, e):
        """reals and integers"""
        k = e.get_id()
        if k not in s.rc: s.rc[k] = s.r_(e); s.keep.append(e)
        return s.rc[k]
    def r_(s, e):
        k = e.decl().kind()
        if k == K.Z3_OP_BV2INT: return s.i(e.arg(0))[0]
        if k == K.Z3_OP_SBV2INT: return s.sgn(e.arg(0))[0]
        if not e.num_args(): return e
        a = []
        for x in e.children():
            if z3.is_bool(x): a.append(s.b(x))
            elif z3.is_int(x) or z3.is_real(x): a.append(s.r(x))
            elif z3.is_bv(x): a.append(s.i(x)[0]) if False else a.append(x)
            else: a.append(x)
        return e.decl()(*a)
    def b(s, e):
        k = e.get_id()
        if k not in s.bc: s.bc[k] = s.b_(e); s.keep.append(e)
        return s.bc[k]
    def b_(s, e):
        if z3.is_true(e) or z3.is_false(e): return e
        k = e.decl().kind(); a = e.children()
        if k in (K.Z3_OP_AND, K.Z3_OP_OR, K.Z3_OP_NOT, K.Z3_OP_XOR, K.Z3_OP_IMPLIES): 
            a = [s.b(x) for x in a]
            return {K.Z3_OP_AND: z3.And, K.Z3_OP_OR: z3.Or, K.Z3_OP_NOT: z3.Not, K.Z3_OP_XOR: z3.Xor, K.Z3_OP_IMPLIES: z3.Implies}[k](*a)
        if k == K.Z3_OP_ITE: return z3.If(*[s.b(x) for x in a])
        if k == K.Z3_OP_UNINTERPRETED and not a: return e
        if k in (K.Z3_OP_EQ, K.Z3_OP_DISTINCT) and len(a) == 2:
            if z3.is_bool(a[0]): r = s.b(a[0]) == s.b(a[1])
            elif z3.is_bv(a[0]): r = s.i(a[0])[0] == s.i(a[1])[0]
            elif z3.is_int(a[0]) or z3.is_real(a[0]): r = s.r(a[0]) == s.r(a[1])
            else: s.exact = False; return z3.Bool('mb!%d' % e.get_id())
            return r if k == K.Z3_OP_EQ else z3.Not(r)
        C = {K.Z3_OP_ULEQ: '<=', K.Z3_OP_ULT: '<', K.Z3_OP_UGEQ: '>=', K.Z3_OP_UGT: '>', K.Z3_OP_SLEQ: 's<=', K.Z3_OP_SLT: 's<', K.Z3_OP_SGEQ: 's>=', K.Z3_OP_SGT: 's>'}.get(k)
        if C:
            f = s.sgn if C[0] == 's' else s.i
            x, y = f(a[0])[0], f(a[1])[0]
            return {'<=': x <= y, '<': x < y, '>=': x >= y, '>': x > y}[C.lstrip('s')]
        if k in (K.Z3_OP_LE, K.Z3_OP_LT, K.Z3_OP_GE, K.Z3_OP_GT):
            x, y = s.r(a[0]), s.r(a[1])
            return {K.Z3_OP_LE: lambda: x <= y, K.Z3_OP_LT: lambda: x < y, K.Z3_OP_GE: lambda: x >= y, K.Z3_OP_GT: lambda: x > y}[k]()
        s.exact = False
        return z3.Bool('mb!%d' % e.get_id())
# ---- rounding of doubles
RD = z3.Function('rd', z3.RealSort(), z3.RealSort())
def rounded(asserts):
    """facts about the rounded results that occur: relative error of at most 2^-53 (results outside the
    range of subnormal numbers), whole numbers up to 2^53 are exact"""
    seen = set(); out = []; todo = list(asserts)
    e53 = z3.Q(1, 1 << 53)
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        todo += e.children()
        if e.decl().eq(RD):
            x = e.arg(0); ab = z3.If(x < 0, -x, x)
            out.append(z3.And(e - x <= e53 * ab, x - e <= e53 * ab))
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: out.append(z3.Implies(ab <= (1 << 53), e == x))
    return out
def check(asserts, timeout, cover=False):
    t = Tr()
    b = [t.b(a) for a in asserts]
    b += rounded(b)
    sol = z3.Solver(); sol.set('timeout', timeout)
    for x in t.side + b: sol.add(x)
    r = sol.check()
    if r == z3.sat and not (t.exact and (cover or not t.apps)): r = z3.unknown
    return r, sol
