"""Exact arithmetic back end: polynomials over real atoms.

`identity` decides equations between rational functions by bringing them to normal form; `linear_unsat`
decides a conjunction after replacing every monomial, quotient and conditional by a variable with the facts
that define it (sound: unsatisfiable there means unsatisfiable)."""
import z3
from fractions import Fraction as F
class Big(Exception): pass
def pmul(p, q):
    r = {}
    for m, x in p.items():
        for n, y in q.items():
            k = tuple(sorted(m + n)); v = r.get(k, 0) + x * y
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > 4000: raise Big
    return r
def padd(p, q, f=1):
    r = dict(p)
    for m, x in q.items():
        v = r.get(m, 0) + f * x
        if v: r[m] = v
        else: r.pop(m, None)
    return r
class Ring:
    """normal forms: every quotient a/b becomes an atom of its own, keyed by its normal form"""
    def __init__(s):
        s.memo = {}; s.at = {}; s.keep = []; s.named = {}; s.defs = {}
        s.quot = {}     # atom id -> (poly a, poly b)
        s.qkey = {}
        s.ite = {}      # atom id -> (cond, then poly, else poly)
    def cmp(s, k, a, b, axioms):
        """a k b; differences that are not linear get a name, so that comparisons stay linear"""
        try: p = padd(s.poly(a), s.poly(b), -1)
        except Big: return None
        if not p or list(p) == [()]:
            x = p.get((), 0)
            return int({'eq': x == 0, 'ne': x != 0, 'gt': x > 0, 'ge': x >= 0, 'lt': x < 0, 'le': x <= 0}[k])
        if all(len(m) <= 1 and not any(i in s.quot or i in s.ite for i in m) for m in p): return None
        c = p.get((), 0); p.pop((), None)
        ms = sorted(p); f = p[ms[0]]
        p = {m: x / f for m, x in p.items()}; c = -c / f
        if f < 0: k = {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}.get(k, k)
        key = tuple(sorted(p.items()))
        if key not in s.named:
            v = s.named[key] = z3.Real('poly!%d' % len(s.named)); s.keep.append(v)
            s.memo[v.get_id()] = p; s.defs[v.get_id()] = p
            axioms.append(v == (a - b) / z3.RealVal(str(f)) + z3.RealVal(str(c)))
        v = s.named[key]; c = z3.RealVal(str(c))
        return {'eq': v == c, 'ne': v != c, 'gt': v > c, 'ge': v >= c, 'lt': v < c, 'le': v <= c}[k]
    def atom(s, key):
        if key not in s.at: s.at[key] = len(s.at)
        return {(s.at[key],): F(1)}
    def poly(s, e):
        k = e.get_id()
        if k not in s.memo: s.keep.append(e); s.memo[k] = s.poly1(e)
        return s.memo[k]
    def poly1(s, e):
        if z3.is_rational_value(e):
            v = F(e.numerator_as_long(), e.denominator_as_long()); return {(): v} if v else {}
        if z3.is_add(e) or z3.is_sub(e):
            n = s.poly(e.arg(0))
            for i in range(1, e.num_args()): n = padd(n, s.poly(e.arg(i)), -1 if z3.is_sub(e) else 1)
            return n
        if z3.is_app_of(e, z3.Z3_OP_UMINUS): return {m: -x for m, x in s.poly(e.arg(0)).items()}
        if z3.is_mul(e):
            n = s.poly(e.arg(0))
            for i in range(1, e.num_args()): n = pmul(n, s.poly(e.arg(i)))
            return n
        if z3.is_div(e):
            a, b = s.poly(e.arg(0)), s.poly(e.arg(1))
            if list(b) == [()]: return {m: x / b[()] for m, x in a.items()}
            if not b: return s.atom(('id', e.get_id()))
            k = ('q', tuple(sorted(a.items())), tuple(sorted(b.items())))
            r = s.atom(k); s.quot[s.at[k]] = (a, b)
            return r
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            k = ('ite', e.arg(0).get_id(), tuple(sorted(s.poly(e.arg(1)).items())), tuple(sorted(s.poly(e.arg(2)).items())))
            s.keep.append(e.arg(0))
            r = s.atom(k); s.ite[s.at[k]] = (e.arg(0), s.poly(e.arg(1)), s.poly(e.arg(2)))
            return r
        return s.atom(('id', e.get_id()))
    def clear(s, p):
        """multiply out quotients: (numerator, list of divisors)"""
        dens = []
        for rnd in range(200):
            qs = [a for m in p for a in m if a in s.quot]
            if not qs: return p, dens
            b = s.quot[qs[0]][1]; kb = tuple(sorted(b.items()))
            # highest power, in one monomial, of quotients over b
            over = lambda m: [a for a in m if a in s.quot and tuple(sorted(s.quot[a][1].items())) == kb]
            n = max(len(over(m)) for m in p)
            r = {}
            for m, x in p.items():
                o = over(m); t = {tuple(a for a in m if a not in o): x}
                for a in o: t = pmul(t, s.quot[a][0])
                for i in range(n - len(o)): t = pmul(t, b)
                r = padd(r, t)
            p = r; dens.append(b)
        raise Big
def is_cmp(e): return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.num_args() == 2 and z3.is_real(e.arg(0))
def linear_unsat(facts, extra=(), R=None, timeout=5000):
    """facts: z3 formulas; extra: polys known to be zero (over the same Ring)"""
    R = R or Ring()
    sol = z3.Solver(); sol.set('timeout', timeout)
    mv = {}
    def lin(p):
        e = z3.RealVal(0)
        for m, x in p.items():
            c = z3.RealVal(str(x))
            e = e + (c if m == () else c * mono(m))
        return e
    def mono(m):
        if m not in mv:
            mv[m] = z3.Real('m!%d' % len(mv))
            if len(m) == 1: todo.append(m[0])
            elif len(m) % 2 == 0 and all(m.count(a) % 2 == 0 for a in m): sol.add(mv[m] >= 0)
        return mv[m]
    todo, consts, done, memo = [], {F(0)}, set(), {}
    def form(e):
        k = e.get_id()
        if k in memo: return memo[k][1]
        if is_cmp(e):
            p = padd(R.poly(e.arg(0)), R.poly(e.arg(1)), -1)
            if len(p) <= 2 and () in p and len(p) == 2:
                (m,) = [x for x in p if x != ()]
                consts.add(-p[()] / p[m]); consts.add(p[()] / p[m])
            a = lin(p); kd = e.decl().kind()
            r = {z3.Z3_OP_LE: a <= 0, z3.Z3_OP_LT: a < 0, z3.Z3_OP_GE: a >= 0, z3.Z3_OP_GT: a > 0, z3.Z3_OP_EQ: a == 0, z3.Z3_OP_DISTINCT: a != 0}[kd]
        elif z3.is_and(e): r = z3.And([form(x) for x in e.children()])
        elif z3.is_or(e): r = z3.Or([form(x) for x in e.children()])
        elif z3.is_not(e): r = z3.Not(form(e.arg(0)))
        else: r = e
        memo[k] = (e, r)
        return r
    try:
        for f in facts: sol.add(form(f))
        for p in extra: sol.add(lin(p) == 0)
        while todo:
            a = todo.pop()
            if a in done: continue
            done.add(a)
            if a in R.ite:
                c, t, e = R.ite[a]; v = mono((a,)); cc = form(c)
                sol.add(z3.Or(z3.Not(cc), v == lin(t)), z3.Or(cc, v == lin(e)))
            elif a in R.quot:
                n, d = R.quot[a]; v = mono((a,)); N, D = lin(n), lin(d)
                for k in sorted(consts):
                    kk = z3.RealVal(str(k))
                    sol.add(z3.Or(D <= 0, z3.And((v >= kk) == (N >= kk * D), (v > kk) == (N > kk * D))), z3.Or(D >= 0, z3.And((v >= kk) == (N <= kk * D), (v > kk) == (N < kk * D))))
        return sol.check() == z3.unsat
    except Big: return False
def identity(c, pc, R):
    try:
        n, dens = R.clear(padd(R.poly(c.arg(0)), R.poly(c.arg(1)), -1))
        if n: return False
    except Big: return False
    for d in dens:
        if not linear_unsat(pc, [d], R): return False
    return True
