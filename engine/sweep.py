"""Equality of two large bit-vector terms by sweeping: pairs of inner terms that agree on random
values are proved equal bottom-up; a proved pair is replaced by one unconstrained variable in the
terms above it.  Equality over the unconstrained variables implies equality, so 'equal' is sound;
nothing follows when the sweep does not succeed."""
import z3, random
def leaf(e): return e.num_args() == 0 or e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)
def order(roots):
    out = []; seen = set(); st = [(r, False) for r in roots]
    while st:
        e, done = st.pop()
        k = e.get_id()
        if done:
            out.append(e); continue
        if k in seen: continue
        seen.add(k); st.append((e, True))
        if not leaf(e): st += [(c, False) for c in e.children()]
    return out
def signatures(nodes, n=24):
    """values of the nodes under n random assignments"""
    rnd = random.Random(7); sig = {}
    for e in nodes:
        w = e.size() if z3.is_bv(e) else 1
        if leaf(e):
            if z3.is_bv_value(e): v = (e.as_long(),) * n
            elif z3.is_true(e) or z3.is_false(e): v = (int(z3.is_true(e)),) * n
            elif z3.is_bv(e) or z3.is_bool(e): v = tuple(rnd.getrandbits(w) for _ in range(n))
            else: return None
        else:
            ch = e.children(); cs = [sig[c.get_id()] for c in ch]
            v = tuple(value(e, w, ch, [c[i] for c in cs]) for i in range(n))
        sig[e.get_id()] = v
    return sig
def value(e, w, ch, c):
    k = e.decl().kind(); M = (1 << w) - 1
    if k == z3.Z3_OP_BADD: return sum(c) & M
    if k == z3.Z3_OP_BSUB and len(c) == 2: return (c[0] - c[1]) & M
    if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND):
        r = c[0]
        for x in c[1:]: r = r ^ x if k == z3.Z3_OP_BXOR else r | x if k == z3.Z3_OP_BOR else r & x
        return r
    if k == z3.Z3_OP_BNOT: return ~c[0] & M
    if k == z3.Z3_OP_BSHL: return (c[0] << c[1]) & M if c[1] < w else 0
    if k == z3.Z3_OP_BLSHR: return c[0] >> c[1] if c[1] < w else 0
    if k == z3.Z3_OP_ZERO_EXT: return c[0]
    if k == z3.Z3_OP_EXTRACT: hi, lo = e.params(); return (c[0] >> lo) & M
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for x, v in zip(ch, c): r = (r << x.size()) | v
        return r
    # any other operation
    mk = lambda x, v: z3.BitVecVal(v, x.size()) if z3.is_bv(x) else z3.BoolVal(bool(v))
    r = z3.simplify(rebuild(e, [mk(x, v) for x, v in zip(ch, c)]))
    return r.as_long() if z3.is_bv(r) else int(z3.is_true(r))
def rebuild(e, cs):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*cs)
    if k == z3.Z3_OP_OR: return z3.Or(*cs)
    if len(cs) > 2 and e.decl().arity() == 2:
        r = cs[0]
        for c in cs[1:]: r = e.decl()(r, c)
        return r
    return e.decl()(*cs)
def equal(a, b, timeout=3000, limit=60000):
    A, B = order([a]), order([b])
    if len(A) + len(B) > limit: return False
    nodes = order([a, b])
    sig = signatures(nodes)
    if sig is None or sig[a.get_id()] != sig[b.get_id()]: return False
    ina = {e.get_id() for e in A}; inb = {e.get_id() for e in B}
    first = {}                      # signature -> representative of the class
    cut = {}                        # node -> term that stands for it
    memo = {}
    def expr(e):
        k = e.get_id()
        if k in cut: return cut[k]
        if k in memo: return memo[k]
        r = e if leaf(e) else rebuild(e, [expr(c) for c in e.children()])
        memo[k] = r; return r
    age = {}; defs = {}                       # variable -> what it stands for
    def mkcut(e, d):
        v = z3.BitVec('sweep!%d' % len(defs), e.size()); age[v.get_id()] = len(defs); defs[v.get_id()] = (v, d); cut[e.get_id()] = v
        return v
    def open_(x):
        """the youngest variable of x replaced by what it stands for"""
        vs = [l.get_id() for l in order([x]) if l.num_args() == 0 and l.get_id() in defs]
        return z3.substitute(x, defs[max(vs, key=lambda i: age[i])]) if vs else x
    def same(l, r):
        for level in range(8):
            d = z3.simplify(l != r)
            if z3.is_false(d): return True
            sol = z3.Solver(); sol.set('timeout', timeout if level else timeout // 3); sol.add(d)
            if sol.check() == z3.unsat: return True
            p = l == r; q = open_(p)
            if q.eq(p): return False
            l, r = q.children()
        return False
    for e in nodes:
        k = e.get_id()
        # cutting at bitwise operations would lose that their operands recur
        if leaf(e) or not z3.is_bv(e) or e.size() < 8 or e.decl().kind() in (z3.Z3_OP_BAND, z3.Z3_OP_BNOT, z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_EXTRACT): continue
        s = (e.size(), sig[k])
        if k in ina and k in inb:
            # a shared term needs no proof
            v = mkcut(e, expr(e)); first.setdefault(s, (e, v))
            continue
        f = first.get(s)
        if f is None: first[s] = (e, None); continue
        x, v = f
        l = v if v is not None else expr(x); r = expr(e)
        if not same(l, r): continue
        if v is None:
            v = mkcut(x, l); first[s] = (x, v)
            memo.clear()
        cut[k] = v
    x, y = expr(a), expr(b)
    return x.eq(y) or same(x, y)
def goal(c):
    """c is an equality of bit vectors (as it was built, before simplification) that holds"""
    while True:
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT and c.arg(0).decl().kind() == z3.Z3_OP_NOT: c = c.arg(0).arg(0); continue
        if k == z3.Z3_OP_NOT and c.arg(0).decl().kind() == z3.Z3_OP_DISTINCT: c = c.arg(0).arg(0) == c.arg(0).arg(1); continue
        break
    return c.decl().kind() == z3.Z3_OP_EQ and z3.is_bv(c.arg(0)) and equal(c.arg(0), c.arg(1))
