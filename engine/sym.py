"""Symbolic executor / verification-condition generator over LLVM IR.

Function bodies come from clang's output for /repo's current sources.  Calls to
functions that have a contract registered are replaced by that contract; every
other call is executed through its body (so an extracted helper needs no
contract).  Loops whose iteration count is not fixed are cut at their header:
the modified state is havocked, candidate invariants are pruned Houdini-style
and the surviving ones are proved inductive.
"""
import time, re, struct
import z3, ring, mixed, sweep
from irparse import *

class Unsupported(Exception):
    """the engine cannot process this construct: the check ends as an error"""
class NeedCut(Exception):
    def __init__(s, fn, hdr): s.fn = fn; s.hdr = hdr
class Fork(Exception):
    def __init__(s, cond): s.cond = cond
class PathEnd(Exception):
    """the current path is infeasible or ends here (assume false)"""

BV = z3.BitVecVal
def mask(n): return (1 << n) - 1
def isc(v): return isinstance(v, int)
def bv(v, n):
    return BV(v, n) if isinstance(v, int) else v
def tobool(c):
    """i1 value -> z3 Bool"""
    if isinstance(c, int): return z3.BoolVal(bool(c))
    return c
def b2v(c):
    """z3 Bool/py -> i1 value folded"""
    if isinstance(c, bool): return int(c)
    if isinstance(c, int): return c
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return c
def fold(e):
    """fold z3 bitvector numeral to python int"""
    if isinstance(e, int): return e
    if z3.is_bv_value(e): return e.as_long()
    return e
def simp(e):
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def sx(v, n):
    """signed view of python int"""
    return v - (1 << n) if v >> (n - 1) & 1 else v

class Obj:
    _n = 0
    __slots__ = ('id', 'name', 'kind', 'init', 'meta', 'fam', 'elsz', 'const')
    def __init__(s, name, kind, init=None, meta=None, fam=False, elsz=None):
        Obj._n += 1
        s.id = Obj._n; s.name = name; s.kind = kind; s.init = init; s.meta = meta or {}; s.fam = fam; s.elsz = elsz; s.const = False
    def __repr__(s): return '<%s>' % s.name

class Ptr:
    __slots__ = ('obj', 'off', 'null', 'key')
    def __init__(s, obj, off=0, null=None, key=None):
        s.obj = obj; s.off = off; s.null = null; s.key = key
    def __repr__(s): return 'Ptr(%r%s+%s%s)' % (s.obj, '' if s.key is None else '[%s]' % s.key, s.off, '' if s.null is None else ' null?%s' % s.null)
NULL = Ptr(None, 0)
class FnRef:
    __slots__ = ('name', 'mod')
    def __init__(s, name, mod): s.name = name; s.mod = mod
    def __repr__(s): return 'Fn(%s)' % s.name
class PInt:
    """ptrtoint of a pointer (only differences/comparisons are meaningful)"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Undef:
    __slots__ = ()
UNDEF = Undef()

class OS:
    """state of one object"""
    __slots__ = ('cells', 'arr', 'alive', 'size', 'owner', 'log', 'uninit', 'view')
    def __init__(s, size, owner):
        s.cells = {}; s.arr = None; s.alive = True; s.size = size; s.owner = owner; s.log = None; s.uninit = False; s.view = None
    def copy(s, owner):
        o = OS(s.size, owner); o.cells = dict(s.cells); o.arr = s.arr; o.alive = s.alive
        o.log = {k: list(v) for k, v in s.log.items()} if s.log else None
        o.uninit = s.uninit; o.view = s.view
        return o

class Frame:
    __slots__ = ('fn', 'env', 'blk', 'prev', 'i', 'ret', 'allocas', 'visits', 'cuts', 'onret', 'symbr')
    def __init__(s, fn):
        s.fn = fn; s.env = {}; s.blk = None; s.prev = None; s.i = 0; s.ret = None; s.allocas = []; s.visits = {}; s.cuts = {}; s.onret = None; s.symbr = {}
    def copy(s):
        f = Frame(s.fn); f.env = dict(s.env); f.blk = s.blk; f.prev = s.prev; f.i = s.i; f.ret = s.ret
        f.allocas = list(s.allocas); f.visits = dict(s.visits); f.cuts = dict(s.cuts); f.onret = s.onret; f.symbr = dict(s.symbr)
        return f

class State:
    def __init__(s):
        s.heap = {}; s.pc = []; s.frames = []; s.ghost = {}; s.own = object(); s.dec = {}; s.exc = None; s.trace = []
    def fork(s):
        n = State.__new__(State)
        n.heap = dict(s.heap); n.pc = list(s.pc); n.frames = [f.copy() for f in s.frames]
        n.ghost = dict(s.ghost); n.own = object(); s.own = object(); n.dec = dict(s.dec); n.exc = s.exc; n.trace = list(s.trace)
        return n
    def os(s, obj): return s.heap[obj.id]
    def wos(s, obj):
        o = s.heap[obj.id]
        if o.owner is not s.own:
            o = o.copy(s.own); s.heap[obj.id] = o
        return o
    def assume(s, c):
        if isinstance(c, (int, bool)):
            if not c: raise PathEnd()
            return
        if z3.is_true(c): return
        s.pc.append(c)

class Obligation:
    __slots__ = ('label', 'status', 'backend', 't', 'model', 'st', 'detail', 'goal')
    def __init__(s, label, status, backend, t, model=None, detail='', goal=None, st=None):
        s.label = label; s.status = status; s.backend = backend; s.t = t; s.model = model; s.detail = detail; s.goal = goal; s.st = st

class Stats:
    def __init__(s):
        s.queries = 0; s.solver_s = 0.0; s.funcs = set(); s.contracts = {}; s.cuts = {}; s.insts = 0; s.feas = 0; s.paths = 0; s.undefined = set(); s.timeouts = 0

class Program:
    """a set of modules"""
    def __init__(s, mods, demangle=None):
        s.mods = mods
        s.fn = {}
        s.gl = {}
        s.alias = {}
        for m in mods:
            for n, rest in m.aliases.items():
                g = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
                s.alias[n] = unq('@' + g.group(1))
        for m in mods:
            for n, f in m.funcs.items():
                if n not in s.fn or (' available_externally ' in s.fn[n].head): s.fn[n] = f
        for m in mods:
            for n, r in m.globs.items():
                if r.startswith('external') or ' external ' in r[:40] or r.startswith('private') or r.startswith('internal'): continue
                if n not in s.gl: s.gl[n] = m
        s.dem = demangle or {}
        s.bydem = {}
        for k, v in s.dem.items(): s.bydem.setdefault(v, k)
    def find(s, pat):
        """defined functions whose demangled name matches the regex"""
        r = re.compile(pat)
        return sorted(n for n in s.fn if r.search(s.dem.get(n, n)))
    def one(s, pat):
        l = s.find(pat)
        # drop the base-object ctor/dtor twin when the complete one is there
        if len(l) > 1:
            c = [x for x in l if not re.search(r'[CD]2E', x)]
            if len(c) == 1: l = c
        if len(l) != 1: raise Unsupported('function %r: %d matches %s' % (pat, len(l), l[:4]))
        return l[0]

class Exec:
    def __init__(s, prog, contracts=None, fpmode='bits', timeout=20000):
        s.prog = prog; s.nsmall = 0; s.nfail = {}
        s.contracts = {}          # mangled -> handler
        s.pats = []               # (regex on demangled, handler)
        s._ctr = {}
        s.obls = []
        s.stats = Stats()
        s.fpmode = fpmode
        s.R = ring.Ring()
        s.timeout = timeout
        s.globobj = {}
        s.quiet = 0
        s.fresh_n = 0
        s.cutset = {}             # (fn name, header) -> True : loops to cut
        import cand
        s.cutcand = [cand.gen]    # candidate generators
        s.loopinfo = {}
        s.max_unroll = 5000
        s.sym_unroll = 6
        s.unroll_of = None        # f(fn, blocks of the loop) -> symbolic iterations before a cut
        s.max_bounded = 400
        s.max_states = 20000
        s.deadline = None
        s.prop_nulls = True
        s.check_mem = True
        s.globinit = None         # hook(ex, st, name, ty, const, init) -> Obj.init override
        s.never_cut = set()
        s.mem_label = 'memory'
        s.allow_null_calls = False
        s.force_unroll = set()
        s.ranges = {}
        s._lin = {}
        s.cutmods = {}
        s.axioms = []             # global assumptions (e.g. distinct literal ids)
        s.unknown_calls = {}
        s.assumed = set()
        s.feas_timeout = 3000
        s._mrg = {}
        s._qcache = {}
        s.slice_queries = True
        s._keep = []
        s.assume_eqs = False     # implied equalities that decide a branch are remembered
        s.assume_proved = True   # proved obligations help later queries
        s.sweep = False          # try sweep.py on large equalities
        s.rounded = False        # fpmode 'real': results of double operations are rounded (mixed.py)
        s.merge_calls = True
        s.merge_regions = True
        s.merge_wide = False

    # ------------------------------------------------------------ solver
    def cone(s, asserts):
        """the assertions that share (transitively) a variable with the last one: the others
        speak about disjoint variables of a satisfiable path condition"""
        import cand
        if len(asserts) < 3: return asserts
        want = set(cand.termvars(asserts[-1]))
        for a in s.axioms: want |= cand.termvars(a)
        rest = [(a, cand.termvars(a)) for a in asserts[:-1]]
        out = []
        ch = True
        while ch and rest:
            ch = False; nr = []
            for a, v in rest:
                if not v or v & want: out.append(a); want |= v; ch = True
                else: nr.append((a, v))
            rest = nr
        out.append(asserts[-1])
        return out
    def _check(s, asserts, timeout=None, full=False):
        if not full and s.slice_queries and asserts:
            asserts = s.cone(asserts)
            key = tuple(a.get_id() for a in asserts)
            c = s._qcache.get(key)
            if c is not None and all(x.eq(y) for x, y in zip(c[0], asserts)) and c[1] == z3.unsat: return c[1], c[2]
            r, sol = s._check(asserts, timeout, True)
            if r == z3.unsat: s._qcache[key] = (list(asserts), r, None)
            return r, sol
        if s.rounded:
            t = time.time(); r, sol = mixed.check(list(s.axioms) + list(asserts), timeout or s.timeout)
            s.stats.solver_s += time.time() - t; s.stats.queries += 1
            return r, sol
        if s.fpmode == 'real' and asserts and timeout == s.feas_timeout:
            # feasibility: first without multiplication
            t = time.time(); u = ring.linear_unsat(asserts, (), s.R)
            s.stats.solver_s += time.time() - t; s.stats.queries += 1
            return (z3.unsat if u else z3.unknown), None
        sol = z3.Solver()
        sol.set('timeout', timeout or s.timeout)
        for a in s.axioms: sol.add(a)
        for a in asserts: sol.add(a)
        t = time.time()
        r = sol.check()
        s.stats.solver_s += time.time() - t
        s.stats.queries += 1
        return r, sol

    def len_bounds(s, v):
        """known range of a length variable"""
        if not z3.is_app(v): return None
        nm = v.decl().name()
        if v.num_args() == 0 and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if nm.startswith('len.'): return (1 if nm.startswith(('len.fp(', 'len.udec(')) else 0, (1 << 31) - 1)
            return s.ranges.get(nm)
        if nm == 'declen': return (1, 20)
        return None

    def linear(s, t, k=1, acc=None):
        """t as an integer combination of range-limited variables"""
        if acc is None: acc = {'c': 0}
        if z3.is_bv_value(t):
            v = t.as_long()
            if v >= 1 << (t.size() - 1): v -= 1 << t.size()
            acc['c'] += k * v; return acc
        d = t.decl().kind()
        if d == z3.Z3_OP_BADD:
            for a in t.children():
                if s.linear(a, k, acc) is None: return None
            return acc
        if d == z3.Z3_OP_BSUB and t.num_args() == 2:
            if s.linear(t.arg(0), k, acc) is None: return None
            return s.linear(t.arg(1), -k, acc)
        if d == z3.Z3_OP_BNEG: return s.linear(t.arg(0), -k, acc)
        if d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = t.arg(0).as_signed_long()
            if abs(v) > 1 << 20: return None
            return s.linear(t.arg(1), k * v, acc)
        r = s.len_bounds(t)
        if r is None: return None
        i = t.get_id()
        o = acc.get(i)
        acc[i] = (t, r, (o[2] if o else 0) + k)
        return acc

    def lin_range(s, l):
        lo = hi = l['c']
        for k, x in l.items():
            if k == 'c': continue
            _, (a, b), c = x
            lo += c * (a if c > 0 else b); hi += c * (b if c > 0 else a)
        return lo, hi

    def quick(s, c):
        """True/False when interval reasoning over lengths decides the comparison"""
        neg = False
        while z3.is_not(c): c = c.arg(0); neg = not neg
        if not z3.is_app(c) or c.num_args() != 2: return None
        k = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        if not z3.is_bv(a) or a.size() != 64: return None
        la = s.linear(a)
        if la is None: return None
        lb = s.linear(b)
        if lb is None: return None
        d = dict(la); d['c'] = la['c'] - lb['c']
        for i, x in lb.items():
            if i == 'c': continue
            o = d.get(i)
            n = (o[2] if o else 0) - x[2]
            if n: d[i] = (x[0], x[1], n)
            else: d.pop(i, None)
        lo, hi = s.lin_range(d)
        M = 1 << 62
        r = None
        if k == z3.Z3_OP_EQ:
            if -M < lo and hi < M:
                if lo == hi == 0: r = True
                elif lo > 0 or hi < 0: r = False
        elif k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            uns = k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ)
            for l in (la, lb):
                x, y = s.lin_range(l)
                if x < (0 if uns else -M) or y >= M: return None
            if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT): r = True if hi < 0 else False if lo >= 0 else None
            elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ): r = True if hi <= 0 else False if lo > 0 else None
            elif k in (z3.Z3_OP_UGT, z3.Z3_OP_SGT): r = True if lo > 0 else False if hi <= 0 else None
            else: r = True if lo >= 0 else False if hi < 0 else None
        if r is None: return None
        s.stats.quick = getattr(s.stats, 'quick', 0) + 1
        return r != neg

    CMP = {z3.Z3_OP_EQ: ('=', 0), z3.Z3_OP_ULT: ('<', 1), z3.Z3_OP_ULEQ: ('<=', 1), z3.Z3_OP_UGT: ('>', 1), z3.Z3_OP_UGEQ: ('>=', 1),
           z3.Z3_OP_SLT: ('<', -1), z3.Z3_OP_SLEQ: ('<=', -1), z3.Z3_OP_SGT: ('>', -1), z3.Z3_OP_SGEQ: ('>=', -1)}
    NEG = {'=': '!=', '!=': '=', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}

    def lin_open(s, t, k, acc):
        """like linear, with any other 64-bit term as a variable of unknown range"""
        if z3.is_bv_value(t):
            v = t.as_long()
            if v >= 1 << (t.size() - 1): v -= 1 << t.size()
            acc['c'] += k * v; return
        d = t.decl().kind()
        if d == z3.Z3_OP_BADD:
            for a in t.children(): s.lin_open(a, k, acc)
            return
        if d == z3.Z3_OP_BSUB and t.num_args() == 2:
            s.lin_open(t.arg(0), k, acc); s.lin_open(t.arg(1), -k, acc); return
        if d == z3.Z3_OP_BNEG: return s.lin_open(t.arg(0), -k, acc)
        if d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = t.arg(0).as_signed_long()
            if abs(v) <= 1 << 20: return s.lin_open(t.arg(1), k * v, acc)
        i = t.get_id(); o = acc.get(i)
        acc[i] = (t, s.len_bounds(t), (o[2] if o else 0) + k)

    def lin_facts(s, c, out):
        """comparisons a conjunct is made of: (op, signedness, left, right)"""
        if z3.is_and(c):
            for x in c.children(): s.lin_facts(x, out)
            return
        e = s._lin.get(c.get_id())
        if e is not None and e[0].eq(c):
            if e[1] is not None: out.append(e[1])
            return
        r = None; neg = False; d = c
        while z3.is_not(d): d = d.arg(0); neg = not neg
        if z3.is_app(d) and d.num_args() == 2 and z3.is_bv(d.arg(0)) and d.arg(0).size() == 64:
            k = s.CMP.get(d.decl().kind())
            if k is not None:
                la = {'c': 0}; lb = {'c': 0}
                s.lin_open(d.arg(0), 1, la); s.lin_open(d.arg(1), 1, lb)
                r = (s.NEG[k[0]] if neg else k[0], k[1], la, lb)
        s._lin[c.get_id()] = (c, r)
        if r is not None: out.append(r)

    def ring(s, pc, c):
        """exact arithmetic: identities of rational functions, and consequences of linear reasoning over monomials"""
        if z3.is_eq(c) and z3.is_real(c.arg(0)) and ring.identity(c, pc, s.R): return True
        return ring.linear_unsat(list(pc) + [z3.Not(c)], (), s.R)

    def lia(s, pc, c):
        """is c implied, by integer reasoning over terms whose ranges exclude overflow?  True, False (not
        implied as far as the integer facts go) or None (outside this fragment)"""
        g = []
        s.lin_facts(c, g)
        if len(g) != 1: return None
        facts = []
        for p in pc: s.lin_facts(p, facts)
        rng = {}
        def rg(l):
            lo = hi = l['c']
            for k, x in l.items():
                if k == 'c': continue
                r = x[1] or rng.get(k)
                if r is None: return None
                lo += x[2] * (r[0] if x[2] > 0 else r[1]); hi += x[2] * (r[1] if x[2] > 0 else r[0])
            return lo, hi
        M = 1 << 61
        # ranges of lone variables
        for rnd in range(2):
            for op, sg, la, lb in facts:
                for (x, y, o) in ((la, lb, op), (lb, la, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op))):
                    if x['c'] != 0 or len(x) != 2 or o not in ('<', '<=', '='): continue
                    (k,) = [i for i in x if i != 'c']
                    if x[k][2] != 1 or x[k][1] is not None: continue
                    r = rg(y)
                    if r is None or r[0] < 0 or r[1] >= M: continue
                    if sg == 1 or o == '=':
                        old = rng.get(k)
                        if old is None or r[1] < old[1]: rng[k] = (0, r[1])
        def ok(f):
            a, b = rg(f[2]), rg(f[3])
            if a is None or b is None: return False
            m = 0 if f[1] == 1 else -M
            return min(a[0], b[0]) >= m and max(a[1], b[1]) < M
        if not ok(g[0]): return None
        sol = z3.Solver(); sol.set('timeout', 1000)
        vs = {}
        def term(l):
            e = z3.IntVal(l['c'])
            for k, x in l.items():
                if k == 'c': continue
                v = vs.get(k)
                if v is None:
                    v = vs[k] = z3.Int('v%d' % k)
                    r = x[1] or rng[k]
                    sol.add(v >= r[0], v <= r[1])
                e = e + x[2] * v
            return e
        def form(f):
            a, b = term(f[2]), term(f[3])
            return {'=': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[f[0]]
        goal = form(g[0])
        for f in facts:
            if ok(f): sol.add(form(f))
        sol.add(z3.Not(goal))
        t = time.time()
        r = sol.check()
        s.stats.solver_s += time.time() - t; s.stats.queries += 1
        if r == z3.unsat: return True
        return False if r == z3.sat else None

    def feasible(s, st, extra=None):
        a = list(st.pc)
        if extra is not None:
            if isinstance(extra, (int, bool)):
                if not extra: return False
            else:
                a.append(extra)
        if not a: return True
        s.stats.feas += 1
        r, _ = s._check(a, s.feas_timeout)
        return r != z3.unsat

    def valid(s, st, c):
        """is c implied by the path condition (no obligation recorded)"""
        c = tobool(c) if not isinstance(c, bool) else z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        q = s.quick(c)
        if q is not None: return q
        l = s.lia(st.pc, c)
        if l: return True
        r, _ = s._check(list(st.pc) + [z3.Not(c)], s.feas_timeout if l is None else 500)
        return r == z3.unsat

    def decide(s, st, c):
        """True/False if the path condition decides c, else fork"""
        if isinstance(c, (int, bool)): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.sexpr() if False else c.get_id()
        if k in st.dec and st.dec[k][0].eq(c): return st.dec[k][1]
        q = s.quick(c)
        if q is not None: return q
        l = s.lia(st.pc, c)
        if l is None: r = None
        elif l: st.dec[k] = (c, True); return True
        elif s.lia(st.pc, z3.Not(c)): st.dec[k] = (c, False); return False
        r, _ = s._check(list(st.pc) + [z3.Not(c)], s.feas_timeout if l is None else 500)
        if r == z3.unsat:
            st.dec[k] = (c, True)
            if s.assume_eqs and z3.is_eq(c): st.assume(c)
            return True
        r, _ = s._check(list(st.pc) + [c], s.feas_timeout if l is None else 500)
        if r == z3.unsat:
            st.dec[k] = (c, False)
            if s.assume_eqs and z3.is_not(c) and z3.is_eq(c.arg(0)): st.assume(c.arg(0))
            return False
        raise Fork(c)

    def oblige(s, st, c, label, detail=''):
        """generate and discharge one obligation; on failure record it and continue assuming it"""
        if s.quiet:
            # speculative run: no verdicts, but keep the assumption
            if isinstance(c, (int, bool)):
                if not c: raise PathEnd()
                return True
            cs = z3.simplify(c)
            if z3.is_false(cs): raise PathEnd()
            st.assume(c)
            return True
        if isinstance(c, (int, bool)): c = z3.BoolVal(bool(c))
        t = time.time()
        cs = z3.simplify(c)
        if z3.is_true(cs):
            s.obls.append(Obligation(label, 'ok', 'simplifier', time.time() - t)); return True
        if s.quick(cs) or s.lia(st.pc, cs):
            s.obls.append(Obligation(label, 'ok', 'z3', time.time() - t)); return True
        if s.fpmode == 'real' and not s.rounded and s.ring(st.pc, c):
            s.obls.append(Obligation(label, 'ok', 'ring', time.time() - t)); st.assume(c); return True
        if s.sweep and sweep.goal(c):
            s.obls.append(Obligation(label, 'ok', 'sweep', time.time() - t)); return True
        r, sol = s._check(list(st.pc) + [z3.Not(cs)])
        if r == z3.unknown:
            # second back end
            r2 = s._cvc5(list(st.pc) + [z3.Not(cs)])
            if r2 == 'unsat':
                s.obls.append(Obligation(label, 'ok', 'cvc5', time.time() - t)); st.assume(c); return True
            s.stats.timeouts += 1
            s.obls.append(Obligation(label, 'unknown', 'z3', time.time() - t, detail=detail, goal=cs))
            st.assume(c)
            return False
        if r == z3.unsat:
            s.obls.append(Obligation(label, 'ok', 'z3', time.time() - t))
            if s.assume_proved: st.assume(c)
            return True
        s.nfail[label] = s.nfail.get(label, 0) + 1
        if s.nfail[label] > 8:
            s.obls.append(Obligation(label, 'failed', 'z3', time.time() - t, detail=detail, goal=cs))
            if z3.is_false(cs): raise PathEnd()
            st.assume(c)
            return False
        if s.slice_queries:
            r3, sol3 = s._check(list(st.pc) + [z3.Not(cs)], None, True)
            if r3 == z3.sat: sol = sol3
            elif r3 == z3.unsat:
                # the path itself is infeasible
                s.obls.append(Obligation(label, 'ok', 'z3', time.time() - t)); raise PathEnd()
        m = sol.model()
        if s.nsmall < 4:
            # prefer a counterexample of a size that can be replayed
            s.nsmall += 1
            ins = [d[1] for d in getattr(s, 'inputs', {}).values() if d[0] == 64]
            for lim in (96, 1 << 13, 1 << 22, 1 << 28):
                if not ins: break
                r4, sol4 = s._check(list(st.pc) + [z3.Not(cs)] + [z3.ULE(x, BV(lim, 64)) for x in ins], 5000, True)
                if r4 == z3.sat: m = sol4.model(); break
        s.obls.append(Obligation(label, 'failed', 'z3', time.time() - t, model=m, detail=detail, goal=cs, st=st.fork()))
        if z3.is_false(cs): raise PathEnd()
        st.assume(c)
        return False

    def _cvc5(s, asserts):
        try:
            import subprocess, tempfile, os
            sol = z3.Solver()
            for a in s.axioms: sol.add(a)
            for a in asserts: sol.add(a)
            txt = '(set-logic ALL)\n' + sol.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % s.timeout], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=s.timeout/1000 + 5)
            return p.stdout.decode().strip().split('\n')[0]
        except Exception:
            return 'unknown'

    # ------------------------------------------------------------ fresh values
    def fresh(s, n, name='v'):
        s.fresh_n += 1
        if n == 1: return z3.Bool('%s!%d' % (name, s.fresh_n))
        return z3.BitVec('%s!%d' % (name, s.fresh_n), n)
    def freshof(s, ty, name='v', mod=None):
        k = ty.k
        if k == 'int': return s.fresh(ty.n, name)
        if k == 'double':
            if s.fpmode == 'real':
                s.fresh_n += 1; return z3.Real('%s!%d' % (name, s.fresh_n))
            return s.fresh(64, name)
        if k == 'float': return s.fresh(32, name)
        if k == 'x86_fp80': return s.fresh(128, name)
        if k == 'ptr': return Ptr(None, s.fresh(64, name + '_addr'))
        raise Unsupported('fresh of %r' % ty)

    # ------------------------------------------------------------ objects
    def new_obj(s, st, name, size, kind='heap', init=None, meta=None, fam=False, elsz=None, arr=None):
        o = Obj(name, kind, init, meta, fam, elsz)
        os_ = OS(size, st.own)
        if arr is not None: os_.arr = arr
        st.heap[o.id] = os_
        return o

    def arr_obj(s, st, name, size, content=None):
        a = content if content is not None else z3.Array('%s#%d' % (name, s.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
        s.fresh_n += 1
        return s.new_obj(st, name, size, 'arr', arr=a)

    def glob(s, st, name, mod):
        # function?
        while name in s.prog.alias and name not in mod.globs:
            name = s.prog.alias[name]
        if name in mod.funcs or (name in s.prog.fn):
            return FnRef(name, mod)
        if name in mod.decls: return FnRef(name, mod)
        dm = mod
        r = mod.globs.get(name)
        if r is None: raise Unsupported('global %s' % name)
        if r.startswith('external') or ' external ' in ' ' + r[:30]:
            if name in s.prog.gl: dm = s.prog.gl[name]
        elif not (r.startswith('private') or r.startswith('internal')):
            dm = s.prog.gl.get(name, mod)
        key = (dm.name, name)
        o = s.globobj.get(key)
        if o is None:
            t, const, init = dm.glob(name)
            o = Obj('@' + name, 'global', meta={'glob': name, 'mod': dm, 'ty': t, 'ini': init})
            o.const = const
            s.globobj[key] = o
            if s.globinit: s.globinit(s, o, name, t, const, init)
        if o.id not in st.heap:
            t = o.meta['ty']
            os_ = OS(dm.size(t) if o.meta['ini'] is not None or t.k != 'named' else None, st.own)
            st.heap[o.id] = os_
            if o.init is None:
                if o.meta['ini'] is not None and (o.const or not o.meta.get('symbolic')):
                    s.put_const(st, o, os_, 0, t, o.meta['ini'], dm)
                elif o.meta['ini'] is None:
                    o.init = input_init(o.name)
        return Ptr(o, 0)

    def put_const(s, st, o, os_, off, t, v, mod):
        t = mod.res(t)
        k = v[0]
        if k == 'zero':
            if t.k in ('array', 'struct'):
                n = mod.size(t)
                o.meta.setdefault('zero', []).append((off, n))
            elif t.k == 'ptr': os_.cells[off] = (8, NULL)
            else: os_.cells[off] = (mod.size(t), s.fpconst(0, t))
        elif k == 'str':
            for i, b in enumerate(v[1]): os_.cells[off + i] = (1, b)
        elif k == 'agg':
            p = off
            for i, (et, ev) in enumerate(v[1]):
                if t.k == 'struct': p = off + mod.foff(t, i)
                else: p = off + i * mod.size(t.el)
                s.put_const(st, o, os_, p, et, ev, mod)
        elif k == 'undef': pass
        else:
            os_.cells[off] = (mod.size(t), s.const(st, t, v, mod))

    def fpconst(s, bits, t):
        if t.k in ('double', 'float') and s.fpmode == 'real':
            from fractions import Fraction
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
            fr = Fraction(d)
            return z3.RealVal(str(fr))
        return bits

    # ------------------------------------------------------------ constants / operands
    def const(s, st, ty, v, mod):
        k = v[0]
        if k == 'i':
            if ty.k == 'int': return v[1] & mask(ty.n)
            return v[1]
        if k == 'fp':
            if ty.k == 'float':
                d = struct.unpack('<d', struct.pack('<Q', v[1]))[0]
                if s.fpmode == 'real': return s.fpconst(v[1], DOUBLE)
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return s.fpconst(v[1], DOUBLE)
        if k == 'null': return NULL
        if k == 'undef':
            t = mod.res(ty)
            if t.k == 'struct': return tuple(UNDEF for _ in t.els)
            return UNDEF
        if k == 'zero':
            t = mod.res(ty)
            if t.k == 'ptr': return NULL
            if t.k == 'struct': return tuple(s.const(st, e, ('zero',), mod) for e in t.els)
            if t.k == 'array': return tuple(s.const(st, t.el, ('zero',), mod) for _ in range(t.n))
            return s.fpconst(0, t)
        if k == 'g': return s.glob(st, v[1], mod)
        if k == 'agg': return tuple(s.const(st, t, x, mod) for t, x in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                b = s.const(st, PTR, v[3], mod)
                idx = [(t, s.const(st, t, x, mod)) for t, x in v[4]]
                return s.gep(st, v[2], b, idx, mod)
            if v[1] in ('bitcast', 'addrspacecast'): return s.const(st, v[2], v[3], mod)
            if v[1] == 'inttoptr':
                x = s.const(st, v[2], v[3], mod)
                return x.p if isinstance(x, PInt) else Ptr(None, x)
            if v[1] == 'ptrtoint':
                x = s.const(st, v[2], v[3], mod)
                return PInt(x) if isinstance(x, (Ptr, FnRef)) else x
            if v[1] == 'trunc': return s.const(st, v[2], v[3], mod) & mask(v[4].n)
        if k == 'meta': return None
        raise Unsupported('constant %r' % (v,))

    def val(s, st, ty, v):
        k = v[0]
        f = st.frames[-1]
        if k == 'l': 
            try: return f.env[v[1]]
            except KeyError: raise Unsupported('undefined local %s in %s' % (v[1], f.fn.name))
        return s.const(st, ty, v, f.fn.mod)

    def deundef(s, v, ty):
        if v is UNDEF:
            if ty.k == 'ptr': return Ptr(None, s.fresh(64, 'undef'))
            return s.freshof(ty, 'undef')
        return v

    # ------------------------------------------------------------ pointers
    def addoff(s, a, d):
        if isc(a) and isc(d): return (a + d) & mask(64)
        if isc(d) and d == 0: return a
        if isc(a) and a == 0: return d
        return simp(bv(a, 64) + bv(d, 64))

    def gep(s, st, ty, b, idx, mod):
        if not isinstance(b, Ptr): 
            if all(isc(x) and x == 0 for _, x in idx): return b
            raise Unsupported('gep on %r' % (b,))
        off = 0
        t = ty
        for n, (it, iv) in enumerate(idx):
            if n > 0:
                t = mod.res(t)
                if t.k == 'struct':
                    off = s.addoff(off, mod.foff(t, iv)); t = t.els[iv]; continue
                t = t.el
            sz = mod.size(t)
            if isinstance(iv, PInt): raise Unsupported('gep with pointer index')
            if isc(iv):
                d = (sx(iv, it.n) * sz) & mask(64)
            else:
                e = iv
                if it.n < 64: e = z3.SignExt(64 - it.n, e)
                d = e if sz == 1 else e * BV(sz, 64)
            off = s.addoff(off, d)
        # element of a family whose index is carried in the key
        if b.obj is not None and b.key is not None and b.obj.elsz and not (isc(off) and off < b.obj.elsz and isc(b.off)):
            tot = s.addoff(b.off, off)
            if isc(tot):
                st_ = sx(tot, 64)
                q, r = divmod(st_, b.obj.elsz)
                return Ptr(b.obj, r, b.null, simp(b.key + BV(q & mask(64), 64)) if q else b.key)
            return Ptr(b.obj, tot, b.null, b.key)
        return Ptr(b.obj, s.addoff(b.off, off), b.null, b.key)

    def pnull(s, p):
        """z3 Bool / python: is pointer null"""
        if isinstance(p, FnRef): return False
        if p.obj is None:
            if isc(p.off): return p.off == 0
            return p.off == BV(0, 64)
        if p.null is not None: return p.null
        return False

    def peq(s, st, a, b):
        if isinstance(a, FnRef) or isinstance(b, FnRef):
            if isinstance(a, FnRef) and isinstance(b, FnRef): return a.name == b.name
            if isinstance(a, Ptr) and a.obj is None and isc(a.off) and a.off == 0: return False
            if isinstance(b, Ptr) and b.obj is None and isc(b.off) and b.off == 0: return False
            raise Unsupported('function pointer comparison')
        if a.obj is None and b.obj is None:
            return a.off == b.off if isc(a.off) and isc(b.off) else bv(a.off, 64) == bv(b.off, 64)
        if a.obj is None or b.obj is None:
            x, y = (a, b) if a.obj is None else (b, a)
            if isc(x.off) and x.off == 0:
                return s.pnull(y)
            al = y.obj.meta.get('addr')
            if al is not None: return bv(x.off, 64) == al
            # unknown integer address against a known object: not the same object unless null
            return z3.And(s.pnull(y) if not isinstance(s.pnull(y), bool) else z3.BoolVal(s.pnull(y)), x.off == BV(0, 64)) if not isc(x.off) else False
        if a.obj is b.obj:
            c = (a.off == b.off) if isc(a.off) and isc(b.off) else bv(a.off, 64) == bv(b.off, 64)
            if a.key is not None and b.key is not None:
                kc = s.keyeq(a, b)
                c = z3.And(tobool(int(c) if isinstance(c, bool) else c), kc) if not (isinstance(c, bool) and not c) else False
                if not isinstance(c, bool): c = z3.simplify(c)
            na, nb = a.null, b.null
            if na is None and nb is None: return c
            na = z3.BoolVal(False) if na is None else na
            nb = z3.BoolVal(False) if nb is None else nb
            if na.eq(nb): return c if not isinstance(c, bool) or c else na
            return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), tobool(int(c) if isinstance(c, bool) else c)))
        na, nb = s.pnull(a), s.pnull(b)
        if na is False or nb is False: return False
        return z3.And(tobool(int(na) if isinstance(na, bool) else na), tobool(int(nb) if isinstance(nb, bool) else nb))

    def keyeq(s, a, b):
        return z3.simplify(a.key == b.key)

    # ------------------------------------------------------------ memory
    def memok(s, st, p, n, what):
        """memory-safety obligations for an access of n bytes at p"""
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            s.oblige(st, False, '%s: %s through null or wild pointer' % (s.mem_label, what))
            raise PathEnd()
        nl = s.pnull(p)
        if nl is not False:
            s.oblige(st, z3.Not(nl) if not isinstance(nl, bool) else not nl, '%s: %s through null pointer' % (s.mem_label, what), detail=repr(p))
        os_ = st.heap.get(p.obj.id)
        if os_ is None: raise Unsupported('object %r not in heap' % p.obj)
        if not os_.alive:
            s.oblige(st, False, '%s: %s after free' % (s.mem_label, what), detail=repr(p))
            raise PathEnd()
        if os_.size is not None and s.check_mem:
            if p.obj.fam and p.key is not None and p.obj.elsz:
                sz = p.obj.elsz
                # the index bound is part of the object's validity condition
                vc = p.obj.meta.get('valid')
                if vc is not None:
                    s.oblige(st, vc(p.key), '%s: %s of an element outside its collection' % (s.mem_label, what), detail=repr(p))
            else:
                sz = os_.size
            if isc(sz) and isc(p.off) and isc(n):
                if p.off + n > sz:
                    s.oblige(st, False, '%s: %s out of bounds' % (s.mem_label, what), detail='%r + %d, size %s' % (p, n, sz))
                    raise PathEnd()
            else:
                o = bv(p.off, 64); z = bv(sz, 64); nn = bv(n, 64)
                c = z3.And(z3.ULE(nn, z), z3.ULE(o, z - nn))
                s.oblige(st, c, '%s: %s out of bounds' % (s.mem_label, what), detail='%r, %s bytes, size %s' % (p, n, sz))
            for ro, rn in p.obj.meta.get('regions', ()):
                # a registered member array: an access that starts in it ends in it
                if isc(p.off) and ro <= p.off < ro + rn and not (isc(n) and p.off + n <= ro + rn):
                    s.oblige(st, False if isc(n) else z3.ULE(bv(n, 64), BV(ro + rn - p.off, 64)), '%s: %s past the end of a member array' % (s.mem_label, what), detail='%r, %s bytes' % (p, n))
        return os_

    def load(s, st, p, ty, n=None, what='read'):
        f = st.frames[-1].fn.mod if st.frames else s.prog.mods[0]
        if n is None: n = f.size(ty)
        os_ = s.memok(st, p, n, what)
        return s.load_raw(st, p, ty, n)

    def load_raw(s, st, p, ty, n):
        obj = p.obj
        os_ = st.os(obj)
        if ty.k in ('struct', 'array'):
            f = st.frames[-1].fn.mod
            out = []
            for i in range(len(ty.els) if ty.k == 'struct' else ty.n):
                et = ty.els[i] if ty.k == 'struct' else ty.el
                o = f.foff(ty, i) if ty.k == 'struct' else i * f.size(ty.el)
                out.append(s.load_raw(st, Ptr(obj, s.addoff(p.off, o), p.null, p.key), f.res(et), f.size(et)))
            return tuple(out)
        if obj.fam:
            return s.fam_load(st, p, ty, n)
        if os_.view is not None: return s.view_load(st, p, os_, ty, n)
        if os_.arr is not None:
            return s.arr_load(os_.arr, p.off, ty, n)
        if not isc(p.off):
            if ty.k == 'ptr' and obj.meta.get('ptrarr'): return s.fam_load(st, p, ty, n)
            if any(isinstance(c[1], (Ptr, FnRef, PInt)) for k, c in os_.cells.items() if isinstance(k, int)):
                # an object holding pointers: case split over the cells
                for k in sorted(k for k, c in os_.cells.items() if isinstance(k, int) and c[0] == n):
                    if s.decide(st, p.off == BV(k, 64)): return s.cast_cell(st.os(obj).cells[k][1], ty, n)
            # small table with symbolic index: decide by bytes array
            s.to_arr(st, obj)
            return s.arr_load(st.os(obj).arr, p.off, ty, n)
        off = p.off
        c = os_.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return s.cast_cell(v, ty, n)
        # zero-filled area of a constant global
        v = s.read_bytes(st, obj, off, n, ty)
        return v

    def view_load(s, st, p, os_, ty, n):
        """a block of pointers (vf_slots): one named slot, the others arbitrary addresses"""
        limit, at, ptr, nm = os_.view
        if n != 8 or ty.k not in ('ptr', 'int'): raise Unsupported('access of %d bytes in a block of pointers' % n)
        off = bv(p.off, 64)
        if not s.decide(st, z3.And(z3.ULT(off, bv(limit, 64)), z3.ULE(BV(8, 64), bv(limit, 64) - off))): return s.freshof(ty, 'uninit_slot')
        v = ptr if s.decide(st, off == bv(at, 64) * 8) else Ptr(None, z3.Function('slot.' + nm, z3.BitVecSort(64), z3.BitVecSort(64))(off))
        return s.cast_cell(v, ty, n)

    def cast_cell(s, v, ty, n):
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, FnRef)): return v
            if isinstance(v, PInt): return v.p
            if v is UNDEF: return v
            if isc(v): return NULL if v == 0 else Ptr(None, v)
            return Ptr(None, v)
        if ty.k == 'int':
            if isinstance(v, (Ptr, FnRef)): return PInt(v)
            if ty.n == 1 and not isc(v) and z3.is_bv(v): return v != BV(0, v.size()) if v.size() != 1 else v == BV(1, 1)
            if ty.n == 1: return v & 1 if isc(v) else v
            if ty.n < 8 * n and v is not UNDEF:
                return v & mask(ty.n) if isc(v) else z3.Extract(ty.n - 1, 0, v)
            if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, BV(1, ty.n), BV(0, ty.n))
            if z3.is_expr(v) and z3.is_real(v): raise Unsupported('real value read as integer')
            return v
        if ty.k == 'double' and s.fpmode == 'real' and isc(v):
            return s.fpconst(v, DOUBLE)
        return v

    def cellover(s, os_, off, n):
        """cells overlapping [off, off+n)"""
        r = []
        for o in range(off - 31, off + n):
            c = os_.cells.get(o)
            if c is not None and o + c[0] > off: r.append((o, c[0], c[1]))
        return r

    def init_cell(s, st, obj, off, n, ty, key=None):
        """value of never-written memory"""
        for (zo, zn) in obj.meta.get('zero', ()):
            if zo <= off and off + n <= zo + zn:
                if ty.k == 'ptr': return NULL
                return s.fpconst(0, ty)
        if obj.init is not None:
            return obj.init(s, st, obj, off, n, ty, key)
        # uninitialised
        if ty.k == 'ptr': return Ptr(None, s.fresh(64, 'uninit_' + re.sub(r'\W', '_', obj.name)))
        return s.freshof(ty, 'uninit_' + re.sub(r'\W', '_', obj.name))

    def read_bytes(s, st, obj, off, n, ty):
        os_ = st.os(obj)
        ov = s.cellover(os_, off, n)
        if not ov:
            v = s.init_cell(st, obj, off, n, ty)
            w = st.wos(obj)
            if off not in w.cells: w.cells[off] = (n, v)
            return v
        # compose little endian from pieces
        parts = []   # list of (nbytes, value) low to high
        pos = off
        for (o, sz, v) in sorted(ov, key=lambda x: x[0]):
            if o > pos:
                parts.append((o - pos, s.init_bytes(st, obj, pos, o - pos)))
                pos = o
            lo = pos - o
            hi = min(o + sz, off + n) - o
            if lo == 0 and hi == sz and isinstance(v, (Ptr, FnRef, PInt)) and sz == n:
                return s.cast_cell(v, ty, n)
            if v is UNDEF: v = s.fresh(sz * 8, 'uninit')
            if isinstance(v, (Ptr, FnRef, PInt)): raise Unsupported('partial read of a pointer in %r' % obj)
            if z3.is_expr(v) and z3.is_bool(v): v = z3.If(v, BV(1, sz * 8), BV(0, sz * 8))
            if z3.is_expr(v) and z3.is_real(v): raise Unsupported('partial read of a real')
            if isc(v): x = (v >> (8 * lo)) & mask(8 * (hi - lo))
            else: x = v if (lo == 0 and hi == sz) else z3.Extract(8 * hi - 1, 8 * lo, v)
            parts.append((hi - lo, x))
            pos = o + hi
        if pos < off + n:
            parts.append((off + n - pos, s.init_bytes(st, obj, pos, off + n - pos)))
        if all(isc(x) for _, x in parts):
            r = 0; sh = 0
            for k, x in parts: r |= x << sh; sh += 8 * k
        else:
            l = [bv(x, 8 * k) for k, x in parts][::-1]
            r = simp(z3.Concat(*l) if len(l) > 1 else l[0])
        return s.cast_cell(r, ty, n)

    def init_bytes(s, st, obj, off, n):
        v = s.init_cell(st, obj, off, n, INT(8 * n))
        if isinstance(v, (Ptr, FnRef, PInt)): raise Unsupported('partial pointer init')
        w = st.wos(obj)
        w.cells[off] = (n, v)
        return v

    def arr_load(s, arr, off, ty, n):
        o = bv(off, 64)
        bs = [z3.Select(arr, o + BV(i, 64) if i else o) for i in range(n)]
        v = bs[0] if n == 1 else z3.Concat(*bs[::-1])
        v = simp(v)
        if ty.k == 'ptr': return Ptr(None, v)
        return s.cast_cell(v, ty, n)

    def to_arr(s, st, obj):
        w = st.wos(obj)
        if w.arr is not None: return
        if obj.kind in ('global',) and obj.const and all(isc(c[1]) for c in w.cells.values()):
            pass
        a = z3.K(z3.BitVecSort(64), BV(0, 8)) if obj.meta.get('zero') or (obj.const and obj.kind == 'global') else z3.Array('%s#%d' % (obj.name, s.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
        s.fresh_n += 1
        for o, (sz, v) in [(k_, w.cells[k_]) for k_ in sorted(k_ for k_ in w.cells if isinstance(k_, int))]:
            if isinstance(v, (Ptr, FnRef, PInt)): raise Unsupported('array view of an object holding pointers: %r' % obj)
            if v is UNDEF: v = s.fresh(8 * sz, 'uninit')
            if z3.is_expr(v) and z3.is_bool(v): v = z3.If(v, BV(1, 8 * sz), BV(0, 8 * sz))
            for i in range(sz):
                b = BV((v >> (8 * i)) & 255, 8) if isc(v) else z3.Extract(8 * i + 7, 8 * i, v)
                a = z3.Store(a, BV(o + i, 64), b)
        w.arr = a
        w.cells = {k: c for k, c in w.cells.items() if not isinstance(k, int)}

    def store(s, st, p, v, ty, n=None, what='write'):
        f = st.frames[-1].fn.mod if st.frames else s.prog.mods[0]
        if n is None: n = f.size(ty)
        s.memok(st, p, n, what)
        if p.obj.const and p.obj.kind == 'global':
            s.oblige(st, False, '%s: write to constant data' % s.mem_label); raise PathEnd()
        if p.obj.kind == 'charref': raise Unsupported('write through a character reference')
        s.store_raw(st, p, v, ty, n)

    def store_raw(s, st, p, v, ty, n):
        obj = p.obj
        if isinstance(v, tuple):
            f = st.frames[-1].fn.mod
            t = f.res(ty)
            for i, x in enumerate(v):
                et = f.res(t.els[i] if t.k == 'struct' else t.el)
                o = f.foff(t, i) if t.k == 'struct' else i * f.size(t.el)
                s.store_raw(st, Ptr(obj, s.addoff(p.off, o), p.null, p.key), x, et, f.size(et))
            return
        if obj.fam:
            return s.fam_store(st, p, v, ty, n)
        w = st.wos(obj)
        if w.view is not None: raise Unsupported('store into a block of pointers')
        if w.arr is None and not isc(p.off):
            s.to_arr(st, obj); w = st.wos(obj)
        if w.arr is not None:
            if v is UNDEF: v = s.fresh(8 * n, 'uninit')
            if isinstance(v, (Ptr, FnRef, PInt)): raise Unsupported('pointer stored in byte array %r' % obj)
            if z3.is_expr(v) and z3.is_bool(v): v = z3.If(v, BV(1, 8 * n), BV(0, 8 * n))
            a = w.arr; o = bv(p.off, 64)
            if not isc(v) and v.size() < 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
            for i in range(n):
                b = BV((v >> (8 * i)) & 255, 8) if isc(v) else (v if n == 1 else z3.Extract(8 * i + 7, 8 * i, v))
                a = z3.Store(a, o + BV(i, 64) if i else o, b)
            w.arr = a
            return
        off = p.off
        s.clear(st, obj, w, off, n)
        if ty.k == 'int' and ty.n < 8 * n and not isc(v) and v is not UNDEF and not z3.is_bool(v):
            v = z3.ZeroExt(8 * n - ty.n, v)
        w.cells[off] = (n, v)

    def clear(s, st, obj, w, off, n):
        c = w.cells.get(off)
        if c is not None and c[0] == n:
            del w.cells[off]; return
        for (o, sz, v) in s.cellover(w, off, n):
            del w.cells[o]
            if o >= off and o + sz <= off + n: continue
            if isinstance(v, (Ptr, FnRef, PInt)): continue   # destroyed pointer: remaining bytes unknown
            if v is UNDEF: continue
            if z3.is_expr(v) and z3.is_bool(v): v = z3.If(v, BV(1, 8 * sz), BV(0, 8 * sz))
            if o < off:
                k = off - o
                w.cells[o] = (k, v & mask(8 * k) if isc(v) else z3.Extract(8 * k - 1, 0, v))
            if o + sz > off + n:
                lo = off + n - o; k = o + sz - off - n
                w.cells[off + n] = (k, (v >> (8 * lo)) & mask(8 * k) if isc(v) else z3.Extract(8 * sz - 1, 8 * lo, v))

    # families: elements addressed by a symbolic key, fields by constant offset
    def fam_norm(s, st, p):
        """(field offset, key) of an access into a family"""
        if p.obj.meta.get('ptrarr') or (p.key is None and p.obj.elsz):
            el = p.obj.elsz
            if isc(p.off):
                return p.off % el, BV(p.off // el, 64)
            o = z3.simplify(p.off)
            # pattern const + el*k
            c, k = split_mul(o, el)
            if k is not None:
                return c % el, z3.simplify(k + BV(c // el, 64)) if c // el else k
            raise Unsupported('family offset %s' % o)
        if not isc(p.off):
            raise Unsupported('symbolic field offset %s in %r' % (p.off, p.obj))
        return p.off, p.key

    def fam_load(s, st, p, ty, n):
        off, key = s.fam_norm(st, p)
        obj = p.obj
        os_ = st.os(obj)
        if os_.log and (off, n) in os_.log:
            for (k, v) in reversed(os_.log[(off, n)]):
                if k is None:      # havocked: v is a function key -> value
                    return v(key)
                if s.decide(st, k == key): return s.cast_cell(v, ty, n)
        if os_.log:
            for (o2, n2) in os_.log:
                if (o2, n2) != (off, n) and o2 < off + n and off < o2 + n2: raise Unsupported('overlapping family access')
        if obj.init is None: raise Unsupported('family %r without initial value' % obj)
        return obj.init(s, st, obj, off, n, ty, key)

    def fam_store(s, st, p, v, ty, n):
        off, key = s.fam_norm(st, p)
        w = st.wos(p.obj)
        if w.log is None: w.log = {}
        w.log.setdefault((off, n), []).append((key, v))

    # ------------------------------------------------------------ block copies
    def memcpy(s, st, d, sp, n, what='memcpy'):
        if isc(n) and n == 0: return
        if not isc(n) and isinstance(d, Ptr) and isinstance(sp, Ptr) and (d.obj is None or sp.obj is None):
            # nothing is copied when no bytes are asked for, whatever the pointers
            s.oblige(st, n == 0, '%s: %s of a non-empty range through null or wild pointer' % (s.mem_label, what)); return
        s_os = s.memok(st, sp, n, what + ' source read')
        d_os = s.memok(st, d, n, what + ' destination write')
        so, do = st.os(sp.obj), st.os(d.obj)
        if so.view is not None:
            if not (isc(sp.off) and sp.off == 0 and isc(d.off) and d.off == 0 and do.view is None): raise Unsupported('partial copy of a block of pointers')
            l, at, ptr, nm = so.view
            w = st.wos(d.obj); w.cells = {}; w.arr = None
            w.view = (z3.If(z3.ULT(bv(n, 64), bv(l, 64)), bv(n, 64), bv(l, 64)), at, ptr, nm)
            return
        if do.view is not None: raise Unsupported('copy into a block of pointers')
        if isc(n) and isc(sp.off) and isc(d.off) and so.arr is None and do.arr is None and not sp.obj.fam and not d.obj.fam:
            # gather
            cells = []
            pos = sp.off
            end = sp.off + n
            while pos < end:
                c = so.cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    cells.append((pos - sp.off, c[0], c[1])); pos += c[0]; continue
                ov = s.cellover(st.os(sp.obj), pos, end - pos)
                nx = min([o for o, _, _ in ov if o > pos] + [end])
                if any(o <= pos for o, _, _ in ov):
                    # inside a bigger cell
                    o, sz, v = [x for x in ov if x[0] <= pos][0]
                    k = min(o + sz, end) - pos
                    v = s.read_bytes(st, sp.obj, pos, k, INT(8 * k))
                    cells.append((pos - sp.off, k, v)); pos += k
                else:
                    k = nx - pos
                    lay = sp.obj.meta.get('layout')
                    if sp.obj.init is None and not sp.obj.meta.get('zero'):
                        pos += k
                    else:
                        # materialise at natural alignment
                        step = 8
                        while pos % step or pos + step > nx: step //= 2
                        tyv = INT(8 * step)
                        if lay and lay(pos) is not None: tyv = lay(pos); 
                        v = s.load_raw(st, Ptr(sp.obj, pos, None, None), tyv, step)
                        cells.append((pos - sp.off, step, v)); pos += step
            ghosts = [(k, c) for k, c in st.os(sp.obj).cells.items() if isinstance(k, tuple) and sp.off <= k[1] < end]
            w = st.wos(d.obj)
            s.clear_range(st, d.obj, w, d.off, n)
            for o, sz, v in cells:
                if v is UNDEF:
                    continue
                w.cells[d.off + o] = (sz, v)
            return
        if sp.obj.fam or d.obj.fam: raise Unsupported('memcpy on family')
        # array mode
        if isc(n) and n <= 256 and ((so.arr is None and isc(sp.off)) or (do.arr is None and isc(d.off))) and (so.arr is not None or isc(sp.off)):
            k = n if n in (2, 4, 8) else 1
            vs = [s.load_raw(st, Ptr(sp.obj, s.addoff(sp.off, i), None, None), INT(8 * k), k) for i in range(0, n, k)]
            if not any(isinstance(v, (Ptr, FnRef, PInt)) for v in vs):
                for i, v in enumerate(vs): s.store_raw(st, Ptr(d.obj, s.addoff(d.off, i * k), None, None), v, INT(8 * k), k)
                return
        if so.arr is None: s.to_arr(st, sp.obj)
        if do.arr is None: s.to_arr(st, d.obj)
        sa = st.os(sp.obj).arr
        w = st.wos(d.obj)
        if isc(n) and n <= 64:
            a = w.arr
            for i in range(n):
                a = z3.Store(a, simpx(bv(d.off, 64) + BV(i, 64)), z3.Select(sa, simpx(bv(sp.off, 64) + BV(i, 64))))
            w.arr = a
            return
        i = z3.BitVec('cp!%d' % s.fresh_n, 64); s.fresh_n += 1
        dof, sof, nn = bv(d.off, 64), bv(sp.off, 64), bv(n, 64)
        w.arr = z3.Lambda([i], z3.If(z3.And(z3.ULE(dof, i), z3.ULT(i - dof, nn)), z3.Select(sa, i - dof + sof), z3.Select(w.arr, i)))

    def clear_range(s, st, obj, w, off, n):
        end = off + n
        for o in [o for o in w.cells if isinstance(o, int) and o < end and o + w.cells[o][0] > off]:
            sz, v = w.cells[o]
            if o >= off and o + sz <= end: del w.cells[o]
            else: s.clear(st, obj, w, max(o, off), min(o + sz, end) - max(o, off))
    def memset(s, st, d, c, n):
        if isc(n) and n == 0: return
        s.memok(st, d, n, 'memset')
        os_ = st.os(d.obj)
        if isc(n) and isc(d.off) and os_.arr is None and not d.obj.fam:
            w = st.wos(d.obj)
            s.clear_range(st, d.obj, w, d.off, n)
            if isc(c):
                pos = d.off; end = d.off + n
                while pos < end:
                    step = 8
                    while pos % step or pos + step > end: step //= 2
                    w.cells[pos] = (step, int.from_bytes(bytes([c & 255]) * step, 'little')); pos += step
            else:
                for i in range(n): w.cells[d.off + i] = (1, c)
            return
        if os_.arr is None: s.to_arr(st, d.obj)
        w = st.wos(d.obj)
        i = z3.BitVec('ms!%d' % s.fresh_n, 64); s.fresh_n += 1
        dof, nn = bv(d.off, 64), bv(n, 64)
        w.arr = z3.Lambda([i], z3.If(z3.And(z3.ULE(dof, i), z3.ULT(i - dof, nn)), bv(c, 8), z3.Select(w.arr, i)))

    # ghost cells: abstract values attached to an address
    def gget(s, st, p, tag):
        if p.obj is None: return None
        if p.obj.fam:
            off, key = s.fam_norm(st, p)
            os_ = st.os(p.obj)
            if os_.log and (tag, off) in os_.log:
                for (k, v) in reversed(os_.log[(tag, off)]):
                    if k is None: return v(key)
                    if s.decide(st, k == key): return v
            gi = p.obj.meta.get('ginit')
            return gi(s, st, p.obj, tag, off, key) if gi else None
        os_ = st.os(p.obj)
        c = os_.cells.get((tag, p.off))
        if c is not None: return c
        gi = p.obj.meta.get('ginit')
        if gi:
            v = gi(s, st, p.obj, tag, p.off, None)
            if v is not None: st.wos(p.obj).cells[(tag, p.off)] = v
            return v
        return None
    def gset(s, st, p, tag, v):
        w = st.wos(p.obj)
        if p.obj.fam:
            off, key = s.fam_norm(st, p)
            if w.log is None: w.log = {}
            w.log.setdefault((tag, off), []).append((key, v)); return
        if not isc(p.off): raise Unsupported('ghost at symbolic offset')
        w.cells[(tag, p.off)] = v
    def gdel(s, st, p, tag):
        if p.obj.fam: return
        w = st.wos(p.obj)
        w.cells.pop((tag, p.off), None)

    # ------------------------------------------------------------ arithmetic
    def binop(s, st, op, t, a, b):
        if a is UNDEF: a = s.freshof(t, 'undef')
        if b is UNDEF: b = s.freshof(t, 'undef')
        if t.k in ('double', 'float'): return s.fbin(op, t, a, b)
        if t.k == 'vec': raise Unsupported('vector arithmetic')
        n = t.n
        if isinstance(a, PInt) or isinstance(b, PInt):
            return s.pint_op(st, op, t, a, b)
        if isc(a) and isc(b):
            m = mask(n)
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < n else 0
            if op == 'lshr': return a >> b if b < n else 0
            if op == 'ashr': return (sx(a, n) >> min(b, n - 1)) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    s.oblige(st, False, 'arithmetic: division by zero'); raise PathEnd()
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sx(a, n), sx(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & m
        if n == 1:
            x, y = tobool(a), tobool(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if r is None:
                if op in ('add', 'sub'): r = z3.Xor
                elif op == 'mul': r = z3.And
                else: raise Unsupported('i1 ' + op)
            return b2v(z3.simplify(r(x, y)))
        # cheap identities
        if isc(b):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
            if b == 0 and op in ('mul', 'and'): return 0
        if isc(a):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr'): return 0
            if a == 1 and op == 'mul': return b
        x, y = bv(a, n), bv(b, n)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = z3.LShR(x, y)
        elif op == 'ashr': r = x >> y
        else:
            if not isc(b):
                s.oblige(st, y != BV(0, n), 'arithmetic: division by zero')
            if op == 'udiv': r = z3.UDiv(x, y)
            elif op == 'urem': r = z3.URem(x, y)
            elif op == 'sdiv':
                # exact division of an element difference: (k*c)/c
                if isc(b):
                    c0, k = split_mul(x, b)
                    if k is not None and c0 == 0 and s.small_signed(st, k, b, n): return simp(k)
                r = x / y
            elif op == 'srem': r = z3.SRem(x, y)
            else: raise Unsupported(op)
        return fold(r) if not isc(a) or not isc(b) else simp(r)

    def small_signed(s, st, k, c, n):
        lim = BV((1 << (n - 1)) // c, n)
        return s.valid(st, z3.And(z3.ULT(k, lim)))

    def pint_op(s, st, op, t, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            p, q = a.p, b.p
            if isinstance(p, Ptr) and isinstance(q, Ptr):
                if p.obj is None and q.obj is None:
                    return s.binop(st, 'sub', t, p.off, q.off)
                if p.obj is q.obj and p.obj is not None and (p.key is None) == (q.key is None):
                    d = s.binop(st, 'sub', t, p.off, q.off)
                    if p.key is not None:
                        kd = z3.simplify(p.key - q.key)
                        el = p.obj.elsz
                        if el: d = simp(bv(d, 64) + kd * BV(el, 64))
                        elif not (z3.is_bv_value(kd) and kd.as_long() == 0): raise Unsupported('difference of unrelated pointers')
                    return d
            raise Unsupported('difference of pointers to different objects: %r %r' % (p, q))
        if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
            d = b if op == 'add' else s.binop(st, 'sub', t, 0, b)
            return PInt(s.gep(st, INT(8), a.p, [(INT(64), d)], s.prog.mods[0]))
        if op == 'add' and isinstance(b, PInt):
            return PInt(s.gep(st, INT(8), b.p, [(INT(64), a)], s.prog.mods[0]))
        if op == 'and' and isinstance(a, PInt) and isc(b) and b < 16:
            # alignment test: objects are suitably aligned
            if isinstance(a.p, Ptr) and isc(a.p.off): return a.p.off & b
        if op == 'sub' and isinstance(b, PInt) and isc(a): raise Unsupported('negated pointer')
        raise Unsupported('pointer arithmetic %s' % op)

    FP = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b}
    def fbin(s, op, t, a, b):
        if s.fpmode == 'real':
            if op == 'frem': raise Unsupported('frem')
            r = a / b if op == 'fdiv' else s.FP[op](a, b)
            if not s.rounded: return r
            r = z3.simplify(r)
            if z3.is_rational_value(r): return s.fpconst(struct.unpack('<Q', struct.pack('<d', r.numerator_as_long() / r.denominator_as_long()))[0], DOUBLE)
            return mixed.RD(r)
        n = 64 if t.k == 'double' else 32
        if isc(a) and isc(b) and t.k == 'double':
            x = struct.unpack('<d', struct.pack('<Q', a))[0]; y = struct.unpack('<d', struct.pack('<Q', b))[0]
            try:
                r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y, 'fdiv': (x / y if y else None)}.get(op)
                if r is not None: return struct.unpack('<Q', struct.pack('<d', r))[0]
            except Exception: pass
        if s.fpmode == 'ieee':
            srt = z3.Float64() if n == 64 else z3.Float32()
            x, y = z3.fpBVToFP(bv(a, n), srt), z3.fpBVToFP(bv(b, n), srt)
            rm = z3.RNE()
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, x, y)
            return z3.fpToIEEEBV(r)
        f = z3.Function('%s%d' % (op, n), z3.BitVecSort(n), z3.BitVecSort(n), z3.BitVecSort(n))
        return f(bv(a, n), bv(b, n))

    def icmp(s, st, pr, t, a, b):
        if t.k == 'ptr':
            a = s.deundef(a, PTR); b = s.deundef(b, PTR)
            if pr in ('eq', 'ne'):
                r = s.peq(st, a, b)
                if isinstance(r, bool): return int(r) if pr == 'eq' else int(not r)
                return b2v(r) if pr == 'eq' else b2v(z3.Not(r))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and (a.key is b.key or (a.key is not None and b.key is not None and s.keyeq(a, b).eq(z3.BoolVal(True)))):
                return s.icmp(st, pr, INT(64), a.off, b.off)
            raise Unsupported('ordered comparison of pointers to different objects')
        if a is UNDEF: a = s.freshof(t, 'undef')
        if b is UNDEF: b = s.freshof(t, 'undef')
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): return s.icmp(st, pr, PTR, a.p, b.p)
            x, y = (a, b) if isinstance(a, PInt) else (b, a)
            if isc(y) and y == 0 and pr in ('eq', 'ne'): return s.icmp(st, pr, PTR, x.p, NULL)
            raise Unsupported('comparison of a pointer with an integer')
        n = t.n
        if isc(a) and isc(b):
            if pr in ('sgt', 'sge', 'slt', 'sle'): a, b = sx(a, n), sx(b, n)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pr])
        if n == 1:
            x, y = tobool(a), tobool(b)
            if pr == 'eq': return b2v(z3.simplify(x == y))
            if pr == 'ne': return b2v(z3.simplify(z3.Xor(x, y)))
            x, y = z3.If(x, BV(1, 1), BV(0, 1)), z3.If(y, BV(1, 1), BV(0, 1))
        else:
            x, y = bv(a, n), bv(b, n)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        return b2v(r if s.sweep else z3.simplify(r))

    def fcmp(s, pr, t, a, b):
        a = s.deundef(a, t); b = s.deundef(b, t)
        if s.fpmode == 'real':
            if pr in ('ord',): return 1
            if pr in ('uno',): return 0
            k = pr[1:]
            r = None if s.rounded else s.R.cmp(k, a, b, s.axioms)
            if r is not None: return r
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[k]()
            return b2v(z3.simplify(r))
        n = 64 if t.k == 'double' else 32
        srt = z3.Float64() if n == 64 else z3.Float32()
        x, y = z3.fpBVToFP(bv(a, n), srt), z3.fpBVToFP(bv(b, n), srt)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pr == 'ord': return b2v(z3.simplify(z3.Not(un)))
        if pr == 'uno': return b2v(z3.simplify(un))
        k = pr[1:]
        r = {'eq': z3.fpEQ, 'ne': lambda p, q: z3.Not(z3.fpEQ(p, q)), 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[k](x, y)
        if pr[0] == 'o' : r = z3.And(z3.Not(un), r) if k == 'ne' else r
        else: r = z3.Or(un, r)
        return b2v(z3.simplify(r))

    def cast(s, st, op, ft, a, tt):
        if a is UNDEF: return UNDEF
        if op == 'ptrtoint':
            if isinstance(a, Ptr) and a.obj is None:
                v = a.off
                return v if tt.n == 64 else s.cast(st, 'trunc', INT(64), v, tt)
            if tt.n == 64: return PInt(a)
            al = a.obj.meta.get('addr') if isinstance(a, Ptr) and a.obj is not None else None
            raise Unsupported('truncated pointer')
        if op == 'inttoptr':
            if isinstance(a, PInt): return a.p
            if isc(a) and a == 0: return NULL
            return Ptr(None, a)
        if op in ('bitcast', 'addrspacecast'):
            if ft.k == 'int' and tt.k == 'double' and s.fpmode == 'real': raise Unsupported('bitcast to real')
            return a
        if op == 'trunc':
            if isinstance(a, PInt): raise Unsupported('truncated pointer')
            if tt.n == 1:
                if isc(a): return a & 1
                # trunc of zext'd bool
                if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                    x, y = a.arg(1).as_long() & 1, a.arg(2).as_long() & 1
                    if x == y: return x
                    return a.arg(0) if x else z3.Not(a.arg(0))
                return b2v(z3.simplify(z3.Extract(0, 0, a) == BV(1, 1)))
            if isc(a): return a & mask(tt.n)
            return simp(z3.Extract(tt.n - 1, 0, a))
        if op in ('zext', 'sext'):
            if ft.n == 1:
                if isc(a): return (1 if op == 'zext' else mask(tt.n)) if a else 0
                return z3.If(a, BV(1 if op == 'zext' else mask(tt.n), tt.n), BV(0, tt.n))
            if isc(a): return a if op == 'zext' else sx(a, ft.n) & mask(tt.n)
            return (z3.ZeroExt if op == 'zext' else z3.SignExt)(tt.n - ft.n, a)
        real = s.fpmode == 'real'
        if op in ('sitofp', 'uitofp'):
            if isc(a):
                v = sx(a, ft.n) if op == 'sitofp' else a
                if real: return z3.RealVal(v)
                if tt.k == 'double': return struct.unpack('<Q', struct.pack('<d', float(v)))[0]
                return struct.unpack('<I', struct.pack('<f', float(v)))[0]
            if real:
                if ft.n == 1: a = z3.If(a, BV(1, 8), BV(0, 8))
                r = z3.ToReal(z3.BV2Int(a, op == 'sitofp'))
                return mixed.RD(r) if s.rounded and ft.n > 53 else r
            srt = z3.Float64() if tt.k == 'double' else z3.Float32()
            f = z3.fpSignedToFP(z3.RNE(), a, srt) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), a, srt)
            return z3.fpToIEEEBV(f)
        if op in ('fptosi', 'fptoui'):
            if real and s.rounded:
                M = 1 << tt.n
                lo, hi = (-(M >> 1), M >> 1) if op == 'fptosi' else (0, M)
                x = z3.simplify(a)
                if z3.is_rational_value(x):
                    v = x.numerator_as_long() // x.denominator_as_long() if x.numerator_as_long() >= 0 else -(-x.numerator_as_long() // x.denominator_as_long())
                    return v & (M - 1)
                s.oblige(st, z3.And(a > lo - 1, a < hi), 'a number converted to an integer fits')
                r = z3.Int('trunc!%d' % x.get_id()); ast = x; s._keep.append(ast)
                st.assume(z3.And(r >= lo, r < hi, z3.If(x >= 0, z3.And(r <= x, x < r + 1), z3.And(r >= x, x > r - 1))))
                return z3.Int2BV(r, tt.n)
            if real: raise Unsupported('fptosi in real mode')
            n = 64 if ft.k == 'double' else 32
            if isc(a):
                d = struct.unpack('<d', struct.pack('<Q', a))[0] if n == 64 else struct.unpack('<f', struct.pack('<I', a))[0]
                return int(d) & mask(tt.n)
            f = z3.fpBVToFP(a, z3.Float64() if n == 64 else z3.Float32())
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), f, z3.BitVecSort(tt.n))
        if op in ('fpext', 'fptrunc'):
            if real: return a if op == 'fpext' else z3.Function('single', z3.RealSort(), z3.RealSort())(a)
            if isc(a):
                if op == 'fpext':
                    return struct.unpack('<Q', struct.pack('<d', struct.unpack('<f', struct.pack('<I', a))[0]))[0]
                return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', a))[0]))[0]
            if ft.k == 'x86_fp80' or tt.k == 'x86_fp80': raise Unsupported('long double')
            fr = z3.fpBVToFP(a, z3.Float32() if ft.k == 'float' else z3.Float64())
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), fr, z3.Float64() if tt.k == 'double' else z3.Float32()))
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def contract_for(s, name):
        if name in s._ctr: return s._ctr[name]
        h = s.contracts.get(name)
        if h is None:
            d = s.prog.dem.get(name, name)
            for r, hh in s.pats:
                if r.search(d): h = hh; break
        s._ctr[name] = h
        return h
    def contract(s, pat, h):
        s.pats.append((re.compile(pat), h))
    def dem(s, name): return s.prog.dem.get(name, name)

    def push(s, st, name, args, mod, ret):
        """enter a function body; ret = call instruction or None"""
        fn = None
        if mod is not None:
            f0 = mod.funcs.get(name)
            if f0 is not None: fn = f0
        if fn is None: fn = s.prog.fn.get(name)
        if fn is None: return False
        fn.parse()
        if len(st.frames) > 200: raise Unsupported('recursion too deep in %s' % s.dem(name))
        s.stats.funcs.add(name)
        f = Frame(fn)
        if len(args) < len(fn.params): raise Unsupported('arity of %s' % name)
        for (t, nm, at), a in zip(fn.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                bt = P(at['byval'], fn.mod).ty()
                sz = fn.mod.size(bt)
                o = s.new_obj(st, 'byval ' + nm, sz, 'alloca')
                st.frames.append(f)
                try: s.memcpy(st, Ptr(o, 0), a, sz, 'byval')
                finally: st.frames.pop()
                f.allocas.append(o); a = Ptr(o, 0)
            f.env[nm] = a
        f.ret = ret
        st.frames.append(f)
        f.blk = fn.blocks[fn.order[0]]
        f.i = 0
        return True

    def run(s, st, name, args, mod=None):
        """execute function 'name' to completion; list of (state, kind, value)"""
        base = len(st.frames)
        fn = s.prog.fn.get(name) if mod is None else (mod.funcs.get(name) or s.prog.fn.get(name))
        if fn is None: raise Unsupported('no body for %s' % s.dem(name))
        if not s.push(st, name, args, fn.mod, None): raise Unsupported('no body for %s' % name)
        outs = []
        work = [st]
        n = 0
        while work:
            cur = work.pop()
            n += 1
            if n > s.max_states: raise Unsupported('path explosion in %s' % s.dem(name))
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted in %s' % s.dem(name))
            try:
                r = s.go(cur, base, work)
            except PathEnd:
                continue
            if r is not None:
                outs.append(r)
                s.stats.paths += 1
        return outs

    def go(s, st, base, work):
        """run until frame depth returns to base. May push forks on work."""
        s.last_st = st
        while True:
            f = st.frames[-1]
            insts = f.blk.insts
            ins = insts[f.i]
            s.stats.insts += 1
            if s.stats.insts & 0xfff == 0 and s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
            op = ins.op
            try:
                if op == 'call' or op == 'invoke':
                    r = s.do_call(st, ins, work, base)
                    if r is not None: return r
                    continue
                elif op == 'ret':
                    v = None if ins.a is None else s.val(st, ins.ty, ins.a)
                    r = s.do_ret(st, v, base, work)
                    if r is not None: return r
                    continue
                elif op == 'jmp':
                    if not s.jump(st, ins.a, work, base): return None
                    continue
                elif op == 'br':
                    c = s.val(st, INT(1), ins.a[0])
                    if c is UNDEF: c = s.fresh(1, 'undef')
                    if isc(c):
                        if not s.jump(st, ins.a[1] if c else ins.a[2], work, base): return None
                        continue
                    c = z3.simplify(c)
                    try:
                        d = s.decide(st, c)
                    except Fork:
                        if s.merge_regions:
                            r = s.try_merge(st, c, ins, work, base)
                            if r is not None:
                                if not r: return None
                                continue
                        o = st.fork()
                        o.pc.append(z3.Not(c)); o.dec[c.get_id()] = (c, False)
                        st.pc.append(c); st.dec[c.get_id()] = (c, True)
                        s.mark_sym(st); s.mark_sym(o)
                        try:
                            if s.jump(o, ins.a[2], work, base): work.append(o)
                        except PathEnd: pass
                        if not s.jump(st, ins.a[1], work, base): return None
                        continue
                    if not s.jump(st, ins.a[1] if d else ins.a[2], work, base): return None
                    continue
                elif op == 'switch':
                    v = s.val(st, ins.ty, ins.a[0])
                    if v is UNDEF: v = s.freshof(ins.ty, 'undef')
                    n = ins.ty.n
                    if isc(v):
                        tgt = ins.a[1]
                        for cv, l in ins.a[2]:
                            if cv & mask(n) == v: tgt = l; break
                        if not s.jump(st, tgt, work, base): return None
                        continue
                    rest = []
                    live = []
                    bytgt = {}
                    order = []
                    for cv, l in ins.a[2]:
                        c = v == BV(cv & mask(n), n)
                        if l not in bytgt: order.append(l); bytgt[l] = []
                        bytgt[l].append(c); rest.append(z3.Not(c))
                    conds = [(z3.Or(*bytgt[l]) if len(bytgt[l]) > 1 else bytgt[l][0], l) for l in order]
                    conds.append((z3.And(*rest), ins.a[1]))
                    for c, l in conds:
                        if s.feasible(st, c): live.append((c, l))
                    if not live: return None
                    s.mark_sym(st)
                    for c, l in live[1:]:
                        o = st.fork(); o.assume(c)
                        try:
                            if s.jump(o, l, work, base): work.append(o)
                        except PathEnd: pass
                    st.assume(live[0][0])
                    if not s.jump(st, live[0][1], work, base): return None
                    continue
                elif op == 'unreachable':
                    s.oblige(st, False, 'control: unreachable code reached')
                    return None
                elif op == 'resume':
                    r = s.unwind(st, base, work)
                    if r is not None: return r
                    continue
                else:
                    s.simple(st, f, ins, op)
                    f.i += 1
            except Fork as fk:
                o = st.fork()
                c = fk.cond
                o.pc.append(z3.Not(c)); o.dec[c.get_id()] = (c, False)
                st.pc.append(c); st.dec[c.get_id()] = (c, True)
                s.mark_sym(st); s.mark_sym(o)
                work.append(o)
                continue

    def mark_sym(s, st):
        for f in st.frames:
            f.symbr['n'] = f.symbr.get('n', 0) + 1

    def simple(s, st, f, ins, op):
        env = f.env
        if op == 'load':
            p = s.val(st, PTR, ins.a[0])
            t = f.fn.mod.res(ins.ty)
            env[ins.res] = s.load(st, s.deundef(p, PTR), t)
        elif op == 'store':
            v = s.val(st, ins.ty, ins.a[0])
            p = s.deundef(s.val(st, PTR, ins.a[1]), PTR)
            s.store(st, p, v, f.fn.mod.res(ins.ty))
        elif op == 'getelementptr':
            b = s.deundef(s.val(st, PTR, ins.a[1]), PTR)
            idx = [(t, s.deundef(s.val(st, t, v), t)) for t, v in ins.a[2]]
            env[ins.res] = s.gep(st, ins.a[0], b, idx, f.fn.mod)
        elif op == 'alloca':
            t, cnt = ins.a
            sz = f.fn.mod.size(t)
            if cnt is not None:
                c = s.val(st, cnt[0], cnt[1])
                if isc(c): sz *= c
                else: sz = simp(bv(sz, 64) * (c if cnt[0].n == 64 else z3.ZeroExt(64 - cnt[0].n, c)))
            o = s.new_obj(st, '%s:%s' % (short(s.dem(f.fn.name)), ins.res), sz, 'alloca')
            f.allocas.append(o)
            env[ins.res] = Ptr(o, 0)
        elif op == 'icmp':
            env[ins.res] = s.icmp(st, ins.a[0], ins.ty, s.val(st, ins.ty, ins.a[1]), s.val(st, ins.ty, ins.a[2]))
        elif op == 'fcmp':
            env[ins.res] = s.fcmp(ins.a[0], ins.ty, s.val(st, ins.ty, ins.a[1]), s.val(st, ins.ty, ins.a[2]))
        elif op == 'select':
            c = s.val(st, INT(1), ins.a[0])
            a = s.val(st, ins.ty, ins.a[1]); b = s.val(st, ins.ty, ins.a[2])
            if not isc(c) and c is not UNDEF: 
                c = z3.simplify(c)
                if z3.is_true(c): c = 1
                elif z3.is_false(c): c = 0
            if isc(c): env[ins.res] = a if c else b
            elif c is UNDEF: env[ins.res] = a
            elif ins.ty.k == 'int' and not isinstance(a, (PInt, Undef)) and not isinstance(b, (PInt, Undef)):
                if ins.ty.n == 1: env[ins.res] = b2v(z3.simplify(z3.If(c, tobool(a), tobool(b))))
                else: env[ins.res] = z3.If(c, bv(a, ins.ty.n), bv(b, ins.ty.n))
            elif ins.ty.k in ('double', 'float') and not isinstance(a, Undef) and not isinstance(b, Undef):
                n = 64 if ins.ty.k == 'double' else 32
                env[ins.res] = z3.If(c, a, b) if s.fpmode == 'real' else z3.If(c, bv(a, n), bv(b, n))
            else:
                env[ins.res] = a if s.decide(st, c) else b
        elif op in BIN:
            env[ins.res] = s.binop(st, op, ins.ty, s.val(st, ins.ty, ins.a[0]), s.val(st, ins.ty, ins.a[1]))
        elif op in CAST:
            env[ins.res] = s.cast(st, op, ins.a[0], s.val(st, ins.a[0], ins.a[1]), ins.ty)
        elif op == 'extractvalue':
            v = s.val(st, ins.ty, ins.a[0])
            for i in ins.a[1]: v = v[i] if v is not UNDEF else UNDEF
            env[ins.res] = v
        elif op == 'insertvalue':
            v = s.val(st, ins.ty, ins.a[0]); x = s.val(st, ins.a[1], ins.a[2])
            env[ins.res] = insval(v, x, ins.a[3], f.fn.mod.res(ins.ty), f.fn.mod)
        elif op == 'landingpad':
            env[ins.res] = (Ptr(None, 1), st.ghost.get('eh_sel', 0))
        elif op == 'fneg':
            v = s.val(st, ins.ty, ins.a[0])
            if s.fpmode == 'real': env[ins.res] = -v
            else:
                n = 64 if ins.ty.k == 'double' else 32
                env[ins.res] = v ^ (1 << (n - 1)) if isc(v) else v ^ BV(1 << (n - 1), n)
        elif op == 'freeze':
            env[ins.res] = s.deundef(s.val(st, ins.ty, ins.a[0]), ins.ty)
        elif op == 'nop': pass
        elif op == 'atomicrmw':
            rop, pa, va = ins.a
            p = s.val(st, PTR, pa); v = s.val(st, ins.ty, va)
            old = s.load(st, p, ins.ty)
            new = v if rop == 'xchg' else s.binop(st, rop, ins.ty, old, v)
            s.store(st, p, new, ins.ty)
            env[ins.res] = old
        else:
            raise Unsupported('instruction %s' % ins.line)

    # ------------------------------------------------------------ control transfer
    def do_ret(s, st, v, base, work):
        f = st.frames.pop()
        for o in f.allocas:
            if o.id in st.heap:
                w = st.wos(o); w.alive = False; w.cells = {}; w.arr = None
        if len(st.frames) == base:
            return (st, 'ret', v)
        s.resume_call(st, f.ret, v, work, base)
        return None

    def resume_call(s, st, ins, v, work, base):
        f = st.frames[-1]
        if ins.res is not None: f.env[ins.res] = v
        if ins.op == 'invoke':
            if not s.jump(st, ins.a[2], work, base): raise PathEnd()
        else: f.i += 1

    def unwind(s, st, base, work):
        """propagate an exception out of the current frame"""
        while True:
            f = st.frames.pop()
            for o in f.allocas:
                if o.id in st.heap:
                    w = st.wos(o); w.alive = False; w.cells = {}
            if len(st.frames) == base:
                return (st, 'throw', st.exc)
            ins = f.ret
            if ins.op == 'invoke':
                s.to_pad(st, ins, work, base)
                return None

    def to_pad(s, st, ins, work, base):
        # selector: match a catch clause by type name, else cleanup
        f = st.frames[-1]
        blk = f.fn.blocks[ins.a[3]]
        lp = [i for i in blk.insts if i.op == 'landingpad'][0]
        sel = 0
        for kind, cv in lp.a[0]:
            if kind == 'catch':
                if cv[0] == 'null': sel = 1; break
                if st.exc and st.exc[0] == cv[1]: sel = s.typeid(cv[1]); break
                if st.exc and s.exc_matches(st.exc[0], cv[1]): sel = s.typeid(cv[1]); break
            else: raise Unsupported('exception filter')
        st.ghost['eh_sel'] = sel
        if not s.jump(st, ins.a[3], work, base): raise PathEnd()
    def exc_matches(s, thrown, caught):
        J = '_ZTIN8nlohmann6detail'
        if caught == thrown: return True
        if caught == '_ZTISt9exception' and (thrown.startswith('_ZTISt') or thrown.startswith(J)): return True
        if caught == J + '9exceptionE': return thrown.startswith(J)
        if caught == '_ZTISt13runtime_error': return thrown in ('_ZTISt11range_error', '_ZTISt14overflow_error')
        if caught == '_ZTISt9exception' or thrown is None: raise Unsupported('exception matching %s by %s' % (thrown, caught))
        return False
    def typeid(s, name):
        return (hash_name(name) & 0x7fffffff) | 2

    def throw(s, st, tyname, ins, work, base):
        """an exception leaves the call 'ins' in the current frame"""
        st.exc = (tyname, s.dem(st.frames[-1].fn.name))
        if ins.op == 'invoke':
            s.to_pad(st, ins, work, base)
            return None
        return s.unwind(st, base, work)

    # ------------------------------------------------------------ loops
    def loops(s, fn):
        li = s.loopinfo.get(id(fn))
        if li is None:
            li = s.loopinfo[id(fn)] = find_loops(fn)
        return li

    # -------------------------------------------------- joining of branches
    def region(s, fn, blk):
        """blocks strictly between a branch and its immediate post-dominator, if the
        region is acyclic and free of calls; (join block, set) or None"""
        k = (id(fn), 'region', blk)
        if k in s.loopinfo: return s.loopinfo[k]
        pd = s.loopinfo.get((id(fn), 'pdom'))
        if pd is None: pd = s.loopinfo[(id(fn), 'pdom')] = postdoms(fn)
        J = pd.get(blk)
        r = None
        if J is not None:
            seen = set(); stack = [x for x in succs(fn.blocks[blk]) if x != J]
            ok = True
            hd = s.loops(fn)
            while stack and ok:
                b = stack.pop()
                if b in seen: continue
                seen.add(b)
                if b in hd or b == blk or len(seen) > 40: ok = False; break
                for i in fn.blocks[b].insts[:-1]:
                    if i.op in ('call', 'invoke', 'atomicrmw', 'cmpxchg', 'landingpad', 'alloca'):
                        if i.op == 'call' and 'llvm.' in i.line and not any(x in i.line for x in ('llvm.mem', 'llvm.trap', 'llvm.eh')): continue
                        ok = False
                t = fn.blocks[b].insts[-1]
                if t.op not in ('br', 'jmp'): ok = False
                stack += [x for x in succs(fn.blocks[b]) if x != J]
            if ok: r = (J, seen)
        s.loopinfo[k] = r
        return r

    def try_merge(s, st, c, ins, work, base):
        """if-conversion of a symbolic branch: both sides are executed up to the
        join point and, where the resulting states differ in scalars only, joined
        into one.  None: not applicable; else as jump()."""
        f = st.frames[-1]
        rg = s.region(f.fn, f.blk.name)
        if rg is None: return None
        J, body = rg
        depth = len(st.frames)
        no = len(s.obls); asm = set(s.assumed)
        n0 = len(st.pc)
        start = []
        for cc, tgt in ((c, ins.a[1]), (z3.Not(c), ins.a[2])):
            o = st.fork()
            o.pc.append(cc); o.dec[c.get_id()] = (c, cc is c)
            start.append((o, f.blk.name, tgt))
        done = []; lost = False
        steps = 0
        try:
            while start:
                o, src, tgt = start.pop(0)
                steps += 1
                if steps > 60: return None
                fr = o.frames[-1]
                blk = fr.fn.blocks[tgt]
                vals = []
                for ph in blk.phis:
                    for v, l in ph.a:
                        if l == src: vals.append((ph.res, s.val(o, ph.ty, v))); break
                    else: raise Unsupported('phi without edge')
                if tgt == J:
                    done.append((o, src, vals)); continue
                for r_, v in vals: fr.env[r_] = v
                fr.prev = src; fr.blk = blk
                try:
                    for i in blk.insts[:-1]:
                        if i.op == 'call': s.pure_call(o, i)
                        else: s.simple(o, fr, i, i.op)
                    t = blk.insts[-1]
                    if t.op == 'jmp': start.append((o, tgt, t.a)); continue
                    cv = s.val(o, INT(1), t.a[0])
                    if cv is UNDEF: raise Unsupported('undef branch')
                    if isc(cv): start.append((o, tgt, t.a[1] if cv else t.a[2])); continue
                    cv = z3.simplify(cv)
                    try: d = s.decide(o, cv)
                    except Fork:
                        o2 = o.fork()
                        o2.pc.append(z3.Not(cv)); o2.dec[cv.get_id()] = (cv, False)
                        o.pc.append(cv); o.dec[cv.get_id()] = (cv, True)
                        start.append((o, tgt, t.a[1])); start.append((o2, tgt, t.a[2]))
                        continue
                    start.append((o, tgt, t.a[1] if d else t.a[2]))
                except PathEnd: lost = True
        except (Fork, Unsupported, NeedCut):
            del s.obls[no:]
            return None
        if not done: raise PathEnd()
        m = s.join(st, n0, done, lost)
        if m is not None:
            return s.jump(m, J, work, base, pre=(done[0][1], m.joined), keep=st)
        for o, src, vals in done:
            o.frames[-1].blk = o.frames[-1].fn.blocks[src]
            s.mark_sym(o)
            try:
                if s.jump(o, J, work, base): work.append(o)
            except PathEnd: pass
        return False

    def pure_call(s, st, ins):
        fn = st.frames[-1].fn
        c = ins.a
        name = ins.line
        raise Unsupported('call in region')

    def join(s, st, n0, done, lost):
        if len(done) == 1:
            m = done[0][0]; m.joined = done[0][2]
            return m
        conds = []
        extra = lost
        for o, _, _ in done:
            cs = o.pc[n0:]
            conds.append(z3.And(*cs) if len(cs) > 1 else cs[0])
        def jv(vs):
            """join of one value over all paths (None: impossible)"""
            v0 = vs[0]
            if all(same(v0, v) for v in vs[1:]): return v0
            nb = None
            for v in vs:
                if z3.is_expr(v):
                    if z3.is_bool(v): k = 1
                    elif z3.is_bv(v): k = v.size()
                    else: return None
                    if nb is None or nb == k: nb = k
                    elif {nb, k} == {1, 8}: nb = 8
                    else: return None
                elif not isc(v): return None
            return ('j', nb, vs)
        def mk(nb, vs):
            out = None
            for v, c in zip(reversed(vs), reversed(conds)):
                x = tobool(v) if nb == 1 else (z3.If(v, BV(1, nb), BV(0, nb)) if z3.is_expr(v) and z3.is_bool(v) else bv(v, nb))
                out = x if out is None else z3.If(c, x, out)
            return b2v(simp(out)) if nb == 1 else simp(out)
        phis = []
        for i, (r, _) in enumerate(done[0][2]):
            vs = [d[2][i][1] for d in done]
            j = jv(vs)
            if j is None: return None
            phis.append((r, j))
        J = None
        m = done[0][0].fork()
        o0s = [o for o, _, _ in done]
        for g in set().union(*[set(o.ghost) for o in o0s]):
            if g == 'eh_sel': continue
            if not all(g in o.ghost and same(o.ghost[g], o0s[0].ghost.get(g)) for o in o0s): return None
        cellj = []
        for oid in m.heap:
            oss = [o.heap.get(oid) for o in o0s]
            if any(x is None for x in oss): return None
            a = oss[0]
            if all(x is a for x in oss): continue
            if any(x.alive != a.alive or not same(x.size, a.size) or (x.log or None) != (a.log or None) for x in oss): return None
            arr = a.arr
            if any((x.arr is None) != (arr is None) for x in oss): return None
            if any(not x.arr.eq(arr) for x in oss if arr is not None):
                e = oss[-1].arr
                for x, c in list(zip(oss, conds))[-2::-1]: e = z3.If(c, x.arr, e)
                cellj.append((oid, None, None, e))
            keys = set()
            for x in oss: keys |= set(x.cells)
            for k in keys:
                cs = [x.cells.get(k) for x in oss]
                if any(c_ is None for c_ in cs):
                    return None
                if all(same(cs[0], c_) for c_ in cs[1:]): continue
                if isinstance(k, tuple) or any(c_[0] != cs[0][0] for c_ in cs): return None
                j = jv([c_[1] for c_ in cs])
                if j is None: return None
                cellj.append((oid, k, cs[0][0], j))
        # policy: joining two different concrete wide values would lose information the
        # rest of the path depends on (sizes, counters), unless asked for
        def okw(j):
            if not (isinstance(j, tuple) and j and j[0] == 'j'): return True
            if s.merge_wide: return j[1] is not None or True
            if j[1] in (1, 8): return True
            if all(isc(v) for v in j[2]): return set(j[2]) <= {0, 1}
            return not any(isc(v) and v not in (0, 1) for v in j[2]) or True
        for _, j in phis:
            if not okw(j): return None
        for c_ in cellj:
            if c_[1] is not None and not okw(c_[3]): return None
        def fin(j, ty=None, n=None):
            if not (isinstance(j, tuple) and j and j[0] == 'j'): return j
            nb = j[1]
            if nb is None:
                nb = n * 8 if n else ty
            return mk(nb, j[2])
        fn = st.frames[-1].fn
        ptys = None
        out = []
        for r, j in phis:
            if isinstance(j, tuple) and j and j[0] == 'j' and j[1] is None:
                t = phi_type(fn, r)
                if t is None or t.k != 'int': return None
                out.append((r, mk(t.n, j[2])))
            else: out.append((r, fin(j)))
        for oid, k, sz, j in cellj:
            w = m.wos(OBJS[oid])
            if k is None: w.arr = j
            else: w.cells[k] = (sz, fin(j, n=sz))
        m.pc = list(st.pc); m.dec = dict(st.dec)
        e = z3.simplify(z3.Or(*conds))
        if not z3.is_true(e) and (lost or any(len(o.pc) - n0 > 6 for o in o0s)) : m.assume(e)
        m.joined = out
        return m

    def jump(s, st, tgt, work, base, pre=None, keep=None):
        """transfer to block; returns False when the state was consumed"""
        if keep is not None:
            # continue as the joined state: take its contents over in place
            keep.heap = st.heap; keep.pc = st.pc; keep.frames = st.frames; keep.ghost = st.ghost; keep.own = st.own
            keep.dec = st.dec; keep.exc = st.exc; keep.trace = st.trace
            st = keep
        f = st.frames[-1]
        if pre is not None: f.blk = f.fn.blocks[pre[0]]
        src = f.blk.name
        blk = f.fn.blocks[tgt]
        li = s.loops(f.fn)
        hdr = li.get(tgt)
        # leaving cut loops?
        if f.cuts:
            for h in list(f.cuts):
                c = f.cuts[h]
                if tgt not in li[h] :
                    if c.get('spec'):
                        return False          # speculation: exits are not followed
                    del f.cuts[h]
        # phi values (parallel)
        newvals = []
        if pre is not None: newvals = pre[1]
        else:
          for ph in blk.phis:
            for v, l in ph.a:
                if l == src:
                    newvals.append((ph.res, s.val(st, ph.ty, v))); break
            else: raise Unsupported('phi without edge')
        if hdr is not None:
            back = src in hdr
            if tgt in f.cuts:
                if back:
                    return s.backedge(st, f, tgt, dict(newvals))
            key = (f.fn.name, tgt)
            if not back:
                f.visits[tgt] = 0
                f.symbr['v' + tgt] = f.symbr.get('n', 0)
                if key in s.cutset and key not in s.force_unroll:
                    return s.cut(st, f, tgt, newvals, work, base)
            else:
                f.visits[tgt] = n = f.visits.get(tgt, 0) + 1
                d = f.symbr.get('n', 0) - f.symbr.get('v' + tgt, 0)
                prog_ = s.bounded_step(st, f, tgt, hdr)
                lim = s.sym_unroll if s.unroll_of is None else s.unroll_of(f.fn, hdr)
                if n > lim and d > lim and key not in s.force_unroll and not (prog_ and n <= s.max_bounded): raise NeedCut(f.fn.name, tgt)
                if n > s.max_unroll: raise NeedCut(f.fn.name, tgt)
        for r, v in newvals: f.env[r] = v
        f.prev = src; f.blk = blk; f.i = 0
        return True

    def bounded_step(s, st, f, hdr, body):
        """has this iteration evaluated an exit comparison between two concrete
        values that moved since the previous iteration?  Then the loop has a
        concrete bound and is unrolled completely (data dependent exits fork)."""
        k = (id(f.fn), hdr, 'ex')
        ic = s.loopinfo.get(k)
        if ic is None: ic = s.loopinfo[k] = exit_compares(f.fn, body)
        cur = {}
        for ins in ic:
            ops = []
            for o in ins.a[1:3]:
                try: v = s.val(st, ins.ty, o)
                except Exception: ops = None; break
                if isc(v): ops.append(v)
                elif isinstance(v, Ptr) and isc(v.off) and v.null in (False, None): ops.append((id(v.obj), v.off))
                else: ops = None; break
            if ops: cur[ins.res] = tuple(ops)
        old = f.symbr.get('c' + hdr, {})
        f.symbr = dict(f.symbr); f.symbr['c' + hdr] = cur
        return any(r in old and old[r] != v for r, v in cur.items()) or not old and bool(cur)

    def havoc_val(s, v, name, ty=None):
        if isinstance(v, Ptr):
            if v.obj is None: return Ptr(None, s.fresh(64, name)) if not (isc(v.off) and v.off == 0) else None
            if v.key is not None: return Ptr(v.obj, v.off, None, s.fresh(64, name))
            el = v.obj.elsz
            if v.obj.fam and el:
                return Ptr(v.obj, simp(s.fresh(64, name) * BV(el, 64)), v.null, None)
            st_ = v.obj.meta.get('stride')
            return Ptr(v.obj, s.fresh(64, name), v.null, None)
        if isc(v):
            return None
        if z3.is_expr(v):
            if z3.is_bool(v): return s.fresh(1, name)
            if z3.is_bv(v): return s.fresh(v.size(), name)
            if z3.is_real(v):
                s.fresh_n += 1; return z3.Real('%s!%d' % (name, s.fresh_n))
        if hasattr(v, 'havoc'): return v.havoc(s, name)
        if v is UNDEF: return UNDEF
        raise Unsupported('havoc of %r' % (v,))

    def havoc_cell(s, c, name):
        sz, v = c
        if isc(v): return (sz, s.fresh(8 * sz, name))
        if isinstance(v, Ptr) and v.obj is None and isc(v.off): return (sz, Ptr(None, s.fresh(64, name)))
        h = s.havoc_val(v, name)
        return (sz, h)

    def cut(s, st, f, tgt, newvals, work, base):
        """loop cut at header tgt: havoc + Houdini"""
        key = (f.fn.name, tgt)
        blk = f.fn.blocks[tgt]
        mods = s.cutmods.setdefault(key, set())
        s.stats.cuts.setdefault(key, 0)
        s.stats.cuts[key] += 1
        phity = {ph.res: ph.ty for ph in blk.phis}
        entry = dict(newvals)
        cands = None
        it = 0
        dead_c = set()
        recs = {}
        while True:
            it += 1
            if it > 60: raise Unsupported('loop analysis does not stabilise in %s' % s.dem(f.fn.name))
            h = st.fork()
            hf = h.frames[-1]
            hv = {}
            fresh0 = s.fresh_n
            for r, v in newvals:
                ty = phity[r]
                if isc(v): nv = s.freshof(ty, 'loop_' + r) if not (ty.k == 'int' and ty.n == 1) else s.fresh(1, 'loop_' + r)
                elif isinstance(v, Ptr) and v.obj is None and isc(v.off):
                    m = s.cutmods.get((key, 'ptr', r))
                    nv = m if m is not None else Ptr(None, v.off)
                    if m is not None:
                        nv = Ptr(m.obj, s.fresh(64, 'loop_' + r) if not isc(m.off) or m.key is None else m.off, s.fresh(1, 'null_' + r), s.fresh(64, 'loop_' + r) if m.key is not None else None)
                else: nv = s.havoc_val(v, 'loop_' + r)
                hv[r] = nv
                hf.env[r] = nv
            for m in sorted(mods, key=str):
                rec = recs.get(m[:3])
                if rec is not None: s.rec_apply(h, m, rec, st, entry, hv)
                else: s.havoc_mod(h, m)
            cs = []
            for gen in s.cutcand:
                for (nm, fun) in gen(s, st, f, tgt, entry, hv, h) or ():
                    if nm not in dead_c: cs.append((nm, fun))
            # initial validity
            keep = []
            for nm, fun in cs:
                try: c = fun(s, st, entry)
                except Unsupported: dead_c.add(nm); continue
                if c is None: dead_c.add(nm); continue
                if s.valid(st, c): keep.append((nm, fun))
                else: dead_c.add(nm)
            for nm, fun in keep:
                h.assume(fun(s, h, hv))
            ctx = {'spec': True, 'mods': set(), 'heap': dict(h.heap), 'hv': hv, 'keep': keep, 'dead': set(), 'ptr': {}, 'key': key, 'ghost': dict(h.ghost), 'id': object(), 'fresh0': fresh0, 'entry': entry, 'st0': st, 'newb': False, 'recs': recs}
            hf.cuts[tgt] = ctx
            hf.prev = f.blk.name; hf.blk = blk; hf.i = 0
            hf.visits = {}
            s.quiet += 1
            try:
                s.spec_run(h, base, len(h.frames))
            finally:
                s.quiet -= 1
            changed = False
            nm_ = ctx['mods'] - mods
            if nm_: mods |= nm_; changed = True
            for r, p in ctx['ptr'].items():
                if s.cutmods.get((key, 'ptr', r)) is None:
                    s.cutmods[(key, 'ptr', r)] = p; changed = True
            if ctx['newb']: changed = True
            if ctx['dead']:
                dead_c |= ctx['dead']; changed = True
            if not changed: break
        # final: inductive; run for real (congruences implied by a stronger one are left out)
        ns = {nm for nm, _ in keep}
        def implied(nm):
            b, t, m = nm.partition(' congruent start mod ')
            return t and any(b + t + str(k * int(m)) in ns for k in (2, 4, 8, 16, 32, 64))
        keep = [x for x in keep if not implied(x[0])]; ctx['keep'] = keep
        for nm, fun in keep:
            s.obls.append(Obligation('loop invariant established: %s' % nm, 'ok', 'z3', 0.0)) if not s.quiet else None
        h = st.fork()
        hf = h.frames[-1]
        hv = {}
        for r, v in newvals:
            hv[r] = ctx['hv'][r]; hf.env[r] = hv[r]
        # same havoc values as in ctx
        h.heap = dict(ctx['heap']); h.own = object(); h.ghost = dict(ctx['ghost'])
        for nm, fun in keep: h.assume(fun(s, h, hv))
        c2 = dict(ctx); c2['spec'] = False; c2['mods'] = set(); c2['dead'] = set(); c2['final'] = True
        hf.cuts[tgt] = c2
        hf.prev = f.blk.name; hf.blk = blk; hf.i = 0
        hf.visits = {}
        work.append(h)
        return False

    def rec_check(s, st, f, ctx, obj, off, c0, c, nv):
        """value of a string at the back edge: solve or check its recurrence"""
        k = ('cell', obj, off)
        recs = ctx['recs']
        if k not in recs:
            r = c.recur(s, st, c0, ctx['hv'], nv)
            if r is not None: recs[k] = r; ctx['newb'] = True
            return
        rec = recs[k]
        if rec is None: return
        want = rec.value(s, st, ctx['st0'], ctx['entry'], nv, obj, off)
        if not want.same(c):
            recs[k] = None; ctx['newb'] = True
            if not ctx.get('spec'): raise Unsupported('string recurrence not stable')

    def rec_apply(s, h, m, rec, st, entry, hv):
        h.wos(m[1]).cells[m[2]] = rec.value(s, h, st, entry, hv, m[1], m[2])

    def havoc_mod(s, h, m):
        kind = m[0]
        if kind == 'cell':
            obj, off = m[1], m[2]
            if obj.id not in h.heap: return
            w = h.wos(obj)
            if isinstance(off, tuple):
                v = w.cells.get(off)
                if v is not None: w.cells[off] = v.havoc(s, 'h')
                return
            c = w.cells.get(off)
            if c is None:
                n = m[3]
                # never materialised: value was uninitialised or input
                w.cells[off] = (n, s.fresh(8 * n, 'hv_%s_%s' % (re.sub(r'\W', '_', obj.name), off)))
            else:
                hc = s.havoc_cell(c, 'hv_%s_%s' % (re.sub(r'\W', '_', obj.name), off))
                w.cells[off] = hc
        elif kind == 'arr':
            obj = m[1]
            if obj.id not in h.heap: return
            s.to_arr(h, obj)
            w = h.wos(obj)
            w.arr = z3.Array('hv_%s!%d' % (re.sub(r'\W', '_', obj.name), s.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8)); s.fresh_n += 1
        elif kind == 'size':
            obj = m[1]
            if obj.id not in h.heap: return
            h.wos(obj).size = s.fresh(64, 'size')
        elif kind == 'log':
            obj, lk = m[1], m[2]
            if obj.id not in h.heap: return
            w = h.wos(obj)
            if w.log is None: w.log = {}
            if isinstance(lk[0], str):
                hf = obj.meta.get('ghavoc')
                if hf is None: raise Unsupported('havoc of family ghost')
                w.log[lk] = [(None, hf(s, lk))]
            else:
                off, n = lk
                s.fresh_n += 1
                if m[3] == 'ptr': raise Unsupported('pointer fields modified in a loop over %r' % obj)
                fu = z3.Function('hv_%s_%d!%d' % (re.sub(r'\W', '_', obj.name), off, s.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
                w.log[lk] = [(None, lambda k, fu=fu: fu(k))]
        elif kind == 'ghost':
            g = h.ghost.get(m[1])
            if g is None: return
            if hasattr(g, 'havoc'): h.ghost[m[1]] = g.havoc(s, m[1])
            elif z3.is_expr(g) or isc(g):
                h.ghost[m[1]] = s.havoc_val(g, m[1]) if not isc(g) else s.fresh(64, m[1])
            elif isinstance(g, (tuple, list)):
                h.ghost[m[1]] = Havocked(m[1])
            else: raise Unsupported('havoc of ghost %s' % m[1])

    def spec_run(s, h, base, depth):
        work = [h]
        n = 0
        while work:
            cur = work.pop()
            n += 1
            if n > 4000: raise Unsupported('path explosion in loop body')
            try:
                r = s.go(cur, depth - 1, work)
            except PathEnd: continue
        return

    def backedge(s, st, f, tgt, nv):
        ctx = f.cuts[tgt]
        hv = ctx['hv']
        # discover modifications
        for oid, os_ in st.heap.items():
            o0 = ctx['heap'].get(oid)
            if o0 is None or o0 is os_: continue
            obj = s.objbyid(st, oid)
            if not os_.alive and not o0.alive: continue
            if not os_.alive and o0.alive:
                if obj is not None and obj.kind != 'alloca': raise Unsupported('object freed inside a cut loop: %r' % obj)
                continue
            if os_.arr is not o0.arr and (os_.arr is None or o0.arr is None or not os_.arr.eq(o0.arr)):
                ctx['mods'].add(('arr', obj))
            if os_.size is not o0.size and not (isc(os_.size) and os_.size == o0.size):
                if not (z3.is_expr(os_.size) and z3.is_expr(o0.size) and os_.size.eq(o0.size)): ctx['mods'].add(('size', obj))
            for off, c in os_.cells.items():
                c0 = o0.cells.get(off)
                if c0 is None:
                    if isinstance(off, tuple): 
                        continue
                    # materialised by a read or written: if it was an initial read the value is deterministic
                    if s.is_init(st, obj, off, c): continue
                    ctx['mods'].add(('cell', obj, off, c[0]))
                elif not same(c0, c):
                    if isinstance(off, tuple) and hasattr(c, 'recur'): s.rec_check(st, f, ctx, obj, off, c0, c, nv)
                    ctx['mods'].add(('cell', obj, off) if isinstance(off, tuple) else ('cell', obj, off, c[0]))
            if os_.log:
                for lk, l in os_.log.items():
                    l0 = (o0.log or {}).get(lk, [])
                    if len(l) != len(l0):
                        ctx['mods'].add(('log', obj, lk, 'ptr' if l and isinstance(l[-1][1], (Ptr, FnRef)) else 'int'))
        for g, v in st.ghost.items():
            if g in ('eh_sel',): continue
            v0 = ctx['ghost'].get(g)
            if v0 is not v and not same(v0, v): ctx['mods'].add(('ghost', g))
        # pointers whose object changes
        for r, v in nv.items():
            o = hv.get(r)
            if isinstance(o, Ptr) and isinstance(v, Ptr) and o.obj is not v.obj:
                if o.obj is None and v.obj is not None: ctx['ptr'][r] = v
                elif v.obj is None and isc(v.off) and v.off == 0 and o.null is not None: pass
                else: raise Unsupported('pointer %s changes object in loop of %s' % (r, s.dem(f.fn.name)))
            elif isinstance(o, Ptr) and isinstance(v, Ptr) and o.obj is not None:
                if o.null is None and v.null is not None and s.pnull(v) is not False: raise Unsupported('loop pointer may become null')
                if o.key is not None and isc(o.off) and isc(v.off) and o.off != v.off: raise Unsupported('loop pointer changes field')
            elif isinstance(o, PInt) or isinstance(v, PInt): raise Unsupported('pointer integer in loop')
        if ctx.get('spec'):
            s.find_bounds(st, f, tgt, ctx)
            for nm, fun in ctx['keep']:
                if nm in ctx['dead']: continue
                try: c = fun(s, st, nv)
                except Unsupported: c = None
                if c is None or not s.valid(st, c): ctx['dead'].add(nm)
        else:
            if ctx['mods'] - s.cutmods.get(ctx['key'], set()):
                raise Unsupported('loop modification set unstable')
            for nm, fun in ctx['keep']:
                s.oblige(st, fun(s, st, nv), 'loop invariant preserved: %s' % nm)
        return False

    def find_bounds(s, st, f, tgt, ctx):
        """loop-invariant operands of the comparisons of the body"""
        import cand
        body = s.loops(f.fn)[tgt]
        k = (id(f.fn), tgt, 'icmps')
        ic = s.loopinfo.get(k)
        if ic is None: ic = s.loopinfo[k] = [i for b in body for i in f.fn.blocks[b].insts if i.op == 'icmp']
        bl = s.cutmods.setdefault((ctx['key'], 'bounds'), [])
        for i in ic:
            for o in i.a[1:3]:
                try: v = s.val(st, i.ty, o)
                except Exception: continue
                if isinstance(v, Ptr):
                    if v.obj is None or v.key is not None: continue
                    v = v.off
                    if isc(v): continue
                if isc(v): continue
                if not (z3.is_expr(v) and z3.is_bv(v)): continue
                v = z3.simplify(v)
                if z3.is_bv_value(v): continue
                if any('!' in x and x.rsplit('!', 1)[1].isdigit() and int(x.rsplit('!', 1)[1]) > ctx['fresh0'] for x in cand.termvars(v)): continue
                if any(x.eq(v) for x in bl) or len(bl) >= 6: continue
                bl.append(v); ctx['newb'] = True

    def is_init(s, st, obj, off, c):
        if obj is None: return True
        key = ('initcells', obj.id)
        v = obj.meta.get('icache', {}).get((off, c[0]))
        return v is not None and same((c[0], v), c)

    def objbyid(s, st, oid):
        return s._objs.get(oid) if hasattr(s, '_objs') else OBJS.get(oid)

    # ------------------------------------------------------------ call dispatch
    def do_call(s, st, ins, work, base):
        callee, cargs, norm, unw = ins.a
        f = st.frames[-1]
        if callee[0] == 'asm':
            f.env[ins.res] = None
            f.i += 1; return None
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.'):
                v = s.intrinsic(st, name, ins, cargs)
                s.resume_call(st, ins, v, work, base)
                return None
            mod = f.fn.mod
            while name not in mod.funcs and name in s.prog.alias: name = s.prog.alias[name]
        else:
            fv = s.val(st, PTR, callee)
            if isinstance(fv, Ptr):
                nl = s.pnull(fv)
                if fv.obj is None:
                    s.oblige(st, False, 'memory: call through null or wild function pointer'); raise PathEnd()
                raise Unsupported('indirect call through %r in %s' % (fv, s.dem(f.fn.name)))
            if not isinstance(fv, FnRef): raise Unsupported('indirect call %r in %s' % (fv, s.dem(f.fn.name)))
            name = fv.name; mod = fv.mod
            s.virt_name = name
        args = [s.val(st, t, v) for t, v, d in cargs]
        return s.call(st, name, args, ins, mod, work, base)

    def call(s, st, name, args, ins, mod, work, base):
        h = s.contract_for(name)
        if h is not None:
            s.stats.contracts[name] = s.stats.contracts.get(name, 0) + 1
            snap = st.fork()
            try:
                r = h(s, st, args, CallInfo(name, ins, mod, s))
            except Fork as fk:
                # redo on clean copies
                c = fk.cond
                o = snap.fork()
                o.pc.append(z3.Not(c)); o.dec[c.get_id()] = (c, False)
                snap.pc.append(c); snap.dec[c.get_id()] = (c, True)
                s.mark_sym(o); s.mark_sym(snap)
                work.append(o); work.append(snap)
                raise PathEnd()
            return s.finish(st, r, ins, work, base, name, args, mod)
        if s.mergeable(name, mod, ins): return s.merged_call(st, name, args, ins, mod, work, base)
        if s.push(st, name, args, mod, ins): return None
        s.unknown_calls[name] = s.unknown_calls.get(name, 0) + 1
        raise Unsupported('call to %s (no body, no contract) from %s' % (s.dem(name), s.dem(st.frames[-1].fn.name)))

    def mergeable(s, name, mod, ins):
        """calls of small integer-valued functions: their paths are joined again at the return"""
        k = (name, mod.name if mod else '')
        r = s._mrg.get(k)
        if r is not None: return r
        fn = (mod.funcs.get(name) if mod is not None else None) or s.prog.fn.get(name)
        r = False
        if fn is not None and s.merge_calls:
            fn.parse()
            n = sum(len(b.insts) for b in fn.blocks.values())
            rt = ins.ty
            br = sum(1 for b in fn.blocks.values() for i in b.insts if i.op in ('br', 'switch'))
            if rt is not None and rt.k == 'int' and br >= 1 and n < 400 and not find_loops(fn):
                # only bodies whose stores go to their own locals are worth it
                al = {i.res for b in fn.blocks.values() for i in b.insts if i.op == 'alloca'}
                r = True
                rets = {nm for nm, b in fn.blocks.items() if b.insts[-1].op == 'ret'}
                for b in fn.blocks.values():
                    if b.insts[-1].op in ('unreachable', 'resume'): continue
                    for i in b.insts:
                        if i.op == 'store' and not (i.a[1][0] == 'l' and i.a[1][1] in al): r = False
                        if i.op == 'atomicrmw': r = False
        s._mrg[k] = r
        return r

    def merged_call(s, st, name, args, ins, mod, work, base):
        sub = st.fork()
        n0 = len(st.pc)
        depth = len(st.frames)
        if not s.push(sub, name, args, mod, None): raise Unsupported('no body for %s' % s.dem(name))
        outs = []
        wk = [sub]
        n = 0
        while wk:
            cur = wk.pop(); n += 1
            if n > 300: raise Unsupported('path explosion in %s' % s.dem(name))
            try: r = s.go(cur, depth, wk)
            except PathEnd: continue
            if r is not None: outs.append(r)
        rets = [o for o in outs if o[1] == 'ret']
        thr = [o for o in outs if o[1] == 'throw']
        nxt = []
        ok = len(rets) > 1 and all(isc(v) or (z3.is_expr(v)) for _, _, v in rets) and all(s.heap_same(st, o) for o, _, _ in rets)
        if ok:
            conds = [z3.And(*o.pc[n0:]) if len(o.pc) > n0 else z3.BoolVal(True) for o, _, _ in rets]
            nb = ins.ty.n
            val = None
            for (o, _, v), c in zip(rets, conds):
                x = (tobool(v) if nb == 1 else bv(v, nb))
                val = x if val is None else z3.If(c, x, val)
            m = rets[0][0].fork()
            m.pc = list(st.pc)
            m.dec = dict(st.dec)
            if thr: m.assume(z3.simplify(z3.Or(*conds)))
            nxt.append((m, b2v(simp(val)) if nb == 1 else simp(val)))
        else:
            nxt = [(o, v) for o, _, v in rets]
        for o, _, ex_ in thr:
            try:
                t = s.throw(o, o.exc[0], ins, work, base)
                if t is not None: raise Unsupported('exception leaves the verified function through a joined call')
                work.append(o)
            except PathEnd: pass
        if len(nxt) > 1: 
            for o, v in nxt: s.mark_sym(o)
        for o, v in nxt:
            try:
                s.resume_call(o, ins, v, work, base)
                work.append(o)
            except PathEnd: pass
        raise PathEnd()

    def heap_same(s, st, o):
        for oid, os0 in st.heap.items():
            os_ = o.heap.get(oid)
            if os_ is os0 or os_ is None: continue
            if os_.alive != os0.alive or os_.arr is not os0.arr or not same(os_.size, os0.size): return False
            for off, c in os0.cells.items():
                c1 = os_.cells.get(off)
                if c1 is None or not same(c, c1): return False
            for off, c in os_.cells.items():
                if off not in os0.cells:
                    obj = OBJS.get(oid)
                    if isinstance(off, tuple) or not s.is_init(st, obj, off, c): return False
            if (os_.log or None) != (os0.log or None): return False
        for g, v in o.ghost.items():
            if g == 'eh_sel': continue
            if g not in st.ghost or not same(st.ghost[g], v): return False
        return True

    def finish(s, st, r, ins, work, base, name, args, mod):
        if isinstance(r, Throw):
            return s.throw(st, r.ty, ins, work, base)
        if isinstance(r, Inline):
            nm = r.name or name
            if s.push(st, nm, r.args if r.args is not None else args, mod, ins): return None
            raise Unsupported('no body for %s' % s.dem(nm))
        if isinstance(r, Multi):
            # list of (state, value)
            for (o, v) in r.items:
                try:
                    if isinstance(v, Throw):
                        t = s.throw(o, v.ty, ins, work, base)
                        if t is not None: raise Unsupported('throw in multi at base')
                        work.append(o); continue
                    s.resume_call(o, ins, v, work, base)
                    work.append(o)
                except PathEnd: pass
            raise PathEnd()
        s.resume_call(st, ins, r, work, base)
        return None

    def intrinsic(s, st, name, ins, cargs):
        n = name.split('.')
        k = n[1]
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing', 'prefetch', 'stackrestore', 'sideeffect', 'var'): return None
        if k == 'trap':
            s.oblige(st, False, 'control: trap'); raise PathEnd()
        a = [s.val(st, t, v) for t, v, d in cargs]
        if k == 'memcpy' or k == 'memmove': 
            s.memcpy(st, a[0], a[1], a[2], k); return None
        if k == 'memset': s.memset(st, a[0], a[1], a[2]); return None
        if k == 'expect': return a[0]
        if k == 'is': return 0
        if k == 'launder' or k == 'strip': return a[0]
        if k == 'objectsize': return mask(64)
        if k == 'stacksave': return NULL
        t = cargs[0][0]
        if k in ('umin', 'umax', 'smin', 'smax'):
            c = s.icmp(st, {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], t, a[0], a[1])
            if isc(c): return a[0] if c else a[1]
            return z3.If(c, bv(a[0], t.n), bv(a[1], t.n))
        if k == 'abs':
            if isc(a[0]): return abs(sx(a[0], t.n)) & mask(t.n)
            return z3.If(a[0] < 0, -a[0], a[0])
        if k == 'bswap':
            if isc(a[0]): return int.from_bytes(a[0].to_bytes(t.n // 8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(t.n // 8)])
        if k in ('fshl', 'fshr'):
            x, y, sh = a
            if isc(sh):
                sh %= t.n
                if isc(x) and isc(y):
                    c = (x << t.n) | y
                    return ((c << sh) >> t.n) & mask(t.n) if k == 'fshl' else (c >> sh) & mask(t.n)
                X, Y = bv(x, t.n), bv(y, t.n)
                if sh == 0: return x if k == 'fshl' else y
                if k == 'fshl': return (X << sh) | z3.LShR(Y, t.n - sh)
                return (X << (t.n - sh)) | z3.LShR(Y, sh)
            raise Unsupported('funnel shift by variable')
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and len(n) > 2 and n[2] == 'with':
            op = k[1:]; nn = t.n
            r = s.binop(st, op, t, a[0], a[1])
            w = nn * 2 if op == 'mul' else nn + 1
            sg = k[0] == 's'
            if isc(a[0]) and isc(a[1]):
                x, y = (sx(a[0], nn), sx(a[1], nn)) if sg else a
                e = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                ov = not (-(1 << (nn - 1)) <= e < (1 << (nn - 1))) if sg else not (0 <= e < (1 << nn))
                return (r, int(ov))
            ext = z3.SignExt if sg else z3.ZeroExt
            x, y = ext(w - nn, bv(a[0], nn)), ext(w - nn, bv(a[1], nn))
            e = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            ov = ext(w - nn, bv(r, nn)) != e
            return (r, b2v(z3.simplify(ov)))
        if k in ('uadd', 'usub') and n[2] == 'sat': raise Unsupported(name)
        if k in ('fabs', 'sqrt', 'floor', 'ceil', 'fmuladd', 'round', 'trunc', 'pow', 'sin', 'cos', 'copysign', 'rint', 'minnum', 'maxnum'):
            return s.fintr(st, k, t, a)
        if k == 'ctpop' or k == 'ctlz' or k == 'cttz':
            if isc(a[0]):
                x = a[0]
                if k == 'ctpop': return bin(x).count('1')
                if k == 'ctlz': return t.n - x.bit_length()
                return (x & -x).bit_length() - 1 if x else t.n
            raise Unsupported(name)
        if k == 'eh' : # eh.typeid.for
            v = cargs[0][1]
            return s.typeid(v[1])
        raise Unsupported('intrinsic %s' % name)

    def fintr(s, st, k, t, a):
        if s.fpmode == 'real':
            if k == 'fabs': return z3.If(a[0] < 0, -a[0], a[0])
            if k == 'fmuladd': return a[0] * a[1] + a[2]
            if k == 'sqrt':
                s.fresh_n += 1
                r = z3.Real('sqrt!%d' % s.fresh_n)
                st.assume(z3.And(r >= 0, z3.Implies(a[0] >= 0, r * r == a[0])))
                return r
            raise Unsupported('real %s' % k)
        n = 64 if t.k == 'double' else 32
        if k == 'fabs':
            return a[0] & mask(n - 1) if isc(a[0]) else a[0] & BV(mask(n - 1), n)
        if k == 'fmuladd':
            return s.fbin('fadd', t, s.fbin('fmul', t, a[0], a[1]), a[2])
        f = z3.Function('f_%s%d' % (k, n), *([z3.BitVecSort(n)] * (len(a) + 1)))
        return f(*[bv(x, n) for x in a])

class Throw:
    def __init__(s, ty='exception'): s.ty = ty
class Inline:
    """a contract handler's request to execute a body instead"""
    def __init__(s, name=None, args=None): s.name = name; s.args = args
class Multi:
    def __init__(s, items): s.items = items
class Havocked:
    def __init__(s, n): s.n = n
    def havoc(s, ex, name): return Havocked(name)
class CallInfo:
    __slots__ = ('name', 'ins', 'mod', 'ex')
    def __init__(s, name, ins, mod, ex): s.name = name; s.ins = ins; s.mod = mod; s.ex = ex
    @property
    def rty(s): return s.ins.ty

class _Objs(dict): pass
OBJS = {}
_oinit = Obj.__init__
def _oi(s, *a, **k):
    _oinit(s, *a, **k); OBJS[s.id] = s
Obj.__init__ = _oi

def same(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and same(a.off, b.off) and same(a.key, b.key) and same(a.null, b.null)
    if isinstance(a, FnRef) and isinstance(b, FnRef): return a.name == b.name
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, (int, str)) and isinstance(b, (int, str)): return a == b
    if hasattr(a, 'same'): return a.same(b)
    return False

def simpx(e):
    return z3.simplify(e)
def short(d):
    i = d.find('(')
    d = d if i < 0 else d[:i]
    return d.split('::')[-1] if len(d) > 40 else d
def hash_name(n):
    h = 5381
    for c in n: h = (h * 33 + ord(c)) & 0xffffffff
    return h
def insval(v, x, ix, t, mod):
    if v is UNDEF:
        v = tuple(UNDEF for _ in range(len(t.els) if t.k == 'struct' else t.n))
    l = list(v)
    if len(ix) == 1: l[ix[0]] = x
    else:
        et = mod.res(t.els[ix[0]] if t.k == 'struct' else t.el)
        l[ix[0]] = insval(l[ix[0]], x, ix[1:], et, mod)
    return tuple(l)

def split_mul(e, el):
    """e == c + el*k  -> (c, k) or (0, None)"""
    if el == 1: return 0, e
    if isc(e): return (e % el, BV(e // el, 64))
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long() % el, BV(e.as_long() // el, 64)
    d = e.decl().kind()
    if d == z3.Z3_OP_BADD:
        c = 0; ks = []
        for a in e.children():
            if z3.is_bv_value(a): c = (c + a.as_long()) & mask(64)
            else:
                ca, ka = split_mul(a, el)
                if ka is None or ca != 0: return 0, None
                ks.append(ka)
        cs = sx(c, 64)
        q, r = divmod(cs, el)
        k = ks[0]
        for x in ks[1:]: k = k + x
        if q: k = k + BV(q & mask(64), 64)
        return r, z3.simplify(k)
    if d == z3.Z3_OP_BMUL:
        ch = e.children()
        cst = 1; rest = []
        for a in ch:
            if z3.is_bv_value(a): cst = (cst * a.as_long()) & mask(64)
            else: rest.append(a)
        sc = sx(cst, 64)
        if sc % el == 0:
            k = BV((sc // el) & mask(64), 64)
            for r in rest: k = k * r
            return 0, z3.simplify(k)
    if d == z3.Z3_OP_CONCAT:
        # x ++ 0s : shift left by constant
        ch = e.children()
        if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0 and len(ch) == 2:
            sh = ch[-1].size()
            if (1 << sh) % el == 0:
                k = z3.ZeroExt(64 - ch[0].size(), ch[0])
                m = (1 << sh) // el
                # valid only when the dropped high bits are zero: caller's sizes guarantee el*k < 2^64
                orig = orig_of_extract(ch[0])
                if orig is not None: k = orig
                return 0, z3.simplify(k * BV(m, 64)) if m > 1 else k
    return 0, None
def orig_of_extract(e):
    if z3.is_app_of(e, z3.Z3_OP_EXTRACT):
        p = e.params()
        if p[1] == 0 and e.arg(0).size() == 64: return e.arg(0)
    return None

def input_init(prefix, sym=None):
    """initial content of an input object: a named symbolic value per cell"""
    def init(ex, st, obj, off, n, ty, key):
        ic = obj.meta.setdefault('icache', {})
        if (off, n) in ic: return ic[(off, n)]
        if ty.k == 'ptr':
            v = None
            pf = obj.meta.get('ptrs')
            if pf: v = pf(ex, st, obj, off)
            if v is None: v = Ptr(None, z3.BitVec('%s.p%d' % (prefix, off), 64))
        elif ty.k == 'int' and ty.n == 1: v = z3.Bool('%s.b%d' % (prefix, off))
        elif ty.k == 'double' and ex.fpmode == 'real': v = z3.Real('%s.%d' % (prefix, off))
        else: v = z3.BitVec('%s.%d_%d' % (prefix, off, n), 8 * n)
        ic[(off, n)] = v
        return v
    return init

def find_loops(fn):
    """header -> set of blocks of its natural loop (merged over back edges)"""
    succ = {}
    for nm, b in fn.blocks.items():
        t = b.insts[-1]
        if t.op == 'jmp': succ[nm] = [t.a]
        elif t.op == 'br': succ[nm] = [t.a[1], t.a[2]]
        elif t.op == 'switch': succ[nm] = [t.a[1]] + [l for _, l in t.a[2]]
        elif t.op == 'invoke': succ[nm] = [t.a[2], t.a[3]]
        else: succ[nm] = []
    entry = fn.order[0]
    # dominators (iterative)
    order = []
    seen = set()
    stack = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while stack:
        b, itr = stack[-1]
        for c in itr:
            if c not in seen:
                seen.add(c); stack.append((c, iter(succ[c]))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for c in succ[b]: preds[c].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps: continue
            n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    res = {}
    for b in order:
        for c in succ[b]:
            if dom(c, b):
                body = res.setdefault(c, {c})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st.extend(preds[x])
    return res

def exit_compares(fn, body):
    """icmp instructions of a loop that (transitively) feed its exit conditions"""
    defs = {}
    want = []
    for b in body:
        blk = fn.blocks[b]
        for ph in blk.phis: defs[ph.res] = ph
        for i in blk.insts:
            if i.res is not None: defs[i.res] = i
        t = blk.insts[-1]
        if t.op == 'br': want.append(t.a[0])
        elif t.op == 'switch': want.append(t.a[0])
    out = []; seen = set()
    while want:
        w = want.pop()
        if not (isinstance(w, tuple) and w and w[0] in ('l', 'loc', 'local', '%')) and not isinstance(w, str): continue
        nm = w if isinstance(w, str) else w[1]
        i = defs.get(nm)
        if i is None or nm in seen: continue
        seen.add(nm)
        if i.op == 'icmp': out.append(i)
        elif i.op in ('and', 'or', 'xor', 'select', 'zext', 'trunc', 'freeze'):
            for x in (i.a if isinstance(i.a, (list, tuple)) else [i.a]):
                if isinstance(x, (tuple, str)): want.append(x)
                if isinstance(x, (list, tuple)):
                    for y in x:
                        if isinstance(y, tuple): want.append(y)
        elif i.op == 'phi':
            for v, l in i.a: want.append(v)
    return out

def phi_type(fn, r):
    for b in fn.blocks.values():
        for p in b.phis:
            if p.res == r: return p.ty
    return None

def succs(blk):
    t = blk.insts[-1]
    if t.op == 'jmp': return [t.a]
    if t.op == 'br': return [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [l for _, l in t.a[2]]
    if t.op == 'invoke': return [t.a[2], t.a[3]]
    return []

def postdoms(fn):
    """immediate post-dominators; blocks that end in 'unreachable' (calls that do not return, throws) are ignored"""
    nodes = list(fn.blocks)
    dead = {b for b in nodes if fn.blocks[b].insts[-1].op in ('unreachable', 'resume')}
    # blocks from which only dead ends are reachable are ignored as well
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b in dead: continue
            ss = succs(fn.blocks[b])
            if ss and all(x in dead for x in ss): dead.add(b); ch = True
    EXIT = None
    pd = {}
    nodes = [b for b in nodes if b not in dead]
    allp = set(nodes) | {'#exit'}
    P = {b: set(allp) for b in nodes}; P['#exit'] = {'#exit'}
    ch = True
    rev = list(reversed(nodes))
    while ch:
        ch = False
        for b in rev:
            ss = [x for x in succs(fn.blocks[b]) if x not in dead] or ['#exit']
            n = set.intersection(*[P[x] for x in ss]) | {b}
            if n != P[b]: P[b] = n; ch = True
    for b in nodes:
        c = P[b] - {b}
        for x in c:
            if x != '#exit' and len(P[x]) == len(c):
                pd[b] = x
    return pd
