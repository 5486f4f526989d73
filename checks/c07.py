import txs, rt, c17, z3, sym
from txs import sget, Atom
SPEC = ['c07.cpp']
NATIVE_SPEC = ['vf_txt_native.cpp', 'vf_c07_native.cpp']
SOURCES = rt.SOURCES + ['GSString.cpp']
FLAGS = ['-fno-access-control']
FP = 'real'
def near(ex, st, a, ci):
    i = lambda x: z3.IntVal(x) if sym.isc(x) else z3.BV2Int(x)
    out, v, A, B = [i(x) for x in a]
    d = out * A - v * B
    return sym.b2v(z3.And(2 * d * (1 << 18) <= A * ((1 << 18) + 1), -2 * d * (1 << 18) <= A * ((1 << 18) + 1)))
def complete(ex, st, a, ci):
    v = sget(ex, st, a[0])
    if v.lit is not None: return int(v.lit != '' and all(c in '0123456789' for c in v.lit))
    p = v.p[0]
    if len(v.p) == 1 and isinstance(p, Atom) and p.kind == 'dec': return sym.b2v(p.args[0] >= z3.BitVecVal(0, 64))
    raise sym.Unsupported('IsCompleteNumber of %r' % v)
def setup(ex, h):
    c17.setup(ex, h); ex.rounded = True
    ex.contract(r'GdtfFixture::AddError\(', lambda ex, st, a, ci: None)
    ex.contract(r'GdtfParsingError::~?GdtfParsingError\(', lambda ex, st, a, ci: None)
    ex.contract(r'TXString::IsCompleteNumber\(', complete)
    ex.contracts['vf_near'] = near
TRUSTED = ['GdtfFixture::AddError, GdtfParsingError: diagnostics only', 'TXString::IsCompleteNumber: a canonical decimal numeral is complete exactly when it is not negative'] + c17.TRUSTED
ASSUMPTIONS = ['double arithmetic: every result is within 2^-53 (relative) of the exact one, whole numbers up to 2^53 are exact', 'value texts are canonical decimal numerals (any value up to 2^63-1)']
