import txs, sym
from sym import Inline
SPEC = ['c13.cpp']
SOURCES = ['sha256/sha256.cpp']
FLAGS = ['-fno-access-control']
PB = r'SHA256::processBlock\('
def unroll(fn, blocks):
    # loops that hash blocks are cut; those that move the bytes of one block are followed
    call = any(i.op in ('call', 'invoke') and 'llvm.' not in i.line for b in blocks for i in fn.blocks[b].insts)
    return 1 if call else 70
def setup(ex, h):
    txs.install(ex)
    ex.contracts['c13_fresh'] = lambda ex, st, a, ci: ex.fresh(32, 'hash')
    if h == 'C13_block': ex.sweep = True
    if '_add_' in h:
        ex.unroll_of = unroll; ex.assume_proved = False; ex.assume_eqs = True
        ex.contract(PB, lambda ex, st, a, ci: Inline('c13_next', a))
    if '_finish_' in h: ex.contract(PB, lambda ex, st, a, ci: Inline('c13_pad', a))
    if h in ('C13_text', 'C13_call'): ex.contract(r'SHA256::getHash\(unsigned char', lambda ex, st, a, ci: Inline('c13_raw', a))
    if h == 'C13_call':
        ex.contract(r'SHA256::reset\(', lambda ex, st, a, ci: Inline('c13_reset', a))
        ex.contract(r'SHA256::add\(', lambda ex, st, a, ci: Inline('c13_add', a))
ASSUMPTIONS = ['messages below 2^40 bytes are added at a time', 'the length of the whole message is counted modulo 2^64 bits, as the standard limits it']
