import txs, rt, c17, os, build
SPEC = ['c08.cpp']
NATIVE_SPEC = ['vf_txt_native.cpp']
SOURCES = rt.SOURCES + ['GSString.cpp']
FLAGS = ['-fno-access-control']
def setup(ex, h):
    c17.setup(ex, h)
    ex.contract(r'GdtfFixture::AddError\(', lambda ex, st, a, ci: None)
    ex.contract(r'GdtfParsingError::~?GdtfParsingError\(', lambda ex, st, a, ci: None)
TRUSTED = ['GdtfFixture::AddError, GdtfParsingError: diagnostics only'] + c17.TRUSTED
ASSUMPTIONS = ['texts of addresses are canonical decimal numerals (any 64-bit values); other forms (leading zeros, trailing garbage) are not covered']
