SPEC = ['c12.cpp']
SOURCES = ['mvrxchange/mvrxchange_dynamic_buffer.cpp']
