// text inputs
#pragma once
#include "vf.h"
#include <string>
extern "C" {
	void vf_text_raw(VectorworksMVR::TXString* out, const char* name);					// any text
	void vf_ascii_raw(VectorworksMVR::TXString* out, const char* name, size_t n);		// n characters 1..127
}
static inline VectorworksMVR::TXString vf_text(const char* name) { VectorworksMVR::TXString s; vf_text_raw(&s, name); return s; }
static inline VectorworksMVR::TXString vf_ascii(const char* name, size_t n) { VectorworksMVR::TXString s; vf_ascii_raw(&s, name, n); return s; }
