#include "Prefix/StdAfx.h"
#include "vf_txt.h"
extern std::string vf_native_text(const char* name, bool& fixed);
extern uint64_t vf_native_rnd();
extern "C" void vf_text_raw(VectorworksMVR::TXString* out, const char* name)
{
	bool fixed; *out = VectorworksMVR::TXString(vf_native_text(name, fixed).c_str());
}
extern "C" void vf_ascii_raw(VectorworksMVR::TXString* out, const char* name, size_t n)
{
	bool fixed; std::string s = vf_native_text(name, fixed);
	if (!fixed || s.size() != n) {
		static const char t[] = "0123456789abcdefABCDEF-{}x";
		s.resize(n, '0');
		if (!fixed) for (auto& c : s) c = t[vf_native_rnd() % (sizeof(t) - 1)];
	}
	*out = VectorworksMVR::TXString(s.c_str());
}
extern "C" bool vf_text_same(const VectorworksMVR::TXString* a, const VectorworksMVR::TXString* b) { return std::string(a->GetCharPtr()) == std::string(b->GetCharPtr()); }
