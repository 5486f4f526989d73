#include "Prefix/StdAfx.h"
#include "vf_txt.h"
#include "Include/VectorworksMVR.h"
#include "GDTFManager.h"
#include "SceneDataExchange.h"
#include "XmlFileHelper.h"
#include "Utility.h"
#include "vf_node.h"
using namespace VectorworksMVR; using namespace SceneData; using namespace VectorworksMVR::Filing; using namespace VectorworksMVR::GdtfDefines;

static IXMLFileNodePtr node() { return IXMLFileNodePtr(newRoot()); }
// out is a nearest whole number to v * to / from (up to the rounding of double arithmetic)
extern "C" bool vf_near(uint64_t out, uint64_t v, uint64_t from, uint64_t to);
static DmxValue top(int bytes) { return ((DmxValue)1 << (8 * bytes)) - 1; }
static TXString dec(Sint64 v) { return TXString().itoa(v); }
static Sint64 any64(const char* n, Sint64 around)
{
	Sint64 v = (Sint64)vf_u64(n);
	if (vf_native()) switch (vf_u8("scale") & 3) { case 0: v = v & 0xFF; break; case 1: v = around + (v & 7) - 4; break; case 2: v = v & 0xFFFFFFFF; break; case 3: v = v & 0xFFFF; }
	return v;
}
static void read(int n, int m)
{
	Sint64 v = any64("value", top(n)); vf_assume(v >= 0);
	bool shift = vf_bool("shift");
	TXString s = dec(v); s += "/"; s += dec(n); if (shift) s += "s";
	DmxValue out = 0;
	bool ok = GdtfConverter::ConvertDMXValue(s, node(), (EGdtfChannelBitResolution)m, out);
	vf_cover("read");
	vf_assert(ok == ((DmxValue)v <= top(n)), "a value is accepted exactly when it fits the number of bytes it is given in");
	vf_assert(out <= top(m), "no value outside the range of the channel is stored");
	if (!ok) return;
	if (n == m) vf_assert(out == (DmxValue)v, "a value given in the resolution of the channel is read as itself");
	else if (shift) vf_assert(out == (m > n ? (DmxValue)v << (8 * (m - n)) : (DmxValue)v >> (8 * (n - m))), "a value with shift suffix is shifted by whole bytes");
	else
	{
		vf_assert(vf_near((uint64_t)out, (uint64_t)v, top(n), top(m)), "a value is scaled to the nearest value of the channel");
		vf_assert((v != 0) | (out == 0), "0 stays 0");
		vf_assert(((DmxValue)v != top(n)) | (out == top(m)), "the maximum stays the maximum");
		if (m % n == 0) vf_assert(out == (DmxValue)v * (top(m) / top(n)), "widening to a multiple of the bytes repeats the bytes");
	}
}
#define READ(n, m) extern "C" void C07_read_##n##_##m() { read(n, m); }
READ(1, 1) READ(1, 2) READ(1, 3) READ(1, 4) READ(2, 1) READ(2, 2) READ(2, 3) READ(2, 4) READ(3, 1) READ(3, 2) READ(3, 3) READ(3, 4) READ(4, 1) READ(4, 2) READ(4, 3) READ(4, 4)
extern "C" void C07_other_specifier()
{
	Sint64 v = any64("value", 255), n = (Sint64)vf_u64("bytes"); vf_assume(v >= 0); vf_assume((n < 1) | (n > 4));
	if (vf_native() && vf_bool("small")) { n = n & 15; vf_assume((n < 1) | (n > 4)); }
	vf_assume((n >= -0x80000000ll) & (n <= 0x7FFFFFFF));
	bool shift = vf_bool("shift"); int m = 1 + (int)vf_choice("resolution", 0, 3);
	TXString s = dec(v); s += "/"; s += dec(n); if (shift) s += "s";
	DmxValue out = 0;
	bool ok = GdtfConverter::ConvertDMXValue(s, node(), (EGdtfChannelBitResolution)m, out);
	vf_cover("other");
	vf_assert((n < 0) | !ok, "a number of bytes other than 1 to 4 is an error");
	vf_assert(out <= top(m), "no value outside the range of the channel is stored");
}
extern "C" void C07_write_read()
{
	int m = 1 + (int)vf_choice("resolution", 0, 3);
	DmxValue v = vf_u64("value"), out = 0; if (vf_native()) v &= top(m); vf_assume(v <= top(m));
	bool ok = GdtfConverter::ConvertDMXValue(GdtfConverter::ConvertDMXValue(v, (EGdtfChannelBitResolution)m), node(), (EGdtfChannelBitResolution)m, out);
	vf_cover("write");
	vf_assert(ok & (out == v), "a value written and read at the same resolution is the same");
}
extern "C" void C07_none()
{
	int m = 1 + (int)vf_choice("resolution", 0, 3);
	DmxValue v = vf_u64("value"), out = 0; if (vf_native()) v &= top(m); vf_assume(v <= top(m));
	bool none = vf_bool("none"), r = vf_bool("before");
	bool ok = GdtfConverter::ConvertDMXValue(GdtfConverter::ConvertDMXValue(v, (EGdtfChannelBitResolution)m, none), node(), (EGdtfChannelBitResolution)m, out, r);
	vf_cover("none");
	vf_assert(ok & (r == none) & (none | (out == v)), "a value or its absence survives writing and reading");
}
extern "C" void C07_none_error()
{
	// the reader that knows 'None' reports the same errors
	int n = 1 + (int)vf_choice("bytes", 0, 3), m = 1 + (int)vf_choice("resolution", 0, 3);
	Sint64 v = any64("value", top(n)); vf_assume(v >= 0);
	TXString s = dec(v); s += "/"; s += dec(n);
	DmxValue out = 0; bool none = true;
	bool ok = GdtfConverter::ConvertDMXValue(s, node(), (EGdtfChannelBitResolution)m, out, none);
	vf_cover("none error");
	vf_assert(!none, "a number is not 'None'");
	vf_assert(ok == ((DmxValue)v <= top(n)), "a value is accepted exactly when it fits the number of bytes it is given in");
}
extern "C" void C07_maximum()
{
	int m = 1 + (int)vf_choice("resolution", 0, 3);
	vf_cover("maximum");
	vf_assert(GdtfConverter::GetChannelMaxDmx((EGdtfChannelBitResolution)m) == top(m), "the maximum of a channel of m bytes is 256^m - 1");
}
