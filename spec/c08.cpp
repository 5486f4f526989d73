#include "Prefix/StdAfx.h"
#include "vf_txt.h"
#include "Include/VectorworksMVR.h"
#include "GDTFManager.h"
#include "SceneDataExchange.h"
#include "XmlFileHelper.h"
#include "Utility.h"
#include "vf_node.h"
using namespace VectorworksMVR; using namespace SceneData; using namespace VectorworksMVR::Filing;

static IXMLFileNodePtr node() { return IXMLFileNodePtr(newRoot()); }
// an absolute address is usable when the address type can hold it
static const Sint64 kMaxAddress = 65535;
static bool isPair(Sint64 u, Sint64 a) { return (u >= 1) & (u <= 128) & (a >= 1) & (a <= 512) & !((u == 128) & (a == 512)); }
static TXString dec(Sint64 v) { return TXString().itoa(v); }
static Sint64 any64(const char* n)
{
	Sint64 v = (Sint64)vf_u64(n);
	// native runs: small values, values that are small modulo a power of two, and all others
	if (vf_native()) switch (vf_u8("scale") & 3) { case 0: v = v % 600; break; case 1: v = (v & 0xFFFFF) - 200000; break; case 2: v = (v & 0x700000003FF); break; }
	return v;
}
extern "C" void C08_universe_address()
{
	Sint64 u = any64("universe"), a = any64("address");
	TXString s = dec(u); s += "."; s += dec(a);
	DMXAddress out = 77;
	bool ok = GdtfConverter::ConvertDMXAdress(s, node(), out);
	vf_cover("pair");
	vf_assert(ok == isPair(u, a), "a text universe.address is accepted exactly when the universe is at least 1, the address is in 1..512 and the absolute address can be stored");
	if (ok) vf_assert((Sint64)out == (u - 1) * 512 + a, "an accepted text universe.address is the absolute address (universe - 1) * 512 + address");
	else vf_assert(out == 0, "a rejected text yields no address");
}
extern "C" void C08_no_collision()
{
	Sint64 u = any64("u1"), a = any64("a1"), v = any64("u2"), b = any64("a2");
	DMXAddress x = 0, y = 0;
	TXString s = dec(u); s += "."; s += dec(a); TXString t = dec(v); t += "."; t += dec(b);
	bool p = GdtfConverter::ConvertDMXAdress(s, node(), x), q = GdtfConverter::ConvertDMXAdress(t, node(), y);
	vf_cover("two");
	vf_assert(!((p & q) & (x == y)) | ((u == v) & (a == b)), "two accepted texts with the same absolute address name the same universe and address");
}
extern "C" void C08_absolute()
{
	Sint64 a = any64("absolute");
	DMXAddress out = 77;
	bool ok = GdtfConverter::ConvertDMXAdress(dec(a), node(), out);
	vf_cover("absolute");
	vf_assert(ok == ((a >= 1) & (a <= kMaxAddress)), "a plain address is accepted exactly when it can be stored and is not 0");
	if (ok) vf_assert((Sint64)out == a, "a plain address is read as itself");
	else vf_assert(out == 0, "a rejected address yields no address");
}
extern "C" void C08_address_written()
{
	DMXAddress a = vf_u16("address"), out = 77; vf_assume(a != 0);
	bool ok = GdtfConverter::ConvertDMXAdress(GdtfConverter::ConvertDMXAdress(a), node(), out);
	vf_cover("written");
	vf_assert(ok & (out == a), "a written address is read as itself");
}
extern "C" void C08_break()
{
	Sint32 b = (Sint32)vf_u32("break"), out = (Sint32)vf_u32("before");
	bool ok = GdtfConverter::ConvertDmxBreak(GdtfConverter::ConvertDmxBreak(b), node(), out);
	vf_cover("break");
	vf_assert(ok & (out == b), "a break number survives writing and reading, and 'Overwrite' is break 0");
}
extern "C" void C08_offsets()
{
	// as many offsets as the channel has bytes
	size_t n = vf_choice("bytes", 0, 4);
	DMXAddress w[4] = { 0, 0, 0, 0 }, r[4] = { 9, 9, 9, 9 };
	for (size_t i = 0; i < n; ++i) { w[i] = vf_u16("offset"); vf_assume(w[i] != 0); }
	TXString s = GdtfConverter::ConvertDmxOffset(w[0], w[1], w[2], w[3]);
	bool ok = GdtfConverter::ConvertDmxOffset(s, node(), r[0], r[1], r[2], r[3]);
	vf_cover("offsets");
	vf_assert(ok == (n != 0), "offsets are read exactly when there are any");
	for (int i = 0; i < 4; ++i) vf_assert(r[i] == w[i], "every offset of a channel survives writing and reading");
}
#define INTEGER(name, T, rnd) \
extern "C" void C08_integer_##name() \
{ \
	T v = rnd, out = 0; \
	bool ok = GdtfConverter::ConvertInteger(GdtfConverter::ConvertInteger(v), node(), out); \
	vf_cover("integer"); \
	vf_assert(ok & (out == v), "an integer survives writing and reading"); \
}
INTEGER(s32, Sint32, (Sint32)vf_u32("v"))
extern "C" void C08_integer_none()
{
	Sint32 v = (Sint32)vf_u32("v"), out = 0; bool none = vf_bool("none"), rnone = vf_bool("before");
	bool ok = GdtfConverter::ConvertInteger(GdtfConverter::ConvertInteger(v, none), node(), out, rnone);
	vf_cover("none");
	vf_assert(ok & (rnone == none) & (none | (out == v)), "an integer or its absence survives writing and reading");
}
extern "C" void C08_integer_size()
{
	size_t v = vf_u64("v"), out = 0; vf_assume(v <= 0x7FFFFFFF);
	bool ok = GdtfConverter::ConvertInteger(GdtfConverter::ConvertInteger(v), node(), out);
	vf_cover("size");
	vf_assert(ok & (out == v), "a count survives writing and reading");
}
