#include "Prefix/StdAfx.h"
#include "vf_txt.h"
using namespace VectorworksMVR;
typedef VWFC::Tools::VWUUID VWUUID;

extern "C" void C10_words_roundtrip()
{
	Uint32 a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c"), d = vf_u32("d");
	VWUUID u(a, b, c, d);
	Uint32 w, x, y, z;
	u.GetUUID(w, x, y, z);
	vf_cover("words");
	vf_assert(w == a, "word 1 of a UUID built from four words is extracted unchanged");
	vf_assert(x == b, "word 2 of a UUID built from four words is extracted unchanged");
	vf_assert(y == c, "word 3 of a UUID built from four words is extracted unchanged");
	vf_assert(z == d, "word 4 of a UUID built from four words is extracted unchanged");
}

extern "C" void C10_bytes_roundtrip()
{
	Uint8 in[16], out[20];
	vf_havoc("bytes", in, 16);
	VWUUID u(in, 16);
	u.GetUUID(out, 20);
	vf_cover("bytes");
	for (int i = 0; i < 16; i++) vf_assert(out[i] == in[i], "byte extracted equals byte given");
	for (int i = 16; i < 20; i++) vf_assert(out[i] == 0, "bytes after the sixteenth are zero");
}

static VWUUID anyUUID(const char* name)
{
	Uint8 b[16];
	vf_havoc(name, b, 16);
	return VWUUID(b, 16);
}

extern "C" void C10_iid_roundtrip()
{
	VWIID i;
	i.data1 = vf_u32("d1"); i.data2 = (short)vf_u16("d2"); i.data3 = (short)vf_u16("d3");
	Uint8 d4[8]; vf_havoc("d4", d4, 8);
	for (int k = 0; k < 8; k++) i.data4[k] = d4[k];
	VWUUID u(i);
	VWIID o;
	u.GetUUID(o);
	vf_cover("iid");
	vf_assert(o.data1 == i.data1, "interface id: data1 extracted unchanged");
	vf_assert(o.data2 == i.data2, "interface id: data2 extracted unchanged");
	vf_assert(o.data3 == i.data3, "interface id: data3 extracted unchanged");
	for (int k = 0; k < 8; k++) vf_assert((Uint8)o.data4[k] == (Uint8)i.data4[k], "interface id: data4 extracted unchanged");
}

extern "C" void C10_bytes_short()
{
	size_t n = vf_choice("n", 0, 16);
	Uint8* in = (Uint8*)vf_bytes("bytes", n);
	VWUUID u(in, n);
	Uint8 out[16];
	u.GetUUID(out, 16);
	vf_cover("short");
	for (size_t i = 0; i < 16; i++) vf_assert(out[i] == (i < n ? in[i] : 0), "short byte array is zero extended");
}

extern "C" void C10_equality()
{
	VWUUID a = anyUUID("a"), b = anyUUID("b");
	Uint8 x[16], y[16];
	a.GetUUID(x, 16); b.GetUUID(y, 16);
	bool same = true;
	for (int i = 0; i < 16; i++) same = same & (x[i] == y[i]);
	vf_cover("eq");
	vf_assert((a == b) == same, "== holds exactly when all 128 bits agree");
	vf_assert((a != b) == !same, "!= holds exactly when some bit differs");
	VWUUID c(a);
	VWUUID d; d = b;
	c.GetUUID(x, 16);
	Uint8 z[16]; d.GetUUID(z, 16);
	Uint8 w[16]; a.GetUUID(w, 16);
	for (int i = 0; i < 16; i++) { vf_assert(x[i] == w[i], "copy has the same bytes"); vf_assert(z[i] == y[i], "assignment has the same bytes"); }
}

static void textRoundtrip(bool br)
{
	VWUUID a = anyUUID("a");
	TXString t = a.ToString(br);
	vf_assert(t.GetLength() == (br ? 38 : 36), "text form has the documented length");
	VWUUID b = anyUUID("b");
	bool ok = b.FromString(t, br);
	vf_cover("text");
	vf_assert(ok, "the text form of a UUID is accepted");
	vf_assert(a == b, "parsing the text form gives an equal UUID");
}
extern "C" void C10_text_braces() { textRoundtrip(true); }
extern "C" void C10_text_plain() { textRoundtrip(false); }
extern "C" void C10_text_ctor()
{
	VWUUID a = anyUUID("a");
	VWUUID b((TXString)a);
	vf_cover("ctor");
	vf_assert(a == b, "constructing from the text form gives an equal UUID");
}

static void parseAny(bool br)
{
	size_t n = br ? 38 : 36;
	TXString t = vf_ascii("text", n);
	VWUUID b = anyUUID("b"), old(b);
	bool ok = false, thrown = false;
	try { ok = b.FromString(t, br); } catch (...) { thrown = true; }
	vf_cover("any");
	if (ok && !thrown) {
		TXString back = b.ToString(br);
		vf_assert(back == t, "an accepted text is the text form of the UUID it was parsed into");
	}
	else vf_assert(b == old, "a rejected text leaves the UUID unchanged");
}
extern "C" void C10_parse_braces() { parseAny(true); }
extern "C" void C10_parse_plain() { parseAny(false); }

extern "C" void C10_wrong_length()
{
	bool br = vf_bool("br");
	TXString t = vf_text("text");
	vf_assume(t.GetLength() != (br ? 38 : 36));
	VWUUID b = anyUUID("b"), old(b);
	vf_cover("len");
	bool ok = b.FromString(t, br);
	vf_assert(!ok, "a text of the wrong length is rejected");
	vf_assert(b == old, "a text of the wrong length leaves the UUID unchanged");
}
