#include "Prefix/StdAfx.h"
#include "vf_txt.h"
#include <vector>
#include "CieColor.h"
#include "RGBColor.h"
#include "XmlFileHelper.h"
using namespace VectorworksMVR;
using namespace SceneData;

static CRGBColor anyRGB(const char* n) { Sint32 r = (Sint32)vf_u32(n), g = (Sint32)vf_u32(n), b = (Sint32)vf_u32(n); return CRGBColor(r, g, b); }

extern "C" void C21_rgb_construct()
{
	Sint32 r = (Sint32)vf_u32("r"), g = (Sint32)vf_u32("g"), b = (Sint32)vf_u32("b");
	CRGBColor c(r, g, b);
	vf_cover("c");
	vf_assert(c.GetRed() == r, "red of a colour built from components");
	vf_assert(c.GetGreen() == g, "green of a colour built from components");
	vf_assert(c.GetBlue() == b, "blue of a colour built from components");
	Sint32 x, y, z;
	c.GetColor(x, y, z);
	vf_assert(x == r && y == g && z == b, "all components are extracted in order");
	CRGBColor d(c), e; e = c;
	vf_assert(d.GetRed() == r && d.GetGreen() == g && d.GetBlue() == b, "copy has the same components");
	vf_assert(e.GetRed() == r && e.GetGreen() == g && e.GetBlue() == b, "assignment has the same components");
	CRGBColor f; f.SetColor(r, g, b);
	vf_assert(f.GetRed() == r && f.GetGreen() == g && f.GetBlue() == b, "SetColor sets every component");
}
extern "C" void C21_rgb_setred()
{
	CRGBColor c = anyRGB("c"); Sint32 g = c.GetGreen(), b = c.GetBlue(), v = (Sint32)vf_u32("v");
	c.SetRed(v); vf_cover("c");
	vf_assert(c.GetRed() == v, "SetRed then GetRed returns the value");
	vf_assert(c.GetGreen() == g && c.GetBlue() == b, "SetRed leaves green and blue alone");
}
extern "C" void C21_rgb_setgreen()
{
	CRGBColor c = anyRGB("c"); Sint32 r = c.GetRed(), b = c.GetBlue(), v = (Sint32)vf_u32("v");
	c.SetGreen(v); vf_cover("c");
	vf_assert(c.GetGreen() == v, "SetGreen then GetGreen returns the value");
	vf_assert(c.GetRed() == r && c.GetBlue() == b, "SetGreen leaves red and blue alone");
}
extern "C" void C21_rgb_setblue()
{
	CRGBColor c = anyRGB("c"); Sint32 r = c.GetRed(), g = c.GetGreen(), v = (Sint32)vf_u32("v");
	c.SetBlue(v); vf_cover("c");
	vf_assert(c.GetBlue() == v, "SetBlue then GetBlue returns the value");
	vf_assert(c.GetRed() == r && c.GetGreen() == g, "SetBlue leaves red and green alone");
}
extern "C" void C21_rgb_equality()
{
	CRGBColor a = anyRGB("a"), b = anyRGB("b");
	vf_cover("c");
	bool same = a.GetRed() == b.GetRed() && a.GetGreen() == b.GetGreen() && a.GetBlue() == b.GetBlue();
	vf_assert((a == b) == same, "== holds exactly when all components agree");
	vf_assert((a != b) == !same, "!= holds exactly when some component differs");
}

extern "C" void C21_cie_construct()
{
	double x = vf_f64("x"), y = vf_f64("y"), z = vf_f64("Y");
	CCieColor c(x, y, z);
	vf_cover("c");
	vf_assert(vf_same(c.Get_x(), x), "x of a CIE colour");
	vf_assert(vf_same(c.Get_y(), y), "y of a CIE colour");
	vf_assert(vf_same(c.Get_Y_luminance(), z), "Y of a CIE colour");
}
extern "C" void C21_cie_struct()
{
	double x = vf_f64("x"), y = vf_f64("y"), z = vf_f64("Y");
	CieColor s = GdtfConverter::ConvertCColor(CCieColor(x, y, z));
	vf_cover("c");
	vf_assert(vf_same(s.fx, x) && vf_same(s.fy, y) && vf_same(s.f_Y, z), "public structure has the components of the colour");
	CCieColor c = GdtfConverter::ConvertCColor(s);
	vf_assert(vf_same(c.Get_x(), x) && vf_same(c.Get_y(), y) && vf_same(c.Get_Y_luminance(), z), "converting back restores the components");
}
// what a component becomes when it is written as text and read
static double asText(double d) { TXString t; t << d; return t.atof(); }

extern "C" void C21_cie_text()
{
	double x = vf_f64("x"), y = vf_f64("y"), z = vf_f64("Y");
	CCieColor c(x, y, z), d(1, 2, 3);
	TXString t = GdtfConverter::ConvertColor(c);
	bool ok = GdtfConverter::ConvertColor(t, nullptr, d);
	vf_cover("c");
	vf_assert(ok, "the text of a colour is accepted");
	vf_assert(vf_same(d.Get_x(), asText(x)), "x survives the text form");
	vf_assert(vf_same(d.Get_y(), asText(y)), "y survives the text form");
	vf_assert(vf_same(d.Get_Y_luminance(), asText(z)), "Y survives the text form");
}
static void arr(size_t n)
{
	double v[12];
	TCCieColorArray a, b;
	for (size_t i = 0; i < n; i++) {
		for (int k = 0; k < 3; k++) v[3 * i + k] = vf_f64("v");
		a.push_back(new CCieColor(v[3 * i], v[3 * i + 1], v[3 * i + 2]));
	}
	TXString t = GdtfConverter::ConvertColorArray(a);
	bool ok = GdtfConverter::ConvertColorArray(t, nullptr, b);
	vf_cover("c");
	vf_assert(ok, "the text of a colour list is accepted");
	vf_assert(b.size() == n, "a colour list keeps its length");
	if (b.size() != n) return;
	for (size_t i = 0; i < n; i++) {
		vf_assert(vf_same(b[i]->Get_x(), asText(v[3 * i])), "x of a listed colour survives");
		vf_assert(vf_same(b[i]->Get_y(), asText(v[3 * i + 1])), "y of a listed colour survives");
		vf_assert(vf_same(b[i]->Get_Y_luminance(), asText(v[3 * i + 2])), "Y of a listed colour survives");
	}
}
extern "C" void C21_array_0() { arr(0); }
extern "C" void C21_array_1() { arr(1); }
extern "C" void C21_array_2() { arr(2); }
extern "C" void C21_array_3() { arr(3); }
