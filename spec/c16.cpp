#include "Prefix/StdAfx.h"
#include "vf.h"
#include <cmath>
#include "Utility.h"
using namespace VectorworksMVR;
using namespace VectorworksMVR::VWFC::Math;

// Equality over exact arithmetic.  Natively the numbers are doubles: `mag` bounds the size of the terms
// that were added up, so anything within rounding distance of it counts as equal.
static bool same(double a, double b, double mag) { return vf_native() ? std::fabs(a - b) <= 1e-9 * (mag + std::fabs(a) + std::fabs(b)) : a == b; }
#define EQ(a, b, mag, what) vf_assert(same(a, b, mag), what)
static const char* kM[4][3] = { { "m00", "m01", "m02" }, { "m10", "m11", "m12" }, { "m20", "m21", "m22" }, { "m30", "m31", "m32" } };
static const char* kN[4][3] = { { "n00", "n01", "n02" }, { "n10", "n11", "n12" }, { "n20", "n21", "n22" }, { "n30", "n31", "n32" } };
static double ab(double x) { return x < 0 ? -x : x; }
static double num(const char* n)
{
	double v = vf_f64(n);
	vf_assume(v > -1e6 && v < 1e6);
	return v;
}
static void any(VWTransformMatrix& m, const char* (&n)[4][3]) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) m.fMatrix.mat[i][j] = num(n[i][j]); }
static VWPoint3D pt() { double x = num("px"), y = num("py"), z = num("pz"); return VWPoint3D(x, y, z); }
static double at(const VWTransformMatrix& m, int i, int j) { return m.fMatrix.mat[i][j]; }
// ghost definition: the image of p, component j
static double img(const VWTransformMatrix& m, double x, double y, double z, int j) { return x * at(m, 0, j) + y * at(m, 1, j) + z * at(m, 2, j) + at(m, 3, j); }
static double imgmag(const VWTransformMatrix& m, double x, double y, double z, int j) { return vf_native() ? ab(x * at(m, 0, j)) + ab(y * at(m, 1, j)) + ab(z * at(m, 2, j)) + ab(at(m, 3, j)) : 0; }
static void sameM(const VWTransformMatrix& a, const VWTransformMatrix& b, const char* what) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) EQ(at(a, i, j), at(b, i, j), 0, what); }

extern "C" void C16_structure_to_matrix()
{
	STransformMatrix s;
	s.ux = num("ux"); s.uy = num("uy"); s.uz = num("uz"); s.vx = num("vx"); s.vy = num("vy"); s.vz = num("vz");
	s.wx = num("wx"); s.wy = num("wy"); s.wz = num("wz"); s.ox = num("ox"); s.oy = num("oy"); s.oz = num("oz");
	VWTransformMatrix m; GdtfUtil::ConvertMatrix(s, m); vf_cover("c");
	vf_assert(at(m, 0, 0) == s.ux && at(m, 0, 1) == s.uy && at(m, 0, 2) == s.uz, "u is the first row");
	vf_assert(at(m, 1, 0) == s.vx && at(m, 1, 1) == s.vy && at(m, 1, 2) == s.vz, "v is the second row");
	vf_assert(at(m, 2, 0) == s.wx && at(m, 2, 1) == s.wy && at(m, 2, 2) == s.wz, "w is the third row");
	vf_assert(at(m, 3, 0) == s.ox && at(m, 3, 1) == s.oy && at(m, 3, 2) == s.oz, "the offset is the last row");
	STransformMatrix t; GdtfUtil::ConvertMatrix(m, t);
	vf_assert(t.ux == s.ux && t.uy == s.uy && t.uz == s.uz && t.vx == s.vx && t.vy == s.vy && t.vz == s.vz, "converted back: u and v");
	vf_assert(t.wx == s.wx && t.wy == s.wy && t.wz == s.wz && t.ox == s.ox && t.oy == s.oy && t.oz == s.oz, "converted back: w and offset");
}
extern "C" void C16_matrix_to_structure()
{
	VWTransformMatrix m; any(m, kM);
	STransformMatrix s; GdtfUtil::ConvertMatrix(m, s); vf_cover("c");
	vf_assert(at(m, 0, 0) == s.ux && at(m, 0, 1) == s.uy && at(m, 0, 2) == s.uz, "u is the first row");
	vf_assert(at(m, 1, 0) == s.vx && at(m, 1, 1) == s.vy && at(m, 1, 2) == s.vz, "v is the second row");
	vf_assert(at(m, 2, 0) == s.wx && at(m, 2, 1) == s.wy && at(m, 2, 2) == s.wz, "w is the third row");
	vf_assert(at(m, 3, 0) == s.ox && at(m, 3, 1) == s.oy && at(m, 3, 2) == s.oz, "the offset is the last row");
	VWPoint3D p = pt(); SVector3 v; GdtfUtil::ConvertVector3(p, v);
	vf_assert(v.x == p.x && v.y == p.y && v.z == p.z, "a vector keeps its components");
}
extern "C" void C16_rows()
{
	VWTransformMatrix m; any(m, kM);
	VWTransformMatrix o(m);
	VWPoint3D p = pt(); vf_cover("c");
	int row = (int)vf_choice("row", 0, 4), how = (int)vf_choice("how", 0, 1);
	if (row == 0) { if (how) m.SetUVector(p); else m.SetUVector(p.x, p.y, p.z); }
	if (row == 1) { if (how) m.SetVVector(p); else m.SetVVector(p.x, p.y, p.z); }
	if (row == 2) { if (how) m.SetWVector(p); else m.SetWVector(p.x, p.y, p.z); }
	if (row == 3) { if (how) m.SetOffset(p); else m.SetOffset(p.x, p.y, p.z); }
	if (row == 4) { if (how) m.SetTranslation(p); else m.SetTranslation(p.x, p.y, p.z); row = 3; }
	for (int i = 0; i < 4; i++) {
		VWPoint3D g = i == 0 ? m.GetUVector() : i == 1 ? m.GetVVector() : i == 2 ? m.GetWVector() : m.GetOffset();
		if (i == row) vf_assert(g.x == p.x && g.y == p.y && g.z == p.z, "a vector that was set is returned");
		else vf_assert(g.x == at(o, i, 0) && g.y == at(o, i, 1) && g.z == at(o, i, 2), "setting one vector leaves the others");
	}
}
extern "C" void C16_construct()
{
	VWTransformMatrix m; any(m, kM);
	VWPoint3D u = m.GetUVector(), v = m.GetVVector(), w = m.GetWVector(), o = m.GetOffset(); vf_cover("c");
	VWTransformMatrix a(m), b, c((const TransformMatrix&)m), d(u, v, w, o), e; b = m; e.SetMatrix(u, v, w, o);
	sameM(a, m, "a copy has the same entries"); sameM(b, m, "an assigned matrix has the same entries"); sameM(c, m, "a matrix built from the plain form has the same entries");
	sameM(d, m, "a matrix built from vectors has them as rows"); sameM(e, m, "a matrix set from vectors has them as rows");
	VWTransformMatrix f(u, v, w), g(u, v, w, o, true), i, t(o), k(u.x, u.y, u.z);
	for (int r = 0; r < 4; r++) for (int j = 0; j < 3; j++) {
		vf_assert(at(f, r, j) == (r < 3 ? at(m, r, j) : 0), "a matrix built without offset has none");
		vf_assert(at(g, r, j) == (r < 3 ? at(m, j, r) : at(m, 3, j)), "a matrix built transposed has the vectors as columns");
		vf_assert(at(i, r, j) == (r == j ? 1 : 0), "a new matrix is the identity");
		vf_assert(at(t, r, j) == (r == 3 ? at(m, 3, j) : r == j ? 1 : 0), "a translation");
		vf_assert(at(k, r, j) == (r == j ? at(m, 0, j) : 0), "a scale");
	}
	vf_assert(m == a, "a matrix equals its copy"); vf_assert(i.IsIdentity(), "a new matrix is recognised as the identity");
}
extern "C" void C16_apply()
{
	VWTransformMatrix m; any(m, kM);
	VWPoint3D p = pt(), q = m.PointTransform(p), r = m * p, s = p; m.TransformPoint(s); vf_cover("c");
	double x[3] = { q.x, q.y, q.z }, y[3] = { r.x, r.y, r.z }, z[3] = { s.x, s.y, s.z };
	for (int j = 0; j < 3; j++) {
		double g = img(m, p.x, p.y, p.z, j), k = imgmag(m, p.x, p.y, p.z, j);
		EQ(x[j], g, k, "PointTransform is the image of the point"); EQ(y[j], g, k, "multiplication with a point is the image of the point"); EQ(z[j], g, k, "TransformPoint is the image of the point");
	}
	// points in the plane are points with z = 0
	VWPoint2D f(p.x, p.y), fa = m.PointTransform(f), fb = m * f, fc = f; m.TransformPoint(fc);
	double gx = img(m, p.x, p.y, 0, 0), gy = img(m, p.x, p.y, 0, 1), kx = imgmag(m, p.x, p.y, 0, 0), ky = imgmag(m, p.x, p.y, 0, 1);
	EQ(fa.x, gx, kx, "x of a plane point"); EQ(fa.y, gy, ky, "y of a plane point");
	EQ(fb.x, gx, kx, "x of a plane point (multiplication)"); EQ(fb.y, gy, ky, "y of a plane point (multiplication)");
	EQ(fc.x, gx, kx, "x of a plane point (in place)"); EQ(fc.y, gy, ky, "y of a plane point (in place)");
}
extern "C" void C16_multiply()
{
	VWTransformMatrix m, n; any(m, kM); any(n, kN);
	VWPoint3D p = pt(); vf_cover("c");
	VWTransformMatrix k = m * n, l = m; l *= n;
	VWTransformMatrix sq = m; sq *= sq;
	VWPoint3D q(img(m, p.x, p.y, p.z, 0), img(m, p.x, p.y, p.z, 1), img(m, p.x, p.y, p.z, 2)), a = k.PointTransform(p), b = l.PointTransform(p), c = sq.PointTransform(p);
	double x[3] = { a.x, a.y, a.z }, y[3] = { b.x, b.y, b.z }, z[3] = { c.x, c.y, c.z };
	double qx = imgmag(m, p.x, p.y, p.z, 0), qy = imgmag(m, p.x, p.y, p.z, 1), qz = imgmag(m, p.x, p.y, p.z, 2);
	for (int j = 0; j < 3; j++) {
		double g = img(n, q.x, q.y, q.z, j), e = imgmag(n, qx, qy, qz, j), h = img(m, q.x, q.y, q.z, j), f = imgmag(m, qx, qy, qz, j);
		EQ(x[j], g, e, "the product maps a point like the factors one after the other");
		EQ(y[j], g, e, "multiplying in place maps a point like the factors one after the other");
		EQ(z[j], h, f, "a matrix multiplied with itself maps a point like the factors one after the other");
	}
}
// the determinant and the sum of the absolute values of its six terms
static double det(const VWTransformMatrix& m)
{
	return at(m, 0, 0) * at(m, 1, 1) * at(m, 2, 2) + at(m, 0, 1) * at(m, 1, 2) * at(m, 2, 0) + at(m, 0, 2) * at(m, 1, 0) * at(m, 2, 1)
		- at(m, 2, 0) * at(m, 1, 1) * at(m, 0, 2) - at(m, 2, 1) * at(m, 1, 2) * at(m, 0, 0) - at(m, 2, 2) * at(m, 1, 0) * at(m, 0, 1);
}
static double mag(const VWTransformMatrix& m)
{
	return ab(at(m, 0, 0) * at(m, 1, 1) * at(m, 2, 2)) + ab(at(m, 0, 1) * at(m, 1, 2) * at(m, 2, 0)) + ab(at(m, 0, 2) * at(m, 1, 0) * at(m, 2, 1))
		+ ab(at(m, 2, 0) * at(m, 1, 1) * at(m, 0, 2)) + ab(at(m, 2, 1) * at(m, 1, 2) * at(m, 0, 0)) + ab(at(m, 2, 2) * at(m, 1, 0) * at(m, 0, 1));
}
static void invert(int how)
{
	VWTransformMatrix m; any(m, kM);
	// the code's own notion of "not invertible" is a threshold; natively stay well away from it
	double g = mag(m), d = det(m);
	if (vf_native()) vf_assume(g > 1e-2 && ab(d) > 1e-3 * g);
	else vf_assume(g >= 0.00000001 && ab(d / g) >= 0.00000001);
	vf_cover("c");
	const VWTransformMatrix o(m);
	VWTransformMatrix v = how == 0 ? o.GetInverted() : how == 1 ? o.Invert() : m.Invert();
	if (how == 2) sameM(m, v, "inverting in place changes the matrix to its inverse"); else sameM(o, m, "the matrix is left alone");
	double e = vf_native() ? 1e6 : 0;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		double s = 0, t = 0;
		for (int k = 0; k < 3; k++) { s += at(o, i, k) * at(v, k, j); t += at(v, i, k) * at(o, k, j); }
		EQ(s, i == j ? 1 : 0, e, "the linear part times its inverse is the identity"); EQ(t, i == j ? 1 : 0, e, "the inverse times the linear part is the identity");
	}
	for (int j = 0; j < 3; j++) EQ(at(o, 3, 0) * at(v, 0, j) + at(o, 3, 1) * at(v, 1, j) + at(o, 3, 2) * at(v, 2, j) + at(v, 3, j), 0, e * (1 + ab(at(o, 3, 0)) + ab(at(o, 3, 1)) + ab(at(o, 3, 2))), "the inverse takes the offset back to the origin");
}
extern "C" void C16_get_inverted() { invert(0); }
extern "C" void C16_invert_const() { invert(1); }
extern "C" void C16_invert_in_place() { invert(2); }
// Consequence for points: a transform and then any other one map p to p times the product of the linear parts plus
// what the second one makes of the offset.  For an inverse these are (above) the identity and zero, so p comes back.
extern "C" void C16_inverse_restores()
{
	VWTransformMatrix m, v; any(m, kM); any(v, kN);
	VWPoint3D p = pt(), q = v.PointTransform(m.PointTransform(p)); vf_cover("c");
	double x[3] = { p.x, p.y, p.z }, y[3] = { q.x, q.y, q.z }, mg = imgmag(m, x[0], x[1], x[2], 0) + imgmag(m, x[0], x[1], x[2], 1) + imgmag(m, x[0], x[1], x[2], 2);
	for (int j = 0; j < 3; j++) {
		double r = at(m, 3, 0) * at(v, 0, j) + at(m, 3, 1) * at(v, 1, j) + at(m, 3, 2) * at(v, 2, j) + at(v, 3, j);
		for (int i = 0; i < 3; i++) { double s = 0; for (int k = 0; k < 3; k++) s += at(m, i, k) * at(v, k, j); r += x[i] * s; }
		EQ(y[j], r, imgmag(v, mg, mg, mg, j), "the image under two transforms is the point times the product of their linear parts plus the image of the offset");
	}
}
// The transposed form of the inverse: p comes back times the scalar products of the rows, which are
// the identity for a rigid transform.
extern "C" void C16_inverse_point_rigid()
{
	VWTransformMatrix m; any(m, kM);
	VWPoint3D p = pt(), t = m.PointTransform(p), q = m.InversePointTransform(t), r = t; m.InverseTransformPoint(r); vf_cover("c");
	double x[3] = { p.x, p.y, p.z }, y[3] = { q.x, q.y, q.z }, z[3] = { r.x, r.y, r.z }, mg = imgmag(m, x[0], x[1], x[2], 0) + imgmag(m, x[0], x[1], x[2], 1) + imgmag(m, x[0], x[1], x[2], 2);
	for (int j = 0; j < 3; j++) {
		double g = 0, k = 0;
		for (int i = 0; i < 3; i++) { double s = 0; for (int l = 0; l < 3; l++) s += at(m, i, l) * at(m, j, l); g += x[i] * s; }
		if (vf_native()) k = mg * (ab(at(m, j, 0)) + ab(at(m, j, 1)) + ab(at(m, j, 2)));
		EQ(y[j], g, k, "the point comes back times the scalar products of the rows"); EQ(z[j], g, k, "the point comes back times the scalar products of the rows (in place)");
	}
	// plane points are points with z = 0
	VWPoint2D e(p.x, p.y), f = m.InversePointTransform(e), h = e; m.InverseTransformPoint(h);
	VWPoint3D w = m.InversePointTransform(VWPoint3D(p.x, p.y, 0));
	double k = vf_native() ? 1e-3 + (ab(p.x) + ab(p.y) + ab(at(m, 3, 0)) + ab(at(m, 3, 1)) + ab(at(m, 3, 2))) * 3e6 : 0;
	EQ(f.x, w.x, k, "a plane point"); EQ(f.y, w.y, k, "a plane point"); EQ(h.x, w.x, k, "a plane point (in place)"); EQ(h.y, w.y, k, "a plane point (in place)");
}
extern "C" void C16_translate_scale()
{
	VWTransformMatrix m; any(m, kM);
	VWTransformMatrix o(m);
	VWPoint3D p = pt(); double a = num("a"), b = num("b"), c = num("c"), s[3] = { a, b, c }; vf_cover("c");
	int mode = (int)vf_choice("mode", 0, 3);
	if (mode == 0) m.TranslateAfter(a, b, c); if (mode == 1) m.TranslateBefore(a, b, c); if (mode == 2) m.ScaleAfter(a, b, c);
	double kx = num("kx"), ky = num("ky"), kz = num("kz"), ctr[3] = { kx, ky, kz };
	if (mode == 3) m.ScaleWithCenter(VWPoint3D(kx, ky, kz), a, b, c);
	for (int j = 0; j < 3; j++) {
		double g = mode == 0 ? img(o, p.x, p.y, p.z, j) + s[j] : mode == 1 ? img(o, p.x + a, p.y + b, p.z + c, j) : mode == 2 ? img(o, p.x, p.y, p.z, j) * s[j] : (img(o, p.x, p.y, p.z, j) - ctr[j]) * s[j] + ctr[j];
		double k = imgmag(o, ab(p.x) + ab(a), ab(p.y) + ab(b), ab(p.z) + ab(c), j) + 1;
		EQ(img(m, p.x, p.y, p.z, j), g, (k + ab(ctr[j])) * (1 + ab(s[j])), "translations and scales compose with the transform");
	}
}
extern "C" void C16_rotate()
{
	VWTransformMatrix m; any(m, kM);
	VWTransformMatrix o(m);
	VWPoint3D p = pt(); double w = num("angle"), r = w * (3.14159265358979323846 / 180); vf_cover("c");
	int mode = (int)vf_choice("mode", 0, 5), ax = mode % 3;
	if (mode == 0) m.RotateXAfter(w); if (mode == 1) m.RotateYAfter(w); if (mode == 2) m.RotateZAfter(w);
	if (mode == 3) m.RotateXBefore(w); if (mode == 4) m.RotateYBefore(w); if (mode == 5) m.RotateZBefore(w);
	double cs = std::cos(r), sn = std::sin(r);
	double v[3] = { p.x, p.y, p.z }, k = 1 + ab(p.x) + ab(p.y) + ab(p.z), t[3];
	int i1 = (ax + 1) % 3, i2 = (ax + 2) % 3;
	if (mode >= 3) { t[ax] = v[ax]; t[i1] = v[i1] * cs - v[i2] * sn; t[i2] = v[i1] * sn + v[i2] * cs; }
	else { double u[3] = { img(o, v[0], v[1], v[2], 0), img(o, v[0], v[1], v[2], 1), img(o, v[0], v[1], v[2], 2) }; t[ax] = u[ax]; t[i1] = u[i1] * cs - u[i2] * sn; t[i2] = u[i1] * sn + u[i2] * cs; }
	for (int j = 0; j < 3; j++) {
		double e = (imgmag(o, k, k, k, 0) + imgmag(o, k, k, k, 1) + imgmag(o, k, k, k, 2));
		EQ(img(m, p.x, p.y, p.z, j), mode >= 3 ? img(o, t[0], t[1], t[2], j) : t[j], e, "rotations compose with the transform");
	}
}
