// Texts produced by the conversion layer.  vf_enc makes the text of a family of
// converters for n machine words; vf_dec reads the words back from such a text.
#pragma once
#include "vf.h"
#include "vf_txt.h"
#include <cstring>
#include <vector>
extern "C" {
	void vf_enc(VectorworksMVR::TXString* out, const char* family, size_t n, const uint64_t* w);
	size_t vf_dec(const VectorworksMVR::TXString* t, size_t n, uint64_t* w);		// number of words
}
namespace vfw {
	using namespace VectorworksMVR;
	template<class T> static void put(uint64_t*& w, const T& v) { *w++ = (uint64_t)(int64_t)v; }
	static void put(uint64_t*& w, double v) { memcpy(w++, &v, 8); }
	static void put(uint64_t*& w, const VWPoint3D& v) { put(w, v.x); put(w, v.y); put(w, v.z); }
	static void put(uint64_t*& w, const VectorworksMVR::CCieColor& v) { put(w, v.fx); put(w, v.fy); put(w, v.fY_luminance); }
	static void put(uint64_t*& w, const STime& v) { put(w, v.fYear); put(w, v.fMonth); put(w, v.fDay); put(w, v.fHour); put(w, v.fMinute); put(w, v.fSecond); }
	static void put(uint64_t*& w, const VWFC::Tools::VWUUID& v) { memcpy(w, v.fData, 16); w += 2; }
	static void put(uint64_t*& w, const VectorworksMVR::MvrUUID& v) { put(w, VWFC::Tools::VWUUID(v.a, v.b, v.c, v.d)); }
	static void put(uint64_t*& w, const VectorworksMVR::TCCieColorArray& v) { for (size_t i = 0; i < v.size(); ++i) put(w, *v[i]); }
	static void put(uint64_t*& w, const VWTransformMatrix& v) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) put(w, v.fMatrix.mat[i][j]); }
	template<class T> static void put(uint64_t*& w, const std::vector<T>& v) { for (size_t i = 0; i < v.size(); ++i) put(w, v[i]); }
	template<class T> static void get(const uint64_t*& w, const uint64_t*, T& v) { v = (T)(int64_t)*w++; }
	static void get(const uint64_t*& w, const uint64_t*, bool& v) { v = *w++ != 0; }
	static void get(const uint64_t*& w, const uint64_t*, double& v) { memcpy(&v, w++, 8); }
	static void get(const uint64_t*& w, const uint64_t* e, VWPoint3D& v) { get(w, e, v.x); get(w, e, v.y); get(w, e, v.z); }
	static void get(const uint64_t*& w, const uint64_t* e, VectorworksMVR::CCieColor& v) { get(w, e, v.fx); get(w, e, v.fy); get(w, e, v.fY_luminance); }
	static void get(const uint64_t*& w, const uint64_t* e, STime& v) { get(w, e, v.fYear); get(w, e, v.fMonth); get(w, e, v.fDay); get(w, e, v.fHour); get(w, e, v.fMinute); get(w, e, v.fSecond); }
	static void get(const uint64_t*& w, const uint64_t*, VWFC::Tools::VWUUID& v) { memcpy(v.fData, w, 16); w += 2; }
	static void get(const uint64_t*& w, const uint64_t* e, VectorworksMVR::MvrUUID& v) { VWFC::Tools::VWUUID u; get(w, e, u); u.GetUUID(v.a, v.b, v.c, v.d); }
	static void get(const uint64_t*& w, const uint64_t* e, VectorworksMVR::TCCieColorArray& v) { while (w < e) { auto* t = new VectorworksMVR::CCieColor(); get(w, e, *t); v.push_back(t); } }
	static void get(const uint64_t*& w, const uint64_t* e, VWTransformMatrix& v) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) get(w, e, v.fMatrix.mat[i][j]); }
	template<class T> static void get(const uint64_t*& w, const uint64_t* e, std::vector<T>& v) { v.clear(); while (w < e) { T t; get(w, e, t); v.push_back(t); } }
}
