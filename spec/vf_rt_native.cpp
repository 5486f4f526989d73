// In native runs the real converters run; the conversion layer's contracts are not used.
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "GDTFManager.h"
#include "Utility.h"
using namespace VectorworksMVR::GdtfDefines; using namespace SceneData; using namespace VectorworksMVR::VWFC::Math;
#include "vf_enc.h"
extern "C" {
	void vf_enc(VectorworksMVR::TXString*, const char*, size_t, const uint64_t*) {}
	size_t vf_dec(const VectorworksMVR::TXString*, size_t, uint64_t*) { return 0; }
}
