// An XML element as the conversion layer sees it: a name, a text, attributes and
// children in the order they were made.  It stands for the XML back end, which
// stores texts and returns them (assumption listed with the checks that use it).
#pragma once
#include "vf.h"
#include "vf_txt.h"
extern "C" bool vf_text_same(const VectorworksMVR::TXString* a, const VectorworksMVR::TXString* b);
namespace {
	using namespace VectorworksMVR; using namespace VectorworksMVR::Filing;
	struct RAttr { TXString name, value; RAttr* next; };
	class RNode : public IXMLFileNode
	{
	public:
		TXString name, value; bool hasValue; RAttr* attrs; RNode *first, *last, *next, *prev, *parent; size_t count;
		RNode(const TXString& n, RNode* p) : name(n), hasValue(false), attrs(nullptr), first(nullptr), last(nullptr), next(nullptr), prev(nullptr), parent(p), count(0) {}
		static VCOMError give(RNode* n, IXMLFileNode** out) { if (!n) return kVCOMError_Failed; *out = n; return kVCOMError_NoError; }
		virtual Uint32 VCOM_CALLTYPE AddRef() { return 1; }
		virtual Uint32 VCOM_CALLTYPE Release() { return 1; }
		virtual VCOMError VCOM_CALLTYPE IsEmpty(bool& o) { o = true; return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE GetNodeName(TXString& o) { o = name; return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE SetNodeName(const TXString& n) { name = n; return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE GetNodeValue(TXString& o) { if (hasValue) o = value; else o = TXString(); return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE SetNodeValue(const TXString& v) { value = v; hasValue = true; return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE DeleteNode() { return kVCOMError_NotInitialized; }
		RAttr* attr(const TXString& n) { for (RAttr* a = attrs; a; a = a->next) if (vf_text_same(&a->name, &n)) return a; return nullptr; }
		virtual VCOMError VCOM_CALLTYPE GetNodeAttributeValue(const TXString& n, TXString& o) { RAttr* a = attr(n); if (!a) return kVCOMError_NotInitialized; o = a->value; return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE SetNodeAttributeValue(const TXString& n, const TXString& v) { RAttr* a = attr(n); if (a) a->value = v; else attrs = new RAttr{ n, v, attrs }; return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE DeleteNodeAttribute(const TXString&) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE GetNodeCDATA(TXString&) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE GetNodeCDATA(void*, size_t&) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE SetNodeCDATA(const TXString&) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE SetNodeCDATA(const void* const, size_t) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE DeleteNodeCDATA() { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE CreateChildNode(const TXString& n, IXMLFileNode** out) { RNode* c = new RNode(n, this); c->prev = last; if (last) last->next = c; else first = c; last = c; ++count; return give(c, out); }
		virtual VCOMError VCOM_CALLTYPE GetChildNode(const TXString& n, IXMLFileNode** out) { for (RNode* c = first; c; c = c->next) if (vf_text_same(&c->name, &n)) return give(c, out); return kVCOMError_Failed; }
		virtual VCOMError VCOM_CALLTYPE GetChildNode(const TXString&, size_t, IXMLFileNode**) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE GetChildNode(const TXString&, const TXString&, const TXString&, IXMLFileNode**) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE GetParentNode(IXMLFileNode** out) { return give(parent, out); }
		virtual VCOMError VCOM_CALLTYPE GetFirstChildNode(IXMLFileNode** out) { return give(first, out); }
		virtual VCOMError VCOM_CALLTYPE GetLastChildNode(IXMLFileNode** out) { return give(first, out); }
		virtual VCOMError VCOM_CALLTYPE GetNextSiblingNode(IXMLFileNode** out) { return give(next, out); }
		virtual VCOMError VCOM_CALLTYPE GetPrevSiblingNode(IXMLFileNode** out) { return give(prev, out); }
		virtual VCOMError VCOM_CALLTYPE FindChildNode(const TXString& n, IXMLFileNode** out) { return GetChildNode(n, out); }
		virtual VCOMError VCOM_CALLTYPE GetLastError(EXMLFileError&) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE GetNodeAttributes(TXStringArray& o) { for (RAttr* a = attrs; a; a = a->next) o.push_back(a->name); return kVCOMError_NoError; }
		virtual VCOMError VCOM_CALLTYPE CreateChildNodeBeforeIndex(const TXString&, size_t, IXMLFileNode**) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE AddCopyOfExistingNodeBeforeIndex(const IXMLFileNode*, size_t, IXMLFileNode**) { return kVCOMError_NotInitialized; }
		virtual VCOMError VCOM_CALLTYPE GetLineNumber(size_t& l, size_t& c) { l = c = 0; return kVCOMError_NoError; }
	};
	// a container with no children
	inline RNode* newRoot() { return new RNode(TXString("Root"), nullptr); }
}
