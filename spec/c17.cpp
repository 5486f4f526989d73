#include "Prefix/StdAfx.h"
#include "vf.h"
#include <new>
#include "Implementation/CUtility.h"
#include "Wrapper/ZIPFileImpl.h"
#include "rapidxmlsupport/XMLFileImpl.h"
#include "rapidxmlsupport/XMLFileNodeImpl.h"
using namespace VectorworksMVR;

static const VWIID kSome = { 1, 2, 3, { 4, 5, 6, 7, 8, 9, 10, 11 } };

// Two concrete objects over the library's two implementations of counting.  Destruction is recorded
// in a ghost counter; a use after it fails as an access to released memory.
static int sDestroyed;
struct Late : public VCOMImpl<IVWUnknown>
{
	virtual ~Late() { ++sDestroyed; }
	uint32_t& n() { return fRefCnt; }
};
struct Early : public VCOMImmediateImpl<IVWUnknown>
{
	virtual ~Early() { ++sDestroyed; }
	uint32_t& n() { return fRefCnt; }
};
static const uint32_t MANY = 0x7fffffff;
// an object that `held` smart pointers of the harness and any number of others hold
template<class O> static O* any(const char* name, uint32_t held, uint32_t& others)
{
	O* o = new O();
	vf_assert(o->n() == 0, "a new object is held by nobody");
	others = (uint32_t)vf_range(name, 0, MANY);
	o->n() = others;
	(void)held;
	return o;
}
// afterwards: k smart pointers of the harness hold it
template<class O> static void held(O* o, uint32_t others, uint32_t k) { vf_assert(sDestroyed == 0, "an object that is held is not destroyed"); vf_assert(o->n() == others + k, "the count is the number of holders"); }
// afterwards: no smart pointer of the harness holds it any more
template<class O> static void left(O* o, uint32_t others, int before)
{
	if (others > 0) { vf_assert(sDestroyed == before, "an object that is held is not destroyed"); vf_assert(o->n() == others, "the count is the number of holders"); }
	else vf_assert(sDestroyed == before + 1, "the object is destroyed once, with its last holder");
}

template<class O> static void lifetime()
{
	typedef VCOMPtr<O> P;
	uint32_t k; O* o = any<O>("others", 1, k);
	{
		P a(o); vf_cover("c");
		held(o, k, 1);
		vf_assert((O*)a == o && a.operator->() == o, "the pointer refers to its object");
		{
			P b(a); held(o, k, 2);
			vf_assert((O*)b == o, "a copy refers to the same object");
			P c; vf_assert((O*)c == nullptr, "a new pointer holds nothing");
			c = b; held(o, k, 3);
			c = c; held(o, k, 3);
			vf_assert((O*)c == o, "self-assignment keeps the object");
			c = o; held(o, k, 3);
			c = (O*)nullptr; held(o, k, 2);
			vf_assert((O*)c == nullptr, "a pointer assigned null holds nothing");
			c = a; held(o, k, 3);
			c = P(); held(o, k, 2);
		}
		held(o, k, 1);
	}
	left(o, k, 0);
}
extern "C" void C17_lifetime_late() { lifetime<Late>(); }
extern "C" void C17_lifetime_immediate() { lifetime<Early>(); }

template<class O> static void exchange()
{
	typedef VCOMPtr<O> P;
	uint32_t k, m; O* o = any<O>("others", 1, k); O* q = any<O>("others2", 1, m);
	int mode = (int)vf_choice("mode", 0, 3);
	{
		P a(o), b(q); vf_cover("c");
		if (mode == 0) a = b;
		else if (mode == 1) a = q;
		else if (mode == 2) { P t(b); a = t; }
		else { P t(q); a = t; t = (O*)nullptr; }
		vf_assert((O*)a == q && (O*)b == q, "assignment refers to the new object");
		vf_assert(q->n() == m + 2, "the new object is held by both pointers");
		left(o, k, 0);
	}
	vf_assert((k == 0) + (m == 0) == sDestroyed, "each object is destroyed once, with its last holder");
	if (m > 0) vf_assert(q->n() == m, "the count is the number of holders");
}
extern "C" void C17_exchange_late() { exchange<Late>(); }
extern "C" void C17_exchange_immediate() { exchange<Early>(); }

template<class O> static void selfAssign()
{
	typedef VCOMPtr<O> P;
	uint32_t k; O* o = any<O>("others", 1, k);
	P a(o); vf_cover("c");
	int mode = (int)vf_choice("mode", 0, 2);
	if (mode == 0) { const P& r = a; a = r; }
	else if (mode == 1) a = (O*)a;
	else { P b(a); a = b; b = a; }
	held(o, k, 1);
	vf_assert((O*)a == o, "self-assignment keeps the object");
	uint32_t left1 = a.Release();
	vf_assert(left1 == k, "release reports the holders that remain");
	vf_assert((O*)a == nullptr, "a released pointer holds nothing");
	left(o, k, 0);
	uint32_t left2 = a.Release();
	vf_assert(left2 == 0, "releasing an empty pointer changes nothing");
	left(o, k, 0);
	a = (O*)nullptr; a.AddRef();
	left(o, k, 0);
}
extern "C" void C17_self_late() { selfAssign<Late>(); }
extern "C" void C17_self_immediate() { selfAssign<Early>(); }

template<class O> static void explicitRef()
{
	uint32_t k; O* o = any<O>("others", 1, k);
	vf_cover("c");
	vf_assert(o->AddRef() == k + 1, "AddRef adds one holder");
	vf_assert(o->n() == k + 1, "AddRef adds one holder");
	vf_assert(o->Release() == k, "Release removes one holder");
	left(o, k, 0);
}
extern "C" void C17_count_late() { explicitRef<Late>(); }
extern "C" void C17_count_immediate() { explicitRef<Early>(); }

// pointers that ask the library for an object: it arrives with one holder, the pointer itself
extern "C" void C17_query()
{
	typedef CUtilityImpl O; typedef VCOMPtr<O> P;
	O* o = new O(); uint32_t k = (uint32_t)vf_range("others", 0, MANY); o->fRefCnt = k;
	bool found = vf_bool("found");
	O* q = nullptr;
	{
		P a(o); vf_cover("c");
		vf_assert(o->fRefCnt == k + 1, "the pointer is a holder");
		VCOMError e = a.Query(found ? IID_IUtility : kSome);
		vf_assert((e == kVCOMError_NoError) == found, "the query succeeds exactly when there is such an object");
		q = a;
		vf_assert((q != nullptr) == found, "the pointer refers to the object handed out");
		vf_assert(vf_live(o) == (k > 0), "the old object is destroyed exactly when this was its last holder");
		if (k > 0) vf_assert(o->fRefCnt == k, "the count is the number of holders");
		if (found) { vf_assert(q != o || k == 0, "a new object is handed out"); vf_assert(q->fRefCnt == 1, "the object handed out is held by the pointer"); }
		P b(found ? IID_IUtility : kSome);
		vf_assert(((O*)b != nullptr) == found, "the pointer refers to the object handed out");
		if (found) { vf_assert(((O*)b)->fRefCnt == 1, "the object handed out is held by the pointer"); vf_assert(vf_live(q), "an object that is held is not destroyed"); b = a; vf_assert(q->fRefCnt == 2, "both pointers hold it"); }
	}
	if (found) vf_assert(!vf_live(q), "the object is destroyed with its last holder");
}
// every object the library hands out arrives with exactly one holder and goes with it
extern "C" void C17_factory()
{
	VWIID iid; vf_havoc("iid", &iid, sizeof iid);
	vf_assume(!(iid == IID_IMVRxchangeService));
	vf_cover("c");
	IVWUnknown* p = nullptr;
	VCOMError e = VWQueryInterface(iid, &p);
	if (e != kVCOMError_NoError) { vf_assert(p == nullptr, "a failing query hands out nothing"); return; }
	vf_assert(p != nullptr, "a successful query hands out an object");
	vf_assert(p->AddRef() == 2, "the object handed out has one holder");
	vf_assert(p->Release() == 1, "the object handed out has one holder");
	vf_assert(vf_live(p), "an object that is held is not destroyed");
	vf_assert(p->Release() == 0, "the last holder lets it go");
	vf_assert(!vf_live(p), "the object is destroyed with its last holder");
}
// the XML objects count for themselves
template<class T> static void xmlObject()
{
	typedef VCOMPtr<T> P;
	uint32_t n = (uint32_t)vf_range("others", 0, MANY - 4);
	T* o = new T();
	vf_cover("c");
	vf_assert(o->AddRef() == 1, "the first holder is counted as one");
	o->fRefCnt += n;
	{
		P a; *(&a) = o;
		P b(a); vf_assert(o->fRefCnt == n + 2, "the count is the number of holders");
		b = b; vf_assert(o->fRefCnt == n + 2, "the count is the number of holders");
		b = (T*)nullptr; vf_assert(o->fRefCnt == n + 1, "the count is the number of holders");
	}
	if (n > 0) { vf_assert(vf_live(o), "an object that is held is not destroyed"); vf_assert(o->fRefCnt == n, "the count is the number of holders"); }
	else vf_assert(!vf_live(o), "the object is destroyed once, with its last holder");
}
extern "C" void C17_xml_node() { xmlObject<XML::CXMLFileNodeImpl>(); }
extern "C" void C17_xml_file() { xmlObject<XML::CXMLFileImpl>(); }
