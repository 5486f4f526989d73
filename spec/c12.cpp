#include "mvrxchange/mvrxchange_prefix.h"
#include "mvrxchange/mvrxchange_dynamic_buffer.h"
#include "vf.h"
using namespace MVRxchangeNetwork;
typedef MVRxchangeDynamicBuffer Buf;
static const size_t LIM = 1ull << 40;

// an arbitrary buffer that satisfies the class invariant
static void any(Buf& b)
{
	if (vf_bool("filled")) {
		size_t a = vf_range("allocated", 1, LIM), n = vf_range("length", 0, LIM);
		vf_assume(n <= a);
		b.fBuffer = (char*)vf_bytes("data", a); b.fBufferSize = n; b.fAllocatedMemory = a;
	}
}
// the class invariant, with the storage really being there
static void inv(const Buf& b)
{
	vf_assert(b.fBufferSize <= b.fAllocatedMemory, "the length never exceeds the allocated storage");
	vf_assert((b.fBuffer != nullptr) || b.fAllocatedMemory == 0, "no storage is claimed without a block");
	if (b.fAllocatedMemory > 0) { volatile char c = b.fBuffer[b.fAllocatedMemory - 1]; (void)c; c = b.fBuffer[0]; }
}
struct Old { size_t n, i; char c; bool has; };
static Old snap(const Buf& b) { Old o; o.n = b.Length(); o.i = vf_u64("i"); o.has = o.i < o.n; o.c = o.has ? b.GetData()[o.i] : 0; return o; }
static void kept(const Buf& b, const Old& o) { if (o.has) { vf_assert(b.Length() > o.i, "no byte is lost"); vf_assert(b.GetData()[o.i] == o.c, "bytes added before are still there in order"); } }

extern "C" void C12_construct()
{
	Buf b; vf_cover("c");
	inv(b);
	vf_assert(b.Length() == 0, "a new buffer is empty");
}
extern "C" void C12_append()
{
	Buf b; any(b);
	Old o = snap(b);
	size_t m = vf_range("size", 0, LIM);
	char* src = (char*)vf_bytes("src", m);
	size_t j = vf_u64("j"); vf_assume(j < m || m == 0);
	vf_cover("c");
	b.Append(m, src);
	inv(b);
	vf_assert(b.Length() == o.n + m, "append adds the given number of bytes");
	kept(b, o);
	if (m > 0) vf_assert(b.GetData()[o.n + j] == src[j], "appended bytes follow in order");
}
extern "C" void C12_growto()
{
	Buf b; any(b);
	Old o = snap(b);
	size_t m = vf_range("size", 0, LIM);
	vf_cover("c");
	b.GrowTo(m);
	inv(b);
	vf_assert(b.fAllocatedMemory >= m, "storage for the requested size");
	vf_assert(b.Length() == o.n || b.Length() == m, "the length is unchanged or the requested one");
	vf_assert(b.Length() >= o.n, "growing never shortens");
	kept(b, o);
}
extern "C" void C12_reserve()
{
	Buf b; any(b);
	Old o = snap(b);
	size_t m = vf_range("size", 0, LIM);
	vf_cover("c");
	b.Reserve(m);
	inv(b);
	vf_assert(b.fAllocatedMemory >= m, "storage for the requested size");
	vf_assert(b.Length() == o.n, "reserving does not change the length");
	kept(b, o);
}
extern "C" void C12_clear()
{
	Buf b; any(b);
	vf_cover("c");
	b.DisposeBuffer();
	inv(b);
	vf_assert(b.Length() == 0, "a cleared buffer is empty");
}
extern "C" void C12_frombuffer()
{
	Buf b; any(b);
	size_t m = vf_range("size", 0, LIM);
	char* src = (char*)vf_bytes("src", m);
	size_t j = vf_u64("j"); vf_assume(j < m || m == 0);
	vf_cover("c");
	b.FromBuffer(src, m);
	inv(b);
	vf_assert(b.Length() == m, "the buffer holds exactly the given number of bytes");
	if (m > 0) vf_assert(b.GetData()[j] == src[j], "the buffer holds the given bytes");
}
extern "C" void C12_frombuffer_buffer()
{
	Buf a, b; any(a); any(b);
	Old o = snap(a);
	vf_cover("c");
	b.FromBuffer(a);
	inv(a); inv(b);
	vf_assert(b.Length() == o.n && a.Length() == o.n, "same length as the source");
	kept(b, o); kept(a, o);
}
// copies: whatever is done to one of them, the other keeps its contents and nothing is freed twice
static void mutate(Buf& b)
{
	size_t m = vf_range("size", 0, LIM);
	switch (vf_choice("op", 0, 4)) {
		case 0: { char* s = (char*)vf_bytes("src", m); b.Append(m, s); break; }
		case 1: b.GrowTo(m); break;
		case 2: b.Reserve(m); break;
		case 3: { char* s = (char*)vf_bytes("src", m); b.FromBuffer(s, m); break; }
		case 4: b.DisposeBuffer(); break;
	}
}
extern "C" void C12_copy()
{
	Buf a; any(a);
	Old o = snap(a);
	{
		Buf b(a);
		vf_cover("c");
		inv(b); inv(a);
		vf_assert(b.Length() == o.n, "a copy has the same length");
		kept(b, o);
		if (vf_bool("which")) { mutate(b); inv(b); inv(a); vf_assert(a.Length() == o.n, "changing a copy leaves the original alone"); kept(a, o); }
		else { mutate(a); inv(a); inv(b); vf_assert(b.Length() == o.n, "changing the original leaves a copy alone"); kept(b, o); Old p = snap(a); a.DisposeBuffer(); kept(b, o); return; }
	}
	inv(a);
	vf_assert(a.Length() == o.n, "destroying a copy leaves the original alone");
	kept(a, o);
}
extern "C" void C12_assign()
{
	Buf a, c; any(a); any(c);
	Old o = snap(a);
	{
		Buf b(c);
		Old p = snap(c);
		b = a;
		vf_cover("c");
		inv(a); inv(b); inv(c);
		vf_assert(b.Length() == o.n && a.Length() == o.n, "assignment gives the same length");
		kept(b, o); kept(a, o); 
		vf_assert(c.Length() == p.n, "assignment leaves other copies of the old contents alone"); kept(c, p);
		mutate(b);
		inv(a); inv(b); kept(a, o);
	}
	inv(a); kept(a, o);
}
extern "C" void C12_selfassign()
{
	Buf a; any(a);
	Old o = snap(a);
	Buf& r = a;
	a = r;
	vf_cover("c");
	inv(a);
	vf_assert(a.Length() == o.n, "self assignment keeps the contents"); kept(a, o);
}
// histories of two operations from an arbitrary state
extern "C" void C12_history()
{
	Buf b;
	size_t n = vf_range("n", 1, LIM), m = vf_range("m", 1, LIM);
	char* s = (char*)vf_bytes("s", n); char* t = (char*)vf_bytes("t", m);
	size_t i = vf_u64("i"), j = vf_u64("j"); vf_assume(i < n && j < m);
	b.Append(n, s); b.Append(m, t);
	vf_cover("c");
	vf_assert(b.Length() == n + m, "length is the sum of what was added");
	vf_assert(b.GetData()[i] == s[i] && b.GetData()[n + j] == t[j], "contents in order");
}
