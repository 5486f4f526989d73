#include "Prefix/StdAfx.h"
#include "Wrapper/ZIPFileImpl.h"
#include "vf.h"
using namespace VectorworksMVR;
using namespace VectorworksMVR::Filing;
typedef CZIPFileIOBufferImpl IO;
typedef ZIPFileBuffer Zip;
static const size_t LIM = 1ull << 40;

// ---- the buffer that exchanges file content
static size_t any(IO& b)
{
	if (!vf_bool("filled")) return 0;
	size_t n = vf_range("held", 0, LIM);
	b.fpZIPDataBuffer = (Uint8*)vf_bytes("data", n + 1); b.fZIPDataBufferSize = n;
	return n;
}
static size_t size_of(IO& b) { size_t n = ~0ull; VCOMError e = b.GetDataSize(n); vf_assert(e == kVCOMError_NoError, "the size can be asked for"); return n; }
// the bytes the buffer hands out
static void holds(IO& b, size_t n, size_t i, Uint8 v, const char* label)
{
	vf_assert(b.fZIPDataBufferSize == n, "the buffer holds the expected number of bytes");
	if (i < n) vf_assert(b.fpZIPDataBuffer[i] == v, label);
}
extern "C" void C14_construct()
{
	IO b; vf_cover("c");
	vf_assert(size_of(b) == 0, "a new buffer is empty");
	char c[4] = { 1, 2, 3, 4 };
	b.CopyDataInto(c, 4);
	vf_assert(c[0] == 1 && c[3] == 4, "an empty buffer copies nothing");
}
extern "C" void C14_set()
{
	IO b; any(b);
	size_t m = vf_range("size", 0, LIM), i = vf_u64("i");
	Uint8* s = (Uint8*)vf_bytes("src", m);
	Uint8 v = i < m ? s[i] : 0;
	vf_cover("c");
	VCOMError e = b.SetData(s, m);
	vf_assert(e == kVCOMError_NoError, "data can be set");
	vf_assert(size_of(b) == m, "the buffer has the size of the data set");
	holds(b, m, i, v, "the buffer holds the bytes set");
	if (i < m) { vf_assert(s[i] == v, "the source is left alone"); s[i] ^= 1; holds(b, m, i, v, "the buffer keeps its own copy"); }
}
extern "C" void C14_append()
{
	IO b; size_t n = any(b);
	size_t m = vf_range("size", 0, LIM), i = vf_u64("i"), j = vf_u64("j");
	Uint8* s = (Uint8*)vf_bytes("src", m);
	Uint8 v = i < n ? b.fpZIPDataBuffer[i] : 0, w = j < m ? s[j] : 0;
	vf_cover("c");
	VCOMError e = b.AppendData(s, m);
	vf_assert(e == kVCOMError_NoError, "data can be appended");
	vf_assert(size_of(b) == n + m, "appending adds the given number of bytes");
	if (i < n) holds(b, n + m, i, v, "the bytes held before are still there in order");
	if (j < m) holds(b, n + m, n + j, w, "the appended bytes follow in order");
}
extern "C" void C14_copy_out()
{
	IO b; size_t n = any(b);
	size_t m = vf_range("size", 0, LIM), i = vf_u64("i");
	Uint8* d = (Uint8*)vf_bytes("dst", m);
	Uint8 v = i < n ? b.fpZIPDataBuffer[i] : 0, w = i < m ? d[i] : 0;
	vf_cover("c");
	b.CopyDataInto(d, m);
	if (i < m) vf_assert(d[i] == (i < n ? v : w), "the destination gets the bytes that fit and nothing else");
	holds(b, n, i, v, "copying out leaves the buffer alone");
}
extern "C" void C14_set_then_copy()
{
	IO b; any(b);
	size_t m = vf_range("size", 0, LIM), k = vf_range("more", 0, LIM), i = vf_u64("i");
	Uint8* s = (Uint8*)vf_bytes("src", m); Uint8* t = (Uint8*)vf_bytes("src2", k);
	b.SetData(s, m); b.AppendData(t, k);
	size_t n = size_of(b);
	vf_cover("c");
	vf_assert(n == m + k, "size of what was set and appended");
	Uint8* d = new Uint8[n];
	VCOMError e = b.CopyDataInto(d, n);
	vf_assert(e == kVCOMError_NoError, "the content can be copied out");
	if (i < m) vf_assert(d[i] == s[i], "first the bytes set");
	if (i < k) vf_assert(d[m + i] == t[i], "then the bytes appended");
	delete[] d;
}
// ---- the in-memory archive
static size_t any(Zip& z)
{
	if (!vf_bool("zfilled")) return 0;
	size_t a = vf_range("allocated", 0, LIM), n = vf_range("zheld", 0, LIM);
	vf_assume(n <= a);
	z.fpZIPFileBuffer = (Uint8*)vf_bytes("zdata", a); z.fZIPFileBufferSize = n; z.fAllocatedMemorySize = a;
	return n;
}
static void inv(Zip& z)
{
	vf_assert(z.fZIPFileBufferSize <= z.fAllocatedMemorySize, "the archive fits its storage");
	vf_assert(z.fpZIPFileBuffer != nullptr || z.fAllocatedMemorySize == 0, "no storage is claimed without a block");
	if (z.fAllocatedMemorySize > 0) { volatile Uint8 c = z.fpZIPFileBuffer[z.fAllocatedMemorySize - 1]; (void)c; }
}
static Uint64 zsize(Zip& z) { Uint64 n = ~0ull; z.GetFileSize(n); return n; }
extern "C" void C14_archive_open()
{
	Zip z;
	size_t n = vf_range("size", 0, LIM), i = vf_u64("i");
	char* s = (char*)vf_bytes("src", n);
	vf_cover("c");
	z.Open(s, n);
	inv(z);
	vf_assert(zsize(z) == n, "the archive has the size of the memory it was opened from");
	if (i < n) vf_assert(z.fpZIPFileBuffer[i] == (Uint8)s[i], "the archive holds the bytes it was opened from");
	vf_assert(n == 0 || (char*)z.fpZIPFileBuffer != s, "the archive keeps its own copy");
}
extern "C" void C14_archive_read()
{
	Zip z; size_t n = any(z);
	Uint64 pos = vf_u64("pos"), want = vf_range("want", 0, LIM), got = want, i = vf_u64("i");
	Uint8* d = (Uint8*)vf_bytes("dst", want);
	Uint8 w = i < want ? d[i] : 0;
	vf_cover("c");
	VCOMError e = z.Read(pos, got, d);
	vf_assert(got <= want, "never more bytes than asked for");
	vf_assert(pos < n ? got <= n - pos : got == 0, "never bytes from outside the archive");
	if (e == kVCOMError_NoError && pos <= n && want <= n - pos) vf_assert(got == want, "bytes inside the archive are all returned");
	if (i < got) vf_assert(d[i] == z.fpZIPFileBuffer[pos + i], "the bytes at the position are returned");
	if (i >= got && i < want) vf_assert(d[i] == w, "nothing else is written");
	vf_assert(zsize(z) == n, "reading leaves the archive alone");
}
extern "C" void C14_archive_write()
{
	Zip z; size_t n = any(z);
	size_t m = vf_range("size", 0, LIM), i = vf_u64("i"), j = vf_u64("j");
	Uint8* s = (Uint8*)vf_bytes("src", m);
	Uint8 v = i < n ? z.fpZIPFileBuffer[i] : 0, w = j < m ? s[j] : 0;
	vf_cover("c");
	z.Write(n, m, s);
	inv(z);
	vf_assert(zsize(z) == n + m, "writing at the end adds the given number of bytes");
	if (i < n) vf_assert(z.fpZIPFileBuffer[i] == v, "the bytes written before are still there");
	if (j < m) vf_assert(z.fpZIPFileBuffer[n + j] == w, "the bytes written follow in order");
}
extern "C" void C14_archive_clean()
{
	Zip z; any(z);
	vf_cover("c");
	z.CleanBuffer();
	inv(z);
	vf_assert(zsize(z) == 0, "a cleaned archive is empty");
	Uint64 got = 1; Uint8 d[1] = { 7 };
	z.Read(0, got, d);
	vf_assert(got == 0 && d[0] == 7, "nothing can be read from a cleaned archive");
}
extern "C" void C14_archive_copy()
{
	Zip z; size_t n = any(z);
	size_t i = vf_u64("i");
	char* p = nullptr; size_t m = ~0ull;
	vf_cover("c");
	z.Copy(p, m);
	vf_assert(m == n, "the copy has the size of the archive");
	if (i < n) vf_assert((Uint8)p[i] == z.fpZIPFileBuffer[i], "the copy has the bytes of the archive");
	vf_assert((Uint8*)p != z.fpZIPFileBuffer, "the copy is separate memory");
	delete[] p;
}
extern "C" void C14_archive_history()
{
	Zip z;
	size_t n = vf_range("n", 0, LIM), m = vf_range("m", 0, LIM), i = vf_u64("i");
	Uint8* s = (Uint8*)vf_bytes("s", n); Uint8* t = (Uint8*)vf_bytes("t", m);
	z.Write(0, n, s); z.Write(n, m, t);
	vf_cover("c");
	vf_assert(zsize(z) == n + m, "size of what was written");
	Uint64 got = 1; Uint8 b = 0;
	if (i < n) { z.Read(i, got, &b); vf_assert(got == 1 && b == s[i], "reads back the first bytes"); }
	if (i < m) { got = 1; z.Read(n + i, got, &b); vf_assert(got == 1 && b == t[i], "reads back the later bytes"); }
}
