#include "Prefix/StdAfx.h"
#include "Wrapper/ZIPFileImpl.h"
#include "vf_txt.h"
#include <new>
using namespace VectorworksMVR;
using namespace VectorworksMVR::Filing;
typedef CZIPFileImpl Zip;
static const size_t LIM = 1ull << 40;

// an archive in memory: nothing, or any bytes in a block of any larger size
static size_t any(Zip& z, size_t lim, bool spare)
{
	z.fpOpenedFile = new ZIPFileBuffer();
	if (!vf_bool("filled")) return 0;
	size_t n = vf_range("held", 0, lim), a = n;
	if (spare) { a = vf_range("allocated", 0, lim); vf_assume(n <= a); }
	z.fpOpenedFile->fpZIPFileBuffer = (Uint8*)vf_bytes("data", a); z.fpOpenedFile->fZIPFileBufferSize = n; z.fpOpenedFile->fAllocatedMemorySize = a;
	return n;
}
// ... with room to spare: by the contract of ZIPFileBuffer::Write (C14, and C15_long, C15_short, C15_raw for
// every size of the block) the bytes written do not depend on it
static size_t roomy(Zip& z)
{
	z.fpOpenedFile = new ZIPFileBuffer();
	size_t n = vf_range("held", 0, LIM), a = n + (1 << 19);
	z.fpOpenedFile->fpZIPFileBuffer = (Uint8*)vf_bytes("data", a); z.fpOpenedFile->fZIPFileBufferSize = n; z.fpOpenedFile->fAllocatedMemorySize = a;
	return n;
}
static Uint8 byte(Zip& z, size_t i) { return z.fpOpenedFile->fpZIPFileBuffer[i]; }
static size_t size_of(Zip& z) { return z.fpOpenedFile->fZIPFileBufferSize; }
static void is16(Zip& z, size_t at, Uint16 v, const char* label) { vf_assert(byte(z, at) == (v & 0xff) && byte(z, at + 1) == (v >> 8), label); }
static void is32(Zip& z, size_t at, Uint32 v, const char* label)
{
	vf_assert(byte(z, at) == (v & 0xff) && byte(z, at + 1) == ((v >> 8) & 0xff) && byte(z, at + 2) == ((v >> 16) & 0xff) && byte(z, at + 3) == (v >> 24), label);
}
struct Kept { size_t i, n; Uint8 v; };
static Kept keep(Zip& z, size_t n) { Kept k; k.i = vf_u64("i"); k.n = n; k.v = k.i < n ? byte(z, k.i) : 0; return k; }
static void kept(Zip& z, const Kept& k) { if (k.i < k.n) vf_assert(byte(z, k.i) == k.v, "the bytes written before are still there"); }

// ---- integers
extern "C" void C15_long()
{
	Zip z; size_t n = any(z, 1u << 31, true); z.fbOpenedWrite = true;
	Kept k = keep(z, n); Uint32 v = vf_u32("v"); Uint64 pos = n;
	vf_cover("c");
	z.WriteLong(v, pos);
	vf_assert(size_of(z) == n + 4 && pos == n + 4, "four bytes are appended");
	is32(z, n, v, "a 32 bit number is written in little-endian order");
	kept(z, k);
	Uint32 at = (Uint32)n, r = ~v;
	z.ReadLong(r, at);
	vf_assert(r == v, "a 32 bit number is read back unchanged");
	vf_assert(at == n + 4, "reading continues after the number");
}
extern "C" void C15_short()
{
	Zip z; size_t n = any(z, 1u << 31, true); z.fbOpenedWrite = true;
	Kept k = keep(z, n); Uint16 v = vf_u16("v"); Uint64 pos = n;
	vf_cover("c");
	z.WriteShort(v, pos);
	vf_assert(size_of(z) == n + 2 && pos == n + 2, "two bytes are appended");
	is16(z, n, v, "a 16 bit number is written in little-endian order");
	kept(z, k);
	Uint32 at = (Uint32)n; Uint16 r = ~v;
	z.ReadShort(r, at);
	vf_assert(r == v, "a 16 bit number is read back unchanged");
	vf_assert(at == n + 2, "reading continues after the number");
}
extern "C" void C15_raw()
{
	Zip z; size_t n = any(z, LIM, true); z.fbOpenedWrite = true;
	size_t m = vf_range("size", 0, LIM), j = vf_u64("j");
	Uint8* s = (Uint8*)vf_bytes("src", m);
	Kept k = keep(z, n); Uint64 pos = n;
	vf_cover("c");
	z.WriteToFile(s, pos, m);
	vf_assert(size_of(z) == n + m && pos == n + m, "the bytes are appended");
	if (j < m) vf_assert(byte(z, n + j) == s[j], "the bytes are appended in order");
	kept(z, k);
}
extern "C" void C15_read_only()
{
	Zip z; size_t n = any(z, LIM, true); z.fbOpenedWrite = false;
	Uint64 pos = vf_u64("pos"), p0 = pos; Uint8 b[4] = { 1, 2, 3, 4 };
	vf_cover("c");
	z.WriteLong(vf_u32("l"), pos); z.WriteShort(vf_u16("s"), pos); z.WriteToFile(b, pos, 4);
	vf_assert(size_of(z) == n && pos == p0, "an archive opened for reading is not written to");
}
extern "C" void C15_read_number_anywhere()
{
	Zip z; size_t n = any(z, LIM, false);
	Uint32 at = vf_u32("at"), b0 = at, v = 0x12345678; size_t a0 = at; Uint16 w = 0x1234;
	vf_cover("c");
	z.ReadLong(v, at); z.ReadShort(w, b0);
	if ((Uint64)a0 + 4 <= n) {
		vf_assert(at == (Uint32)(a0 + 4) && v == (byte(z, a0) | byte(z, a0 + 1) << 8 | byte(z, a0 + 2) << 16 | (Uint32)byte(z, a0 + 3) << 24), "a 32 bit number is the four bytes at its position");
	} else vf_assert(at == a0 && v == 0, "a 32 bit number that is not completely in the archive reads as zero");
	if ((Uint64)a0 + 2 <= n) {
		vf_assert(b0 == (Uint32)(a0 + 2) && w == (byte(z, a0) | byte(z, a0 + 1) << 8), "a 16 bit number is the two bytes at its position");
	} else vf_assert(b0 == a0 && w == 0, "a 16 bit number that is not completely in the archive reads as zero");
}
// ---- records
static void fill(SZIPFileInfo& f)
{
	f.fFileName = vf_text("name"); f.fComment = vf_text("comment");
	f.dwVersion = vf_u16("version"); f.dwVersionNeeded = f.dwVersion; f.dwFlags = vf_u16("flags"); f.dwCompressionMethod = vf_u16("method");
	f.dwDosTime = vf_u16("time"); f.dwDosDate = vf_u16("date"); f.dwCRC = vf_u32("crc"); f.dwCompressedSize = vf_u32("csize"); f.dwUncompressedSize = vf_u32("usize");
	f.dwInternalAttrib = vf_u16("iattr"); f.dwExternalAttrib = vf_u32("eattr"); f.dwOffsetOfLocalHeader = vf_u32("offset"); f.bFolder = vf_bool("folder");
}
static size_t len(const TXString& s) { return s.GetEncodingLength(ETXEncoding::eUTF8); }
static void text_at(Zip& z, size_t at, const TXString& s, const char* what)
{
	size_t j = vf_u64(what);
	if (j < len(s)) vf_assert(byte(z, at + j) == (Uint8)((const char*)s)[j], what);
}
extern "C" void C15_local_header()
{
	Zip z; size_t n = roomy(z); z.fbOpenedWrite = true;
	SZIPFileInfo f; fill(f); size_t l = len(f.fFileName); vf_assume(l <= 0xffff);
	Kept k = keep(z, n); Uint64 pos = n;
	vf_cover("c");
	z.WriteLocalFileHeader(&f, pos);
	vf_assert(size_of(z) == n + 30 + l && pos == n + 30 + l, "a local header is 30 bytes and the name");
	is32(z, n, 0x04034b50, "local header signature");
	is16(z, n + 4, f.dwVersion, "version needed"); is16(z, n + 6, f.dwFlags, "flags"); is16(z, n + 8, f.dwCompressionMethod, "compression method");
	is16(z, n + 10, f.dwDosTime, "time"); is16(z, n + 12, f.dwDosDate, "date"); is32(z, n + 14, f.dwCRC, "checksum");
	is32(z, n + 18, f.dwCompressedSize, "compressed size"); is32(z, n + 22, f.dwUncompressedSize, "uncompressed size");
	is16(z, n + 26, (Uint16)l, "length of the name"); is16(z, n + 28, 0, "no extra field");
	text_at(z, n + 30, f.fFileName, "the name follows");
	kept(z, k);
}
static void central(Zip& z, size_t n, const SZIPFileInfo& f, Uint16 disk)
{
	size_t l = len(f.fFileName), c = len(f.fComment);
	is32(z, n, 0x02014b50, "central header signature");
	is16(z, n + 4, f.dwVersion, "version made by"); is16(z, n + 6, f.dwVersion, "version needed"); is16(z, n + 8, f.dwFlags, "flags"); is16(z, n + 10, f.dwCompressionMethod, "compression method");
	is16(z, n + 12, f.dwDosTime, "time"); is16(z, n + 14, f.dwDosDate, "date"); is32(z, n + 16, f.dwCRC, "checksum");
	is32(z, n + 20, f.dwCompressedSize, "compressed size"); is32(z, n + 24, f.dwUncompressedSize, "uncompressed size");
	is16(z, n + 28, (Uint16)l, "length of the name"); is16(z, n + 30, 0, "no extra field"); is16(z, n + 32, (Uint16)c, "length of the comment");
	is16(z, n + 34, disk, "disk number"); is16(z, n + 36, f.dwInternalAttrib, "internal attributes"); is32(z, n + 38, f.dwExternalAttrib, "external attributes");
	is32(z, n + 42, f.dwOffsetOfLocalHeader, "offset of the local header");
	text_at(z, n + 46, f.fFileName, "the name follows"); text_at(z, n + 46 + l, f.fComment, "the comment follows");
}
extern "C" void C15_central_header()
{
	Zip z; size_t n = roomy(z); z.fbOpenedWrite = true;
	SZIPFileInfo f; fill(f); size_t l = len(f.fFileName), c = len(f.fComment); vf_assume(l <= 0xffff && c <= 0xffff);
	SZIPArchiveInfo a; a.dwStartingDiskNumber = vf_u16("disk"); a.dwCommentLength = vf_u16("acl");
	Kept k = keep(z, n); Uint64 pos = n;
	vf_cover("c");
	z.WriteCentralDirectoryHeader(&a, &f, pos);
	vf_assert(size_of(z) == n + 46 + l + c && pos == n + 46 + l + c, "a central header is 46 bytes, the name and the comment");
	central(z, n, f, a.dwStartingDiskNumber);
	kept(z, k);
}
extern "C" void C15_central_headers()
{
	Zip z; size_t n = roomy(z); z.fbOpenedWrite = true;
	SZIPFileInfo f; fill(f); size_t l = len(f.fFileName), c = len(f.fComment); vf_assume(l <= 0xffff && c <= 0xffff);
	SZIPArchiveInfo a; a.dwStartingDiskNumber = vf_u16("disk"); a.dwCommentLength = vf_u16("acl");
	TZIPFileInfoArray v; v.push_back(f);
	Kept k = keep(z, n); Uint64 pos = n;
	vf_cover("c");
	z.WriteCentralDirectoryHeader(&a, &v, pos);
	vf_assert(size_of(z) == n + 46 + l + c && pos == n + 46 + l + c, "a central header is 46 bytes, the name and the comment");
	central(z, n, f, a.dwStartingDiskNumber);
	kept(z, k);
}
extern "C" void C15_end_header()
{
	Zip z; size_t n = roomy(z); z.fbOpenedWrite = true;
	SZIPArchiveInfo a; a.fFileComment = vf_text("comment"); size_t c = len(a.fFileComment); vf_assume(c <= 0xffff);
	a.dwNumberOfThisDisk = vf_u16("disk"); a.dwNumberOfCentralDirDisk = vf_u16("cdisk"); a.dwNumberOfEntriesOnThisDisk = vf_u16("here"); a.dwTotalNumberOfEntries = vf_u16("total");
	a.dwSizeOfCentralDir = vf_u32("size"); a.dwOffsetCentralDir = vf_u32("offset"); a.dwStartingDiskNumber = vf_u16("sdisk"); a.dwCommentLength = (Uint16)c;
	Kept k = keep(z, n); Uint64 pos = n;
	vf_cover("c");
	z.WriteEndHeader(&a, pos);
	vf_assert(size_of(z) == n + 22 + c && pos == n + 22 + c, "an end record is 22 bytes and the comment");
	is32(z, n, 0x06054b50, "end record signature");
	is16(z, n + 4, a.dwNumberOfThisDisk, "number of this disk"); is16(z, n + 6, a.dwNumberOfCentralDirDisk, "disk of the central directory");
	is16(z, n + 8, a.dwNumberOfEntriesOnThisDisk, "entries on this disk"); is16(z, n + 10, a.dwTotalNumberOfEntries, "entries");
	is32(z, n + 12, a.dwSizeOfCentralDir, "size of the central directory"); is32(z, n + 16, a.dwOffsetCentralDir, "offset of the central directory");
	is16(z, n + 20, (Uint16)c, "length of the comment");
	text_at(z, n + 22, a.fFileComment, "the comment follows");
	kept(z, k);
}
// ---- what was written is read back
extern "C" void C15_end_header_back()
{
	Zip z; z.fpOpenedFile = new ZIPFileBuffer(); z.fbOpenedWrite = true;
	SZIPArchiveInfo a, b;
	a.dwNumberOfThisDisk = vf_u16("disk"); a.dwNumberOfCentralDirDisk = vf_u16("cdisk"); a.dwNumberOfEntriesOnThisDisk = vf_u16("here"); a.dwTotalNumberOfEntries = vf_u16("total");
	a.dwSizeOfCentralDir = vf_u32("size"); a.dwOffsetCentralDir = vf_u32("offset"); a.dwStartingDiskNumber = a.dwNumberOfCentralDirDisk; a.dwCommentLength = 0;
	// no field looks like the signature of an end record
	Uint64 pos = 0;
	z.WriteLong(0, pos);
	z.WriteEndHeader(&a, pos);
	Uint32 end = 0, dir = 0;
	for (Uint32 i = 5; i + 4 <= 26; i++) { Uint32 at = i, v = 0; z.ReadLong(v, at); vf_assume(v != 0x06054b50); }
	vf_cover("c");
	z.GetEndOfCentralDirPosition(end); z.GetCentralDirPosition(dir);
	vf_assert(end == 4, "the end record is found"); vf_assert(dir == a.dwOffsetCentralDir, "the central directory is found where the end record says");
	z.GetZipArchiveInfo(&b);
	vf_assert(b.dwNumberOfThisDisk == a.dwNumberOfThisDisk && b.dwNumberOfCentralDirDisk == a.dwNumberOfCentralDirDisk && b.dwNumberOfEntriesOnThisDisk == a.dwNumberOfEntriesOnThisDisk
		&& b.dwTotalNumberOfEntries == a.dwTotalNumberOfEntries && b.dwSizeOfCentralDir == a.dwSizeOfCentralDir && b.dwOffsetCentralDir == a.dwOffsetCentralDir
		&& b.dwStartingDiskNumber == a.dwStartingDiskNumber && b.dwCommentLength == 0, "the end record is read back unchanged");
}
extern "C" void C15_entry_back()
{
	// one entry with a three letter name, its central record and the end record
	Zip z; z.fpOpenedFile = new ZIPFileBuffer(); z.fbOpenedWrite = true;
	SZIPFileInfo f, g; fill(f); f.fFileName = "a.b"; f.fComment = "";
	SZIPArchiveInfo a; a.dwStartingDiskNumber = 0; a.dwNumberOfThisDisk = 0; a.dwNumberOfCentralDirDisk = 0; a.dwNumberOfEntriesOnThisDisk = 1; a.dwTotalNumberOfEntries = 1; a.dwCommentLength = 0;
	a.dwOffsetCentralDir = 33; a.dwSizeOfCentralDir = 49;
	Uint64 pos = 0;
	z.WriteLocalFileHeader(&f, pos); z.WriteCentralDirectoryHeader(&a, &f, pos); z.WriteEndHeader(&a, pos);
	vf_cover("c");
	std::string next;
	vf_assert(z.GetNextFile(std::string(), next) == kVCOMError_NoError && next == "a.b", "the entry is listed with its name");
	std::string path("a.b");
	vf_assert(z.GetFileInfo(path, g) == kVCOMError_NoError, "the entry is found");
	vf_assert(g.dwVersion == f.dwVersion && g.dwFlags == f.dwFlags && g.dwCompressionMethod == f.dwCompressionMethod && g.dwDosTime == f.dwDosTime && g.dwDosDate == f.dwDosDate
		&& g.dwCRC == f.dwCRC && g.dwCompressedSize == f.dwCompressedSize && g.dwUncompressedSize == f.dwUncompressedSize && g.dwInternalAttrib == f.dwInternalAttrib
		&& g.dwExternalAttrib == f.dwExternalAttrib && g.dwOffsetOfLocalHeader == f.dwOffsetOfLocalHeader, "every field of the entry is read back unchanged");
	vf_assert(z.GetNextFile(path, next) != kVCOMError_NoError, "no entry follows the last one");
}
extern "C" void C15_extract_back()
{
	Zip z; z.fpOpenedFile = new ZIPFileBuffer(); z.fbOpenedWrite = true;
	bool cut = vf_bool("cut off");
	SZIPFileInfo f; fill(f); f.fFileName = "a.b"; f.fComment = ""; f.dwOffsetOfLocalHeader = 0; f.dwCompressionMethod = 0;
	if (cut) vf_assume(f.dwCompressedSize > 3 + 49 + 22); else f.dwCompressedSize = f.dwUncompressedSize = 3;
	SZIPArchiveInfo a; a.dwStartingDiskNumber = 0; a.dwNumberOfThisDisk = 0; a.dwNumberOfCentralDirDisk = 0; a.dwNumberOfEntriesOnThisDisk = 1; a.dwTotalNumberOfEntries = 1; a.dwCommentLength = 0;
	a.dwOffsetCentralDir = 36; a.dwSizeOfCentralDir = 49;
	Uint8 d[3] = { vf_u8("d0"), vf_u8("d1"), vf_u8("d2") };
	Uint64 pos = 0;
	z.WriteLocalFileHeader(&f, pos); z.WriteToFile(d, pos, 3); z.WriteCentralDirectoryHeader(&a, &f, pos); z.WriteEndHeader(&a, pos);
	std::string path("a.b"), other("a.c"); CZIPFileIOBufferImpl b, c;
	vf_cover("c");
	VCOMError e = z.GetFile(path, &b); size_t n = 0; b.GetDataSize(n);
	if (cut) vf_assert(e != kVCOMError_NoError && n == 0, "an entry that is cut off is not extracted");
	else vf_assert(e == kVCOMError_NoError && n == 3 && b.fpZIPDataBuffer[0] == d[0] && b.fpZIPDataBuffer[1] == d[1] && b.fpZIPDataBuffer[2] == d[2], "the bytes of the entry are extracted");
	e = z.GetFile(other, &c); c.GetDataSize(n);
	vf_assert(e != kVCOMError_NoError && n == 0, "an entry that is not in the archive is not extracted");
}
// ---- any archive: every access is inside the archive or the library's own buffers
// (the contracts of ReadLong, ReadShort and ReadFromFile used below are the ones proved above for any archive)
extern "C" void C15_read_raw()
{
	Zip z; size_t n = any(z, LIM, true);
	Uint32 at = vf_u32("at"); Uint64 want = vf_range("want", 0, LIM), got = want, i = vf_u64("i"); size_t a0 = at;
	Uint8* d = (Uint8*)vf_bytes("dst", want); Uint8 w = i < want ? d[i] : 0;
	vf_cover("c");
	z.ReadFromFile(at, got, d);
	vf_assert(got <= want && (a0 < n ? got <= n - a0 : got == 0), "never more bytes than asked for or than there are");
	vf_assert(at == (Uint32)(a0 + got), "reading continues after the bytes");
	if (i < got) vf_assert(d[i] == byte(z, a0 + i), "the bytes at the position are returned");
	if (i >= got && i < want) vf_assert(d[i] == w, "nothing else is written");
}
static void opened(Zip& z)
{
	if (vf_native() && vf_bool("crafted")) {
		// a well-formed archive whose entry announces arbitrary lengths (any archive is covered by the other branch; this one helps to find witnesses)
		z.fpOpenedFile = new ZIPFileBuffer(); z.fbOpenedWrite = true;
		SZIPFileInfo f; f.fFileName = "a.b"; f.fComment = ""; f.dwVersion = 20; f.dwVersionNeeded = 20; f.dwFlags = 0; f.dwCompressionMethod = 0; f.dwDosTime = 0; f.dwDosDate = 0; f.dwCRC = 0;
		f.dwCompressedSize = vf_u32("csize"); f.dwUncompressedSize = 0; f.dwInternalAttrib = 0; f.dwExternalAttrib = 0; f.dwOffsetOfLocalHeader = vf_u32("offset"); f.bFolder = false;
		SZIPArchiveInfo a; a.dwStartingDiskNumber = 0; a.dwNumberOfThisDisk = 0; a.dwNumberOfCentralDirDisk = 0; a.dwNumberOfEntriesOnThisDisk = 1; a.dwTotalNumberOfEntries = 1; a.dwCommentLength = 0;
		a.dwOffsetCentralDir = 4; a.dwSizeOfCentralDir = 49;
		Uint64 pos = 0; z.WriteLong(0, pos); z.WriteCentralDirectoryHeader(&a, &f, pos);
		z.WriteToFile(vf_bytes("tail", 70000), pos, 70000); z.WriteEndHeader(&a, pos);
		if (vf_bool("some lengths")) for (size_t i = 4 + 28; i < 4 + 34; i++) z.fpOpenedFile->fpZIPFileBuffer[i] = vf_u8("length");
		z.fbOpenedWrite = false;
	}
	else any(z, LIM, false);
	vf_region(z.fReadFileName, sizeof z.fReadFileName);
}
// texts of names that are no UTF-8 may be refused with an exception (nothing is claimed about that here)
template <class F> static void quiet(F f) { if (!vf_native()) { f(); return; } try { f(); } catch (const std::range_error&) {} }
static std::string path_in() { if (vf_native() && vf_bool("known")) return std::string("a.b"); size_t n = vf_range("pathlen", 0, 1 << 16); if (n == 0) return std::string(); return std::string((const char*)vf_bytes("path", n), n); }
extern "C" void C15_walk_next() { Zip z; opened(z); std::string p = path_in(), o; vf_cover("c"); quiet([&]{ z.GetNextFile(p, o); }); }
extern "C" void C15_walk_info() { Zip z; opened(z); std::string p = path_in(); SZIPFileInfo f; vf_cover("c"); quiet([&]{ z.GetFileInfo(p, f); }); }
extern "C" void C15_walk_central() { Zip z; opened(z); std::string p = path_in(); Uint32 at = 0; vf_cover("c"); z.GetFileCentralHeaderPosition(p, at); }
extern "C" void C15_walk_local() { Zip z; opened(z); std::string p = path_in(); Uint32 at = 0; vf_cover("c"); z.GetFileLocalHeaderPosition(p, at); }
extern "C" void C15_walk_end() { Zip z; opened(z); Uint32 at = 1, e = 1; vf_cover("c"); z.GetCentralDirPosition(at); z.GetEndOfCentralDirPosition(e); }
extern "C" void C15_walk_archive_info() { Zip z; opened(z); SZIPArchiveInfo a; vf_cover("c"); quiet([&]{ z.GetZipArchiveInfo(&a); }); }
extern "C" void C15_walk_extract()
{
	Zip z; opened(z); std::string p = path_in(); CZIPFileIOBufferImpl b;
	vf_cover("c");
	VCOMError e = kVCOMError_Failed; quiet([&]{ e = z.GetFile(p, &b); });
	size_t n = 0; b.GetDataSize(n);
	if (e != kVCOMError_NoError) vf_assert(n == 0, "a failed extraction returns no bytes");
}
extern "C" void C15_walk_unopened()
{
	Zip z; std::string p = path_in(), o; SZIPFileInfo f; CZIPFileIOBufferImpl b;
	vf_cover("c");
	vf_assert(z.GetNextFile(p, o) != kVCOMError_NoError && z.GetFileInfo(p, f) != kVCOMError_NoError && z.GetFile(p, &b) != kVCOMError_NoError, "an archive that is not opened has no entries");
}
