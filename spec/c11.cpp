#include "mvrxchange/mvrxchange_prefix.h"
#include "mvrxchange/mvrxchange_message.h"
#include "vf.h"
using namespace MVRxchangeNetwork;
typedef MVRxchangePacket Pkt;
typedef VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage Msg;
static const size_t LIM = 1ull << 40, INIT = 30 * 1024 * 1024;

static void any_buffer(Pkt& p)
{
	MVRxchangeDynamicBuffer& b = *p.fData;
	if (vf_bool("other")) {
		size_t a = vf_range("allocated", INIT, LIM), n = vf_range("length", 0, LIM);
		vf_assume(n <= a);
		delete[] b.fBuffer;
		b.fBuffer = (char*)vf_bytes("data", a); b.fBufferSize = n; b.fAllocatedMemory = a;
	}
}
static void any_fields(Pkt& p)
{
	p.fFlag = vf_u32("flag"); p.fVersion = vf_u32("version"); p.fNumber = vf_u32("number"); p.fCount = vf_u32("count"); p.fType = vf_u32("type");
}
// the announced body really is inside the packet's own storage
static void room(const Pkt& p)
{
	size_t have = p.fData->fAllocatedMemory;
	vf_assert(have >= Pkt::total_header_length && p.GetBodyLength() <= have - Pkt::total_header_length, "the storage holds header and announced body");
	vf_assert(p.GetBody() == p.GetData() + 28, "the body follows the header");
	vf_assert(p.GetLength() == 28 + p.GetBodyLength(), "packet length is header plus body");
	volatile char c = p.GetData()[0]; c = p.GetData()[p.GetLength() - 1]; (void)c;
}
static uint64_t be(const char* d, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)d[i]; return v; }

extern "C" void C11_construct()
{
	Pkt p; vf_cover("c");
	vf_assert(p.fFlag == kMVR_Package_Flag, "a new packet carries the protocol flag");
	vf_assert(p.fVersion == 1, "a new packet carries the protocol version");
	vf_assert(p.GetBodyLength() == 0, "a new packet has no body");
	room(p);
}
extern "C" void C11_encode()
{
	Pkt p; any_buffer(p); any_fields(p);
	uint64_t n = vf_u64("bodylen");
	p.fBodyLength = n;
	uint32_t f = p.fFlag, v = p.fVersion, k = p.fNumber, c = p.fCount, t = p.fType;
	size_t i = vf_u64("i"); vf_assume(i >= 28 && i < INIT);
	char keep = p.GetData()[i];
	vf_cover("c");
	p.EncodeHeader();
	const char* d = p.GetData();
	vf_assert(be(d, 4) == f, "flag is big-endian at 0");
	vf_assert(be(d + 4, 4) == v, "version is big-endian at 4");
	vf_assert(be(d + 8, 4) == k, "packet number is big-endian at 8");
	vf_assert(be(d + 12, 4) == c, "packet count is big-endian at 12");
	vf_assert(be(d + 16, 4) == t, "type is big-endian at 16");
	vf_assert(be(d + 20, 8) == n, "payload length is big-endian at 20");
	vf_assert(p.fFlag == f && p.fVersion == v && p.fNumber == k && p.fCount == c && p.fType == t && p.fBodyLength == n, "encoding leaves the packet's fields alone");
	vf_assert(d[i] == keep, "encoding leaves the body alone");
	vf_assert(Pkt::total_header_length == 28, "the header has 28 bytes");
}
extern "C" void C11_decode()
{
	Pkt p; any_buffer(p); any_fields(p);
	vf_havoc("header", p.GetData(), 28);
	const char* d = p.GetData();
	uint64_t f = be(d, 4), v = be(d + 4, 4), k = be(d + 8, 4), c = be(d + 12, 4), t = be(d + 16, 4), n = be(d + 20, 8);
	size_t i = vf_u64("i"); vf_assume(i >= 28 && i < INIT && i < p.fData->fBufferSize);
	char keep = d[i];
	vf_cover("c");
	bool ok = p.DecodeHeader();
	if (ok) {
		vf_cover("accepted");
		vf_assert(f == kMVR_Package_Flag, "only the protocol's flag is accepted");
		vf_assert(p.fFlag == f && p.fVersion == v && p.fNumber == k && p.fCount == c && p.fType == t, "header values are recovered");
		vf_assert(p.GetBodyLength() == n, "payload length is recovered");
		room(p);
		d = p.GetData();
		vf_assert(be(d, 4) == f && be(d + 20, 8) == n && d[i] == keep, "decoding keeps the received bytes");
	} else {
		vf_cover("rejected");
		vf_assert(f != kMVR_Package_Flag || n > LIM, "a header of the protocol is accepted");
	}
}
extern "C" void C11_encode_decode()
{
	Pkt p, q; any_fields(p);
	p.fFlag = kMVR_Package_Flag;
	uint64_t n = vf_range("bodylen", 0, LIM);
	p.fBodyLength = n;
	p.EncodeHeader();
	memcpy(q.GetData(), p.GetData(), Pkt::total_header_length);
	vf_cover("c");
	bool ok = q.DecodeHeader();
	vf_assert(ok, "an encoded header is accepted");
	vf_assert(q.fVersion == p.fVersion && q.fNumber == p.fNumber && q.fCount == p.fCount && q.fType == p.fType && q.fBodyLength == n, "decoding recovers what was encoded");
	room(q);
}
extern "C" void C11_setbody()
{
	Pkt p; any_buffer(p);
	size_t m = vf_range("size", 0, LIM);
	char* src = (char*)vf_bytes("src", m);
	size_t j = vf_u64("j"); vf_assume(j < m || m == 0);
	vf_cover("c");
	p.SetBody(m, src);
	room(p);
	vf_assert(p.GetBodyLength() == m, "the body has the given length");
	if (m > 0) vf_assert(p.GetBody()[j] == src[j], "the body has the given bytes");
}
extern "C" void C11_copy()
{
	Pkt p; any_buffer(p); any_fields(p);
	size_t m = vf_range("size", 0, LIM);
	char* src = (char*)vf_bytes("src", m);
	size_t j = vf_u64("j"); vf_assume(j < m || m == 0);
	p.SetBody(m, src);
	{
		Pkt q(p);
		vf_cover("c");
		vf_assert(q.fFlag == p.fFlag && q.fVersion == p.fVersion && q.fNumber == p.fNumber && q.fCount == p.fCount && q.fType == p.fType && q.GetBodyLength() == m, "a copy carries the same header");
		room(q);
		if (m > 0) vf_assert(q.GetBody()[j] == src[j], "a copy carries the same body");
	}
	room(p);
	if (m > 0) vf_assert(p.GetBody()[j] == src[j], "destroying a copy keeps the original's body");
}
// receiving a file: the body, whatever it contains, reaches the application unchanged
extern "C" void C11_receive_buffer()
{
	Pkt p; any_buffer(p); any_fields(p);
	size_t m = vf_range("size", 1, LIM);
	char* src = (char*)vf_bytes("src", m);
	size_t j = vf_u64("j"); vf_assume(j < m);
	p.SetBody(m, src);
	p.fType = kMVR_Package_BUFFER_TYPE;
	Msg* out = new Msg();
	vf_cover("c");
	p.ToExternalMessage(*out);
	vf_assert(out->Type == VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET, "a file body is delivered as the answer to a request");
	vf_assert(out->BufferToFileLength == m, "the application gets the announced number of bytes");
	vf_assert(out->BufferToFile[j] == src[j], "the application gets the bytes of the body");
	vf_assert(p.GetBody()[j] == src[j], "delivering keeps the packet");
	vf_assert(out->BufferToFile != p.GetBody(), "the application gets its own copy");
}
extern "C" void C11_receive_other()
{
	Pkt p; any_buffer(p); any_fields(p);
	size_t m = vf_range("size", 0, LIM);
	p.fBodyLength = m;
	vf_assume(m == 0 || (p.fType != kMVR_Package_BUFFER_TYPE && p.fType != kMVR_Package_JSON_TYPE));
	Msg* out = new Msg();
	vf_cover("c");
	p.ToExternalMessage(*out);
	vf_assert(out->Type == VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED, "an empty or unknown packet is delivered as undefined");
	vf_assert(!out->RetIsOK, "an empty or unknown packet is not ok");
	vf_assert(out->BufferToFile == nullptr && out->BufferToFileLength == 0, "no file is delivered");
}
// receiving a JSON message: any value of any member, any member missing, any text length
extern "C" void vf_json_body(Pkt* p);
static bool ends(const VectorworksMVR::MVRxchangeString& s) { return s.fBuffer[1023] == 0; }
extern "C" void C11_receive_json()
{
	Pkt p; any_fields(p);
	vf_json_body(&p);
	p.fType = kMVR_Package_JSON_TYPE;
	vf_assume(p.fBodyLength > 0);
	Msg* out = new Msg();
	vf_cover("c");
	p.ToExternalMessage(*out);
	vf_assert(ends(out->RetError) && ends(out->JOIN.Provider) && ends(out->JOIN.StationName) && ends(out->COMMIT.FileName) && ends(out->COMMIT.Comment), "every text of the message ends inside its field");
	vf_assert(out->BufferToFile == nullptr && out->BufferToFileLength == 0, "no file is delivered by a JSON message");
	if (out->Type == VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED) vf_assert(!out->RetIsOK, "a message of no known type is not ok");
	size_t n = out->JOIN.Commits.size(); 
	if (n > 0) vf_assert(ends(out->JOIN.Commits[0].FileName) && ends(out->JOIN.Commits[0].Comment), "every text of a commit ends inside its field");
}
