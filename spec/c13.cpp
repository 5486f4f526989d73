#include "Prefix/StdAfx.h"
#include "vf_txt.h"
#include "sha256/sha256.h"
#include <cstring>

// ---- FIPS 180-4, written down from the standard
static const uint32_t K[64] = {
	0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
	0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
	0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
	0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static const uint32_t H0[8] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 };
static uint32_t rotr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static void compress(uint32_t* H, const uint8_t* M)
{
	uint32_t W[64];
	for (int t = 0; t < 16; ++t) W[t] = ((uint32_t)M[4 * t] << 24) | ((uint32_t)M[4 * t + 1] << 16) | ((uint32_t)M[4 * t + 2] << 8) | M[4 * t + 3];
	for (int t = 16; t < 64; ++t)
		W[t] = (rotr(W[t - 2], 17) ^ rotr(W[t - 2], 19) ^ (W[t - 2] >> 10)) + W[t - 7] + (rotr(W[t - 15], 7) ^ rotr(W[t - 15], 18) ^ (W[t - 15] >> 3)) + W[t - 16];
	uint32_t a = H[0], b = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
	for (int t = 0; t < 64; ++t)
	{
		uint32_t T1 = h + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + K[t] + W[t];
		uint32_t T2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
		h = g; g = f; f = e; e = d + T1; d = c; c = b; b = a; a = T1 + T2;
	}
	H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
// an arbitrary object: hash value, number of bytes hashed (whole blocks), 'held' bytes waiting in the buffer
static void anyState(SHA256& s, size_t held)
{
	vf_region(s.m_buffer, 64);
	for (int i = 0; i < 8; ++i) s.m_hash[i] = vf_u32("hash");
	s.m_numBytes = vf_u64("hashed"); vf_assume((s.m_numBytes & 63) == 0);
	s.m_bufferSize = held;
	for (int i = 0; i < 64; ++i) s.m_buffer[i] = vf_u8("held");
}
// ---- the compression function
extern "C" void C13_block()
{
	SHA256 s; anyState(s, vf_choice("held", 0, 0));
	uint8_t M[64]; for (int i = 0; i < 64; ++i) M[i] = vf_u8("byte");
	uint32_t H[8]; for (int i = 0; i < 8; ++i) H[i] = s.m_hash[i];
	uint64_t n = s.m_numBytes; uint8_t b[64]; memcpy(b, s.m_buffer, 64);
	s.processBlock(M);
	compress(H, M);
	vf_cover("block");
	for (int i = 0; i < 8; ++i) vf_assert(s.m_hash[i] == H[i], "hashing a block is the SHA-256 compression function");
	vf_assert(s.m_numBytes == n && s.m_bufferSize == 0 && !memcmp(b, s.m_buffer, 64), "hashing a block changes nothing but the hash value");
}
extern "C" void C13_start()
{
	SHA256 s; vf_cover("start");
	for (int i = 0; i < 8; ++i) vf_assert(s.m_hash[i] == H0[i], "a new hasher starts with the initial hash value");
	vf_assert((s.m_numBytes == 0) & (s.m_bufferSize == 0), "a new hasher has seen no bytes");
	anyState(s, vf_choice("n", 0, 63));
	s.reset();
	for (int i = 0; i < 8; ++i) vf_assert(s.m_hash[i] == H0[i], "a reset hasher starts with the initial hash value");
	vf_assert((s.m_numBytes == 0) & (s.m_bufferSize == 0), "a reset hasher has seen no bytes");
}
// ---- feeding: the stream is what the buffer holds followed by the data
static const uint8_t* gData; static uint8_t gOld[64]; static size_t gHeld, gSize; static uint64_t gDone; static uint32_t gHash[8];
static uint8_t stream(uint64_t i) { if (i < gHeld) return gOld[i]; return gData[i - gHeld]; }
extern "C" __attribute__((weak, noinline)) uint32_t c13_fresh() { return 0; }
// contract of processBlock as a callee of add: it is handed the next 64 bytes of the stream, and is
// the only function that touches the hash value
extern "C" void c13_next(SHA256* s, const uint8_t* p)
{
	if (gDone >= gHeld && p == gData + (gDone - gHeld)) vf_assert(gDone - gHeld + 64 <= gSize, "the blocks of the stream are hashed in their order");
	else for (int i = 0; i < 64; ++i) vf_assert(gDone + i < gHeld + gSize && p[i] == stream(gDone + i), "the blocks of the stream are hashed in their order");
	for (int i = 0; i < 8; ++i) vf_assert(s->m_hash[i] == gHash[i], "the hash value is only changed by hashing blocks");
	gDone += 64;
	s->m_hash[0] = gHash[0] = c13_fresh();
}
static void add(size_t lo)
{
	SHA256 s; size_t held = vf_choice("held", lo, lo + 7); anyState(s, held);
	size_t n = vf_u64("size"); if (vf_native()) n %= 400; vf_assume(n < (1ull << 40));
	uint8_t* d = (uint8_t*)vf_bytes("data", n);
	gData = d; gHeld = held; gSize = n; for (int i = 0; i < 64; ++i) gOld[i] = s.m_buffer[i]; gDone = 0; for (int i = 0; i < 8; ++i) gHash[i] = s.m_hash[i];
	uint64_t before = s.m_numBytes;
	s.add(d, n);
	vf_cover("added");
	vf_assert(s.m_bufferSize < 64, "less than a block waits in the buffer");
	uint64_t all = held + n, blocks = all - s.m_bufferSize;
	vf_assert((blocks & 63) == 0, "whole blocks have been hashed");
	vf_assert(s.m_numBytes == before + blocks, "the bytes hashed are counted");
	if (vf_native()) { for (; gDone < blocks; gDone += 64) { uint8_t M[64]; for (int i = 0; i < 64; ++i) M[i] = stream(gDone + i); compress(gHash, M); } }
	vf_assert(gDone == blocks, "every whole block of the stream is hashed");
	for (int i = 0; i < 8; ++i) vf_assert(s.m_hash[i] == gHash[i], "the hash value is that of the blocks of the stream");
	bool rest = true;
	if (vf_native()) { for (size_t i = 0; i < s.m_bufferSize; ++i) rest &= s.m_buffer[i] == stream(blocks + i); }
	else if (blocks < held) { for (int i = 0; i < 64; ++i) if ((size_t)i < s.m_bufferSize) rest &= s.m_buffer[i] == stream(i); }
	else rest = !memcmp(s.m_buffer, d + (blocks - held), s.m_bufferSize);
	vf_assert(rest, "the rest of the stream waits in the buffer");
}
extern "C" void C13_add_0() { add(0); }
extern "C" void C13_add_8() { add(8); }
extern "C" void C13_add_16() { add(16); }
extern "C" void C13_add_24() { add(24); }
extern "C" void C13_add_32() { add(32); }
extern "C" void C13_add_40() { add(40); }
extern "C" void C13_add_48() { add(48); }
extern "C" void C13_add_56() { add(56); }
// ---- finishing: padding and length
static uint8_t gPad[128];
extern "C" void c13_pad(SHA256* s, const uint8_t* p)
{
	vf_assert(gDone < 128, "no more than two blocks are hashed to finish");
	for (int i = 0; i < 64; ++i) vf_assert(p[i] == gPad[gDone + i], "the message is padded with a one bit, zeros and its length in bits");
	for (int i = 0; i < 8; ++i) vf_assert(s->m_hash[i] == gHash[i], "the hash value is only changed by hashing blocks");
	gDone += 64;
	for (int i = 0; i < 8; ++i) s->m_hash[i] = gHash[i] = c13_fresh();
}
static size_t padding(const SHA256& s, size_t held)
{
	uint64_t bits = 8 * (s.m_numBytes + held);
	size_t total = held < 56 ? 64 : 128;
	for (size_t i = 0; i < total; ++i) gPad[i] = i < held ? s.m_buffer[i] : i == held ? 0x80 : i < total - 8 ? 0 : (uint8_t)(bits >> (8 * (total - 1 - i)));
	gDone = 0; for (int i = 0; i < 8; ++i) gHash[i] = s.m_hash[i];
	return total;
}
static void finish(size_t lo)
{
	SHA256 s; size_t held = vf_choice("held", lo, lo + 15); anyState(s, held);
	size_t total = padding(s, held);
	uint32_t H[8]; for (int i = 0; i < 8; ++i) H[i] = s.m_hash[i];
	uint8_t b[64]; memcpy(b, s.m_buffer, 64); uint64_t n = s.m_numBytes;
	uint8_t* out = (uint8_t*)vf_bytes("digest", 32);
	s.getHash(out);
	vf_cover("finished");
	if (vf_native()) for (; gDone < total; gDone += 64) compress(gHash, gPad + gDone);
	vf_assert(gDone == total, "the padded message is hashed completely");
	for (int i = 0; i < 32; ++i) vf_assert(out[i] == (uint8_t)(gHash[i / 4] >> (24 - 8 * (i % 4))), "the digest is the hash value, most significant byte first");
	for (int i = 0; i < 8; ++i) vf_assert(s.m_hash[i] == H[i], "asking for the digest does not change the hash value of the bytes seen so far");
	vf_assert((s.m_numBytes == n) & (s.m_bufferSize == held) & !memcmp(b, s.m_buffer, held), "asking for the digest does not change the bytes seen so far");
}
extern "C" void C13_finish_0() { finish(0); }
extern "C" void C13_finish_16() { finish(16); }
extern "C" void C13_finish_32() { finish(32); }
extern "C" void C13_finish_48() { finish(48); }

// ---- the digest as text, and a whole message in one call
static uint8_t gRaw[32]; static int gStep;
static const char* DIGIT = "0123456789abcdef";
extern "C" void c13_raw(SHA256* s, unsigned char* out) { gStep = gStep * 10 + 3; for (int i = 0; i < 32; ++i) out[i] = gRaw[i]; }
extern "C" void C13_text()
{
	SHA256 s; s.m_numBytes = s.m_bufferSize = 0;
	if (vf_native()) { size_t n = vf_choice("size", 0, 200); for (size_t i = 0; i < n; ++i) { uint8_t b = vf_u8("byte"); s.add(&b, 1); } s.getHash(gRaw); }
	else for (int i = 0; i < 32; ++i) gRaw[i] = vf_u8("raw");
	std::string t = s.getHash();
	vf_cover("text");
	vf_assert(t.size() == 64, "the digest has 64 hexadecimal digits"); if (t.size() != 64) return;
	const char* c = t.c_str();
	for (int i = 0; i < 32; ++i)
		vf_assert((c[2 * i] == DIGIT[gRaw[i] >> 4]) & (c[2 * i + 1] == DIGIT[gRaw[i] & 15]), "the hexadecimal text lists the bytes of the digest in order");
}
static const void* gWhere; static size_t gLen;
extern "C" void c13_reset(SHA256* s) { gStep = gStep * 10 + 1; }
extern "C" void c13_add(SHA256* s, const void* p, size_t n) { gStep = gStep * 10 + 2; gWhere = p; gLen = n; }
static std::string expected(const void* p, size_t n) { SHA256 s; s.add(p, n); return s.getHash(); }
extern "C" void C13_call()
{
	size_t n = vf_u64("size"); if (vf_native()) n %= 400; vf_assume(n < (1ull << 40));
	uint8_t* d = (uint8_t*)vf_bytes("data", n);
	SHA256 s; anyState(s, vf_choice("held", 0, 3));
	for (int i = 0; i < 32; ++i) gRaw[i] = vf_u8("raw");
	gStep = 0;
	std::string t = s(d, n);
	vf_cover("called");
	if (vf_native()) { vf_assert(t == expected(d, n), "a message is hashed by starting anew, adding it and taking the digest"); return; }
	vf_assert((gStep == 123) & (gWhere == d) & (gLen == n), "a message is hashed by starting anew, adding it and taking the digest");
}
