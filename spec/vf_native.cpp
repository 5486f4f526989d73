// Native meaning of the harness interface: values come from an input file
// (a solver model) or, for names it does not define, from a seeded generator.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include "vf.h"
#include <pwd.h>
#include <unistd.h>
#include <sys/types.h>

static std::map<std::string, std::string>	gIn;		// name -> hex text
static std::map<std::string, int>			gCount;
static uint64_t gSeed = 1; static bool gRandom = false;
static std::string gLog;
static std::vector<void*> gBlocks;

static uint64_t rnd()
{
	gSeed ^= gSeed << 13; gSeed ^= gSeed >> 7; gSeed ^= gSeed << 17;
	return gSeed * 2685821657736338717ULL;
}
static std::string uniq(const char* name)
{
	int n = gCount[name]++;
	return n == 0 ? name : std::string(name) + "@" + std::to_string(n);
}
static uint64_t interesting(int bits)
{
	uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1);
	static const uint64_t t[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 27, 28, 29, 31, 32, 36, 38, 55, 56, 63, 64, 65, 119, 120, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 65535, 65536, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, ~0ULL };
	switch (rnd() % 4) {
		case 0:  return t[rnd() % (sizeof(t) / sizeof(t[0]))] & m;
		case 1:  return (rnd() & 0xFF) & m;
		case 2:  return (t[rnd() % (sizeof(t) / sizeof(t[0]))] + (rnd() % 5) - 2) & m;
		default: return rnd() & m;
	}
}
static uint64_t getint(const char* name, int bits)
{
	std::string n = uniq(name);
	uint64_t v;
	auto it = gIn.find(n);
	if (it != gIn.end()) v = strtoull(it->second.c_str(), 0, 16);
	else v = gRandom ? interesting(bits) : 0;
	if (bits < 64) v &= (1ULL << bits) - 1;
	char b[64]; snprintf(b, sizeof b, "=%llx\n", (unsigned long long)v); gLog += n + b;
	return v;
}
std::string vf_native_text(const char* name, bool& fixed)		// text inputs (vf_txt.h)
{
	std::string n = uniq(name);
	auto it = gIn.find(n); fixed = it != gIn.end();
	std::string r;
	if (fixed) { for (size_t i = 0; i + 1 < it->second.size() + 1 && i + 2 <= it->second.size(); i += 2) r += (char)strtol(it->second.substr(i, 2).c_str(), 0, 16); }
	else if (gRandom) {
		static const char* t[] = { "", "a", "Name", "A.B", "Dimmer", "x y", "None", "10/2", "1/1s", "255", "-1", "0", "..", "../x", "a/b", "Pan.1", "\xC3\xA4", "Q,W", "0.5" };
		r = t[rnd() % (sizeof(t) / sizeof(t[0]))];
		if (rnd() % 2) r += std::to_string(rnd() % 1000);
	}
	gLog += n + "="; for (unsigned char c : r) { char b[4]; snprintf(b, 4, "%02x", c); gLog += b; } gLog += "\n";
	return r;
}
uint64_t vf_native_rnd() { return gRandom ? rnd() : 0; }
static void finish(const char* what, const char* label, int rc)
{
	if (const char* o = getenv("VF_LOG")) { FILE* f = fopen(o, "w"); if (f) { fputs(gLog.c_str(), f); fclose(f); } }
	if (rc == 1) { printf("FAILED %s%s\n", what, label); }
	fflush(stdout);
	_Exit(rc);
}
extern "C" int __asan_address_is_poisoned(void const volatile*);
extern "C" {
	bool		vf_live(const void* p) { return p && !__asan_address_is_poisoned(p); }
	uint8_t		vf_u8(const char* n) { return (uint8_t)getint(n, 8); }
	uint16_t	vf_u16(const char* n) { return (uint16_t)getint(n, 16); }
	uint32_t	vf_u32(const char* n) { return (uint32_t)getint(n, 32); }
	uint64_t	vf_u64(const char* n) { return getint(n, 64); }
	bool		vf_bool(const char* n) { return getint(n, 1) != 0; }
	double		vf_f64(const char* n)
	{
		std::string k = n; int c = gCount.count(k) ? gCount[k] : 0;
		std::string full = c == 0 ? k : k + "@" + std::to_string(c);
		if (gIn.find(full) == gIn.end() && gRandom) {
			gCount[k]++;
			static const double t[] = { 0, 1, -1, 0.5, 2, 3.25, -7.75, 100, 0.1, 1e-3, 12345.678 };
			double d = t[rnd() % 11] * (1 + (double)(rnd() % 7));
			uint64_t v; memcpy(&v, &d, 8); char b[64]; snprintf(b, sizeof b, "=%llx\n", (unsigned long long)v); gLog += full + b;
			return d;
		}
		uint64_t v = getint(n, 64); double d; memcpy(&d, &v, 8); return d;
	}
	uint64_t	vf_range(const char* n, uint64_t lo, uint64_t hi);
	uint64_t	vf_choice(const char* n, uint64_t lo, uint64_t hi) { return vf_range(n, lo, hi); }
	uint64_t	vf_range(const char* n, uint64_t lo, uint64_t hi)
	{
		std::string k = n; int c = gCount.count(k) ? gCount[k] : 0;
		std::string full = c == 0 ? k : k + "@" + std::to_string(c);
		if (gIn.find(full) == gIn.end()) {
			uint64_t v = lo;
			if (gRandom) { v = interesting(64); if (v < lo || v > hi) v = hi - lo == ~0ULL ? v : lo + v % (hi - lo + 1); }
			gCount[k]++; char b[64]; snprintf(b, sizeof b, "=%llx\n", (unsigned long long)v); gLog += full + b;
			return v;
		}
		uint64_t v = getint(n, 64);
		if (v < lo || v > hi) finish("", "", 77);
		return v;
	}
	void vf_havoc(const char* name, void* p, size_t n)
	{
		std::string k = uniq(name);
		auto it = gIn.find(k);
		unsigned char* b = (unsigned char*)p;
		int mode = gRandom ? rnd() % 3 : 0;
		for (size_t i = 0; i < n; i++) {
			if (it != gIn.end()) { b[i] = 2 * i + 1 < it->second.size() ? (unsigned char)strtol(it->second.substr(2 * i, 2).c_str(), 0, 16) : 0; }
			else b[i] = !gRandom ? 0 : mode == 0 ? (unsigned char)rnd() : mode == 1 ? (unsigned char)interesting(8) : (unsigned char)(rnd() % 8 ? 'a' + rnd() % 26 : rnd());
		}
		gLog += k + "="; for (size_t i = 0; i < n && i < 4096; i++) { char t[4]; snprintf(t, 4, "%02x", b[i]); gLog += t; } gLog += "\n";
	}
	void* vf_bytes(const char* name, size_t n)
	{
		if (n > (64u << 20)) finish("", "", 77);
		void* p = malloc(n ? n : 0);
		vf_havoc(name, p, n);
		return p;
	}
	void** vf_slots(const char* name, size_t n, size_t at, const void* p)
	{
		if (n > (8u << 20)) finish("", "", 77);
		void** v = (void**)malloc(8 * n);
		for (size_t i = 0; i < n; ++i) v[i] = i == at ? (void*)p : (void*)(uintptr_t)(16 + 16 * i);
		return v;
	}
	// the home directory of a replay is its scratch directory
	struct passwd* getpwuid(uid_t)
	{
		static char home[4096]; static struct passwd p;
		if (!getcwd(home, sizeof home - 1)) _exit(77);
		p.pw_name = (char*)"replay"; p.pw_dir = home; p.pw_shell = (char*)"/bin/false"; p.pw_passwd = p.pw_gecos = (char*)"";
		return &p;
	}
	bool vf_native() { return true; }
	void vf_region(void*, size_t) {}
	void vf_assume(bool c) { if (!c) finish("", "", 77); }
	void vf_assert(bool c, const char* label) { if (!c) finish("", label, 1); }
	void vf_fail(const char* label) { finish("", label, 1); }
	void vf_cover(const char*) {}
}
typedef void (*Harness)();
extern "C" Harness vf_lookup(const char* name);
extern "C" void __asan_set_death_callback(void (*)(void));
static void onDeath() { if (const char* o = getenv("VF_LOG")) { FILE* f = fopen(o, "w"); if (f) { fputs(gLog.c_str(), f); fclose(f); } } }
int main(int argc, char** argv)
{
	// usage: replay HARNESS [INPUTFILE] [SEED]
	if (argc > 2 && argv[2][0]) {
		FILE* f = fopen(argv[2], "r");
		if (f) {
			std::string l; int c;
			while ((c = fgetc(f)) != EOF) {
				if (c != '\n') { l += (char)c; continue; }
				size_t e = l.find('='); if (e != std::string::npos && l[0] != '#') gIn[l.substr(0, e)] = l.substr(e + 1);
				l.clear();
			}
			fclose(f);
		}
	}
	if (argc > 3) { gRandom = true; gSeed = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int i = 0; i < 4; i++) rnd(); }
	__asan_set_death_callback(onDeath);
	Harness h = vf_lookup(argv[1]);
	if (!h) { printf("no harness\n"); return 3; }
	try { h(); }
	catch (std::exception& e) { finish("escaped exception: ", e.what(), 1); }
	catch (...) { finish("escaped exception", "", 1); }
	finish("", "", 0);
}
