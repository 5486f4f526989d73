// Contract-harness interface.  The verifier gives these functions their logical
// meaning; the native replay (vf_native.cpp) gives them concrete values.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
	// arbitrary values (universally quantified inputs)
	uint8_t		vf_u8(const char* name);
	uint16_t	vf_u16(const char* name);
	uint32_t	vf_u32(const char* name);
	uint64_t	vf_u64(const char* name);
	bool		vf_bool(const char* name);
	double		vf_f64(const char* name);
	uint64_t	vf_range(const char* name, uint64_t lo, uint64_t hi);
	uint64_t	vf_choice(const char* name, uint64_t lo, uint64_t hi);	// as vf_range, by case split
	void*		vf_bytes(const char* name, size_t n);		// fresh heap block, arbitrary content
	void**		vf_slots(const char* name, size_t n, size_t at, const void* p);	// fresh block of n pointers: slot 'at' holds p, the others arbitrary addresses
	void		vf_havoc(const char* name, void* p, size_t n);
	void		vf_region(void* p, size_t n);				// a member array of its own: accesses that start in it end in it
	bool		vf_live(const void* p);						// the block p points into has not been released
	bool		vf_native();								// false for the verifier; used only to build likely witnesses in native replays
	// requires / ensures / reachability witness of a requires
	void		vf_assume(bool c);
	void		vf_assert(bool c, const char* label);
	void		vf_fail(const char* label);
	void		vf_cover(const char* label);
}
// bitwise equality of two doubles
static inline bool vf_same(double a, double b) { uint64_t x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
