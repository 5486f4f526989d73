#include <cstdint>
extern "C" bool vf_near(uint64_t out, uint64_t v, uint64_t from, uint64_t to)
{
	__int128 d = (__int128)out * from - (__int128)v * to; if (d < 0) d = -d;
	return 2 * d * (1 << 18) <= (__int128)from * ((1 << 18) + 1);
}
