// C30: byte order conversions.
#include "mc.h"
#include <citrusleaf/cf_byte_order.h>
#include <string.h>

static uint16_t to_be16(uint16_t n) { return cf_swap_to_be16(n); }
static uint16_t to_le16(uint16_t n) { return cf_swap_to_le16(n); }
static uint16_t from_be16(uint16_t n) { return cf_swap_from_be16(n); }
static uint16_t from_le16(uint16_t n) { return cf_swap_from_le16(n); }
static uint32_t to_be32(uint32_t n) { return cf_swap_to_be32(n); }
static uint32_t to_le32(uint32_t n) { return cf_swap_to_le32(n); }
static uint32_t from_be32(uint32_t n) { return cf_swap_from_be32(n); }
static uint32_t from_le32(uint32_t n) { return cf_swap_from_le32(n); }
static uint64_t to_be64(uint64_t n) { return cf_swap_to_be64(n); }
static uint64_t to_le64(uint64_t n) { return cf_swap_to_le64(n); }
static uint64_t from_be64(uint64_t n) { return cf_swap_from_be64(n); }
static uint64_t from_le64(uint64_t n) { return cf_swap_from_le64(n); }

// The bytes of an n-byte number, most or least significant first.
static void bytes_of(uint64_t v, int n, bool big, uint8_t* out)
{
	for (int i = 0; i < n; i++) out[i] = (uint8_t)(v >> 8 * (big ? n - 1 - i : i));
}
#define CHECK_ONE(ty, bits, v) do { \
	ty n_ = (ty)(v), r_; uint8_t want[8]; \
	mc_steps(4); \
	bytes_of(n_, bits / 8, true, want); \
	r_ = to_be##bits(n_); \
	MC_CHECK(memcmp(&r_, want, bits / 8) == 0, "to-big", #bits " bits: %llx is not laid out most significant byte first", (unsigned long long)n_); \
	memcpy(&r_, want, bits / 8); \
	MC_CHECK(from_be##bits(r_) == n_, "from-big", #bits " bits: %llx laid out most significant byte first is read as %llx", (unsigned long long)n_, (unsigned long long)from_be##bits(r_)); \
	bytes_of(n_, bits / 8, false, want); \
	r_ = to_le##bits(n_); \
	MC_CHECK(memcmp(&r_, want, bits / 8) == 0, "to-little", #bits " bits: %llx is not laid out least significant byte first", (unsigned long long)n_); \
	memcpy(&r_, want, bits / 8); \
	MC_CHECK(from_le##bits(r_) == n_, "from-little", #bits " bits: %llx laid out least significant byte first is read as %llx", (unsigned long long)n_, (unsigned long long)from_le##bits(r_)); \
} while (0)
static void check_double(uint64_t v)
{
	double d, r;
	uint8_t want[8];
	uint64_t back;
	memcpy(&d, &v, 8);
	mc_steps(4);
	bytes_of(v, 8, true, want);
	r = cf_swap_to_big_float64(d);
	MC_CHECK(memcmp(&r, want, 8) == 0, "to-big-double", "the double %llx is not laid out most significant byte first", (unsigned long long)v);
	memcpy(&r, want, 8);
	r = cf_swap_from_big_float64(r);
	memcpy(&back, &r, 8);
	MC_CHECK(back == v, "from-big-double", "the double %llx laid out most significant byte first is read as %llx", (unsigned long long)v, (unsigned long long)back);
	bytes_of(v, 8, false, want);
	r = cf_swap_to_little_float64(d);
	MC_CHECK(memcmp(&r, want, 8) == 0, "to-little-double", "the double %llx is not laid out least significant byte first", (unsigned long long)v);
	memcpy(&r, want, 8);
	r = cf_swap_from_little_float64(r);
	memcpy(&back, &r, 8);
	MC_CHECK(back == v, "from-little-double", "the double %llx laid out least significant byte first is read as %llx", (unsigned long long)v, (unsigned long long)back);
}
static void sc_16(void)
{
	uint32_t hi = (uint32_t)mc_choose(256) << 8;
	for (uint32_t lo = 0; lo < 256; lo++) { CHECK_ONE(uint16_t, 16, hi | lo); mc_case(); mc_state(hi | lo); }
}
// Every byte in turn takes every value over four backgrounds; every pair of bytes over small sets.
static const uint64_t back[] = { 0, UINT64_MAX, 0x0123456789abcdefull, 0x8070605040302010ull };
static void sc_byte(void)
{
	uint64_t b = back[mc_choose(4)];
	int p = mc_choose(8);
	for (uint64_t v = 0; v < 256; v++) {
		uint64_t x = (b & ~(0xffull << 8 * p)) | v << 8 * p;
		CHECK_ONE(uint64_t, 64, x);
		CHECK_ONE(uint32_t, 32, x);
		CHECK_ONE(uint32_t, 32, x >> 32);
		check_double(x);
		mc_state(x);
		mc_case();
	}
}
static const uint8_t few[] = { 0, 1, 0x7f, 0x80, 0xfe, 0xff };
static void sc_shape(void)
{
	uint64_t x = 0;
	for (int i = 0; i < 4; i++) x = x << 8 | few[mc_choose(6)];
	CHECK_ONE(uint32_t, 32, x);
	mc_case();
	int n = mc_pick(3, 6);
	for (uint64_t k = 0; k < 6 * 6 * 6 * 6; k++) {
		uint64_t y = x, m = k;
		for (int i = 0; i < 4; i++) { y = y << 8 | few[m % (uint64_t)n]; m /= (uint64_t)n; }
		if (m) break;
		CHECK_ONE(uint64_t, 64, y);
		check_double(y);
		mc_case();
	}
}
static void sc_all32(void)
{
	if (!mc_thorough()) mc_prune();
	uint32_t hi = (uint32_t)mc_choose(65536) << 16;
	for (uint32_t lo = 0; lo < 65536; lo++) CHECK_ONE(uint32_t, 32, hi | lo);
	mc_case();
}
const mc_scenario mc_scenarios[] = {
	{ "16", sc_16, 1, "all 65536 numbers of 16 bits" },
	{ "byte", sc_byte, 2, "32 and 64 bits and doubles: every byte takes every value over 4 backgrounds" },
	{ "shape", sc_shape, 2, "every combination of 6 byte values in 4 bytes, in 8 bytes with 3 (6) values in the lower half" },
	{ "all32", sc_all32, 1, "(thorough) all numbers of 32 bits" },
	{ NULL } };
