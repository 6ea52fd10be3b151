// C19: digests and hashes against their definitions.
#include "mc.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <citrusleaf/cf_crypto.h>
#include <citrusleaf/cf_digest.h>
#include <citrusleaf/cf_hash_math.h>
#include <openssl/ripemd.h>
#include <openssl/sha.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)

// A message of n bytes at a given alignment, ending where the block ends.
static uint8_t* message(uint8_t** block, size_t n, int align, int pattern)
{
	*block = malloc(n + (size_t)align + (n + (size_t)align == 0));
	uint8_t* p = *block + align;
	for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(pattern == 0 ? i * 7 + 3 : pattern == 1 ? 0xff : pattern == 2 ? 0 : i * i + i / 64 + 0x80);
	return p;
}

static void same(const uint8_t* a, const uint8_t* b, const char* what, size_t n)
{
	MC_CHECK(memcmp(a, b, 20) == 0, what, "%s of %zu bytes differs from the standard", what, n);
}
static void sc_lengths(void)
{
	size_t n = (size_t)mc_choose(mc_pick(400, 1100));
	int pattern = mc_choose(mc_pick(2, 4)), align = mc_choose(mc_pick(4, 16));
	uint8_t* blk;
	uint8_t* p = message(&blk, n, align, pattern);
	uint8_t a[22], r[20];
	memset(a, 0xE7, sizeof a);
	mc_step();
	cf_SHA1(p, n, a + 1);
	SHA1(p, n, r);
	same(a + 1, r, "sha1", n);
	MC_CHECK(a[0] == 0xE7 && a[21] == 0xE7, "sha1-overrun", "digest written outside its 20 bytes");
	mc_step();
	cf_RIPEMD160(p, n, a + 1);
	RIPEMD160(p, n, r);
	same(a + 1, r, "ripemd160", n);
	MC_CHECK(a[0] == 0xE7 && a[21] == 0xE7, "ripemd160-overrun", "digest written outside its 20 bytes");
	cf_digest d, e;
	mc_step();
	cf_digest_compute(p, n, &d);
	same(d.digest, r, "digest", n);
	char text[44], want[44] = "0x";
	memset(text, '#', sizeof text);
	mc_step();
	cf_digest_string(&d, text);
	for (int i = 0; i < 20; i++) { want[2 + 2 * i] = "0123456789abcdef"[r[i] >> 4]; want[3 + 2 * i] = "0123456789abcdef"[r[i] & 15]; }
	want[42] = 0;
	MC_CHECK(strcmp(text, want) == 0 && text[43] == '#', "digest-text", "digest text is %.43s, expected %s", text, want);
	memset(text, '#', sizeof text);
	cf_digest_string(NULL, text);
	MC_CHECK(strcmp(text, "null") == 0 && text[5] == '#', "digest-text", "text of no digest is %.43s", text);
	e = d;
	MC_CHECK(cf_digest_compare(&d, &e) == 0, "digest-compare", "equal digests differ");
	e.digest[n % 20] ^= 1;
	int c = cf_digest_compare(&d, &e), c2 = cf_digest_compare(&e, &d);
	bool less = d.digest[n % 20] < e.digest[n % 20];
	MC_CHECK(less ? c < 0 && c2 > 0 : c > 0 && c2 < 0, "digest-compare", "digest order wrong at byte %zu", n % 20);
	mc_state(mc_hash(n, r, 20));
	free(blk);
}
// Every split of every message into up to four updates.
static void sc_splits(void)
{
	int n = mc_choose(mc_pick(2, 3));
	int maxn = n == 0 ? mc_pick(70, 72) : n == 1 ? mc_pick(137, 140) : 200;
	int len = n == 0 ? mc_choose(maxn) : maxn - 1 - mc_choose(mc_pick(4, 12));
	uint8_t* blk;
	uint8_t* p = message(&blk, (size_t)len, 0, 3);
	uint8_t r[20], a[20];
	RIPEMD160(p, (size_t)len, r);
	int c1 = mc_choose(len + 1), c2 = c1 + mc_choose(len - c1 + 1);
	for (int c3 = c2; c3 <= len; c3++) {
		cf_RIPEMD160_CTX c;
		memset(&c, 0xA5, sizeof c);
		cf_RIPEMD160_Init(&c);
		// Each part is handed over as its own exactly sized block.
		int cut[5] = { 0, c1, c2, c3, len };
		for (int k = 0; k < 4; k++) {
			int m = cut[k + 1] - cut[k];
			uint8_t* part = malloc(m ? (size_t)m : 1);
			memcpy(part, p + cut[k], (size_t)m);
			cf_RIPEMD160_Update(&c, part, (size_t)m);
			free(part);
		}
		mc_steps(4);
		mc_case();
		cf_RIPEMD160_Final(a, &c);
		MC_CHECK(memcmp(a, r, 20) == 0, "ripemd160-split", "%d bytes split at %d, %d, %d digest differently", len, c1, c2, c3);
	}
	if (c2 == c1) {
		cf_digest d;
		uint8_t* x = malloc(c1 ? (size_t)c1 : 1);
		uint8_t* y = malloc(len - c1 ? (size_t)(len - c1) : 1);
		memcpy(x, p, (size_t)c1); memcpy(y, p + c1, (size_t)(len - c1));
		mc_step();
		cf_digest_compute2(x, (size_t)c1, y, (size_t)(len - c1), &d);
		MC_CHECK(memcmp(d.digest, r, 20) == 0, "digest2", "two part digest of %d+%d bytes differs", c1, len - c1);
		free(x); free(y);
	}
	mc_state(mc_hash_u64((uint64_t)len, (uint64_t)(c1 * 1000 + c2)));
	free(blk);
}
// Lengths across the powers of two, in one, two or three parts.
static const size_t larges[] = { 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073 };
static void sc_large(void)
{
	size_t n = larges[mc_choose(21)];
	size_t cut[] = { 0, 1, 55, 56, 63, 64, 65, 255, 256, n / 2, n - 65, n - 64, n - 1, n, n > 65536 ? 65536 : 3, n > 65535 ? 65535 : 4 };
	size_t a = cut[mc_choose(16)], b = cut[mc_choose(16)];
	if (a > b) mc_prune();
	uint8_t* blk;
	uint8_t* p = message(&blk, n, mc_choose(2), 3);
	uint8_t r[20], d[20];
	RIPEMD160(p, n, r);
	cf_RIPEMD160_CTX c;
	cf_RIPEMD160_Init(&c);
	cf_RIPEMD160_Update(&c, p, a);
	cf_RIPEMD160_Update(&c, p + a, b - a);
	cf_RIPEMD160_Update(&c, p + b, n - b);
	cf_RIPEMD160_Final(d, &c);
	same(d, r, "ripemd160", n);
	mc_steps(3);
	if (a == 0) {
		cf_digest two;
		cf_digest_compute2(p, b, p + b, n - b, &two);
		same(two.digest, r, "digest2", n);
		cf_digest_compute(p, n, &two);
		same(two.digest, r, "digest", n);
		cf_SHA1(p, n, d);
		SHA1(p, n, r);
		same(d, r, "sha1", n);
		mc_steps(3);
	}
	mc_state(mc_hash_u64(n, a * 1000000 + b));
	free(blk);
}
// Lengths where the bit count needs more than 32 bits, and the byte count.
static void sc_huge(void)
{
	static const uint64_t ns[] = { (1ULL << 32) + 7, (1ULL << 29) - 1, 1ULL << 29, (1ULL << 29) + 65, (1ULL << 32) - 1 };
	uint64_t n = ns[mc_choose(mc_pick(4, 5))];
	int how = mc_choose(3);
	bool known = n == ns[0] && !mc_thorough();
	if (known && how != 2) mc_prune();
	uint8_t a[20], r[20];
	uint8_t* p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) mc_error("mmap");
	mc_step();
	if (how == 0) { cf_SHA1(p, n, a); SHA1(p, n, r); }
	else {
		if (how == 1) cf_RIPEMD160(p, n, a);
		else {
			cf_RIPEMD160_CTX c;
			cf_RIPEMD160_Init(&c);
			for (uint64_t i = 0; i < n; i += 16777259) { cf_RIPEMD160_Update(&c, p + i, n - i < 16777259 ? n - i : 16777259); mc_step(); }
			cf_RIPEMD160_Final(a, &c);
		}
		// What OpenSSL gives, which takes as long again.
		if (known) memcpy(r, "\x46\x56\x97\x49\x17\x24\xf8\xf8\x43\x01\xea\x3a\x52\x31\x72\x7a\xae\x76\x26\x0d", 20);
		else RIPEMD160(p, n, r);
	}
	munmap(p, n);
	same(a, r, how ? "ripemd160" : "sha1", n);
	mc_state(mc_hash(n, r, 20));
}

// ---- non-cryptographic hashes ------------------------------------------------------
static uint64_t le(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }
static uint64_t rotl(uint64_t x, int r) { return x << r | x >> (64 - r); }
static uint64_t mix(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; return k ^ k >> 33; }
static void murmur_ref(const uint8_t* p, size_t n, uint64_t* o)
{
	const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
	uint64_t h1 = 0, h2 = 0;
	size_t nb = n / 16;
	for (size_t i = 0; i < nb; i++) {
		uint64_t k1 = le(p + 16 * i, 8), k2 = le(p + 16 * i + 8, 8);
		h1 ^= rotl(k1 * c1, 31) * c2; h1 = (rotl(h1, 27) + h2) * 5 + 0x52dce729;
		h2 ^= rotl(k2 * c2, 33) * c1; h2 = (rotl(h2, 31) + h1) * 5 + 0x38495ab5;
	}
	const uint8_t* t = p + nb * 16;
	int m = (int)(n % 16);
	if (m > 8) h2 ^= rotl(le(t + 8, m - 8) * c2, 33) * c1;
	if (m > 0) h1 ^= rotl(le(t, m > 8 ? 8 : m) * c1, 31) * c2;
	h1 ^= n; h2 ^= n;
	h1 += h2; h2 += h1;
	h1 = mix(h1); h2 = mix(h2);
	h1 += h2; h2 += h1;
	o[0] = h1; o[1] = h2;
}
static uint64_t mum(uint64_t a, uint64_t b) { __uint128_t r = (__uint128_t)a * b; return (uint64_t)r ^ (uint64_t)(r >> 64); }
static uint64_t wy_ref(const uint8_t* p, size_t n)
{
	// wyhash final version 3 with its default secret.
	static const uint64_t s[4] = { 0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x8ebc6af09c88c6e3ULL, 0x589965cc75374cc3ULL };
	uint64_t seed = 0x29FBB14cc886fULL ^ s[0], a, b;
	if (n == 0) a = b = 0;
	else if (n < 4) { a = (uint64_t)p[0] << 16 | (uint64_t)p[n / 2] << 8 | p[n - 1]; b = 0; }
	else if (n <= 16) {
		size_t q = n / 8 * 4;
		a = le(p, 4) << 32 | le(p + q, 4);
		b = le(p + n - 4, 4) << 32 | le(p + n - 4 - q, 4);
	}
	else {
		size_t i = n;
		uint64_t s1 = seed, s2 = seed;
		bool big = i > 48;
		while (i > 48) {
			seed = mum(le(p, 8) ^ s[1], le(p + 8, 8) ^ seed);
			s1 = mum(le(p + 16, 8) ^ s[2], le(p + 24, 8) ^ s1);
			s2 = mum(le(p + 32, 8) ^ s[3], le(p + 40, 8) ^ s2);
			p += 48; i -= 48;
		}
		if (big) seed ^= s1 ^ s2;
		while (i > 16) { seed = mum(le(p, 8) ^ s[1], le(p + 8, 8) ^ seed); i -= 16; p += 16; }
		a = le(p + i - 16, 8);
		b = le(p + i - 8, 8);
	}
	return mum(s[1] ^ n, mum(a ^ s[1], b ^ seed));
}
static void hash_all(const uint8_t* p, size_t n)
{
	uint32_t f32 = 2166136261u, j32 = 0;
	uint64_t f64 = 14695981039346656037ULL, j64 = 0;
	for (size_t i = 0; i < n; i++) {
		f32 = (f32 ^ p[i]) * 16777619u;
		f64 = (f64 ^ p[i]) * 1099511628211ULL;
		j32 += p[i]; j32 += j32 << 10; j32 ^= j32 >> 6;
		j64 += p[i]; j64 += j64 << 10; j64 ^= j64 >> 6;
	}
	j32 += j32 << 3; j32 ^= j32 >> 11; j32 += j32 << 15;
	j64 += j64 << 3; j64 ^= j64 >> 11; j64 += j64 << 15;
	mc_steps(7);
	MC_CHECK(cf_hash_fnv32(p, n) == f32, "fnv32", "FNV-1a/32 of %zu bytes differs", n);
	MC_CHECK(cf_hash_fnv64(p, n) == f64, "fnv64", "FNV-1a/64 of %zu bytes differs", n);
	MC_CHECK(cf_hash_jen32(p, n) == j32, "jen32", "Jenkins/32 of %zu bytes differs", n);
	MC_CHECK(cf_hash_jen64(p, n) == j64, "jen64", "Jenkins/64 of %zu bytes differs", n);
	uint64_t m[4] = { 1, 2, 3, 4 }, r[2];
	murmur_ref(p, n, r);
	murmurHash3_x64_128(p, n, (uint8_t*)(m + 1));
	MC_CHECK(m[1] == r[0] && m[2] == r[1], "murmur", "MurmurHash3 of %zu bytes differs", n);
	MC_CHECK(m[0] == 1 && m[3] == 4, "murmur-overrun", "MurmurHash3 wrote outside its result");
	uint64_t w = wy_ref(p, n);
	MC_CHECK(cf_wyhash64(p, n) == w, "wyhash64", "wyhash of %zu bytes differs", n);
	MC_CHECK(cf_wyhash32(p, n) == (uint32_t)w, "wyhash32", "wyhash/32 of %zu bytes differs", n);
	mc_state(mc_hash_u64(n, w));
}
static void sc_hash(void)
{
	int few = mc_pick(300, 700), k = mc_choose(few + 21);
	size_t n = k < few ? (size_t)k : larges[k - few];
	int align = mc_choose(mc_pick(8, 16)), pattern = mc_choose(4);
	uint8_t* blk;
	uint8_t* p = message(&blk, n, align, pattern);
	hash_all(p, n);
	free(blk);
}
// Single bits at every position: no byte is left out.
static void sc_hash_bits(void)
{
	size_t n = 1 + (size_t)mc_choose(mc_pick(70, 130));
	size_t at = (size_t)mc_choose((int)n);
	int bit = mc_choose(8);
	uint8_t* blk;
	uint8_t* p = message(&blk, n, 1, 2);
	p[at] = (uint8_t)(1 << bit);
	hash_all(p, n);
	uint8_t a[20], r[20];
	mc_steps(2);
	cf_SHA1(p, n, a); SHA1(p, n, r); same(a, r, "sha1", n);
	cf_RIPEMD160(p, n, a); RIPEMD160(p, n, r); same(a, r, "ripemd160", n);
	free(blk);
}
// The pointer hash: the upper half of a product modulo 2^64.
static void sc_hash_ptr(void)
{
	int i = mc_choose(64), j = mc_choose(64), inv = mc_choose(2);
	uint64_t v = 1ULL << i | 1ULL << j;
	if (inv) v = ~v;
	uint64_t* p = malloc(8);
	*p = v;
	uint64_t want = 0;
	for (int b = 0; b < 64; b++) if (v >> b & 1) want += 0xe221f97c30e94e1dULL << b;
	mc_step();
	uint32_t h = cf_hash_ptr32(p);
	MC_CHECK(h == want >> 32, "ptr32", "hash of pointer %016llx is %08x, expected %08x", (unsigned long long)v, h, (unsigned)(want >> 32));
	MC_CHECK(*p == v, "ptr32-changed", "the hashed pointer changed");
	mc_state(mc_hash_u64(7, want));
	free(p);
}

const mc_scenario mc_scenarios[] = {
	{ "lengths", sc_lengths, 1, "every length 0..399 (1099) x 2 (4) patterns x 4 (16) alignments" },
	{ "splits", sc_splits, 2, "messages of 0..69, 133..136 (188..199) bytes x every split into four updates" },
	{ "large", sc_large, 2, "21 lengths of 511..131073 in up to three parts cut at 16 places" },
	{ "huge", sc_huge, 2, "2^29-1, 2^29, 2^29+65, 2^32+7 (2^32-1) zero bytes, at once and in parts" },
	{ "hash", sc_hash, 1, "every length 0..299 (699) and 21 up to 131073 x 8 (16) alignments x 4 patterns" },
	{ "hash_bits", sc_hash_bits, 1, "every single bit of messages of 1..70 (130) bytes" },
	{ "hash_ptr", sc_hash_ptr, 1, "every pointer value with one or two bits set or clear" },
	{ NULL } };
