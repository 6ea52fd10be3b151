// C21: random bytes, with the entropy source substituted: every byte it gives is known.
#include "mcthr.h"
#include <aerospike/as_random.h>
#include <citrusleaf/cf_random.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

MC_QUIET_BEGIN
// Seen by the race detection like any write by the source.
void __tsan_write_range(void*, size_t);
static void fill_from(uint8_t* d, const uint8_t* s, size_t n) { __tsan_write_range(d, n); memcpy(d, s, n); }

// ---- the entropy source ------------------------------------------------------
#define STREAM (1u << 17)
#define BUF 8192
static uint8_t stream[STREAM];
static uint32_t head[1 << 16], nxt[STREAM];	// windows of four bytes by hash
static uint8_t given[STREAM];			// handed to a request
static uint32_t pos;				// bytes taken from the source
static int calls, fail_at, fail_kind;
static bool fail_forever, active, failed;
static int fd_no = 777123;

static uint32_t win(const uint8_t* p) { uint32_t v; memcpy(&v, p, 4); return v; }
static uint32_t slot(uint32_t v) { return v * 2654435761u >> 16; }
static void make_stream(void)
{
	static bool done;
	if (done) return;
	done = true;
	uint64_t x = 88172645463325252ull;
	for (uint32_t i = 0; i < STREAM; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; stream[i] = (uint8_t)(x >> 24); }
	for (uint32_t i = 0; i + 4 <= STREAM; i++) {
		uint32_t h = slot(win(stream + i));
		nxt[i] = head[h];
		head[h] = i + 1;
	}
}
static bool fails(void)
{
	int c = calls++;
	bool f = fail_at >= 0 && (c == fail_at || (fail_forever && c > fail_at));
	failed |= f;
	return f;
}
static void give(void* d, size_t n)
{
	if (pos + n > STREAM) mc_error("entropy stream used up");
	fill_from(d, stream + pos, n);
	pos += (uint32_t)n;
}
static void garbage(void* d, size_t n)
{
	static const uint8_t zero[BUF];
	fill_from(d, zero, n < BUF ? n : BUF);
}
int __real_RAND_bytes(unsigned char*, int);
int __wrap_RAND_bytes(unsigned char* d, int n)
{
	if (!active) return __real_RAND_bytes(d, n);
	mc_point();
	if (fails()) { if (fail_kind & 1) garbage(d, (size_t)n); return fail_kind & 2 ? -1 : 0; }
	give(d, (size_t)n);
	return 1;
}
int __real_RAND_priv_bytes(unsigned char*, int);
int __wrap_RAND_priv_bytes(unsigned char* d, int n) { return active ? __wrap_RAND_bytes(d, n) : __real_RAND_priv_bytes(d, n); }
void __real_RAND_seed(const void*, int);
void __wrap_RAND_seed(const void* d, int n) { if (!active) __real_RAND_seed(d, n); }
static bool device(const char* p) { return active && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
// Both names, files of 64 bit sizes have the second one.
#define OPEN(name) \
int __real_##name(const char*, int, ...); \
int __wrap_##name(const char* p, int fl, ...) \
{ \
	va_list ap; \
	va_start(ap, fl); \
	int mode = va_arg(ap, int); \
	va_end(ap); \
	if (!device(p)) return __real_##name(p, fl, mode); \
	mc_point(); \
	if (fails()) { errno = EMFILE; return -1; } \
	return fd_no; \
}
OPEN(open)
OPEN(open64)
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* d, size_t n)
{
	if (fd != fd_no || !active) return __real_read(fd, d, n);
	mc_point();
	if (fails()) {
		if (fail_kind == 0) { errno = EIO; return -1; }
		if (fail_kind == 1) return 0;
		give(d, n - 1);
		return (ssize_t)n - 1;
	}
	give(d, n);
	return (ssize_t)n;
}
int __real_close(int);
static int fd_closed;
int __wrap_close(int fd) { if (fd != fd_no || !active) return __real_close(fd); fd_closed++; return 0; }
ssize_t __real_getrandom(void*, size_t, unsigned);
ssize_t __wrap_getrandom(void* d, size_t n, unsigned fl)
{
	if (!active) return __real_getrandom(d, n, fl);
	mc_point();
	if (fails()) { errno = EAGAIN; return -1; }
	give(d, n);
	return (ssize_t)n;
}

// ---- what was handed out -----------------------------------------------------
// Claims the bytes in the source's output; every one at most once.
static void claim(const uint8_t* b, int len, const char* what)
{
	int i = 0;
	while (i < len) {
		if (len - i < 4) {	// too short to place: must at least occur unclaimed
			for (; i < len; i++) {
				uint32_t p = 0;
				while (p < pos && (given[p] || stream[p] != b[i])) p++;
				MC_CHECK(p < pos, "not-entropy", "%s: byte %d of %d did not come from the entropy source", what, i, len);
				if (len >= 4) given[p] = 1;
			}
			return;
		}
		int best = 0;
		uint32_t at = 0;
		bool used = false;
		for (uint32_t k = head[slot(win(b + i))]; k; k = nxt[k - 1]) {
			uint32_t p = k - 1;
			int n = 0;
			while (i + n < len && p + (uint32_t)n < pos && stream[p + (uint32_t)n] == b[i + n]) n++;
			if (n > best) { best = n; at = p; }
		}
		MC_CHECK(best >= 4, "not-entropy", "%s: byte %d of %d did not come from the entropy source", what, i, len);
		for (int n = 0; n < best; n++) { used |= given[at + (uint32_t)n]; given[at + (uint32_t)n] = 1; }
		MC_CHECK(!used, "handed-twice", "%s: bytes %d..%d of %d were handed to another request as well", what, i, i + best - 1, len);
		i += best;
	}
}

static void begin(void)
{
	make_stream();
	memset(given, 0, sizeof given);
	pos = 0;
	calls = 0;
	fail_at = -1;
	fail_kind = 0;
	fail_forever = failed = false;
	fd_closed = 0;
	active = true;
}
static void end(void) { active = false; }

#define GUARD 8
enum { R32 = -100, R64 = -101 };
static void request(int len)
{
	bool before = failed;
	failed = false;
	uint32_t from = pos;
	if (len == R32 || len == R64) {
		uint64_t v = len == R32 ? cf_get_rand32() : cf_get_rand64();
		mc_log("T%d rand%d -> %llx%s", mc_self(), len == R32 ? 32 : 64, (unsigned long long)v, failed ? " (source failed)" : "");
		// There is no way to report failure but zero.
		if (!(failed && v == 0)) claim((uint8_t*)&v, len == R32 ? 4 : 8, "number");
		mc_state(mc_hash_u64((uint64_t)(len == R32), from * 4 + (uint64_t)failed));
	}
	else {
		bool huge = len < 0 || len >= BUF;
		size_t room = len < 0 ? 64 : len > BUF + 64 ? BUF + 64 : (size_t)len;
		uint8_t* b = malloc(room + 2 * GUARD);
		memset(b, 0xC3, room + 2 * GUARD);
		int rc = cf_get_rand_buf(b + GUARD, len);
		mc_log("T%d rand_buf(%d) -> %d%s", mc_self(), len, rc, failed ? " (source failed)" : "");
		MC_CHECK(rc == 0 || rc == -1, "code", "a request for %d bytes gives %d", len, rc);
		MC_CHECK(rc == 0 || failed || huge, "refused", "a request for %d bytes is refused although the source works", len);
		if (rc == 0) {
			MC_CHECK(len >= 0, "code", "a request for %d bytes succeeds", len);
			claim(b + GUARD, len, "request");
		}
		size_t n = rc == 0 ? (size_t)len : room;
		for (int i = 0; i < GUARD; i++) MC_CHECK(b[i] == 0xC3 && b[GUARD + n + (size_t)i] == 0xC3, "overrun", "a request for %d bytes writes outside them", len);
		free(b);
		mc_state(mc_hash_u64((uint64_t)(len + 200), from * 4 + (uint64_t)failed * 2 + (uint64_t)(rc == 0)));
	}
	failed |= before;
	mc_step();
}
static const int lens[] = { 8, R32, R64, 4, 8191, 8184, 4096, 16, 0, 8188, 5, 4097 };

static void sc_length(void)
{
	begin();
	int first = mc_choose(4);
	static const int firsts[] = { 0, 8, 100, 8185 };
	if (first) request(firsts[first]);
	int k = mc_choose(8400);
	static const int odd[] = { -1, -2147483647 - 1, 2147483647, -8192, 65536 };
	request(k >= 8395 ? odd[k - 8395] : k);
	request(8);
	end();
}
static void sc_seq(void)
{
	begin();
	int n = mc_pick(4, 5);
	for (int i = 0; i < n; i++) request(lens[mc_choose(12)]);
	end();
}
// Every failure of the source, once or for good.
static void sc_fault(void)
{
	begin();
	int place = mc_choose(2);
	if (place) request(lens[3 + mc_choose(4)]);
	calls = 0;
	fail_at = mc_choose(4);
	fail_forever = mc_choose(2);
	fail_kind = mc_choose(4);
	fd_no = mc_flip() ? 0 : 777123;		// 0 where standard input is closed
	for (int i = 0; i < 3; i++) request(lens[mc_choose(8)]);
	fail_at = -1;
	failed = false;
	request(lens[mc_choose(5)]);
	end();
}
static int prog[3][3], plen[3];
static void user(void* p) { int t = (int)(intptr_t)p; for (int i = 0; i < plen[t]; i++) request(prog[t][i]); }
static void threads(int n, const int* per, int bound, bool fault)
{
	static const int what[] = { 8, R32, R64, 4, 16 };
	begin();
	int placed = mc_choose(5) * 8;	// how far the pool is from running dry
	if (placed) request(8191);
	for (int i = 8; placed && i < placed; i += 4) request(4);
	uint64_t tag = (uint64_t)placed;
	for (int t = 0; t < n; t++) {
		plen[t] = per[t];
		for (int i = 0; i < per[t]; i++) { int k = mc_choose(5); prog[t][i] = what[k]; tag = tag * 7 + (uint64_t)k; }
	}
	calls = 0;
	if (fault) { fail_at = mc_choose(3); fail_kind = mc_choose(2); tag = tag * 8 + (uint64_t)fail_at * 2 + (uint64_t)fail_kind + 1; }
	for (int t = 0; t < n; t++) mc_spawn(user, (void*)(intptr_t)t, "user");
	mc_sched_tag(tag);
	mc_sched_bound(bound);
	// 'failed' is per request only in sequential runs.
	mc_join_all();
	end();
}
static void sc_two(void) { int per[2] = { 2, mc_pick(1, 2) }; threads(2, per, -1, false); }
static void sc_three(void) { int per[3] = { 1, 1, 1 }; threads(3, per, mc_pick(3, -1), false); }

// ---- generators --------------------------------------------------------------
static uint64_t draw(as_random* r, uint8_t* out, int kind, uint32_t len)
{
	memset(out, 0, 64);
	if (kind == 0) { uint64_t v = as_random_next_uint64(r); memcpy(out, &v, 8); }
	else if (kind == 1) { uint32_t v = as_random_next_uint32(r); memcpy(out, &v, 4); }
	else if (kind == 2) as_random_next_bytes(r, out, len);
	else as_random_next_str(r, (char*)out, len);
	return 0;
}
static void seed(as_random* r, int s)
{
	static const uint64_t a[] = { 1, 0x123456789abcdef0ull, UINT64_MAX }, b[] = { 2, 0xfeedfacecafebeefull, 1 };
	*r = (as_random){ .seed0 = a[s], .seed1 = b[s], .initialized = true };
}
static void sc_fill(void)
{
	begin();
	uint32_t len = (uint32_t)mc_choose(mc_pick(70, 600));
	bool str = mc_choose(2);
	int s = mc_choose(3), mis = mc_choose(8);
	uint8_t* b[2];
	for (int k = 0; k < 2; k++) {
		as_random r;
		seed(&r, s);
		size_t n = len + (str ? 1u : 0u);
		b[k] = malloc(n + 16 + 8);
		uint8_t fill = k ? 0xFF : 0x00, *p = b[k] + 8 + mis;
		memset(b[k], fill, n + 16 + 8);
		if (str) as_random_next_str(&r, (char*)p, len); else as_random_next_bytes(&r, p, len);
		for (uint8_t* q = b[k]; q < p; q++) MC_CHECK(*q == fill, "overrun", "a fill of %u writes before the buffer", len);
		for (uint8_t* q = p + n; q < b[k] + n + 24; q++) MC_CHECK(*q == fill, "overrun", "a fill of %u writes past the buffer", len);
		if (str) {
			MC_CHECK(p[len] == 0, "terminator", "a random string of %u is not terminated", len);
			for (uint32_t i = 0; i < len; i++)
				MC_CHECK((p[i] >= '0' && p[i] <= '9') || (p[i] >= 'A' && p[i] <= 'Z') || (p[i] >= 'a' && p[i] <= 'z'), "alphabet", "character %02x in a random string", p[i]);
		}
	}
	MC_CHECK(memcmp(b[0] + 8 + mis, b[1] + 8 + mis, len) == 0, "not-filled", "a fill of %u bytes leaves some unwritten or depends on what was there", len);
	mc_state(mc_hash(len * 6 + (uint64_t)s * 2 + str, b[0] + 8 + mis, len));
	mc_step();
	free(b[0]); free(b[1]);
	end();
}
// A generator gives the same whoever else draws.
static void sc_own(void)
{
	begin();
	as_random a, b, solo;
	int sa = mc_choose(3), sb = mc_choose(3), n = mc_pick(3, 4);
	seed(&a, sa); seed(&b, sb); seed(&solo, sa);
	for (int i = 0; i < n; i++) {
		uint8_t x[64], y[64];
		int kind = mc_choose(4);
		uint32_t len = (uint32_t[]){ 3, 8, 17 }[mc_choose(3)];
		draw(&a, x, kind, len);
		draw(&solo, y, kind, len);
		MC_CHECK(memcmp(x, y, 64) == 0, "depends", "two generators with one seed differ at draw %d", i);
		if (mc_choose(2)) { draw(&b, y, kind, len); as_random_get_uint64(); }
		mc_state(mc_hash((uint64_t)(sa * 4 + kind), x, 32));
		mc_step();
	}
	end();
}
// The thread's own generator gives what a copy of it gives.
static void sc_mine(void)
{
	begin();
	as_random fresh = { .initialized = false };
	as_random_init(&fresh);
	MC_CHECK(fresh.initialized && (fresh.seed0 | fresh.seed1) != 0, "unseeded", "a generator prepared is not seeded");
	as_random copy = *as_random_instance();
	int n = mc_pick(2, 3);
	for (int i = 0; i < n; i++) {
		uint8_t x[64], y[64];
		memset(x, 0, sizeof x);
		int kind = mc_choose(4);
		uint32_t len = kind < 2 ? 8 : (uint32_t)mc_choose(20);
		draw(&copy, y, kind, len);
		if (kind == 0) { uint64_t v = as_random_get_uint64(); memcpy(x, &v, 8); }
		else if (kind == 1) { uint32_t v = as_random_get_uint32(); memcpy(x, &v, 4); }
		else if (kind == 2) as_random_get_bytes(x, len);
		else as_random_get_str((char*)x, len);
		MC_CHECK(memcmp(x, y, 64) == 0, "depends", "the thread's generator and a copy of it differ at draw %d", i);
		MC_CHECK(as_random_next_uint64(&fresh) != as_random_get_uint64(), "same-sequence", "two generators draw the same number");
		as_random_next_uint64(&copy);
		mc_state(mc_hash((uint64_t)(kind * 32 + len), x, 64));
		mc_step();
	}
	end();
}
// The documented xorshift128+ sequence, from every pair of single-bit and some other seeds.
static uint64_t seed_word(int i)
{
	static const uint64_t w[] = { 0, UINT64_MAX, 0x123456789abcdef0ull, 0xfeedfacecafebeefull };
	return i < 64 ? 1ull << i : w[i - 64];
}
static void sc_sequence(void)
{
	begin();
	uint64_t a = seed_word(mc_choose(68)), b = seed_word(mc_choose(68));
	as_random r = { .seed0 = a, .seed1 = b, .initialized = true };
	for (int i = 0; i < mc_pick(8, 60); i++) {
		uint64_t x = a, y = b;
		a = y;
		x ^= x << 23;
		b = x ^ y ^ (x >> 18) ^ (y >> 5);
		uint64_t got = as_random_next_uint64(&r);
		MC_CHECK(got == b + y, "sequence", "draw %d is %llx, not %llx of the documented sequence", i, (unsigned long long)got, (unsigned long long)(b + y));
		mc_step();
	}
	mc_state(mc_hash_u64(a, b));
	end();
}
// Strings use the whole alphabet: 4096 of them together have every letter and digit.
static void sc_alphabet(void)
{
	begin();
	bool seen[256] = { false };
	int from = mc_choose(4), len = 1 + mc_choose(mc_pick(20, 70));
	for (int k = 0; k < 4096; k++) {
		as_random r = { .seed0 = seed_word(from * 16 + k % 16), .seed1 = 1 + (uint64_t)k * 0x9e3779b97f4a7c15ull, .initialized = true };
		char s[80];
		as_random_next_str(&r, s, (uint32_t)len);
		for (int i = 0; i < len; i++) seen[(uint8_t)s[i]] = true;
	}
	for (int c = 0; c < 256; c++)
		MC_CHECK(seen[c] == ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')), "alphabet", "%d strings of %d %s character %02x", 4096, len, seen[c] ? "have" : "never have", c);
	mc_step();
	mc_state((uint64_t)(from * 100 + len));
	end();
}
// Every thread has its own generator, seeded from the source on its own.
static uint64_t drawn[3][4];
static const void* inst[3];
static void drawer(void* p)
{
	int t = (int)(intptr_t)p;
	inst[t] = as_random_instance();
	for (int i = 0; i < 3; i++) drawn[t][i] = as_random_get_uint64();
	drawn[t][3] = as_random_get_uint32();
	MC_CHECK(inst[t] == as_random_instance(), "instance", "a thread's generator changes");
}
static void sc_local(void)
{
	begin();
	int n = mc_choose(2) + 2;
	memset(drawn, 0, sizeof drawn);
	for (int t = 0; t < n; t++) mc_spawn(drawer, (void*)(intptr_t)t, "drawer");
	mc_sched_tag((uint64_t)n);
	mc_sched_bound(n == 2 ? -1 : mc_pick(2, 4));
	mc_join_all();
	for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) MC_CHECK(drawn[a][0] != drawn[b][0], "same-sequence", "two threads draw the same numbers");
	// Explained by seeds of two words each, taken in some order from the source.
	mc_state(mc_hash(1, drawn, sizeof drawn));
	end();
}
const mc_scenario mc_scenarios[] = {
	{ "length", sc_length, 2, "every length 0..8394 and 5 out of range, at 4 positions of the pool" },
	{ "seq", sc_seq, 2, "sequences of 4 (5) of 12 requests around the refill" },
	{ "fault", sc_fault, 4, "descriptor 0 or another, each of the first 4 calls of the source failing in 4 ways, once or for good x 5 positions x 3 of 8 requests and one after" },
	{ "two", sc_two, 3, "two threads x 2 + 1 (2) requests of 5 x 5 positions before the refill, all interleavings" },
	{ "three", sc_three, 3, "three threads x 1 request of 5 x 5 positions before the refill, preemption bound 3 (none)" },
	{ "fill", sc_fill, 2, "bytes and strings of 0..69 (599) x 3 seeds x 8 alignments, over two backgrounds" },
	{ "own", sc_own, 2, "3 x 3 seeds x 3 (4) draws of 4 kinds and 3 lengths, interleaved with another generator or not" },
	{ "mine", sc_mine, 2, "2 (3) draws of 4 kinds and 20 lengths from the thread's generator and from a copy of it" },
	{ "sequence", sc_sequence, 1, "8 (60) draws from 68 x 68 seeds" },
	{ "alphabet", sc_alphabet, 1, "4 sets of 4096 seeds x lengths 1..20 (70)" },
	{ "local", sc_local, 1, "two and three threads drawing from their own generators, all interleavings (three: preemption bound 2 (4))" },
	{ NULL } };
MC_QUIET_END
