// C23: deadlines, readings and epoch conversions under a substituted clock.
#include "mc.h"
#include <citrusleaf/cf_clock.h>
#include <limits.h>
#include <stdio.h>
#include <sys/time.h>
#include <time.h>

typedef __int128 wide;
static struct timespec wall, mono;
static bool active;

int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!active) return __real_clock_gettime(id, ts);
	*ts = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall : mono;
	return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z)
{
	if (!active) return __real_gettimeofday(tv, z);
	tv->tv_sec = wall.tv_sec;
	tv->tv_usec = wall.tv_nsec / 1000;
	return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t)
{
	if (!active) return __real_time(t);
	if (t) *t = wall.tv_sec;
	return wall.tv_sec;
}

#define G ((wide)1000000000)
static wide total(const struct timespec* t) { return (wide)t->tv_sec * G + t->tv_nsec; }
static bool valid(const struct timespec* t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }

static const int64_t secs[] = { 1700000000, 0, 1, 1262303999, 1262304000, 2147483647, 2147483648, 4294967295, 4294967296, 5557271295, 9000000000 };
enum { NSEC = sizeof secs / sizeof *secs };
// Sub-second positions: around every millisecond, and around a few others.
static const long fine[] = { 0, 1, 999, 1000, 1001, 499999999, 500000000, 999000, 999001, 999999, 999998999, 999999000, 999999998, 999999999 };
enum { NFINE = sizeof fine / sizeof *fine, NPOS = 3000 + NFINE };
static long position(int k)
{
	if (k < NFINE) return fine[k];
	k -= NFINE;
	long p = (long)(k / 3) * 1000000 + k % 3 - 1;
	return p < 0 ? 0 : p;
}
static const int wbase[] = { 3600000, 60000, 100000, 1000000, 999999999, 1000000000, 2147482000, INT_MAX - 1100 };
static int n_waits(void) { return 2200 + 8 * 5; }
static int wait_at(int k) { return k < 2200 ? k < 2100 ? k : INT_MAX - (k - 2100) : wbase[(k - 2200) / 5] + (k - 2200) % 5 * 250; }

static void at(int64_t s, long ns) { wall = (struct timespec){ s, ns }; mono = (struct timespec){ s / 3 + 7, 999999999 - ns }; active = true; }

static void sc_wait(void)
{
	int64_t s = secs[mc_choose(NSEC)];
	int step = mc_pick(5, 1);
	int k = mc_choose(NPOS);
	at(s, position(k));
	for (int w = 0; w < n_waits(); w++) {
		if (step > 1 && w % step != k % step && w % 1000 > 3 && w % 1000 < 997) continue;
		struct timespec out = { -1, -1 };
		int ms = wait_at(w);
		cf_set_wait_timespec(ms, &out);
		if (!valid(&out) || total(&out) != total(&wall) + (wide)ms * 1000000)
			mc_violation("deadline", "%d ms after %lld.%09ld is given as %lld.%09ld", ms, (long long)s, wall.tv_nsec, (long long)out.tv_sec, out.tv_nsec);
		mc_case();
	}
	active = false;
	mc_step();
	mc_state(mc_hash_u64((uint64_t)s, (uint64_t)k));
}
static void sc_add(void)
{
	int64_t s = secs[mc_choose(NSEC)];
	int k = mc_choose(NPOS);
	at(s, position(k));
	static const int64_t ds[] = { 0, 1, 59, 86400, 2147483647, 4294967296 };
	for (int a = 0; a < 6; a++) for (int b = 0; b < NPOS + 4; b++) {
		// Also exactly what is missing to the next second.
		long ns = b < NPOS ? position(b) : (1000000000 - wall.tv_nsec + (b - NPOS) - 2) % 1000000000;
		if (ns < 0) ns = 0;
		if (!mc_thorough() && b < NPOS && b > NFINE && (b + k) % 7) continue;
		struct timespec d = { ds[a], ns }, out = { -1, -1 };
		cf_clock_current_add(&d, &out);
		if (!valid(&out) || total(&out) != total(&wall) + total(&d))
			mc_violation("deadline", "%lld.%09ld after %lld.%09ld is given as %lld.%09ld", (long long)d.tv_sec, d.tv_nsec, (long long)s, wall.tv_nsec, (long long)out.tv_sec, out.tv_nsec);
		MC_CHECK(d.tv_sec == ds[a] && d.tv_nsec == ns, "modified", "the interval was changed");
		mc_case();
	}
	active = false;
	mc_step();
	mc_state(mc_hash_u64((uint64_t)s, (uint64_t)k));
}
static void sc_interval(void)
{
	int block = mc_choose(2200);
	for (int i = 0; i < 1000; i++) {
		int64_t v = block < 2190 ? (int64_t)block * 1000 + i : (int64_t)INT_MAX - (block - 2190) * 1000 - i;
		struct timespec out = { -1, -1 };
		cf_clock_set_timespec_ms((int)v, &out);
		if (!valid(&out) || total(&out) != (wide)v * 1000000) mc_violation("interval", "%d ms is given as %lld.%09ld", (int)v, (long long)out.tv_sec, out.tv_nsec);
		mc_case();
	}
	mc_step();
	mc_state((uint64_t)block);
}
static void sc_read(void)
{
	int64_t s = secs[mc_choose(NSEC)];
	int k = mc_choose(NPOS);
	at(s, position(k));
	wide m = total(&mono), w = total(&wall), e = (wide)1262304000 * G;
	uint64_t ns = cf_getns(), us = cf_getus(), ms = cf_getms(), sec = cf_get_seconds(), abs = cf_clock_getabsolute();
	MC_CHECK(ns == (uint64_t)m && us == (uint64_t)(m / 1000) && ms == (uint64_t)(m / 1000000) && sec == (uint64_t)(m / G), "monotonic",
		"at %lld.%09ld: %llu ns, %llu us, %llu ms, %llu s", (long long)mono.tv_sec, mono.tv_nsec, (unsigned long long)ns, (unsigned long long)us, (unsigned long long)ms, (unsigned long long)sec);
	MC_CHECK(abs == (uint64_t)(w / 1000000), "wall", "at %lld.%09ld the wall clock gives %llu ms", (long long)s, wall.tv_nsec, (unsigned long long)abs);
	if (w >= e) {	// before the library epoch there is nothing to give
		uint64_t cms = cf_clepoch_milliseconds(), cs = cf_secs_since_clepoch();
		uint32_t cs32 = cf_clepoch_seconds();
		MC_CHECK(cms == (uint64_t)((w - e) / 1000000) && cs == (uint64_t)((w - e) / G) && cs32 == (uint32_t)((w - e) / G), "epoch",
			"at %lld.%09ld: %llu ms, %llu s, %u s since the epoch", (long long)s, wall.tv_nsec, (unsigned long long)cms, (unsigned long long)cs, cs32);
	}
	active = false;
	mc_step();
	mc_state(mc_hash_u64((uint64_t)s, (uint64_t)k));
}
static void sc_convert(void)
{
	static const uint64_t base[] = { 0, CITRUSLEAF_EPOCH_NS, 1000, 1000000, 1000000000, UINT64_MAX - 4000, CITRUSLEAF_EPOCH_NS + 1000000000, CITRUSLEAF_EPOCH_NS + 1000000, INT64_MAX,
		1700000000000000000ull, 4294967296ull * 1000000000ull, UINT64_MAX / 2 + 1, CITRUSLEAF_EPOCH_NS * 2, 2 * CITRUSLEAF_EPOCH_NS - 1000 };
	int b = mc_choose(14);
	wide e = (wide)1262304000 * G;
	for (int i = -4000; i <= 4000; i++) {
		uint64_t u = base[b] + (uint64_t)(int64_t)i;
		if (i < 0 && base[b] < (uint64_t)-i) continue;
		wide c = (wide)u > e ? (wide)u - e : 0;
		MC_CHECK(cf_clepoch_ns_from_utc_ns(u) == (uint64_t)c && cf_clepoch_us_from_utc_ns(u) == (uint64_t)(c / 1000) && cf_clepoch_ms_from_utc_ns(u) == (uint64_t)(c / 1000000)
			&& cf_clepoch_sec_from_utc_ns(u) == (uint64_t)(c / G), "to-epoch", "conversion of %llu ns to the library epoch is wrong", (unsigned long long)u);
		static const wide unit[] = { 1, 1000, 1000000, 1000000000 };
		for (int k = 0; k < 4; k++) {
			wide back = (wide)u * unit[k] + e;
			if (back > (wide)UINT64_MAX) continue;	// documented as not detected
			uint64_t r = k == 0 ? cf_utc_ns_from_clepoch_ns(u) : k == 1 ? cf_utc_ns_from_clepoch_us(u) : k == 2 ? cf_utc_ns_from_clepoch_ms(u) : cf_utc_ns_from_clepoch_sec(u);
			MC_CHECK(r == (uint64_t)back, "from-epoch", "%llu (unit %d) of the library epoch becomes %llu ns", (unsigned long long)u, k, (unsigned long long)r);
			uint64_t again = k == 0 ? cf_clepoch_ns_from_utc_ns(r) : k == 1 ? cf_clepoch_us_from_utc_ns(r) : k == 2 ? cf_clepoch_ms_from_utc_ns(r) : cf_clepoch_sec_from_utc_ns(r);
			MC_CHECK(again == u, "inverse", "%llu (unit %d) does not convert there and back", (unsigned long long)u, k);
		}
		mc_case();
	}
	mc_step();
	mc_state((uint64_t)b);
}
static void sc_ttl(void)
{
	static const uint32_t nows[] = { 0, 1, 2, 100, 437696000, INT_MAX, (uint32_t)INT_MAX + 1, UINT32_MAX - 2, UINT32_MAX - 1, UINT32_MAX };
	uint32_t now = nows[mc_choose(10)];
	int part = mc_choose(5);
	at((int64_t)1262304000 + now, position(mc_choose(NFINE)));
	static const uint32_t from[] = { 0, INT_MAX - 2000u, UINT32_MAX - 4000u, 437694000, 0 };
	for (uint32_t i = 0; i <= 4000; i++) {
		uint32_t v = part == 4 ? now - 2000 + i : from[part] + i;
		uint32_t want = v == 0 ? UINT32_MAX : v > now ? v - now : 1;
		uint32_t got = cf_server_void_time_to_ttl(v);
		if (got != want) mc_violation("ttl", "expiry %u at %u becomes a lifetime of %u", v, now, got);
		mc_case();
	}
	active = false;
	mc_step();
	mc_state(mc_hash_u64(now, (uint64_t)part));
}
const mc_scenario mc_scenarios[] = {
	{ "read", sc_read, 2, "11 times x 3014 sub-second positions, every reading" },
	{ "interval", sc_interval, 1, "every interval of 0..2190000 ms and the last 10000" },
	{ "convert", sc_convert, 1, "8001 values around each of 14 boundaries, every unit, there and back" },
	{ "ttl", sc_ttl, 3, "10 times x 14 sub-second positions x 5 ranges of 4001 expiry times" },
	{ "wait", sc_wait, 2, "11 times x 3014 sub-second positions x 2240 waits (quick: a fifth of the waits away from whole seconds)" },
	{ "add", sc_add, 2, "11 times x 3014 sub-second positions x 6 x 3018 intervals (quick: a seventh of the finer ones)" },
	{ NULL } };
