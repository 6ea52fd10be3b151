// C32: pauses and thread names.
#include "mc.h"
#include <aerospike/as_std.h>
#include <aerospike/as_sleep.h>
#include <aerospike/as_thread.h>
#include <errno.h>
#include <poll.h>
#include <string.h>
#include <sys/select.h>
#include <time.h>

// Pausing only adds up the time.
static unsigned __int128 slept;
static int refused;
static int pause_ns(const struct timespec* t)
{
	if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { refused++; errno = EINVAL; return -1; }
	slept += (unsigned __int128)t->tv_sec * 1000000000 + (unsigned)t->tv_nsec;
	return 0;
}
int __wrap_usleep(useconds_t us) { slept += (unsigned __int128)us * 1000; return 0; }
unsigned __wrap_sleep(unsigned s) { slept += (unsigned __int128)s * 1000000000; return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (r) memset(r, 0, sizeof *r); return pause_ns(t); }
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* r)
{
	(void)c; (void)flags;
	if (r) memset(r, 0, sizeof *r);
	return pause_ns(t) ? EINVAL : 0;
}
int __wrap_select(int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* t)
{
	(void)n; (void)a; (void)b; (void)c;
	struct timespec ts = { t->tv_sec, t->tv_usec * 1000 };
	return pause_ns(&ts);
}
int __wrap_poll(struct pollfd* f, nfds_t n, int ms) { (void)f; (void)n; slept += (unsigned __int128)(unsigned)ms * 1000000; return 0; }

static void pause_for(uint32_t ms)
{
	slept = 0; refused = 0;
	as_sleep(ms);
	MC_CHECK(!refused && slept == (unsigned __int128)ms * 1000000, "duration", "a pause of %u ms lasts %llu ms", ms, (unsigned long long)(slept / 1000000));
	mc_step();
}
static void sc_short(void)
{
	uint32_t from = (uint32_t)mc_choose(256) * 256;
	for (uint32_t i = 0; i < 256; i++) pause_for(from + i);
	mc_state(from);
}
// Around every power of two and every time the microseconds pass a multiple of 2^32.
static void sc_edge(void)
{
	int k = mc_choose(32 + 1000);
	uint64_t at = k < 32 ? 1ull << k : (((uint64_t)(k - 31) << 32) + 999) / 1000;
	for (int d = -64; d <= 64; d++) if (at + (uint64_t)d <= UINT32_MAX) pause_for((uint32_t)(at + (uint64_t)d));
	mc_state((uint64_t)k);
}
static void sc_bytes(void)
{
	// Every byte in every position over three backgrounds.
	static const uint32_t bg[] = { 0, 0xffffffff, 0x00a5c3f1 };
	int p = mc_choose(4);
	uint32_t v = (uint32_t)mc_choose(256), b = bg[mc_choose(3)];
	pause_for((b & ~(0xffu << 8 * p)) | v << 8 * p);
	mc_state((b & ~(0xffu << 8 * p)) | v << 8 * p);
}
// ---- names -----------------------------------------------------------------
static void name_is(const char* want, const char* how)
{
	char got[64];
	if (pthread_getname_np(pthread_self(), got, sizeof got)) mc_error("a thread's name cannot be read");
	MC_CHECK(!strcmp(got, want), "name", "after %s the thread is called '%s', not '%s'", how, got, want);
	mc_step();
}
typedef struct { int len[2], index[2], kind[2]; } naming;
static const uint32_t ixs[] = { 0, 9, 10, 99, 100, 65535, 999999999, 2147483648u, UINT32_MAX };
static void* named(void* p)
{
	naming* n = p;
	for (int i = 0; i < 2; i++) {
		char* base = malloc((size_t)n->len[i] + 1);
		char want[64];
		for (int k = 0; k < n->len[i]; k++) base[k] = (char)('a' + (k + i) % 26);
		base[n->len[i]] = 0;
		if (n->kind[i]) {
			as_thread_set_name_index(base, ixs[n->index[i]]);
			snprintf(want, sizeof want, "%s%u", base, ixs[n->index[i]]);
		}
		else {
			as_thread_set_name(base);
			snprintf(want, sizeof want, "%s", base);
		}
		want[AS_THREAD_NAME_MAX - 1] = 0;
		free(base);
		name_is(want, n->kind[i] ? "naming with an index" : "naming");
		mc_state(mc_hash(1, want, strlen(want)));
	}
	return NULL;
}
static void sc_name(void)
{
	naming n;
	for (int i = 0; i < 2; i++) {
		n.kind[i] = mc_choose(2);
		// A longer name without index is not specified.
		n.len[i] = mc_choose(n.kind[i] ? (i ? 4 : mc_pick(20, 32)) : (i ? 3 : 16));
		n.index[i] = n.kind[i] ? mc_choose(i ? 3 : 9) : 0;
	}
	// In a thread of its own: the name belongs to that thread only.
	char mine[64], after[64];
	pthread_getname_np(pthread_self(), mine, sizeof mine);
	pthread_t t;
	if (pthread_create(&t, NULL, named, &n)) mc_error("no thread");
	pthread_join(t, NULL);
	pthread_getname_np(pthread_self(), after, sizeof after);
	MC_CHECK(!strcmp(mine, after), "other", "naming a thread renames another to '%s'", after);
}
const mc_scenario mc_scenarios[] = {
	{ "short", sc_short, 1, "every pause of 0..65535 ms" },
	{ "edge", sc_edge, 1, "129 values around every power of two and around every overflow of 32-bit microseconds" },
	{ "bytes", sc_bytes, 1, "every byte in every position over 3 backgrounds" },
	{ "name", sc_name, 3, "two successive names of 0..15 characters, or of 0..19 (31) with 9 indices, in a thread of their own" },
	{ NULL } };
