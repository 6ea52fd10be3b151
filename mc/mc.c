// Exhaustive choice explorer.
//
// The scenario function is executed again and again. Each mc_choose(n) is a
// choice point; executions enumerate the tree of choices depth first, so every
// combination is executed exactly once. Work is shared between forked workers:
// each worker walks all prefixes of 'claim_depth' choices and claims a prefix in
// shared memory before exploring below it.
#define _GNU_SOURCE
#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAX_DEPTH 20000
#define MAX_WORKERS 64
#define N_CLAIMS (1u << 22)
#define MAX_SAMPLES 6
#define MSG_MAX 4000

typedef struct {
	uint32_t len;		// choices on the current path
	uint32_t pos;		// choices consumed by the running execution
	int32_t c[MAX_DEPTH];
	int32_t n[MAX_DEPTH];
} path_t;

typedef struct {
	path_t path;
	volatile uint64_t heartbeat;
	volatile uint64_t execs;	// paths completed
	volatile uint64_t cases;
	volatile uint64_t steps;
	volatile uint64_t choices;
	volatile uint64_t pruned;
	volatile uint32_t max_depth;
	volatile int in_exec;
	volatile int done;
} worker_t;

typedef struct {
	atomic_int stop;
	atomic_int viol_lock;
	int have_viol;
	char viol_sig[200];
	char viol_msg[MSG_MAX];
	path_t viol_path;
	int have_error;
	char error_msg[MSG_MAX];
	atomic_uint known_hits;
	char known_sig[200];
	atomic_int n_samples;
	struct { uint32_t len; int32_t c[64]; int full; } samples[MAX_SAMPLES];
	atomic_ullong n_states;
	atomic_int states_full;
	worker_t w[MAX_WORKERS];
} shared_t;

static shared_t* S;
static atomic_uchar* claims;
static atomic_ullong* states;
static uint64_t n_state_slots;

static worker_t* W;
static path_t* P;
static sigjmp_buf path_jmp;
static bool in_path;
static bool replaying;
static bool verbose;
static bool thorough;
static int claim_depth;
static uint32_t prefix_ord;
static bool prefix_pending;
static bool prefix_mine;
static uint32_t fresh_from;
static const char* params[64];
static int n_params;
static const char* known[64];
static int n_known;
static FILE* logf_;

void (*mc_path_begin_hook)(void);
void (*mc_path_end_hook)(bool completed);

enum { J_PRUNE = 1, J_SKIP = 2, J_VIOL = 3, J_KNOWN = 4 };

bool mc_fresh(void) { return replaying || P->pos > fresh_from; }
bool mc_thorough(void) { return thorough; }
int mc_pick(int q, int t) { return thorough ? t : q; }
bool mc_verbose(void) { return verbose; }
bool mc_in_path(void) { return in_path; }

int
mc_param(const char* name, int dflt)
{
	size_t n = strlen(name);
	for (int i = 0; i < n_params; i++) {
		if (strncmp(params[i], name, n) == 0 && params[i][n] == '=') {
			return atoi(params[i] + n + 1);
		}
	}
	return dflt;
}

void
mc_log(const char* fmt, ...)
{
	if (!verbose) return;
	va_list ap;
	va_start(ap, fmt);
	vfprintf(logf_, fmt, ap);
	va_end(ap);
	fputc('\n', logf_);
	fflush(logf_);
}

void
mc_error(const char* fmt, ...)
{
	char buf[MSG_MAX];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	fprintf(stderr, "MC-ERROR: %s\n", buf);
	if (S) {
		S->have_error = 1;
		snprintf(S->error_msg, MSG_MAX, "%s", buf);
		S->stop = 1;
	}
	_exit(2);
}

void
mc_violation(const char* sig, const char* fmt, ...)
{
	char buf[MSG_MAX];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (!in_path) {
		mc_error("violation outside a path: %s: %s", sig, buf);
	}
	for (int i = 0; i < n_known; i++) {
		if (strcmp(known[i], sig) == 0) {
			atomic_fetch_add(&S->known_hits, 1);
			snprintf(S->known_sig, sizeof S->known_sig, "%s", sig);
			if (verbose) mc_log("known finding: %s: %s", sig, buf);
			siglongjmp(path_jmp, J_KNOWN);
		}
	}
	if (verbose) mc_log("VIOLATED %s: %s", sig, buf);
	int zero = 0;
	if (atomic_compare_exchange_strong(&S->viol_lock, &zero, 1)) {
		snprintf(S->viol_sig, sizeof S->viol_sig, "%s", sig);
		snprintf(S->viol_msg, MSG_MAX, "%s", buf);
		S->viol_path = *P;
		S->viol_path.len = P->pos;
		S->have_viol = 1;
	}
	S->stop = 1;
	siglongjmp(path_jmp, J_VIOL);
}

void
mc_prune(void)
{
	siglongjmp(path_jmp, J_PRUNE);
}

static void
claim_prefix(void)
{
	prefix_pending = false;
	if (prefix_ord >= N_CLAIMS) {
		mc_error("too many work units: lower claim_depth");
	}
	unsigned char expect = 0;
	prefix_mine = atomic_compare_exchange_strong(&claims[prefix_ord], &expect, 1);
}

int
mc_choose(int n)
{
	if (n <= 0) mc_error("mc_choose(%d)", n);
	if (!in_path) mc_error("mc_choose outside a path");
	uint32_t pos = P->pos;
	if (pos == P->len) {
		if (replaying && pos > 0) {
			// Past the recorded path: continue with the first alternative.
		}
		if (pos >= MAX_DEPTH) mc_error("path too long");
		P->c[pos] = 0;
		P->n[pos] = n;
		P->len = pos + 1;
	}
	else if (P->n[pos] == 0) {
		P->n[pos] = n;	// replayed path
		if (P->c[pos] >= n) mc_error("replay: choice %d of %d at %u", P->c[pos], n, pos);
	}
	else if (P->n[pos] != n) {
		mc_error("nondeterministic scenario: choice %u had %d alternatives, now %d", pos, P->n[pos], n);
	}
	P->pos = pos + 1;
	W->choices++;
	if (!replaying && prefix_pending && (int)P->pos == claim_depth) {
		claim_prefix();
		if (!prefix_mine) siglongjmp(path_jmp, J_SKIP);
	}
	return P->c[pos];
}

void mc_step(void) { W->steps++; }
void mc_steps(uint64_t n) { W->steps += n; }
void mc_case(void) { W->cases++; W->heartbeat++; }

uint64_t
mc_hash(uint64_t h, const void* p, size_t n)
{
	const uint8_t* b = p;
	h ^= 0x9e3779b97f4a7c15ull + n;
	for (size_t i = 0; i < n; i++) {
		h ^= b[i];
		h *= 0x100000001b3ull;
		h ^= h >> 29;
	}
	return h;
}

void
mc_state(uint64_t h)
{
	h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27;
	if (h == 0) h = 1;
	if (S->states_full) return;
	uint64_t i = h & (n_state_slots - 1);
	for (uint64_t k = 0; ; k++) {
		uint64_t cur = atomic_load_explicit(&states[i], memory_order_relaxed);
		if (cur == h) return;
		if (cur == 0) {
			unsigned long long z = 0;
			if (atomic_compare_exchange_strong(&states[i], &z, h)) {
				uint64_t c = atomic_fetch_add(&S->n_states, 1) + 1;
				if (c * 10 > n_state_slots * 8) S->states_full = 1;
				return;
			}
			if (z == h) return;
		}
		i = (i + 1) & (n_state_slots - 1);
		if (k > n_state_slots) { S->states_full = 1; return; }
	}
}

// ---------------------------------------------------------------------------
// Controlled allocator.

#ifndef MC_NO_ALLOC
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_valloc(size_t);

uint64_t mc_alloc_live, mc_alloc_live_bytes, mc_alloc_calls, mc_alloc_bytes, mc_alloc_largest, mc_alloc_failed;
int64_t mc_alloc_fail_at = -1;
bool mc_alloc_fail_forever;
size_t mc_alloc_limit = 64u << 20;

#define AT_MIN 4096
typedef struct { void* p; size_t n; uint64_t seq; } ent_t;
static ent_t* at;
static size_t at_cap, at_used;	// used includes tombstones
#define TOMB ((void*)1)

void* mc_raw_malloc(size_t n) { return __real_malloc(n); }
void mc_raw_free(void* p) { __real_free(p); }

static void
at_insert(void* p, size_t n, uint64_t seq)
{
	if (at_cap == 0 || at_used * 2 >= at_cap) {
		size_t ocap = at_cap;
		ent_t* o = at;
		size_t ncap = mc_alloc_live * 4 < AT_MIN ? AT_MIN : AT_MIN;
		while (ncap < (mc_alloc_live + 1) * 4) ncap *= 2;
		at = __real_calloc(ncap, sizeof(ent_t));
		at_cap = ncap;
		at_used = 0;
		for (size_t i = 0; i < ocap; i++) {
			if (o[i].p && o[i].p != TOMB) at_insert(o[i].p, o[i].n, o[i].seq);
		}
		__real_free(o);
	}
	size_t i = (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 20 & (at_cap - 1);
	while (at[i].p) i = (i + 1) & (at_cap - 1);
	at[i].p = p; at[i].n = n; at[i].seq = seq;
	at_used++;
}

static ent_t*
at_find(const void* p)
{
	if (!at_cap) return NULL;
	size_t i = (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 20 & (at_cap - 1);
	while (at[i].p) {
		if (at[i].p == p) return &at[i];
		i = (i + 1) & (at_cap - 1);
	}
	return NULL;
}

bool
mc_alloc_is_live(const void* p, size_t* size)
{
	ent_t* e = at_find(p);
	if (e && size) *size = e->n;
	return e != NULL;
}

// Exploration of allocation failures: every attempt made while exploring is a
// choice, until the permitted number of faults has been used.
static bool exploring;
static int faults_left, fail_mode;
void mc_alloc_explore(int faults) { faults_left = faults; fail_mode = 0; exploring = false; }
void mc_alloc_enter(void) { exploring = true; }
void mc_alloc_leave(void) { exploring = false; if (fail_mode == 2) fail_mode = 0; }

static bool
refuse(size_t n)
{
	mc_alloc_calls++;
	if (n > mc_alloc_largest) mc_alloc_largest = n;
	mc_alloc_bytes += n;
	if (n > mc_alloc_limit) { mc_alloc_failed++; return true; }
	if (exploring) {
		if (fail_mode == 0 && faults_left > 0) {
			int c = mc_choose(4);
			if (c == 0) return false;
			faults_left--;
			mc_log("    allocation of %zu bytes fails%s", n, c == 1 ? "" : c == 2 ? ", and all others of this call" : ", and all that follow");
			if (c > 1) fail_mode = c;
			mc_alloc_failed++;
			return true;
		}
		if (fail_mode) mc_alloc_failed++;
		return fail_mode != 0;
	}
	if (mc_alloc_fail_at >= 0) {
		if (mc_alloc_fail_at == 0) {
			if (!mc_alloc_fail_forever) mc_alloc_fail_at = -1;
			mc_alloc_failed++;
			return true;
		}
		mc_alloc_fail_at--;
	}
	return false;
}

void mc_alloc_arm(int64_t nth, bool forever) { mc_alloc_fail_at = nth; mc_alloc_fail_forever = forever; }
void mc_alloc_disarm(void) { mc_alloc_fail_at = -1; mc_alloc_fail_forever = false; }

static void*
track(void* p, size_t n)
{
	if (p) {
		at_insert(p, n, mc_alloc_calls);
		mc_alloc_live++;
		mc_alloc_live_bytes += n;
	}
	return p;
}

void*
__wrap_malloc(size_t n)
{
	if (!in_path) return __real_malloc(n);
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	return track(__real_malloc(n), n);
}

void*
__wrap_calloc(size_t a, size_t b)
{
	if (!in_path) return __real_calloc(a, b);
	size_t n = a * b;
	if (a && n / a != b) n = SIZE_MAX;
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	return track(__real_calloc(a, b), n);
}

void
__wrap_free(void* p)
{
	if (!p) return;
	ent_t* e = at_find(p);
	if (e) {
		mc_alloc_live--;
		mc_alloc_live_bytes -= e->n;
		e->p = TOMB;
	}
	__real_free(p);
}

void*
__wrap_realloc(void* p, size_t n)
{
	if (!in_path) return __real_realloc(p, n);
	if (!p) return __wrap_malloc(n);
	if (n == 0) { __wrap_free(p); return NULL; }
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	// Always move: stale pointers into the old block must not keep working.
	void* q = __real_malloc(n);
	if (!q) return NULL;
	ent_t* e = at_find(p);
	if (!e) return __real_realloc(p, n);
	size_t o = e->n;
	memcpy(q, p, o < n ? o : n);
	__wrap_free(p);
	return track(q, n);
}

char*
__wrap_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = __wrap_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}

char*
__wrap_strndup(const char* s, size_t m)
{
	size_t n = strnlen(s, m);
	char* p = __wrap_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}

void*
__wrap_valloc(size_t n)
{
	if (!in_path) return __real_valloc(n);
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	return track(__real_valloc(n), n);
}

void
mc_alloc_dump(void)
{
	for (size_t i = 0; i < at_cap; i++) {
		if (at[i].p && at[i].p != TOMB) {
			mc_log("live block: allocation #%llu, %zu bytes", (unsigned long long)at[i].seq, at[i].n);
		}
	}
}

static void
alloc_reset(void)
{
	if (mc_alloc_live) {
		for (size_t i = 0; i < at_cap; i++) {
			if (at[i].p && at[i].p != TOMB) __real_free(at[i].p);
		}
		memset(at, 0, at_cap * sizeof *at);
		at_used = 0;
	}
	if (at_cap > AT_MIN * 16) { __real_free(at); at = NULL; at_cap = at_used = 0; }
	mc_alloc_live = mc_alloc_live_bytes = 0;
	mc_alloc_calls = mc_alloc_bytes = mc_alloc_largest = mc_alloc_failed = 0;
	mc_alloc_disarm();
	mc_alloc_explore(0);
}
#else
void mc_alloc_reset(void);	// the scheduler runtime has its own allocator
#define alloc_reset mc_alloc_reset
#endif

// ---------------------------------------------------------------------------
// Exploration.

// Executes one path. Returns 0 if it completed, or the longjmp code.
static int
run_path(const mc_scenario* sc)
{
	P->pos = 0;
	alloc_reset();
	W->in_exec = 1;
	in_path = true;
	int j = sigsetjmp(path_jmp, 0);
	if (j == 0) {
		if (mc_path_begin_hook) mc_path_begin_hook();
		sc->fn();
		if (mc_alloc_live) {
			mc_alloc_dump();
			mc_violation("leak", "%llu block(s) still allocated at the end of the history",
				(unsigned long long)mc_alloc_live);
		}
	}
	if (mc_path_end_hook) mc_path_end_hook(j == 0);
	in_path = false;
	W->in_exec = 0;
	alloc_reset();
	return j;
}

static void
take_sample(void)
{
	uint64_t e = W->execs;
	if (!(e == 1 || e == 50 || e == 2000)) return;
	int i = atomic_fetch_add(&S->n_samples, 1);
	if (i >= MAX_SAMPLES) return;
	S->samples[i].full = P->pos <= 64;
	S->samples[i].len = P->pos <= 64 ? P->pos : 64;
	memcpy(S->samples[i].c, P->c, S->samples[i].len * sizeof(int32_t));
}

static void
explore(const mc_scenario* sc)
{
	claim_depth = sc->claim_depth > 0 ? sc->claim_depth : 3;
	P->len = 0;
	fresh_from = 0;
	prefix_ord = 0;
	prefix_pending = true;
	prefix_mine = false;
	for (;;) {
		if (S->stop) return;
		int j = run_path(sc);
		W->heartbeat++;
		bool counted = true;
		if (prefix_pending) {
			// Ended before the claim depth.
			claim_prefix();
			counted = prefix_mine;
		}
		uint32_t keep = P->pos;
		if (j == J_SKIP) counted = false;
		if (j == J_PRUNE) { counted = false; W->pruned++; }
		if (j == J_VIOL) return;
		if (counted) {
			W->execs++;
			if (P->pos > W->max_depth) W->max_depth = P->pos;
			take_sample();
		}
		// Backtrack.
		int i = (int)keep - 1;
		while (i >= 0 && P->c[i] + 1 >= P->n[i]) i--;
		if (i < 0) return;
		P->c[i]++;
		fresh_from = (uint32_t)i;
		P->len = (uint32_t)i + 1;
		if (i < claim_depth) {
			prefix_ord++;
			prefix_pending = true;
		}
	}
}

static double
now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void
write_path(FILE* f, const int32_t* c, uint32_t len)
{
	for (uint32_t i = 0; i < len; i++) fprintf(f, "%s%d", i ? "," : "", c[i]);
}

static void
json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char ch = *s;
		if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
		else if (ch == '\n') fputs("\\n", f);
		else if (ch < 32 || ch >= 127) fprintf(f, "\\u%04x", ch);
		else fputc(ch, f);
	}
	fputc('"', f);
}

__attribute__((weak)) const char*
__asan_default_options(void)
{
	return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
		"handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=10:"
		"max_allocation_size_mb=4096:allow_user_poisoning=1";
}

__attribute__((weak)) const char*
__ubsan_default_options(void)
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}

static const mc_scenario*
find(const char* name)
{
	for (const mc_scenario* s = mc_scenarios; s->name; s++) {
		if (strcmp(s->name, name) == 0) return s;
	}
	return NULL;
}

static void*
shm(size_t n)
{
	void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return p;
}

static int
do_replay(const mc_scenario* sc, const char* path)
{
	W = &S->w[0];
	P = &W->path;
	replaying = true;
	uint32_t n = 0;
	const char* s = path;
	while (*s) {
		P->c[n] = (int32_t)strtol(s, (char**)&s, 10);
		P->n[n] = 0;
		n++;
		if (*s == ',') s++;
		else break;
	}
	P->len = n;
	int j = run_path(sc);
	if (j == J_VIOL) {
		printf("REPLAY-VIOLATION %s: %s\n", S->viol_sig, S->viol_msg);
		return 1;
	}
	printf("REPLAY-OK\n");
	return 0;
}

int
main(int argc, char** argv)
{
	const char* scenario = NULL;
	const char* replay = NULL;
	const char* out = NULL;
	const char* logdir = ".";
	int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
	double hang_s = 60;
	int state_bits = 0;
	logf_ = stdout;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--scenario")) scenario = argv[++i];
		else if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--logdir")) logdir = argv[++i];
		else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--hang")) hang_s = atof(argv[++i]);
		else if (!strcmp(argv[i], "--state-bits")) state_bits = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--set")) params[n_params++] = argv[++i];
		else if (!strcmp(argv[i], "--known")) known[n_known++] = argv[++i];
		else if (!strcmp(argv[i], "--verbose")) verbose = true;
		else if (!strcmp(argv[i], "--list")) {
			for (const mc_scenario* s = mc_scenarios; s->name; s++) printf("%s\t%s\n", s->name, s->bounds ? s->bounds : "");
			return 0;
		}
		else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
	}
	const mc_scenario* sc = scenario ? find(scenario) : NULL;
	if (!sc) { fprintf(stderr, "no such scenario\n"); return 2; }
	if (workers < 1) workers = 1;
	if (workers > MAX_WORKERS) workers = MAX_WORKERS;
	S = shm(sizeof *S);
	if (!state_bits) state_bits = thorough ? 26 : 23;
	n_state_slots = 1ull << state_bits;
	states = shm(n_state_slots * 8);
	claims = shm(N_CLAIMS);
	if (replay) {
		verbose = true;
		return do_replay(sc, replay);
	}

	double t0 = now();
	pid_t pid[MAX_WORKERS];
	for (int i = 0; i < workers; i++) {
		fflush(NULL);
		pid_t p = fork();
		if (p < 0) { perror("fork"); return 2; }
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			char name[512];
			snprintf(name, sizeof name, "%s/worker.%d.log", logdir, i);
			int fd = open(name, O_CREAT | O_TRUNC | O_WRONLY, 0644);
			if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
			W = &S->w[i];
			P = &W->path;
			explore(sc);
			W->done = 1;
			_exit(0);
		}
		pid[i] = p;
	}
	int alive = workers;
	uint64_t last[MAX_WORKERS] = {0};
	double since[MAX_WORKERS];
	for (int i = 0; i < workers; i++) since[i] = now();
	int crashed = -1, crash_status = 0, hung = -1;
	while (alive) {
		int st;
		pid_t p;
		while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
			for (int i = 0; i < workers; i++) {
				if (pid[i] == p) {
					pid[i] = 0;
					alive--;
					if (!S->w[i].done && !S->have_error && crashed < 0 && hung != i && !S->have_viol) {
						crashed = i;
						crash_status = st;
						S->stop = 1;
					}
				}
			}
		}
		if (!alive) break;
		double t = now();
		for (int i = 0; i < workers; i++) {
			if (!pid[i]) continue;
			if (S->w[i].heartbeat != last[i]) { last[i] = S->w[i].heartbeat; since[i] = t; }
			else if (t - since[i] > hang_s) {
				if (hung < 0 && crashed < 0) hung = i;
				S->stop = 1;
				kill(pid[i], SIGKILL);
			}
			if (S->stop && t - since[i] > 5 && (crashed >= 0 || S->have_viol || S->have_error)) kill(pid[i], SIGKILL);
		}
		usleep(2000);
	}
	double wall = now() - t0;

	FILE* f = out ? fopen(out, "w") : stdout;
	uint64_t execs = 0, steps = 0, choices = 0, pruned = 0, cases = 0;
	uint32_t maxd = 0;
	for (int i = 0; i < workers; i++) {
		execs += S->w[i].execs; steps += S->w[i].steps; choices += S->w[i].choices; pruned += S->w[i].pruned; cases += S->w[i].cases;
		if (S->w[i].max_depth > maxd) maxd = S->w[i].max_depth;
	}
	const char* verdict = "ok";
	if (S->have_error) verdict = "error";
	else if (S->have_viol) verdict = "violation";
	else if (crashed >= 0) verdict = "crash";
	else if (hung >= 0) verdict = "hang";
	fprintf(f, "{\"scenario\":\"%s\",\"verdict\":\"%s\",\"executions\":%llu,\"cases\":%llu,\"transitions\":%llu,\"choices\":%llu,\"pruned\":%llu,"
		"\"states\":%llu,\"states_saturated\":%s,\"max_depth\":%u,\"wall_s\":%.3f,\"workers\":%d,\"known_hits\":%u,\"known_sig\":",
		sc->name, verdict, (unsigned long long)execs, (unsigned long long)cases, (unsigned long long)steps, (unsigned long long)choices,
		(unsigned long long)pruned, (unsigned long long)S->n_states, S->states_full ? "true" : "false", maxd, wall, workers,
		S->known_hits);
	json_str(f, S->known_sig);
	fprintf(f, ",\"bounds\":");
	json_str(f, sc->bounds ? sc->bounds : "");
	if (S->have_error) { fprintf(f, ",\"message\":"); json_str(f, S->error_msg); }
	if (S->have_viol) {
		fprintf(f, ",\"sig\":");
		json_str(f, S->viol_sig);
		fprintf(f, ",\"message\":");
		json_str(f, S->viol_msg);
		fprintf(f, ",\"path\":\"");
		write_path(f, S->viol_path.c, S->viol_path.len);
		fprintf(f, "\"");
	}
	else if (crashed >= 0 || hung >= 0) {
		int k = crashed >= 0 ? crashed : hung;
		fprintf(f, ",\"sig\":\"%s\",\"status\":%d,\"worker_log\":\"%s/worker.%d.log\",\"path\":\"", crashed >= 0 ? "crash" : "hang", crash_status, logdir, k);
		write_path(f, S->w[k].path.c, S->w[k].path.pos);
		fprintf(f, "\"");
	}
	fprintf(f, ",\"sample_paths\":[");
	int ns = S->n_samples < MAX_SAMPLES ? S->n_samples : MAX_SAMPLES;
	for (int i = 0; i < ns; i++) {
		fprintf(f, "%s\"", i ? "," : "");
		write_path(f, S->samples[i].c, S->samples[i].len);
		fprintf(f, "\"");
	}
	fprintf(f, "]}\n");
	if (f != stdout) fclose(f);
	return 0;
}
