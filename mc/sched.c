// Controlled scheduler.
//
// The library and the driver are compiled with the compiler's thread
// instrumentation, but linked with this runtime instead of a sanitizer's. Threads
// are fibers of one OS thread, so every interleaving is under control: a
// scheduling choice (mc_choose) is made before every lock, signal, atomic access
// and at every blocking operation. Waits, time-outs, spurious wake-ups and which
// waiter a signal wakes are choices too. No runnable thread is a deadlock.
//
// Switching only there is enough as long as the other accesses are ordered by
// happens-before; that is checked with vector clocks for every plain access (a race
// in which a plain write takes part is a violation). Blocks are never reused within
// a path, so accesses to freed or foreign memory are found too.
#define _GNU_SOURCE
#include "mcthr.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXT 8
#define STACK (256u << 10)
#define ARENA (32u << 20)
#define NOBJ 256
#define NCELL (1u << 16)

typedef struct { uint32_t c[MAXT]; } vc_t;

enum { T_FREE, T_READY, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_DONE, T_QUIET, T_SPIN };

typedef struct obj_s {
	const void* addr;
	uint32_t stamp;
	uint8_t kind;		// 'm', 'c', 'a'
	bool live;
	int owner;		// mutex: -1 none
	int depth;
	bool recursive;
	int id;
	vc_t vc;
} obj_t;

typedef struct {
	int state;
	bool by_pthread, joined, detached;
	void* (*fn)(void*);
	void (*fn2)(void*);
	void* arg;
	void* ret;
	const char* name;
	obj_t* mutex;		// wanted (T_MUTEX) or to be taken again (T_COND)
	obj_t* cond;
	bool timed;
	int64_t deadline;
	int wake;		// result of the wait
	int target;		// join
	uint64_t done;		// steps made
	vc_t vc, acq, rel;
	uint64_t seen;		// 'progress' when the reads below were made
	int n_reads;
	struct { uintptr_t key; int n; } reads[4];
	void* sp;
	uint8_t* stack;
	uint8_t* tls;
} thr_t;

typedef struct {
	uint8_t st;		// 0 never allocated, 1 live, 2 freed
	uint8_t wtid;
	uint8_t watomic;
	uint8_t atomic;		// accessed atomically on this path
	uint16_t wclk;
	uint16_t rclk[MAXT];
	uint16_t pad;
} cell_t;

static thr_t T[MAXT];
static int nt, cur;
static uint32_t stamp;
static obj_t objs[NOBJ];
static int n_objs;
static int preempt_left, spurious_left;
static int steps, step_limit;
static uint64_t progress;	// advances with everything a spinning thread may wait for
static int64_t clk;
static uint64_t seqno, tag;
static int fault_at[MC_F_N], faults_hit;
static unsigned fault_mask[MC_F_N];
static bool active;		// inside a path, on a controlled thread

static uint8_t* arena;
static cell_t* acell;
static size_t bump;
typedef struct { uintptr_t addr; uint32_t stamp; cell_t c; } gcell_t;
static gcell_t* gcell;

static size_t tls_size, tls_image;
static uint8_t* tls_base;
static uint8_t* tls_init;

extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
static char* data_copy;

// ---------------------------------------------------------------------------
// Fibers.

__attribute__((naked, noinline)) static void
ctx_switch(void** save, void* to)
{
	__asm__ volatile(
		"pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
		"movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
		"popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}

static void
switch_to(int t)
{
	if (t == cur) return;
	int from = cur;
	if (tls_size) {
		memcpy(T[from].tls, tls_base, tls_size);
		memcpy(tls_base, T[t].tls, tls_size);
	}
	if (mc_verbose()) mc_log("  -> thread %d (%s)", t, T[t].name);
	cur = t;
	ctx_switch(&T[from].sp, T[t].sp);
}

static void block(void);

static void
fiber_main(void)
{
	thr_t* t = &T[cur];
	if (t->fn2) t->fn2(t->arg);
	else t->ret = t->fn(t->arg);
	t->state = T_DONE;
	progress++;
	if (mc_verbose()) mc_log("T%d ends", cur);
	block();
	mc_error("resumed a finished thread");
}

static const char*
where(void* pc)
{
	static char buf[600];
	buf[0] = 0;
	if (mc_verbose()) {
		char cmd[300];
		snprintf(cmd, sizeof cmd, "llvm-symbolizer-18 -e /proc/%d/exe -p -s -i %p 2>/dev/null | head -2 | tr '\\n' ' '", (int)getpid(), (char*)pc - 1);
		FILE* f = popen(cmd, "r");
		if (f) { size_t n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; pclose(f); }
	}
	return buf;
}

// ---------------------------------------------------------------------------
// Objects.

static obj_t*
obj(const void* a, uint8_t kind)
{
	uint32_t i = (uint32_t)(((uintptr_t)a >> 2) * 0x9e3779b1u) % NOBJ;
	for (int k = 0; k < NOBJ; k++, i = (i + 1) % NOBJ) {
		obj_t* o = &objs[i];
		if (o->stamp != stamp) {
			memset(o, 0, sizeof *o);
			o->stamp = stamp;
			o->addr = a;
			o->kind = kind;
			o->owner = -1;
			o->id = n_objs++;
			return o;
		}
		if (o->addr == a && o->kind == kind) return o;
	}
	mc_error("too many synchronisation objects");
}

static void join_vc(vc_t* a, const vc_t* b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static void tick(void) { if (++T[cur].vc.c[cur] > 65000) mc_error("clock overflow"); }

// ---------------------------------------------------------------------------
// Scheduling.

static bool
enabled(int t)
{
	switch (T[t].state) {
	case T_READY: return true;
	case T_MUTEX: return T[t].mutex->owner < 0;
	case T_JOIN: return T[T[t].target].state == T_DONE;
	case T_SLEEP: return true;
	case T_SPIN: return T[t].seen != progress;
	default: return false;
	}
}

static void
deadlock(void)
{
	char buf[600];
	size_t n = 0;
	buf[0] = 0;
	for (int i = 0; i < nt; i++) {
		static const char* const s[] = { "-", "ready", "waits for a lock", "waits for a condition", "waits for a thread", "sleeps", "ended", "waits for the end", "spins" };
		n += (size_t)snprintf(buf + n, sizeof buf - n, "%sthread %d (%s) %s", i ? ", " : "", i, T[i].name, s[T[i].state]);
		if (n > sizeof buf - 80) break;
	}
	mc_violation("deadlock", "no thread can proceed: %s", buf);
}

// Lets some thread proceed; 'on' says whether the current one could.
static void
reschedule(bool on)
{
	for (;;) {
		int act[MAXT * 3], n = 0;
		if (on) act[n++] = cur;
		if (on && preempt_left == 0) return;
		for (int i = 0; i < nt; i++) if (!(on && i == cur) && enabled(i)) act[n++] = i;
		int runnable = n;
		for (int i = 0; i < nt; i++) if (T[i].state == T_COND) {
			if (T[i].timed) act[n++] = 100 + i;
			if (spurious_left > 0) act[n++] = 200 + i;
		}
		if (runnable == 0) {
			bool timed = false;
			int quiet = -1;
			for (int i = 0; i < nt; i++) if (T[i].state == T_QUIET) quiet = i;
			for (int i = 0; i < nt; i++) timed |= T[i].state == T_COND && T[i].timed;
			// A spurious wake-up is not something to rely on.
			if (!timed && quiet >= 0) act[n++] = quiet;
			// It may still give up spinning by itself; if not, it makes no progress.
			else if (!timed) for (int i = 0; i < nt; i++) if (T[i].state == T_SPIN) act[n++] = i;
			if (n == 0) deadlock();
		}
		int k = n == 1 ? 0 : mc_choose(n);
		int a = act[k];
		if (on && k == 0) return;
		if (on && preempt_left > 0) preempt_left--;
		if (a >= 100) {
			thr_t* w = &T[a % 100];
			w->state = T_MUTEX;
			if (a < 200) {
				w->wake = ETIMEDOUT;
				if (w->deadline > clk) clk = w->deadline;
				if (mc_verbose()) mc_log("  thread %d times out", a % 100);
			}
			else {
				w->wake = 0;
				spurious_left--;
				if (mc_verbose()) mc_log("  thread %d wakes spuriously", a % 100);
			}
			if (enabled(a % 100)) { a %= 100; }
			else continue;
		}
		if (T[a].state == T_QUIET) {
			T[a].state = T_READY;
			for (int i = 0; i < nt; i++) join_vc(&T[a].vc, &T[i].vc);
		}
		if (T[a].state == T_SLEEP && T[a].deadline > clk) clk = T[a].deadline;
		if (a == cur) return;
		switch_to(a);
		return;
	}
}

static void
block(void)
{
	reschedule(false);
}

// A thread that reads the same again and again while nothing changes is waiting: it
// proceeds when something has changed, or when nobody else can.
static void
spinning(const void* a, bool update)
{
	thr_t* t = &T[cur];
	uintptr_t key = (uintptr_t)a * 2 + update;
	if (nt == 1) return;
	if (t->seen != progress) { t->seen = progress; t->n_reads = 0; }
	for (int i = 0; i < t->n_reads; i++) if (t->reads[i].key == key) {
		if (t->reads[i].n < 2) return;
		if (mc_verbose()) mc_log("T%d spins", cur);
		t->state = T_SPIN;
		block();
		t->state = T_READY;
		t->n_reads = 0;
		return;
	}
}
static void
read_same(const void* a, bool update)
{
	thr_t* t = &T[cur];
	uintptr_t key = (uintptr_t)a * 2 + update;
	if (t->seen != progress) { t->seen = progress; t->n_reads = 0; }
	for (int i = 0; i < t->n_reads; i++) if (t->reads[i].key == key) { t->reads[i].n++; return; }
	if (t->n_reads < 4) { t->reads[t->n_reads].key = key; t->reads[t->n_reads++].n = 1; }
}

// A state of the driver: how far every thread has come and what it waits for.
static void
note_state(void)
{
	uint64_t h = tag;
	T[cur].done++;
	for (int i = 0; i < nt; i++) h = (h ^ (T[i].done << 4 | (uint64_t)T[i].state)) * 0x9e3779b97f4a7c15ull + (h >> 29);
	mc_state(h * 8 + (uint64_t)cur);
}

void mc_sched_tag(uint64_t t) { tag = t; }

static void
point(void)
{
	if (++steps > step_limit) mc_violation("no-progress", "more than %d steps without an end", step_limit);
	mc_step();
	if (nt > 1) {
		note_state();
		reschedule(true);
	}
}

void mc_point(void) { if (active) point(); }
void mc_sched_bound(int p) { preempt_left = p; }
void mc_sched_spurious(int n) { spurious_left = n; }
void mc_sched_steps(int n) { step_limit = n; }
int mc_self(void) { return cur; }
uint64_t mc_seq(void) { return ++seqno; }
int64_t mc_clock_ns(void) { return clk; }
void mc_clock_set(int64_t ns) { clk = ns; }
void mc_fault(int kind, int nth) { fault_at[kind] = nth; }
int mc_faults_hit(void) { return faults_hit; }

void mc_fault_mask(int kind, unsigned mask) { fault_mask[kind] = mask; }

static bool
fault(int kind)
{
	bool hit = fault_mask[kind] & 1;
	fault_mask[kind] >>= 1;
	if (hit) {
		faults_hit++;
		if (mc_verbose()) mc_log("  (made to fail)");
		return true;
	}
	if (fault_at[kind] < 0) return false;
	if (fault_at[kind]-- > 0) return false;
	faults_hit++;
	if (mc_verbose()) mc_log("  (made to fail)");
	return true;
}

int
mc_threads_alive(void)
{
	int n = 0;
	for (int i = 0; i < nt; i++) if (i != cur && T[i].state != T_DONE) n++;
	return n;
}

int
mc_threads_unjoined(void)
{
	int n = 0;
	for (int i = 1; i < nt; i++) if (T[i].by_pthread && !T[i].joined && !T[i].detached) n++;
	return n;
}

static int
new_thread(const char* name)
{
	if (nt >= MAXT) mc_error("too many threads");
	int id = nt++;
	thr_t* t = &T[id];
	uint8_t* st = t->stack;
	uint8_t* tl = t->tls;
	memset(t, 0, sizeof *t);
	if (!st) {
		st = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		tl = mmap(NULL, tls_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (st == MAP_FAILED || tl == MAP_FAILED) mc_error("mmap");
	}
	t->stack = st;
	t->tls = tl;
	t->name = name ? name : "thread";
	t->state = T_READY;
	if (tls_size) memcpy(t->tls, tls_init, tls_size);
	// What an earlier path left on the stack must not matter.
	memset(t->stack + STACK - 8192, 0x5A, 8192);
	void** sp = (void**)(t->stack + STACK);
	*--sp = NULL;
	*--sp = (void*)fiber_main;	// return address; the stack is then 8 mod 16 as after a call
	for (int i = 0; i < 6; i++) *--sp = NULL;
	t->sp = sp;
	t->vc = T[cur].vc;
	t->vc.c[id] = 1;
	tick();
	return id;
}

int
mc_spawn(void (*fn)(void*), void* arg, const char* name)
{
	int id = new_thread(name);
	T[id].fn2 = fn;
	T[id].arg = arg;
	return id;
}

void
mc_join(int id)
{
	T[cur].state = T_JOIN;
	T[cur].target = id;
	block();
	T[cur].state = T_READY;
	T[id].joined = true;
	join_vc(&T[cur].vc, &T[id].vc);
}

void
mc_join_all(void)
{
	for (int i = 1; i < nt; i++) if (T[i].fn2 && !T[i].joined) mc_join(i);
}

// ---------------------------------------------------------------------------
// Memory.

int
mc_quiet_wait(void)
{
	T[cur].state = T_QUIET;
	block();
	return mc_threads_alive();
}

bool mc_thread_done(int t) { return T[t].state == T_DONE; }

static cell_t*
cell(uintptr_t a, bool make)
{
	uintptr_t o = a - (uintptr_t)arena;
	if (o < ARENA) return &acell[o];
	uint32_t i = (uint32_t)(a * 0x9e3779b97f4a7c15ull >> 40) & (NCELL - 1);
	for (uint32_t k = 0; k < NCELL; k++, i = (i + 1) & (NCELL - 1)) {
		if (gcell[i].stamp != stamp) {
			if (!make) return NULL;
			memset(&gcell[i], 0, sizeof gcell[i]);
			gcell[i].stamp = stamp;
			gcell[i].addr = a;
			gcell[i].c.st = 1;
			return &gcell[i].c;
		}
		if (gcell[i].addr == a) return &gcell[i].c;
	}
	mc_error("too many shared locations");
}

static bool in_tls(uintptr_t a) { return a - (uintptr_t)tls_base < tls_size; }

static void
bad_access(cell_t* c, uintptr_t a, size_t n, bool wr, void* pc)
{
	mc_violation(c->st == 2 ? "use-after-free" : "heap-overflow", "thread %d (%s) %s %zu byte(s) %s %s",
		cur, T[cur].name, wr ? "writes" : "reads", n, c->st == 2 ? "of freed memory" : "outside any block", where(pc));
}

static void
race(int other, bool wr, bool owr, void* pc)
{
	mc_violation("race", "thread %d (%s) %s what thread %d (%s) %s without synchronisation %s",
		cur, T[cur].name, wr ? "writes" : "reads", other, T[other].name, owr ? "writes" : "reads", where(pc));
}

static void
unordered_free(int other, bool owr, void* pc)
{
	mc_violation("unordered-free", "thread %d (%s) frees what thread %d (%s) %s without synchronisation %s",
		cur, T[cur].name, other, T[other].name, owr ? "writes" : "reads", where(pc));
}

static void
plain(uintptr_t a, size_t n, bool wr, void* pc)
{
	if (!active || in_tls(a)) return;
	if (nt == 1) {
		// Nobody else yet, and whoever comes later is started after this.
		if (a - (uintptr_t)arena < ARENA) for (size_t i = 0; i < n; i++) {
			cell_t* c = &acell[a + i - (uintptr_t)arena];
			if (c->st != 1) bad_access(c, a + i, n, wr, pc);
		}
		return;
	}
	bool pt = false;
	for (size_t i = 0; i < n; i++) {
		cell_t* c = cell(a + i, false);
		if (c && c->atomic) pt = true;
	}
	if (pt) {
		point();
		if (wr) progress++;
		else { spinning((void*)a, false); read_same((void*)a, false); }
	}
	uint16_t me = (uint16_t)T[cur].vc.c[cur];
	const uint32_t* vc = T[cur].vc.c;
	for (size_t i = 0; i < n; i++) {
		cell_t* c = cell(a + i, true);
		if (c->st != 1) bad_access(c, a + i, n, wr, pc);
		if (c->wclk && c->wtid != cur && vc[c->wtid] < c->wclk && (wr || !c->watomic)) race(c->wtid, wr, true, pc);
		if (wr) {
			for (int t = 0; t < nt; t++) if (t != cur && vc[t] < c->rclk[t]) race(t, true, false, pc);
			c->wtid = (uint8_t)cur;
			c->wclk = me;
			c->watomic = 0;
		}
		else c->rclk[cur] = me;
	}
}

static void
atomic_access(uintptr_t a, size_t n, bool wr, void* pc)
{
	uint16_t me = (uint16_t)T[cur].vc.c[cur];
	for (size_t i = 0; i < n; i++) {
		cell_t* c = cell(a + i, true);
		if (c->st != 1) bad_access(c, a + i, n, wr, pc);
		if (c->wclk && c->wtid != cur && !c->watomic && T[cur].vc.c[c->wtid] < c->wclk) race(c->wtid, wr, true, pc);
		c->atomic = 1;
		if (wr) { c->wtid = (uint8_t)cur; c->wclk = me; c->watomic = 1; }
		else c->rclk[cur] = me;
	}
}

// ---- allocator ----
uint64_t mc_alloc_live, mc_alloc_live_bytes, mc_alloc_calls, mc_alloc_bytes, mc_alloc_largest, mc_alloc_failed;
int64_t mc_alloc_fail_at = -1;
bool mc_alloc_fail_forever;
size_t mc_alloc_limit = 8u << 20;
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);

typedef struct { size_t n; uint64_t seq; } hdr_t;	// precedes every block

void* mc_raw_malloc(size_t n) { return __real_malloc(n); }
void mc_raw_free(void* p) { __real_free(p); }
void mc_alloc_arm(int64_t nth, bool forever) { mc_alloc_fail_at = nth; mc_alloc_fail_forever = forever; }
void mc_alloc_disarm(void) { mc_alloc_fail_at = -1; mc_alloc_fail_forever = false; }

static bool ours(const void* p) { return (uintptr_t)p - (uintptr_t)arena < ARENA; }

bool
mc_alloc_is_live(const void* p, size_t* size)
{
	if (!ours(p) || acell[(const uint8_t*)p - arena].st != 1) return false;
	if (size) *size = ((const hdr_t*)p)[-1].n;
	return true;
}

static void*
take(size_t n, bool zero)
{
	mc_alloc_calls++;
	mc_alloc_bytes += n;
	if (n > mc_alloc_largest) mc_alloc_largest = n;
	bool no = n > mc_alloc_limit;
	if (mc_alloc_fail_at >= 0) {
		if (mc_alloc_fail_at == 0) {
			if (!mc_alloc_fail_forever) mc_alloc_fail_at = -1;
			no = true;
		}
		else mc_alloc_fail_at--;
	}
	if (no) { mc_alloc_failed++; errno = ENOMEM; return NULL; }
	size_t need = (n + 15) / 16 * 16 + 48;
	if (bump + need > ARENA) mc_error("arena exhausted");
	uint8_t* p = arena + bump + 32;
	memset(&acell[bump], 0, need * sizeof(cell_t));
	bump += need;
	hdr_t* h = (hdr_t*)p - 1;
	h->n = n;
	h->seq = mc_alloc_calls;
	for (size_t i = 0; i < n; i++) acell[p - arena + (ptrdiff_t)i].st = 1;
	if (n == 0) acell[p - arena].st = 3;	// live, but not accessible
	memset(p, zero ? 0 : 0xBE, n);
	mc_alloc_live++;
	mc_alloc_live_bytes += n;
	return p;
}

void* __wrap_malloc(size_t n) { return active ? take(n, false) : __real_malloc(n); }
void*
__wrap_calloc(size_t a, size_t b)
{
	if (!active) return __real_calloc(a, b);
	size_t n = a * b;
	if (a && n / a != b) n = SIZE_MAX;
	return take(n, true);
}
void
__wrap_free(void* p)
{
	if (!p) return;
	if (!ours(p)) { __real_free(p); return; }
	cell_t* c = &acell[(uint8_t*)p - arena];
	if (c->st == 2) mc_violation("double-free", "thread %d (%s) frees a block twice %s", cur, T[cur].name, where(__builtin_return_address(0)));
	size_t n = ((hdr_t*)p)[-1].n;
	if ((c->st != 1 && c->st != 3) || n > ARENA) mc_violation("bad-free", "thread %d (%s) frees what is not a block", cur, T[cur].name);
	// Whoever used the block must have done so before.
	for (size_t i = 0; i < n && active; i++) {
		if (c[i].wclk && c[i].wtid != cur && T[cur].vc.c[c[i].wtid] < c[i].wclk) unordered_free(c[i].wtid, true, __builtin_return_address(0));
		for (int t = 0; t < nt; t++) if (t != cur && T[cur].vc.c[t] < c[i].rclk[t]) unordered_free(t, false, __builtin_return_address(0));
	}
	for (size_t i = 0; i < n || i == 0; i++) c[i].st = 2;
	memset(p, 0xDD, n);
	mc_alloc_live--;
	mc_alloc_live_bytes -= n;
}
void*
__wrap_realloc(void* p, size_t n)
{
	if (!active) return __real_realloc(p, n);
	if (!p) return take(n, false);
	if (n == 0) { __wrap_free(p); return NULL; }
	if (!ours(p) || (acell[(uint8_t*)p - arena].st & 1) == 0) mc_violation("bad-free", "thread %d (%s) resizes what is not a block", cur, T[cur].name);
	void* q = take(n, false);
	if (!q) return NULL;
	size_t o = ((hdr_t*)p)[-1].n;
	memcpy(q, p, o < n ? o : n);
	__wrap_free(p);
	return q;
}
char*
__wrap_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = __wrap_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}
char*
__wrap_strndup(const char* s, size_t m)
{
	size_t n = strnlen(s, m);
	char* p = __wrap_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
void* __wrap_valloc(size_t n) { return __wrap_malloc(n); }

void
mc_alloc_dump(void)
{
	size_t at = 0;
	while (at < bump) {
		hdr_t* h = (hdr_t*)(arena + at + 32) - 1;
		if (acell[at + 32].st & 1) mc_log("live block: allocation #%llu, %zu bytes", (unsigned long long)h->seq, h->n);
		at += (h->n + 15) / 16 * 16 + 48;
	}
}

void
mc_alloc_reset(void)
{
	bump = 0;
	mc_alloc_live = mc_alloc_live_bytes = 0;
	mc_alloc_calls = mc_alloc_bytes = mc_alloc_largest = mc_alloc_failed = 0;
	mc_alloc_disarm();
}

// ---------------------------------------------------------------------------
// Path hooks.

static int
find_tls(struct dl_phdr_info* i, size_t sz, void* p)
{
	(void)sz; (void)p;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr)* h = &i->dlpi_phdr[k];
		if (h->p_type == PT_TLS && h->p_memsz) {
			uintptr_t fs;
			__asm__("movq %%fs:0, %0" : "=r"(fs));
			size_t al = h->p_align ? h->p_align : 1;
			tls_size = h->p_memsz;
			tls_base = (uint8_t*)(fs - (h->p_memsz + al - 1) / al * al);
			tls_image = h->p_filesz;
			tls_init = __real_calloc(1, tls_size);
			memcpy(tls_init, (void*)(i->dlpi_addr + h->p_vaddr), tls_image);
		}
	}
	return 1;	// the executable comes first
}

static void
path_begin(void)
{
	if (!arena) {
		arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		acell = mmap(NULL, (size_t)ARENA * sizeof(cell_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		gcell = __real_calloc(NCELL, sizeof *gcell);
		if (arena == MAP_FAILED || acell == MAP_FAILED) mc_error("mmap");
		dl_iterate_phdr(find_tls, NULL);
		T[0].tls = __real_calloc(1, tls_size + 1);
		size_t nd = (size_t)(__stop_libdata - __start_libdata), nb = (size_t)(__stop_libbss - __start_libbss);
		data_copy = __real_malloc(nd + nb + 1);
		memcpy(data_copy, __start_libdata, nd);
		memcpy(data_copy + nd, __start_libbss, nb);
	}
	else {
		// The library's variables are as they were when the program started.
		size_t nd = (size_t)(__stop_libdata - __start_libdata), nb = (size_t)(__stop_libbss - __start_libbss);
		memcpy(__start_libdata, data_copy, nd);
		memcpy(__start_libbss, data_copy + nd, nb);
	}
	if (tls_size) memcpy(tls_base, tls_init, tls_size);
	stamp++;
	progress = 1;
	n_objs = 0;
	nt = 1;
	cur = 0;
	uint8_t* tl = T[0].tls;
	memset(&T[0], 0, sizeof T[0]);
	T[0].tls = tl;
	T[0].name = "main";
	T[0].state = T_READY;
	T[0].vc.c[0] = 1;
	preempt_left = -1;
	spurious_left = 0;
	steps = 0;
	step_limit = 5000;
	clk = 1600000000ll * 1000000000ll;
	seqno = tag = 0;
	for (int i = 0; i < MC_F_N; i++) { fault_at[i] = -1; fault_mask[i] = 0; }
	faults_hit = 0;
	active = true;
}

static void
path_end(bool completed)
{
	(void)completed;
	active = false;
	if (cur != 0) {	// left by a jump from another thread
		if (tls_size) memcpy(tls_base, T[0].tls, tls_size);
		cur = 0;
	}
}

__attribute__((constructor)) static void
setup(void)
{
	mc_path_begin_hook = path_begin;
	mc_path_end_hook = path_end;
}

// ---------------------------------------------------------------------------
// pthread.

static obj_t*
get_obj(const void* a, uint8_t kind, size_t n, const char* what, void* pc)
{
	obj_t* o = obj(a, kind);
	if (ours(a)) {
		cell_t* c = &acell[(const uint8_t*)a - arena];
		if (c->st != 1) bad_access(c, (uintptr_t)a, n, true, pc);
	}
	if (!o->live) {
		bool zero = o->depth == 0 && o->owner == -1;
		if (o->owner == -2) mc_violation("destroyed", "thread %d (%s) uses a %s after it was destroyed %s", cur, T[cur].name, what, where(pc));
		for (size_t i = 0; i < n; i++) zero &= ((const uint8_t*)a)[i] == 0;
		if (!zero) mc_violation("uninitialised", "thread %d (%s) uses a %s that was not initialised %s", cur, T[cur].name, what, where(pc));
		o->live = true;
	}
	return o;
}

int
__wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at)
{
	if (fault(MC_F_MUTEX_INIT)) return ENOMEM;
	plain((uintptr_t)m, sizeof *m, true, __builtin_return_address(0));
	obj_t* o = obj(m, 'm');
	if (o->live && o->owner >= 0) mc_violation("reinit", "a held lock is initialised again");
	o->live = true;
	o->owner = -1;
	o->depth = 0;
	int ty = PTHREAD_MUTEX_NORMAL;
	if (at) pthread_mutexattr_gettype(at, &ty);
	o->recursive = ty == PTHREAD_MUTEX_RECURSIVE;
	memset(m, 0, sizeof *m);
	return 0;
}

int
__wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
	void* pc = __builtin_return_address(0);
	point();
	obj_t* o = get_obj(m, 'm', sizeof *m, "lock", pc);
	if (o->owner >= 0) mc_violation("destroy-held", "thread %d (%s) destroys a lock held by thread %d %s", cur, T[cur].name, o->owner, where(pc));
	for (int i = 0; i < nt; i++) if ((T[i].state == T_MUTEX || T[i].state == T_COND) && T[i].mutex == o)
		mc_violation("destroy-waited", "thread %d (%s) destroys a lock thread %d waits for %s", cur, T[cur].name, i, where(pc));
	o->live = false;
	o->owner = -2;
	return 0;
}

static void
acquire(obj_t* o)
{
	o->owner = cur;
	o->depth = 1;
	T[cur].state = T_READY;
	join_vc(&T[cur].vc, &o->vc);
}

static void
release(obj_t* o)
{
	o->owner = -1;
	o->depth = 0;
	progress++;
	join_vc(&o->vc, &T[cur].vc);
	tick();
}

int
__wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	void* pc = __builtin_return_address(0);
	if (!active) return 0;
	point();
	obj_t* o = get_obj(m, 'm', sizeof *m, "lock", pc);
	if (mc_verbose()) mc_log("T%d lock %d", cur, o->id);
	if (o->owner == cur) {
		if (!o->recursive) mc_violation("deadlock", "thread %d (%s) takes a lock it already holds %s", cur, T[cur].name, where(pc));
		o->depth++;
		return 0;
	}
	while (o->owner >= 0) {
		T[cur].state = T_MUTEX;
		T[cur].mutex = o;
		block();
	}
	if (o->owner == -2) mc_violation("destroyed", "thread %d (%s) takes a destroyed lock %s", cur, T[cur].name, where(pc));
	acquire(o);
	return 0;
}

int
__wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active) return 0;
	point();
	obj_t* o = get_obj(m, 'm', sizeof *m, "lock", __builtin_return_address(0));
	if (o->owner == cur && o->recursive) { o->depth++; return 0; }
	if (o->owner >= 0) return EBUSY;
	acquire(o);
	return 0;
}

int
__wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	void* pc = __builtin_return_address(0);
	if (!active) return 0;
	mc_step();
	obj_t* o = get_obj(m, 'm', sizeof *m, "lock", pc);
	if (o->owner != cur) mc_violation("unlock-not-held", "thread %d (%s) releases a lock it does not hold %s", cur, T[cur].name, where(pc));
	if (mc_verbose()) mc_log("T%d unlock %d", cur, o->id);
	if (--o->depth > 0) return 0;
	release(o);
	return 0;
}

int
__wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at)
{
	(void)at;
	if (fault(MC_F_COND_INIT)) return ENOMEM;
	plain((uintptr_t)c, sizeof *c, true, __builtin_return_address(0));
	obj_t* o = obj(c, 'c');
	o->live = true;
	o->owner = -1;
	memset(c, 0, sizeof *c);
	return 0;
}

int
__wrap_pthread_cond_destroy(pthread_cond_t* c)
{
	void* pc = __builtin_return_address(0);
	point();
	obj_t* o = get_obj(c, 'c', sizeof *c, "condition", pc);
	for (int i = 0; i < nt; i++) if (T[i].state == T_COND && T[i].cond == o)
		mc_violation("destroy-waited", "thread %d (%s) destroys a condition thread %d waits for %s", cur, T[cur].name, i, where(pc));
	o->live = false;
	o->owner = -2;
	return 0;
}

static int
cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline, void* pc)
{
	if (++steps > step_limit) mc_violation("no-progress", "more than %d steps without an end", step_limit);
	mc_step();
	obj_t* o = get_obj(c, 'c', sizeof *c, "condition", pc);
	obj_t* l = get_obj(m, 'm', sizeof *m, "lock", pc);
	if (l->owner != cur) mc_violation("wait-not-held", "thread %d (%s) waits without holding the lock %s", cur, T[cur].name, where(pc));
	if (timed && deadline <= clk) {
		// Already over: the lock is still released and taken again.
		if (mc_verbose()) mc_log("T%d wait with a deadline in the past", cur);
		release(l);
		T[cur].state = T_MUTEX;
		T[cur].mutex = l;
		block();
		while (l->owner >= 0) { T[cur].state = T_MUTEX; block(); }
		acquire(l);
		return ETIMEDOUT;
	}
	if (mc_verbose()) mc_log("T%d waits on condition %d%s", cur, o->id, timed ? " (timed)" : "");
	release(l);
	thr_t* t = &T[cur];
	t->state = T_COND;
	t->cond = o;
	t->mutex = l;
	t->timed = timed;
	t->deadline = deadline;
	block();
	while (l->owner >= 0) { T[cur].state = T_MUTEX; T[cur].mutex = l; block(); }
	acquire(l);
	return t->wake;
}

int
__wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	return cond_wait(c, m, false, 0, __builtin_return_address(0));
}

int
__wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) {
		if (mc_verbose()) mc_log("T%d timed wait with nanoseconds %ld", cur, (long)ts->tv_nsec);
		return EINVAL;
	}
	return cond_wait(c, m, true, (int64_t)((uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec), __builtin_return_address(0));
}

static void
wake(int i)
{
	T[i].state = T_MUTEX;
	T[i].wake = 0;
	if (mc_verbose()) mc_log("  wakes thread %d", i);
}

int
__wrap_pthread_cond_signal(pthread_cond_t* c)
{
	void* pc = __builtin_return_address(0);
	point();
	obj_t* o = get_obj(c, 'c', sizeof *c, "condition", pc);
	int w[MAXT], n = 0;
	for (int i = 0; i < nt; i++) if (T[i].state == T_COND && T[i].cond == o) w[n++] = i;
	if (mc_verbose()) mc_log("T%d signal %d (%d waiting)", cur, o->id, n);
	if (n) wake(w[n == 1 ? 0 : mc_choose(n)]);
	return 0;
}

int
__wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	void* pc = __builtin_return_address(0);
	point();
	obj_t* o = get_obj(c, 'c', sizeof *c, "condition", pc);
	if (mc_verbose()) mc_log("T%d broadcast %d", cur, o->id);
	for (int i = 0; i < nt; i++) if (T[i].state == T_COND && T[i].cond == o) wake(i);
	return 0;
}

int
__wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
	point();
	if (mc_verbose()) mc_log("T%d create thread %d", cur, nt);
	if (fault(MC_F_CREATE)) return EAGAIN;
	int id = new_thread("created");
	T[id].by_pthread = true;
	T[id].fn = fn;
	T[id].arg = arg;
	int det = PTHREAD_CREATE_JOINABLE;
	if (at) pthread_attr_getdetachstate(at, &det);
	T[id].detached = det == PTHREAD_CREATE_DETACHED;
	plain((uintptr_t)t, sizeof *t, true, __builtin_return_address(0));
	*t = (pthread_t)(0x7000 + id);
	return 0;
}

static int
tid_of(pthread_t t, const char* what)
{
	int id = (int)((uintptr_t)t - 0x7000);
	if (id < 0 || id >= nt) mc_violation("bad-thread", "thread %d (%s) %s what is not a thread", cur, T[cur].name, what);
	return id;
}

int
__wrap_pthread_join(pthread_t t, void** ret)
{
	point();
	int id = tid_of(t, "joins");
	if (mc_verbose()) mc_log("T%d join thread %d", cur, id);
	if (id == cur) mc_violation("deadlock", "thread %d (%s) joins itself", cur, T[cur].name);
	if (T[id].joined || T[id].detached) mc_violation("bad-thread", "thread %d (%s) joins a thread that is joined or detached already", cur, T[cur].name);
	mc_join(id);
	if (ret) *ret = T[id].ret;
	return 0;
}

int __wrap_pthread_detach(pthread_t t) { T[tid_of(t, "detaches")].detached = true; return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(uintptr_t)(0x7000 + cur); }
int __wrap_pthread_setname_np(pthread_t t, const char* n) { tid_of(t, "names"); T[tid_of(t, "names")].name = n[0] == 't' ? "tpool" : "named"; return 0; }

static void
sleep_ns(int64_t ns)
{
	if (!active) return;
	point();
	T[cur].state = T_SLEEP;
	T[cur].deadline = clk + ns;
	if (mc_verbose()) mc_log("T%d sleeps", cur);
	block();
	T[cur].state = T_READY;
}
int __real_usleep(unsigned);
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_usleep(unsigned us) { if (!active) return __real_usleep(us); sleep_ns(us * 1000ll); return 0; }
unsigned __wrap_sleep(unsigned s) { sleep_ns(s * 1000000000ll); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; sleep_ns(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
int __wrap_sched_yield(void) { sleep_ns(0); return 0; }
int
__wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!active) return __real_clock_gettime(id, ts);
	ts->tv_sec = clk / 1000000000;
	ts->tv_nsec = clk % 1000000000;
	return 0;
}
int
__wrap_gettimeofday(struct timeval* tv, void* tz)
{
	(void)tz;
	tv->tv_sec = clk / 1000000000;
	tv->tv_usec = clk % 1000000000 / 1000;
	return 0;
}

// ---------------------------------------------------------------------------
// Compiler instrumentation.

void __tsan_init(void) {}
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void** a, void* b) { (void)a; (void)b; }
void __tsan_vptr_read(void** a) { (void)a; }

#define RW(n) \
	void __tsan_read##n(void* a) { plain((uintptr_t)a, n, false, __builtin_return_address(0)); } \
	void __tsan_write##n(void* a) { plain((uintptr_t)a, n, true, __builtin_return_address(0)); } \
	void __tsan_unaligned_read##n(void* a) { plain((uintptr_t)a, n, false, __builtin_return_address(0)); } \
	void __tsan_unaligned_write##n(void* a) { plain((uintptr_t)a, n, true, __builtin_return_address(0)); } \
	void __tsan_read_write##n(void* a) { plain((uintptr_t)a, n, false, __builtin_return_address(0)); plain((uintptr_t)a, n, true, __builtin_return_address(0)); } \
	void __tsan_unaligned_read_write##n(void* a) { __tsan_read_write##n(a); } \
	void __tsan_volatile_read##n(void* a) { plain((uintptr_t)a, n, false, __builtin_return_address(0)); } \
	void __tsan_volatile_write##n(void* a) { plain((uintptr_t)a, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void* a, size_t n) { plain((uintptr_t)a, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* a, size_t n) { plain((uintptr_t)a, n, true, __builtin_return_address(0)); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	plain((uintptr_t)s, n, false, __builtin_return_address(0));
	plain((uintptr_t)d, n, true, __builtin_return_address(0));
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
	plain((uintptr_t)s, n, false, __builtin_return_address(0));
	plain((uintptr_t)d, n, true, __builtin_return_address(0));
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
	plain((uintptr_t)d, n, true, __builtin_return_address(0));
	return memset(d, c, n);
}

// Memory orders as the compiler passes them.
enum { RLX, CONSUME, ACQ, REL, ACQ_REL, SEQ };

static void
at_begin(void* a, size_t n, bool wr, int mo, void* pc)
{
	if (!active) return;
	if (in_tls((uintptr_t)a)) return;
	point();
	spinning(a, wr);
	atomic_access((uintptr_t)a, n, wr, pc);
	obj_t* o = obj(a, 'a');
	thr_t* t = &T[cur];
	bool rd = true;
	if (rd) {
		if (mo == ACQ || mo == CONSUME || mo == ACQ_REL || mo == SEQ) join_vc(&t->vc, &o->vc);
		else join_vc(&t->acq, &o->vc);
	}
	if (wr) {
		if (mo == REL || mo == ACQ_REL || mo == SEQ) { join_vc(&o->vc, &t->vc); tick(); }
		else join_vc(&o->vc, &t->rel);
	}
	if (!wr) read_same(a, false);
	if (mc_verbose()) mc_log("T%d atomic %s of %d", cur, wr ? "update" : "load", o->id);
}
static void
at_end(void* a, bool changed)
{
	if (!active || in_tls((uintptr_t)a)) return;
	if (changed) progress++;
	else read_same(a, true);
}
// A plain atomic store publishes, but reads nothing.
static void
at_store(void* a, size_t n, int mo, void* pc)
{
	if (!active || in_tls((uintptr_t)a)) return;
	point();
	atomic_access((uintptr_t)a, n, true, pc);
	obj_t* o = obj(a, 'a');
	thr_t* t = &T[cur];
	if (mo == REL || mo == SEQ) { o->vc = t->vc; tick(); }
	else o->vc = t->rel;
	progress++;
	if (mc_verbose()) mc_log("T%d atomic store to %d", cur, o->id);
}

void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void
__tsan_atomic_thread_fence(int mo)
{
	if (!active) return;
	thr_t* t = &T[cur];
	if (mo != REL) join_vc(&t->vc, &t->acq);
	if (mo != ACQ && mo != CONSUME) { t->rel = t->vc; tick(); }
}

#define PC __builtin_return_address(0)
#define RMW(ty, n, name, expr) \
	ty __tsan_atomic##n##_##name(volatile ty* a, ty v, int mo) { \
		at_begin((void*)a, sizeof(ty), true, mo, PC); ty old = *a; *a = (ty)(expr); at_end((void*)a, *a != old); return old; }
#define ATOMICS(ty, n) \
	ty __tsan_atomic##n##_load(const volatile ty* a, int mo) { at_begin((void*)a, sizeof(ty), false, mo, PC); return *a; } \
	void __tsan_atomic##n##_store(volatile ty* a, ty v, int mo) { at_store((void*)a, sizeof(ty), mo, PC); *a = v; } \
	RMW(ty, n, exchange, v) RMW(ty, n, fetch_add, old + v) RMW(ty, n, fetch_sub, old - v) RMW(ty, n, fetch_and, old & v) \
	RMW(ty, n, fetch_or, old | v) RMW(ty, n, fetch_xor, old ^ v) RMW(ty, n, fetch_nand, ~(old & v)) \
	int __tsan_atomic##n##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { \
		bool eq; at_begin((void*)a, sizeof(ty), true, mo, PC); (void)fmo; eq = *a == *c; at_end((void*)a, eq && *a != v); if (eq) *a = v; else *c = *a; return eq; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { \
		return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo); } \
	ty __tsan_atomic##n##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { \
		at_begin((void*)a, sizeof(ty), true, mo, PC); (void)fmo; ty old = *a; if (old == c) *a = v; at_end((void*)a, *a != old); return old; }
ATOMICS(uint8_t, 8)
ATOMICS(uint16_t, 16)
ATOMICS(uint32_t, 32)
ATOMICS(uint64_t, 64)
