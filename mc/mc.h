// Exhaustive choice explorer: see mc.c.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

typedef struct {
	const char* name;
	void (*fn)(void);
	int claim_depth;	// choices that make up a unit of work for the workers
	const char* bounds;	// human readable bounds
} mc_scenario;

extern const mc_scenario mc_scenarios[];	// terminated by name == NULL

// ---- choices -------------------------------------------------------------
int mc_choose(int n);			// every value 0..n-1 is explored
static inline int mc_range(int lo, int hi) { return lo + mc_choose(hi - lo + 1); }
static inline bool mc_flip(void) { return mc_choose(2); }
void mc_prune(void) __attribute__((noreturn));	// abandon this path (not counted)
// True where this execution differs from the previous one: pure observations of
// states already observed by an earlier path can be skipped when false.
bool mc_fresh(void);
bool mc_thorough(void);
int mc_pick(int quick, int thorough);
int mc_param(const char* name, int dflt);	// --set name=value override

// ---- accounting ----------------------------------------------------------
void mc_step(void);			// one transition executed on the implementation
void mc_steps(uint64_t n);
void mc_state(uint64_t hash);		// a state (or distinct case) was reached
void mc_case(void);			// a sub-case evaluated inside one path
uint64_t mc_hash(uint64_t h, const void* p, size_t n);
static inline uint64_t mc_hash_u64(uint64_t h, uint64_t v) { return mc_hash(h, &v, sizeof v); }

// ---- reporting -----------------------------------------------------------
bool mc_verbose(void);
void mc_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Report a violation. 'sig' identifies the kind of failure (known findings are
// matched on it). Does not return.
void mc_violation(const char* sig, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc_violation(sig, __VA_ARGS__); } while (0)
void mc_error(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));	// the check itself is broken

// ---- controlled allocator --------------------------------------------------
// All malloc/calloc/realloc/free/strdup/strndup calls of the library and the
// harness are routed here. Everything must be freed when the scenario returns.
void* mc_raw_malloc(size_t n);	// not tracked
void mc_raw_free(void* p);
extern uint64_t mc_alloc_live;		// live tracked blocks
extern uint64_t mc_alloc_live_bytes;
extern uint64_t mc_alloc_calls;		// allocation attempts since path start
extern uint64_t mc_alloc_bytes;		// bytes requested since path start
extern uint64_t mc_alloc_largest;	// largest single request since path start
extern int64_t mc_alloc_fail_at;	// fail the n-th attempt from now (0 = next); <0 = off
extern bool mc_alloc_fail_forever;	// ...and all that follow
extern uint64_t mc_alloc_failed;	// attempts failed so far on this path
extern size_t mc_alloc_limit;		// larger requests fail
void mc_alloc_arm(int64_t nth, bool forever);
void mc_alloc_disarm(void);
// Explore failures instead: between enter and leave every allocation attempt is a
// choice (succeeds; fails; fails with all others until leave; fails with all that
// follow in later enter/leave sections), for up to 'faults' failures per path.
void mc_alloc_explore(int faults);
void mc_alloc_enter(void);
void mc_alloc_leave(void);
bool mc_alloc_is_live(const void* p, size_t* size);
void mc_alloc_dump(void);

// Hook for the scheduler runtime.
extern void (*mc_path_begin_hook)(void);
extern void (*mc_path_end_hook)(bool completed);
bool mc_in_path(void);
