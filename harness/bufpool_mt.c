// C13, threads: one pool used by several threads under every interleaving.
#include "mcthr.h"
#include <aerospike/as_buffer_pool.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <stdlib.h>

// The holder's own use of a buffer: seen by the race detection.
__attribute__((noinline)) static void use_write(uint64_t* p, uint64_t v) { p[0] = v; p[1] = ~v; }
__attribute__((noinline)) static int use_ok(uint64_t* p, uint64_t v) { return p[0] == v && p[1] == ~v; }

MC_QUIET_BEGIN
#include "lin.h"
enum { POP, BIG, PUSH, LIMIT, DROP, DROP2, N_OPS };
static const char* const opn[] = { "pop", "pop(large)", "push", "push_limit(1)", "drop(1)", "drop(2)" };
#define CAP 24u
static as_buffer_pool pool;
static lin_op ops[LIN_MAX];
static int n_ops, extra;
static struct { int kinds[4], n; } prog[3];
static void* all[40];
static int nall;

static int ident(void* p) { for (int i = 0; i < nall; i++) if (all[i] == p) return i; all[nall] = p; return nall++; }

static lin_op* note(int kind, uint64_t call, int64_t res, int64_t out)
{
	lin_op* o = &ops[n_ops++];
	*o = (lin_op){ .thread = mc_self() - 1, .kind = kind, .call = call, .ret = mc_seq(), .res = res, .out = out };
	return o;
}
static void body(void* p)
{
	int t = (int)(intptr_t)p;
	struct { uint64_t* d; uint32_t cap; uint64_t mark; } h[4];
	int n = 0;
	for (int i = 0; i < prog[t].n; i++) {
		int k = prog[t].kinds[i];
		uint64_t call = mc_seq();
		if (k == POP || k == BIG) {
			as_buffer_result r = { 0 };
			int rc = as_buffer_pool_pop(&pool, k == BIG ? CAP + 8 : CAP, &r);
			note(k, call, rc, ident(r.data));
			mc_log("T%d %s -> %d buffer %d", mc_self(), opn[k], rc, ident(r.data));
			MC_CHECK(r.capacity == (k == BIG ? CAP + 8 : CAP), "capacity", "capacity reported is %u", r.capacity);
			h[n].d = r.data; h[n].cap = r.capacity; h[n].mark = (uint64_t)(t * 100 + i + 1);
			use_write(h[n].d, h[n].mark);
			n++;
			continue;
		}
		if (k == DROP || k == DROP2) {
			int want = k == DROP ? 1 : 2, rc = as_buffer_pool_drop_buffers(&pool, want);
			MC_CHECK(rc >= 0 && rc <= want, "drop-count", "dropping %d gives %d", want, rc);
			// Not one step: each buffer is dropped on its own.
			for (int j = 0; j < rc; j++) note(DROP, call, 1, 0);
			if (rc < want) note(DROP, call, 0, 0);
			mc_log("T%d %s -> %d", mc_self(), opn[k], rc);
			continue;
		}
		// The first buffer held, or one of a size the pool does not keep.
		n--;
		MC_CHECK(use_ok(h[0].d, h[0].mark), "shared", "a held buffer was changed by somebody else");
		void* d = h[0].d;
		uint32_t cap = h[0].cap;
		h[0] = h[1]; h[1] = h[2]; h[2] = h[3];
		int rc = k == PUSH ? as_buffer_pool_push(&pool, d, cap) : as_buffer_pool_push_limit(&pool, d, cap, 1);
		if (cap == CAP) note(k, call, rc, ident(d));
		else MC_CHECK(rc == -2, "push-code", "returning a large buffer gives %d", rc);
		mc_log("T%d %s of buffer %d -> %d", mc_self(), opn[k], ident(d), rc);
	}
	while (n--) {
		MC_CHECK(use_ok(h[n].d, h[n].mark), "shared", "a held buffer was changed by somebody else");
		cf_free(h[n].d);
	}
}
// Which of several pooled buffers comes out is not specified.
static bool apply(lin_seq* s, const lin_op* o)
{
	switch (o->kind) {
	case BIG: return o->res == 2;
	case POP: if (s->n == 0) return o->res == 1; s->n--; return o->res == 0;
	case PUSH: s->n++; return o->res == 0;
	case LIMIT: if (s->n >= 1) return o->res == -1; s->n++; return o->res == 0;
	case DROP: if (s->n == 0) return o->res == 0; s->n--; return o->res == 1;
	}
	return false;
}
static void run(int threads, const int* per, int bound)
{
	int start = mc_choose(3);
	n_ops = nall = extra = 0;
	uint64_t tag = (uint64_t)start;
	for (int t = 0; t < threads; t++) {
		int holds = 0;
		prog[t].n = per[t];
		for (int i = 0; i < per[t]; i++) {
			int k = prog[t].kinds[i] = mc_choose(N_OPS);
			if (k == POP || k == BIG) holds++;
			if ((k == PUSH || k == LIMIT) && holds-- == 0) mc_prune();
			tag = mc_hash_u64(tag, (uint64_t)(k * 4 + t));
		}
	}
	MC_CHECK(as_buffer_pool_init(&pool, 8, CAP + 8) == 0, "init", "starting a pool failed");
	as_buffer_result r[2];
	for (int i = 0; i < start; i++) { as_buffer_pool_pop(&pool, 1, &r[i]); ident(r[i].data); }
	for (int i = 0; i < start; i++) as_buffer_pool_push(&pool, r[i].data, r[i].capacity);
	for (int t = 0; t < threads; t++) mc_spawn(body, (void*)(intptr_t)t, "user");
	mc_sched_tag(tag);
	mc_sched_bound(bound);
	mc_join_all();
	mc_sched_bound(0);
	lin_seq s = { .n = start }, end = { 0 };
	end.n = (int)as_buffer_pool_drop_buffers(&pool, 1000);
	// What is left is compared by number.
	if (!lin_search(ops, n_ops, 0, &s, apply, &end)) {
		char b[400];
		size_t n = 0;
		for (int i = 0; i < n_ops && n < sizeof b - 60; i++) n += (size_t)snprintf(b + n, sizeof b - n, "T%d %s=%d; ", ops[i].thread + 1, opn[ops[i].kind], (int)ops[i].res);
		mc_violation("not-linearizable", "no order of the operations explains the results from %d pooled, %d at the end: %s", start, end.n, b);
	}
	for (int i = 0; i < n_ops; i++) tag = mc_hash_u64(tag, (uint64_t)ops[i].res * 64 + (uint64_t)ops[i].out);
	mc_state(mc_hash_u64(tag, (uint64_t)end.n));
	as_buffer_pool_destroy(&pool);
}
static void sc_two(void) { int per[2] = { 3, mc_pick(2, 3) }; run(2, per, mc_pick(4, -1)); }
static void sc_three(void) { int per[3] = { 2, mc_pick(1, 2), 2 }; run(3, per, mc_pick(2, 3)); }
const mc_scenario mc_scenarios[] = {
	{ "two", sc_two, 3, "two threads x 3 + 2 (3) operations x 0..2 pooled buffers, preemption bound 4 (none)" },
	{ "three", sc_three, 3, "three threads x 2 + 1 (2) + 2 operations x 0..2 pooled buffers, preemption bound 2 (3)" },
	{ NULL } };
MC_QUIET_END
