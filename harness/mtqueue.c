// C11: thread-safe queues under every interleaving.
#include "mcthr.h"
#include <aerospike/as_queue_mt.h>
#include <citrusleaf/cf_queue.h>
#include <stdio.h>
#include <stdlib.h>
MC_QUIET_BEGIN
#include "lin.h"

enum { PUSH, PUSH_HEAD, PUSH_LIMIT, PUSH_UNIQ, PUSH_INDEX, POP, POP_T, POP_W, PEEK, RED_DEL, RED_POP, RED_POP_W, RED_POP_T, DEL, DEL_ALL, POP_NEG, N_CF };
enum { M_PUSH = 100, M_PUSH_HEAD, M_LIMIT, M_HEAD_LIMIT, M_POP, M_POP_T, M_POP_W, M_TAIL, M_TAIL_T, M_TAIL_W, M_SIZE, M_EMPTY, N_MT };
static const char* const cfn[] = { "push", "push_head", "push_limit", "push_unique", "push_index", "pop", "pop(timed)", "pop(wait)", "peek",
	"reduce(delete)", "reduce_pop", "reduce_pop(wait)", "reduce_pop(timed)", "delete", "delete_all", "pop(-2)" };
static const char* const mtn[] = { "push", "push_head", "push_limit", "push_head_limit", "pop", "pop(timed)", "pop(wait)", "pop_tail",
	"pop_tail(timed)", "pop_tail(wait)", "size", "empty" };

static cf_queue* Q;
static as_queue_mt* M;
static int cap;
static lin_op ops[LIN_MAX];
static int n_ops;
static struct { int first, n; } prog[4];

// An element carries its value twice, so that a torn one is seen.
typedef struct { int a, b; } el_t;
static el_t el(int v) { return (el_t){ v, ~v }; }
static int val(const el_t* e) { MC_CHECK(e->b == ~e->a, "torn", "an element is damaged: %x %x", e->a, e->b); return e->a; }

static int red_del(void* e, void* u) { return val(e) % 10 == *(int*)u ? -2 : 0; }
static int red_max(void* e, void* u) { int* m = u; if (val(e) > *m) { *m = val(e); return -2; } return 0; }

static void run_op(lin_op* o)
{
	el_t e = el((int)o->arg);
	bool pops = false;
	int t = 0;
	o->call = mc_seq();
	switch (o->kind) {
	case PUSH: o->res = cf_queue_push(Q, &e); break;
	case PUSH_HEAD: o->res = cf_queue_push_head(Q, &e); break;
	case PUSH_LIMIT: o->res = cf_queue_push_limit(Q, &e, (uint32_t)o->arg2); break;
	case PUSH_UNIQ: o->res = cf_queue_push_unique(Q, &e); break;
	case PUSH_INDEX: o->res = cf_queue_push_index(Q, &e, 1); break;
	case POP: o->res = cf_queue_pop(Q, &e, CF_QUEUE_NOWAIT); pops = o->res == 0; break;
	case POP_T: o->res = cf_queue_pop(Q, &e, 20); pops = o->res == 0; break;
	case POP_W: o->res = cf_queue_pop(Q, &e, CF_QUEUE_FOREVER); pops = o->res == 0; break;
	case POP_NEG: o->res = cf_queue_pop(Q, &e, -2); pops = o->res == 0; break;
	case PEEK: o->res = cf_queue_peek(Q, &e); pops = o->res == 0; break;
	case RED_DEL: t = (int)o->arg2; o->res = cf_queue_reduce(Q, red_del, &t); break;
	case RED_POP: o->res = cf_queue_reduce_pop(Q, &e, CF_QUEUE_NOWAIT, red_max, &t); pops = o->res == 0; break;
	case RED_POP_W: o->res = cf_queue_reduce_pop(Q, &e, CF_QUEUE_FOREVER, red_max, &t); pops = o->res == 0; break;
	case RED_POP_T: o->res = cf_queue_reduce_pop(Q, &e, 20, red_max, &t); pops = o->res == 0; break;
	case DEL: o->res = cf_queue_delete(Q, &e, true); break;
	case DEL_ALL: o->res = cf_queue_delete_all(Q); break;
	case M_PUSH: o->res = as_queue_mt_push(M, &e); break;
	case M_PUSH_HEAD: o->res = as_queue_mt_push_head(M, &e); break;
	case M_LIMIT: o->res = as_queue_mt_push_limit(M, &e); break;
	case M_HEAD_LIMIT: o->res = as_queue_mt_push_head_limit(M, &e); break;
	case M_POP: o->res = as_queue_mt_pop(M, &e, AS_QUEUE_NOWAIT); pops = o->res; break;
	case M_POP_T: o->res = as_queue_mt_pop(M, &e, 20); pops = o->res; break;
	case M_POP_W: o->res = as_queue_mt_pop(M, &e, AS_QUEUE_FOREVER); pops = o->res; break;
	case M_TAIL: o->res = as_queue_mt_pop_tail(M, &e, AS_QUEUE_NOWAIT); pops = o->res; break;
	case M_TAIL_T: o->res = as_queue_mt_pop_tail(M, &e, 20); pops = o->res; break;
	case M_TAIL_W: o->res = as_queue_mt_pop_tail(M, &e, AS_QUEUE_FOREVER); pops = o->res; break;
	case M_SIZE: o->res = as_queue_mt_size(M); break;
	case M_EMPTY: o->res = as_queue_mt_empty(M); break;
	}
	o->ret = mc_seq();
	o->out = pops ? val(&e) : 0;
	if (mc_verbose()) mc_log("T%d %s(%d) -> %d, %d", mc_self(), o->kind >= 100 ? mtn[o->kind - 100] : cfn[o->kind], (int)o->arg, (int)o->res, (int)o->out);
}

static void body(void* p)
{
	int t = (int)(intptr_t)p;
	for (int i = 0; i < prog[t].n; i++) run_op(&ops[prog[t].first + i]);
}

static bool took(lin_seq* s, const lin_op* o, int at, bool remove)
{
	if (o->out != s->v[at]) return false;
	if (remove) seq_del(s, at);
	return true;
}
static bool apply(lin_seq* s, const lin_op* o)
{
	int v = (int)o->arg, k;
	switch (o->kind) {
	case PUSH: seq_ins(s, s->n, v); return o->res == CF_QUEUE_OK;
	case PUSH_HEAD: seq_ins(s, 0, v); return o->res == CF_QUEUE_OK;
	case PUSH_LIMIT: if (s->n >= o->arg2) return !o->res; seq_ins(s, s->n, v); return o->res == true;
	case PUSH_UNIQ: if (seq_find(s, v) >= 0) return o->res == -2; seq_ins(s, s->n, v); return o->res == CF_QUEUE_OK;
	case PUSH_INDEX: seq_ins(s, s->n < 1 ? s->n : 1, v); return o->res == CF_QUEUE_OK;
	case POP: case POP_T: if (s->n == 0) return o->res == CF_QUEUE_EMPTY; return o->res == CF_QUEUE_OK && took(s, o, 0, true);
	case POP_W: case POP_NEG: return s->n && o->res == CF_QUEUE_OK && took(s, o, 0, true);
	case PEEK: if (s->n == 0) return o->res == CF_QUEUE_EMPTY; return o->res == CF_QUEUE_OK && took(s, o, 0, false);
	case RED_DEL:
		for (k = 0; k < s->n; k++) if (s->v[k] % 10 == o->arg2) { seq_del(s, k); break; }
		return o->res == CF_QUEUE_OK;
	case RED_POP: case RED_POP_W: case RED_POP_T:
		if (s->n == 0) return o->kind != RED_POP_W && o->res == CF_QUEUE_EMPTY;
		k = 0;
		for (int i = 0; i < s->n; i++) if (s->v[i] > s->v[k]) k = i;
		return o->res == CF_QUEUE_OK && took(s, o, k, true);
	case DEL: k = seq_find(s, v); if (k < 0) return o->res == CF_QUEUE_EMPTY; seq_del(s, k); return o->res == CF_QUEUE_OK;
	case DEL_ALL: k = s->n; s->n = 0; return o->res == (k ? CF_QUEUE_OK : CF_QUEUE_EMPTY);
	// An unbounded push into a full queue may enlarge it by any amount.
	case M_PUSH: s->grown |= s->n >= cap; seq_ins(s, s->n, v); return o->res == true;
	case M_PUSH_HEAD: s->grown |= s->n >= cap; seq_ins(s, 0, v); return o->res == true;
	case M_LIMIT: case M_HEAD_LIMIT:
		if (s->n >= cap && !(s->grown && o->res)) return !o->res;
		seq_ins(s, o->kind == M_LIMIT ? s->n : 0, v);
		return o->res == true;
	case M_POP: case M_POP_T: if (s->n == 0) return !o->res; return o->res && took(s, o, 0, true);
	case M_POP_W: return s->n && o->res && took(s, o, 0, true);
	case M_TAIL: case M_TAIL_T: if (s->n == 0) return !o->res; return o->res && took(s, o, s->n - 1, true);
	case M_TAIL_W: return s->n && o->res && took(s, o, s->n - 1, true);
	case M_SIZE: return o->res == s->n;
	case M_EMPTY: return o->res == (s->n == 0);
	}
	return false;
}

static void add_op(int kind, int thread)
{
	lin_op* o = &ops[n_ops];
	memset(o, 0, sizeof *o);
	o->kind = kind;
	o->thread = thread;
	o->arg = 10 * (n_ops + 2) + n_ops % 2;
	if (kind == PUSH_UNIQ || kind == DEL) o->arg = 11;	// the same element everywhere
	if (kind == PUSH_LIMIT) o->arg2 = 2;
	if (kind == RED_DEL) o->arg2 = 1;
	prog[thread].n++;
	n_ops++;
}
static const char* name(int kind) { return kind >= 100 ? mtn[kind - 100] : cfn[kind]; }

// Runs the programs of the threads and explains what was seen.
static void run(int threads, int fill, int rot, bool mt, int spurious, int bound)
{
	lin_seq start = { 0 };
	Q = NULL;
	M = NULL;
	if (mt) M = as_queue_mt_create(sizeof(el_t), (uint32_t)cap);
	else if ((Q = malloc(sizeof *Q))) cf_queue_init(Q, sizeof(el_t), (uint32_t)cap, true);
	for (int i = 0; i < rot; i++) {
		el_t e = el(99);
		if (mt) { as_queue_mt_push(M, &e); as_queue_mt_pop(M, &e, 0); }
		else {
			// Another element stays behind, or the queue would start over.
			el_t f = el(98);
			if (i == 0) cf_queue_push(Q, &f);
			cf_queue_push(Q, &e);
			cf_queue_pop(Q, &f, 0);
		}
	}
	if (!mt && rot) { el_t f; cf_queue_delete_all(Q); (void)f; }
	for (int i = 0; i < fill; i++) {
		el_t e = el(11 + 10 * i);
		if (start.n >= cap) start.grown = 1;
		start.v[start.n++] = 11 + 10 * i;
		if (mt) as_queue_mt_push(M, &e); else cf_queue_push(Q, &e);
	}
	if (mc_verbose()) {
		mc_log("%s of %d holding %d", mt ? "as_queue_mt" : "cf_queue", cap, fill);
		for (int i = 0; i < n_ops; i++) mc_log("thread %d: %s", ops[i].thread + 1, name(ops[i].kind));
	}
	uint64_t tag = mc_hash_u64((uint64_t)(fill * 8 + rot * 2 + mt), (uint64_t)cap);
	for (int i = 0; i < n_ops; i++) tag = mc_hash_u64(tag, (uint64_t)(ops[i].kind * 8 + ops[i].thread));
	for (int t = 0; t < threads; t++) mc_spawn(body, (void*)(intptr_t)t, "user");
	mc_sched_tag(tag);
	mc_sched_bound(bound);
	mc_sched_spurious(spurious);
	int left = mc_quiet_wait();
	mc_sched_spurious(0);
	mc_sched_bound(0);
	// Whoever still waits may do so only because there is nothing to take.
	uint32_t size = mt ? as_queue_mt_size(M) : cf_queue_sz(Q);
	if (left) MC_CHECK(size == 0, "stranded", "%d consumer(s) wait while the queue holds %u element(s)", left, size);
	int closers = 0;
	while (left) {
		MC_CHECK(closers < 8, "stranded", "a consumer is not woken by a push");
		lin_op* o = &ops[n_ops];
		memset(o, 0, sizeof *o);
		o->kind = mt ? M_PUSH : PUSH;
		o->arg = 200 + 10 * closers;
		n_ops++;
		closers++;
		run_op(o);
		int l2 = mc_quiet_wait();
		size = mt ? as_queue_mt_size(M) : cf_queue_sz(Q);
		if (l2) MC_CHECK(size == 0, "stranded", "%d consumer(s) wait while the queue holds %u element(s)", l2, size);
		left = l2;
	}
	mc_join_all();
	// Drain what is left: it takes part in the explanation.
	lin_seq end = { 0 };
	size = mt ? as_queue_mt_size(M) : cf_queue_sz(Q);
	el_t e;
	while (end.n < 30 && (mt ? as_queue_mt_pop(M, &e, 0) : cf_queue_pop(Q, &e, 0) == CF_QUEUE_OK)) end.v[end.n++] = val(&e);
	MC_CHECK(size == (uint32_t)end.n, "size", "size is %u, but %d elements come out", size, end.n);
	bool ok = lin_search(ops, n_ops, 0, &start, apply, &end);
	if (!ok) {
		char b[600];
		size_t n = 0;
		for (int i = 0; i < n_ops && n < sizeof b - 60; i++)
			n += (size_t)snprintf(b + n, sizeof b - n, "T%d %s=%d/%d; ", ops[i].thread + 1, name(ops[i].kind), (int)ops[i].res, (int)ops[i].out);
		n += (size_t)snprintf(b + n, sizeof b - n, "left:");
		for (int i = 0; i < end.n && n < sizeof b - 12; i++) n += (size_t)snprintf(b + n, sizeof b - n, " %d", end.v[i]);
		mc_violation("not-linearizable", "no order of the operations explains the results from %d element(s): %s", fill, b);
	}
	uint64_t h = mc_hash_u64((uint64_t)fill, (uint64_t)cap);
	for (int i = 0; i < n_ops; i++) { h = mc_hash_u64(h, (uint64_t)ops[i].kind); h = mc_hash_u64(h, (uint64_t)ops[i].res); h = mc_hash_u64(h, (uint64_t)ops[i].out); }
	mc_state(mc_hash(h, end.v, sizeof(int) * (size_t)end.n));
	if (mt) as_queue_mt_destroy(M);
	else { cf_queue_destroy(Q); free(Q); }
}

static void begin(void) { n_ops = 0; memset(prog, 0, sizeof prog); }
static void threads_ops(int threads, const int* per, int lo, int n)
{
	for (int t = 0; t < threads; t++) {
		prog[t].first = n_ops;
		for (int i = 0; i < per[t]; i++) add_op(lo + mc_choose(n), t);
	}
}

static void sc_cf2(void)
{
	begin();
	int per[2] = { 2, mc_pick(1, 2) };
	cap = 2;
	threads_ops(2, per, 0, N_CF);
	run(2, mc_choose(3), 0, false, 0, -1);
}
static void sc_cf3(void)
{
	begin();
	int per[3] = { 1, 1, 1 };
	cap = 2;
	threads_ops(3, per, 0, N_CF);
	run(3, mc_choose(3), 1, false, 0, -1);
}
// Producers and waiting consumers.
static void sc_cf_wait(void)
{
	begin();
	static const int prod[] = { PUSH, PUSH_HEAD, PUSH_LIMIT, PUSH_UNIQ, PUSH_INDEX, POP }, cons[] = { POP_W, POP_T, RED_POP_W, RED_POP_T, POP };
	cap = 1;
	int np = 1 + mc_choose(2), nc = 2;
	if (!mc_thorough() && np == 2) nc = 1 + mc_choose(2);
	for (int t = 0; t < np; t++) {
		prog[t].first = n_ops;
		int n = np == 1 ? 2 : 1;
		for (int i = 0; i < n; i++) add_op(prod[mc_choose(6)], t);
	}
	for (int t = np; t < np + nc; t++) { prog[t].first = n_ops; add_op(cons[mc_choose(5)], t); }
	run(np + nc, 0, 0, false, 1, np + nc == 4 ? mc_pick(1, 3) : mc_pick(2, 4));
}
static void sc_mt2(void)
{
	begin();
	int per[2] = { 2, mc_pick(1, 2) };
	cap = 2;
	threads_ops(2, per, M_PUSH, N_MT - M_PUSH);
	run(2, mc_choose(4), 1, true, 0, -1);
}
static void sc_mt3(void)
{
	begin();
	int per[3] = { 1, 1, 1 };
	cap = 1;
	threads_ops(3, per, M_PUSH, N_MT - M_PUSH);
	run(3, mc_choose(3), 1, true, 0, -1);
}
static void sc_mt_wait(void)
{
	begin();
	static const int prod[] = { M_PUSH, M_PUSH_HEAD, M_LIMIT, M_HEAD_LIMIT, M_POP }, cons[] = { M_POP_W, M_POP_T, M_TAIL_W, M_TAIL_T, M_POP };
	cap = 1;
	int np = 1 + mc_choose(2), nc = 2;
	if (!mc_thorough() && np == 2) nc = 1 + mc_choose(2);
	for (int t = 0; t < np; t++) {
		prog[t].first = n_ops;
		int n = np == 1 ? 2 : 1;
		for (int i = 0; i < n; i++) add_op(prod[mc_choose(5)], t);
	}
	for (int t = np; t < np + nc; t++) { prog[t].first = n_ops; add_op(cons[mc_choose(5)], t); }
	run(np + nc, 0, 0, true, 1, np + nc == 4 ? mc_pick(1, 3) : mc_pick(2, 4));
}

const mc_scenario mc_scenarios[] = {
	{ "cf2", sc_cf2, 3, "two threads x 2 + 1 (2) operations of 16 x 0..2 elements in a queue of 2, all interleavings" },
	{ "cf3", sc_cf3, 3, "three threads x 1 operation of 16 x 0..2 elements in a rotated queue of 2, all interleavings" },
	{ "cf_wait", sc_cf_wait, 3, "1..2 producers, 1..2 (2) consumers, one spurious wake-up, preemption bound 2 (4), four threads 1 (3)" },
	{ "mt2", sc_mt2, 3, "two threads x 2 + 1 (2) operations of 12 x 0..3 elements in a queue of 2, all interleavings" },
	{ "mt3", sc_mt3, 3, "three threads x 1 operation of 12 x 0..2 elements in a queue of 1, all interleavings" },
	{ "mt_wait", sc_mt_wait, 3, "1..2 producers, 1..2 (2) consumers, one spurious wake-up, preemption bound 2 (4), four threads 1 (3)" },
	{ NULL } };
MC_QUIET_END
