// C14, threads: a locked list is a plain sequence under every interleaving.
#include "mcthr.h"
#include <stdio.h>
MC_QUIET_BEGIN
#include "llist.h"
#include "lin.h"

enum { APPEND, PREPEND, AFTER, BEFORE, DELETE, RED, RED_BACK, RED_DEL, RED_DEL_BACK, RED_STOP, INS_RED, INS_RED_BACK, SEARCH, SEARCH_BACK, SIZE, N_OPS };
static const char* const opn[] = { "append", "prepend", "insert_after", "insert_before", "delete", "reduce", "reduce(back)", "reduce(delete)",
	"reduce(delete,back)", "reduce(stop)", "insert_reduce", "insert_reduce(back)", "search", "search(back)", "size" };

static cf_ll ll;
static lin_op ops[LIN_MAX];
static int n_ops;
static struct { int first, n; } prog[4];
static node* nodes[64];
static int destroyed;

// Ids: 20 stays for good, 10 + t belongs to thread t, those ending in 3 are deleted by reduce.
enum { ANCHOR = 20, OWN = 10 };

static node* make(int id) { node* x = malloc(sizeof *x); memset(x, 0, sizeof *x); x->id = id; nodes[id] = x; return x; }
static void on_destroy(cf_ll_element* e)
{
	node* x = node_of(e);
	if (x->destroyed++) mc_violation("destroyed-twice", "element %d destroyed twice", x->id);
	destroyed++;
}

typedef struct { int64_t seen; int id, visits; } look_t;
static int64_t enc(int64_t s, int id) { return s * 64 + id; }
static int visit(cf_ll_element* e, void* u)
{
	look_t* l = u;
	if (l->visits++ > 12) mc_violation("visits", "a walk does not end");
	l->seen = enc(l->seen, node_of(e)->id);
	return 0;
}
static int visit_del(cf_ll_element* e, void* u) { visit(e, u); return node_of(e)->id % 10 == 3 ? CF_LL_REDUCE_DELETE : 0; }
static int visit_stop(cf_ll_element* e, void* u) { visit(e, u); return node_of(e)->id == ANCHOR ? 77 : 0; }
static int place(cf_ll_element* e, void* u) { return !e || node_of(e)->id > *(int*)u ? CF_LL_REDUCE_INSERT : 0; }
static int place_back(cf_ll_element* e, void* u) { return !e || node_of(e)->id < *(int*)u ? CF_LL_REDUCE_INSERT : 0; }
static int match(cf_ll_element* e, void* u) { return node_of(e)->id == node_of((cf_ll_element*)u)->id ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED; }

static void run_op(lin_op* o)
{
	int id = (int)o->arg;
	cf_ll_element* e = nodes[id] ? &nodes[id]->link : NULL;
	cf_ll_element* a = nodes[ANCHOR] ? &nodes[ANCHOR]->link : NULL;
	look_t l = { 0 };
	node like = { .id = (int)o->arg2 };
	o->call = mc_seq();
	switch (o->kind) {
	case APPEND: cf_ll_append(&ll, e); break;
	case PREPEND: cf_ll_prepend(&ll, e); break;
	case AFTER: cf_ll_insert_after(&ll, a, e); break;
	case BEFORE: cf_ll_insert_before(&ll, a, e); break;
	case DELETE: cf_ll_delete(&ll, e); break;
	case RED: o->res = cf_ll_reduce(&ll, true, visit, &l); break;
	case RED_BACK: o->res = cf_ll_reduce(&ll, false, visit, &l); break;
	case RED_DEL: cf_ll_reduce(&ll, true, visit_del, &l); break;
	case RED_DEL_BACK: cf_ll_reduce(&ll, false, visit_del, &l); break;
	case RED_STOP: o->res = cf_ll_reduce(&ll, true, visit_stop, &l); break;
	case INS_RED: o->res = cf_ll_insert_reduce(&ll, e, true, place, &id); break;
	case INS_RED_BACK: o->res = cf_ll_insert_reduce(&ll, e, false, place_back, &id); break;
	case SEARCH: case SEARCH_BACK: {
		cf_ll_element* f = cf_ll_search(&ll, &like.link, o->kind == SEARCH, match);
		o->res = f != NULL;
		break;
	}
	case SIZE: o->res = cf_ll_size(&ll); break;
	}
	o->ret = mc_seq();
	o->out = l.seen;
	if (mc_verbose()) mc_log("T%d %s(%d) -> %d", mc_self(), opn[o->kind], id, (int)o->res);
}
static void body(void* p)
{
	int t = (int)(intptr_t)p;
	for (int i = 0; i < prog[t].n; i++) run_op(&ops[prog[t].first + i]);
}

static int64_t walk(const lin_seq* s, bool fwd)
{
	int64_t h = 0;
	for (int i = 0; i < s->n; i++) h = enc(h, s->v[fwd ? i : s->n - 1 - i]);
	return h;
}
static bool apply(lin_seq* s, const lin_op* o)
{
	int id = (int)o->arg, k, a = seq_find(s, ANCHOR);
	switch (o->kind) {
	case APPEND: seq_ins(s, s->n, id); return true;
	case PREPEND: seq_ins(s, 0, id); return true;
	case AFTER: seq_ins(s, a + 1, id); return true;
	case BEFORE: seq_ins(s, a, id); return true;
	case DELETE: k = seq_find(s, id); if (k < 0) return false; seq_del(s, k); return true;
	case RED: return o->res == 0 && o->out == walk(s, true);
	case RED_BACK: return o->res == 0 && o->out == walk(s, false);
	case RED_DEL: case RED_DEL_BACK:
		if (o->out != walk(s, o->kind == RED_DEL)) return false;
		for (k = 0; k < s->n; ) if (s->v[k] % 10 == 3) seq_del(s, k); else k++;
		return true;
	case RED_STOP: {
		if (a < 0) return o->res == 0 && o->out == walk(s, true);
		int64_t h = 0;
		for (k = 0; k <= a; k++) h = enc(h, s->v[k]);
		return o->res == 77 && o->out == h;
	}
	case INS_RED: for (k = 0; k < s->n && s->v[k] <= id; k++) ; seq_ins(s, k, id); return o->res == 0;
	case INS_RED_BACK: for (k = s->n; k > 0 && s->v[k - 1] >= id; k--) ; seq_ins(s, k, id); return o->res == 0;
	case SEARCH: case SEARCH_BACK: return o->res == (seq_find(s, (int)o->arg2) >= 0);
	case SIZE: return o->res == s->n;
	}
	return false;
}

static void run(int threads, const int* per, int bound)
{
	static const int starts[][6] = { { 10, 20, 33 }, { 0 }, { 20 }, { 33, 10, 20, 11, 43, 12 }, { 10 }, { 11, 10 } };
	const int* st = starts[mc_choose(mc_pick(5, 6))];
	n_ops = destroyed = 0;
	memset(prog, 0, sizeof prog);
	memset(nodes, 0, sizeof nodes);
	lin_seq start = { 0 };
	cf_ll_init(&ll, on_destroy, true);
	for (int i = 0; i < 6 && st[i]; i++) { cf_ll_append(&ll, &make(st[i])->link); start.v[start.n++] = st[i]; }
	for (int t = 0; t < threads; t++) {
		bool deleted = false;
		prog[t].first = n_ops;
		prog[t].n = per[t];
		for (int i = 0; i < per[t]; i++) {
			lin_op* o = &ops[n_ops];
			memset(o, 0, sizeof *o);
			o->kind = mc_choose(N_OPS);
			o->thread = t;
			if ((o->kind == AFTER || o->kind == BEFORE) && seq_find(&start, ANCHOR) < 0) mc_prune();
			if (o->kind == DELETE) {
				if (deleted || seq_find(&start, OWN + t) < 0) mc_prune();
				deleted = true;
				o->arg = OWN + t;
			}
			else if (o->kind <= BEFORE || o->kind == INS_RED || o->kind == INS_RED_BACK) {
				static const int ids[] = { 3, 25, 13, 7, 15 };	// some are themselves deleted by reduce
				o->arg = ids[n_ops];
				make((int)o->arg);
			}
			else if (o->kind == SEARCH || o->kind == SEARCH_BACK) o->arg2 = t == 0 ? 33 : 3;
			n_ops++;
		}
	}
	uint64_t tag = (uint64_t)start.n;
	for (int i = 0; i < n_ops; i++) tag = mc_hash_u64(tag, (uint64_t)(ops[i].kind * 8 + ops[i].thread));
	for (int t = 0; t < threads; t++) mc_spawn(body, (void*)(intptr_t)t, "user");
	mc_sched_tag(tag);
	mc_sched_bound(bound);
	mc_join_all();
	mc_sched_bound(0);
	lin_seq end = { 0 };
	for (cf_ll_element* e = cf_ll_get_head(&ll); e && end.n < 30; e = cf_ll_get_next(e)) end.v[end.n++] = node_of(e)->id;
	int k = end.n;
	for (cf_ll_element* e = cf_ll_get_tail(&ll); e; e = cf_ll_get_prev(e))
		MC_CHECK(k > 0 && end.v[--k] == node_of(e)->id, "backwards", "the list read backwards is not the list read forwards");
	MC_CHECK(k == 0, "backwards", "the list read backwards ends early");
	MC_CHECK(cf_ll_size(&ll) == (uint32_t)end.n, "size", "size %u, but %d elements", cf_ll_size(&ll), end.n);
	int left = 0;
	for (int i = 0; i < 64; i++) if (nodes[i]) {
		bool in = seq_find(&end, i) >= 0;
		left++;
		MC_CHECK(nodes[i]->destroyed == (in ? 0 : 1), "destructor", "element %d is %s the list and was destroyed %d times", i, in ? "in" : "not in", nodes[i]->destroyed);
	}
	if (!lin_search(ops, n_ops, 0, &start, apply, &end)) {
		char b[400];
		size_t n = 0;
		for (int i = 0; i < n_ops && n < sizeof b - 60; i++)
			n += (size_t)snprintf(b + n, sizeof b - n, "T%d %s(%d)=%d/%llx; ", ops[i].thread + 1, opn[ops[i].kind], (int)ops[i].arg, (int)ops[i].res, (unsigned long long)ops[i].out);
		for (int i = 0; i < end.n && n < sizeof b - 12; i++) n += (size_t)snprintf(b + n, sizeof b - n, " %d", end.v[i]);
		mc_violation("not-linearizable", "no order of the operations explains the results: %s", b);
	}
	for (int i = 0; i < n_ops; i++) { tag = mc_hash_u64(tag, (uint64_t)ops[i].res); tag = mc_hash_u64(tag, (uint64_t)ops[i].out); }
	mc_state(mc_hash(tag, end.v, sizeof(int) * (size_t)end.n));
	for (int i = 0; i < 64; i++) free(nodes[i]);
}
static void sc_two(void) { int per[2] = { 2, mc_pick(1, 2) }; run(2, per, -1); }
static void sc_three(void) { int per[3] = { 1, 1, 1 }; run(3, per, mc_pick(3, -1)); }

const mc_scenario mc_scenarios[] = {
	{ "two", sc_two, 3, "two threads x 2 + 1 (2) operations of 15 x 5 (6) lists, all interleavings" },
	{ "three", sc_three, 3, "three threads x 1 operation of 15 x 5 (6) lists, preemption bound 3 (none)" },
	{ NULL } };
MC_QUIET_END
