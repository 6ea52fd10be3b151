// C14, one thread: the list is a plain sequence for every operation history.
#include "llist.h"
#include <limits.h>

#define MAXN 16
static cf_ll ll;
static node* model[MAXN];
static int n, next_id, destroyed;
static bool with_destructor;
static node* removed[MAXN];
static int nremoved;

static void on_destroy(cf_ll_element* e)
{
	node* x = node_of(e);
	if (x->destroyed++) mc_violation("destroyed-twice", "element %d destroyed twice", x->id);
	destroyed++;
	removed[nremoved++] = x;
}
static void reap(void) { for (int i = 0; i < nremoved; i++) free(removed[i]); nremoved = 0; }

static node* fresh(void)
{
	node* x = malloc(sizeof *x);
	memset(x, 0x5a, sizeof *x);
	x->id = next_id++;
	x->destroyed = 0;
	return x;
}
static void m_insert(int at, node* x) { memmove(model + at + 1, model + at, (size_t)(n - at) * sizeof *model); model[at] = x; n++; }
static node* m_remove(int at) { node* x = model[at]; memmove(model + at, model + at + 1, (size_t)(--n - at) * sizeof *model); return x; }

static int want_destroyed;
static void gone(node* x)
{
	want_destroyed++;
	if (with_destructor) {
		MC_CHECK(x->destroyed == 1, "not-destroyed", "element %d left the list without its destructor", x->id);
	}
	else { free(x); }
}

static int seen[MAXN + 2], nseen, act_at, act_rv;
static uint32_t del_mask;
static void* want_u;
static int visit(cf_ll_element* e, void* u)
{
	if (u != want_u) mc_violation("udata", "callback got another user pointer");
	if (nseen > MAXN) mc_violation("visits", "more visits than elements");
	seen[nseen] = e ? node_of(e)->id : -1;
	int k = nseen++;
	if (k == act_at) return act_rv;
	return (del_mask >> k) & 1 ? CF_LL_REDUCE_DELETE : 0;
}
static int match(cf_ll_element* e, void* u)
{
	int k = nseen++;
	seen[k] = node_of(e)->id;
	if (k == act_at) return act_rv;
	return node_of(e)->id == node_of((cf_ll_element*)u)->id ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED;
}

static void look(void)
{
	MC_CHECK(cf_ll_size(&ll) == (uint32_t)n, "size", "size %u, expected %d", cf_ll_size(&ll), n);
	if (with_destructor) MC_CHECK(destroyed == want_destroyed, "destructor-count", "%d destructor calls, expected %d", destroyed, want_destroyed);
	if (!mc_fresh()) return;
	MC_CHECK(cf_ll_get_head(&ll) == (n ? &model[0]->link : NULL), "head", "head is wrong");
	MC_CHECK(cf_ll_get_tail(&ll) == (n ? &model[n - 1]->link : NULL), "tail", "tail is wrong");
	for (int i = 0; i < n; i++) {
		cf_ll_element* e = &model[i]->link;
		MC_CHECK(cf_ll_get_next(e) == (i + 1 < n ? &model[i + 1]->link : NULL), "next", "successor of element %d of %d is wrong", i, n);
		MC_CHECK(cf_ll_get_prev(e) == (i ? &model[i - 1]->link : NULL), "prev", "predecessor of element %d of %d is wrong", i, n);
	}
	for (int i = -n - 1; i <= n; i++) {
		int k = i < 0 ? n + i : i;
		MC_CHECK(cf_ll_index(&ll, i) == (k >= 0 && k < n ? &model[k]->link : NULL), "index", "element at index %d of %d is wrong", i, n);
	}
	MC_CHECK(!cf_ll_index(&ll, INT_MAX) && !cf_ll_index(&ll, -INT_MAX), "index", "far index gave an element");
	for (int f = 0; f < 2; f++) {
		cf_ll_iterator* it = cf_ll_getIterator(&ll, f);
		for (int i = 0; i < n; i++)
			MC_CHECK(cf_ll_getNext(it) == &model[f ? i : n - 1 - i]->link, "iterate", "iterator step %d of %d (%s) is wrong", i, n, f ? "forward" : "backward");
		MC_CHECK(!cf_ll_getNext(it) && !cf_ll_getNext(it), "iterate-end", "iterator gave more than %d", n);
		cf_ll_releaseIterator(it);
		nseen = 0; act_at = -1; del_mask = 0; want_u = &nseen;
		MC_CHECK(cf_ll_reduce(&ll, f, visit, &nseen) == 0 && nseen == n, "reduce", "plain reduce visited %d of %d", nseen, n);
		for (int i = 0; i < n; i++) MC_CHECK(seen[i] == model[f ? i : n - 1 - i]->id, "reduce-order", "reduce visit %d wrong", i);
		for (int i = 0; i <= n; i++) {
			node key = { .id = i < n ? model[i]->id : -7 };
			nseen = 0; act_at = -1;
			MC_CHECK(cf_ll_search(&ll, &key.link, f, match) == (i < n ? &model[i]->link : NULL), "search", "search for element %d of %d is wrong", i, n);
			MC_CHECK(nseen == (i == n ? n : f ? i + 1 : n - i), "search-visits", "search looked at %d elements", nseen);
		}
		if (n) {
			node key = { .id = model[f ? n - 1 : 0]->id };
			nseen = 0; act_at = 0; act_rv = -5;
			cf_ll_element* e = cf_ll_search(&ll, &key.link, f, match);
			MC_CHECK(e == NULL && nseen == 1, "search-stop", "search went on after the callback stopped it");
		}
	}
	uint64_t h = 14;
	for (int i = 0; i < n; i++) h = mc_hash_u64(h, (uint64_t)model[i]->id);
	mc_state(h);
}
#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)

static bool full;
static void op(void)
{
	int o = mc_choose(7), at;
	node* x;
	mc_step();
	switch (o) {
	case 0: x = fresh(); SAY("prepend %d", x->id); cf_ll_prepend(&ll, &x->link); m_insert(0, x); break;
	case 1: x = fresh(); SAY("append %d", x->id); cf_ll_append(&ll, &x->link); m_insert(n, x); break;
	case 2:
		if (!n) mc_prune();
		at = mc_choose(n); x = fresh();
		SAY("insert %d after #%d", x->id, at);
		cf_ll_insert_after(&ll, &model[at]->link, &x->link); m_insert(at + 1, x); break;
	case 3:
		if (!n) mc_prune();
		at = mc_choose(n); x = fresh();
		SAY("insert %d before #%d", x->id, at);
		cf_ll_insert_before(&ll, &model[at]->link, &x->link); m_insert(at, x); break;
	case 4:
		if (!n) { x = fresh(); SAY("delete from the empty list"); cf_ll_delete(&ll, &x->link); MC_CHECK(!x->destroyed, "delete-empty", "deleting from an empty list did something"); free(x); break; }
		at = mc_choose(n);
		SAY("delete #%d of %d", at, n);
		cf_ll_delete(&ll, &model[at]->link); gone(m_remove(at)); break;
	case 5: {
		bool fwd = mc_flip();
		uint32_t mask;
		int stop = n, rv = 0;
		if (full) { mask = (uint32_t)mc_choose(1 << (n > 5 ? 5 : n)); stop = mc_choose(n + 1); }
		else { int k = mc_choose(n + 2); mask = k < n ? 1u << k : k == n ? 0 : (1u << n) - 1; }
		static const int rvs[] = { -1, CF_LL_REDUCE_MATCHED, INT_MIN };
		if (stop < n) rv = rvs[mc_choose(2)];
		if (!with_destructor && mask) mc_prune();	// removed elements would be lost
		SAY("reduce %s mask %x stop %d", fwd ? "forward" : "backward", mask, stop);
		nseen = 0; act_at = stop < n ? stop : -1; act_rv = rv; del_mask = mask; want_u = &destroyed;
		int got = cf_ll_reduce(&ll, fwd, visit, &destroyed), m0 = n, calls = stop < n ? stop + 1 : n;
		MC_CHECK(nseen == calls, "reduce-visits", "reduce made %d calls, expected %d", nseen, calls);
		for (int i = 0; i < calls; i++) MC_CHECK(seen[i] == model[fwd ? i : m0 - 1 - i]->id, "reduce-order", "reduce visit %d of %d was element %d", i, m0, seen[i]);
		bool last_deleted = calls && stop >= n && (mask >> (calls - 1)) & 1;
		MC_CHECK(got == rv || (last_deleted && got == CF_LL_REDUCE_DELETE), "reduce-result", "reduce returned %d, expected %d", got, rv);
		for (int i = calls - 1; i >= 0; i--) {
			if (i == stop || !((mask >> i) & 1)) continue;
			int k = fwd ? i : m0 - 1 - i;
			// Positions shift only behind removed ones: walk from the far end.
			if (fwd) gone(m_remove(k));
		}
		if (!fwd) for (int i = 0; i < calls; i++) if (i != stop && ((mask >> i) & 1)) gone(m_remove(m0 - 1 - i));
		break;
	}
	case 6: {
		bool fwd = mc_flip();
		at = mc_choose(n + 1);
		int how = mc_choose(3);	// insert, bail out, never
		static const int rvs[] = { CF_LL_REDUCE_INSERT, -3, 0 };
		x = fresh();
		SAY("insert-reduce %s at %d of %d rv %d", fwd ? "forward" : "backward", at, n, rvs[how]);
		nseen = 0; act_at = how == 2 ? -1 : at; act_rv = rvs[how]; del_mask = 0; want_u = x;
		int got = cf_ll_insert_reduce(&ll, &x->link, fwd, visit, x), calls = how == 2 ? n + 1 : at + 1;
		MC_CHECK(nseen == calls, "insert-reduce-visits", "insert-reduce made %d calls, expected %d", nseen, calls);
		for (int i = 0; i < calls; i++) MC_CHECK(seen[i] == (i == n ? -1 : model[fwd ? i : n - 1 - i]->id), "insert-reduce-order", "insert-reduce visit %d of %d was %d", i, n, seen[i]);
		MC_CHECK(got == (how == 1 ? -3 : 0), "insert-reduce-result", "insert-reduce returned %d", got);
		if (how == 0) m_insert(fwd ? at : n - at, x); else free(x);
		break;
	}
	}
	look();
}

static void run(int start, int d)
{
	n = next_id = destroyed = want_destroyed = nremoved = 0;
	with_destructor = mc_flip();
	if (cf_ll_init(&ll, with_destructor ? on_destroy : NULL, mc_flip())) mc_error("init");
	for (int i = 0; i < start; i++) { node* x = fresh(); cf_ll_append(&ll, &x->link); m_insert(n, x); }
	look();
	while (d--) op();
	// Emptying from either end.
	bool head = mc_flip();
	while (n) { int at = head ? 0 : n - 1; mc_step(); cf_ll_delete(&ll, &model[at]->link); gone(m_remove(at)); look(); }
	reap();
	if (n == 0) { MC_CHECK(!cf_ll_get_head(&ll) && !cf_ll_get_tail(&ll), "emptied", "an emptied list still has ends"); }
}

// Short histories with every reduce pattern.
static void sc_reduce(void) { full = true; run(mc_choose(mc_pick(5, 7)), 2); }
// Longer histories where a reduce removes nothing, one element or all.
static void sc_seq(void) { full = false; run(mc_choose(2) * 3, mc_pick(3, 4)); }

const mc_scenario mc_scenarios[] = {
	{ "reduce", sc_reduce, 4, "with and without destructor and lock, from lists of 0..4 (6) elements, all sequences of 2 operations with all positions, deletion patterns and stop points" },
	{ "seq", sc_seq, 4, "from lists of 0 and 3 elements, all sequences of 3 (4) operations with all positions" },
	{ NULL } };
