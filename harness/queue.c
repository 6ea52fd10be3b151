// C10: both queues are double ended sequences of fixed size items.
#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <alloca.h>
#include <citrusleaf/cf_queue.h>
#include <stdlib.h>
#include <string.h>

#define MAXI 1200
#define MAXSZ 40

static int model[MAXI];
static int n;
static uint32_t isz;

static const uint8_t* item(int id)
{
	static uint8_t b[4][MAXSZ];
	static int at;
	uint8_t* p = b[at++ & 3];
	for (uint32_t i = 0; i < isz; i++) p[i] = (uint8_t)(i == 0 ? id : id * 29 + i * 3 + 1);
	return p;
}
static bool is_item(const void* p, int id) { return memcmp(p, item(id), isz) == 0; }

static void m_insert(int at, int id)
{
	if (n >= MAXI) mc_error("reference queue full");
	memmove(model + at + 1, model + at, (size_t)(n - at) * sizeof(int));
	model[at] = id;
	n++;
}
static void m_remove(int at) { memmove(model + at, model + at + 1, (size_t)(--n - at) * sizeof(int)); }

static uint64_t model_hash(uint64_t h) { return mc_hash(h * 977 + (uint64_t)n, model, (size_t)n * sizeof(int)); }

// Moves all 32 bit position counters of a queue forward by 'by' (a multiple of the
// ring size), as so many push/pop pairs would. The counters are found by watching
// which words advance with push/pop pairs, the layout of the structure is not used.
typedef struct { size_t at[16]; int cnt; } counters;
static void find_counters(counters* c, const void* before, const void* after, size_t sz, uint32_t cycles)
{
	c->cnt = 0;
	for (size_t i = 0; i + 4 <= sz; i += 4) {
		uint32_t x, y;
		memcpy(&x, (const uint8_t*)before + i, 4);
		memcpy(&y, (const uint8_t*)after + i, 4);
		if (x != y && y - x == cycles && c->cnt < 16) c->at[c->cnt++] = i;
	}
}
static uint32_t counter(const counters* c, const void* q)
{
	uint32_t m = 0;
	for (int i = 0; i < c->cnt; i++) { uint32_t x; memcpy(&x, (const uint8_t*)q + c->at[i], 4); if (x > m) m = x; }
	return m;
}
static void advance(const counters* c, void* q, uint32_t by)
{
	for (int i = 0; i < c->cnt; i++) { uint32_t x; memcpy(&x, (uint8_t*)q + c->at[i], 4); x += by; memcpy((uint8_t*)q + c->at[i], &x, 4); }
}

// ---- as_queue -------------------------------------------------------------------
static as_queue* aq;
static as_queue_mt* mq;		// instead of it
#define AQ(f, ...) (mq ? as_queue_mt_##f(mq __VA_OPT__(,) __VA_ARGS__) : as_queue_##f(aq __VA_OPT__(,) __VA_ARGS__))
#define AQ_POP(f, b) (mq ? as_queue_mt_##f(mq, b, (next_id & 1) && n ? AS_QUEUE_FOREVER : AS_QUEUE_NOWAIT) : as_queue_##f(aq, b))
static uint64_t lo, hi;		// what is known about the current capacity
static uint32_t total;
static bool grown;
static int next_id;

static void a_look(void)
{
	MC_CHECK(AQ(size) == (uint32_t)n, "size", "size %u, expected %d", AQ(size), n);
	MC_CHECK(AQ(empty) == (n == 0), "empty", "empty() is wrong at size %d", n);
}
static void a_push(bool head)
{
	bool full = (uint64_t)n >= lo && (uint64_t)n <= hi && lo == hi;
	int id = next_id++;
	if (mc_verbose()) mc_log("%s %d", head ? "push-head" : "push", id);
	mc_step();
	bool ok = head ? AQ(push_head, item(id)) : AQ(push, item(id));
	MC_CHECK(ok, "push", "push refused");
	m_insert(head ? 0 : n, id);
	if (full || (uint64_t)n > hi) { lo = (uint64_t)n; hi = UINT32_MAX; grown = true; }
	if (lo < (uint64_t)n) lo = (uint64_t)n;
	a_look();
}
static void a_push_limit(bool head)
{
	int id = next_id++;
	mc_step();
	bool ok = head ? AQ(push_head_limit, item(id)) : AQ(push_limit, item(id));
	if (mc_verbose()) mc_log("%s %d -> %d", head ? "push-head-limit" : "push-limit", id, ok);
	if (ok) {
		MC_CHECK((uint64_t)n < hi, "limit", "bounded push accepted beyond the capacity %llu", (unsigned long long)hi);
		m_insert(head ? 0 : n, id);
		if (lo < (uint64_t)n) lo = (uint64_t)n;
	}
	else {
		MC_CHECK((uint64_t)n >= lo, "limit", "bounded push refused at size %d below the capacity %llu", n, (unsigned long long)lo);
		if (hi > (uint64_t)n) hi = (uint64_t)n;
	}
	a_look();
}
static void a_pop(bool tail)
{
	uint8_t buf[MAXSZ + 1];
	memset(buf, 0xEE, sizeof buf);
	mc_step();
	bool ok = tail ? AQ_POP(pop_tail, buf) : AQ_POP(pop, buf);
	if (mc_verbose()) mc_log("%s -> %d", tail ? "pop-tail" : "pop", ok);
	MC_CHECK(ok == (n > 0), "pop", "pop returned %d at size %d", ok, n);
	MC_CHECK(buf[ok ? isz : 0] == 0xEE, "pop-overrun", "pop wrote outside the item");
	if (ok) {
		int at = tail ? n - 1 : 0;
		MC_CHECK(is_item(buf, model[at]), tail ? "pop-tail-item" : "pop-item", "%s gave another item than %d (size %d)", tail ? "pop-tail" : "pop", model[at], n);
		m_remove(at);
	}
	a_look();
}
static void a_total(bool up)
{
	mc_step();
	if (up) {
		bool ok = as_queue_incr_total(aq);
		if (ok) { MC_CHECK(total < hi, "total", "total raised beyond the capacity"); total++; if (lo < total) lo = total; }
		else { MC_CHECK(total >= lo, "total", "total refused below the capacity"); if (hi > total) hi = total; }
	}
	else if (total) { as_queue_decr_total(aq); total--; }
}

static void a_ops(int depth)
{
	while (depth--) {
		int op = mc_choose(mq ? 7 : 9);
		if (op == 0) break;
		switch (op) {
		case 1: a_push(false); break;
		case 2: a_push(true); break;
		case 3: a_push_limit(false); break;
		case 4: a_push_limit(true); break;
		case 5: a_pop(false); break;
		case 6: a_pop(true); break;
		case 7: a_total(true); break;
		case 8: if (!total) mc_prune(); a_total(false); break;
		}
		mc_state(model_hash(mc_hash_u64(isz, lo * 31 + hi)));
	}
}
static void a_drain(void)
{
	if (mc_flip()) while (n) a_pop(true);
	else while (n) a_pop(false);
	a_pop(false);
	if (mq) as_queue_mt_destroy(mq); else as_queue_destroy(aq);
	mq = NULL;
}

static as_queue aq_s;
static as_queue_mt mq_s;
static void a_fresh(uint32_t cap)
{
	n = 0; next_id = 1; total = 0; lo = hi = cap; grown = false;
}

static void a_run(uint32_t cap)
{
	a_fresh(cap);
	// Rotation and fill.
	int rot = mc_choose((int)cap + 1), fill = mc_choose((int)cap + 2);
	if (cap < 2 && rot) mc_prune();
	if (rot) { a_push(false); for (int i = 0; i < rot; i++) { if (cap < 2) break; a_push(false); a_pop(false); } if (!fill) a_pop(false); }
	while (n < fill) a_push(false);
	a_ops(mc_pick(mq ? 3 : 4, mq ? 5 : 6));
	a_drain();
}

static void sc_mt(void)
{
	int kind = mc_choose(3);
	uint32_t cap = (uint32_t)mc_choose(4);
	isz = mc_choose(2) ? 3 : 8;
	mq = &mq_s;
	if (kind == 0) { if (!as_queue_mt_init(mq, isz, cap)) mc_error("init"); }
	else if (kind == 1) { mq = as_queue_mt_create(isz, cap); if (!mq) mc_error("create"); }
	else {
		as_queue_mt_inita(mq, isz, cap);
	}
	a_run(cap);
}
static void sc_as(void)
{
	mq = NULL;
	static const uint32_t sizes[] = { 4, 1, 3, 8, 17 };
	int kind = mc_choose(3);
	uint32_t cap = (uint32_t)mc_choose(5);
	isz = sizes[mc_choose(mc_pick(2, 5))];
	if (kind == 0) { aq = &aq_s; if (!as_queue_init(aq, isz, cap)) mc_error("init"); }
	else if (kind == 1) { aq = as_queue_create(isz, cap); if (!aq) mc_error("create"); }
	else {
		aq = &aq_s;
		as_queue_inita(aq, isz, cap);
	}
	a_run(cap);
}

// Longer histories over fewer operations.
static void sc_as_long(void)
{
	mq = NULL;
	isz = 4;
	uint32_t cap = 1 + (uint32_t)mc_choose(3);
	aq = as_queue_create(isz, cap);
	a_fresh(cap);
	int d = mc_pick(9, 12);
	while (d--) {
		int op = mc_choose(4);
		if (op < 2) a_push(op); else a_pop(op == 3);
	}
	mc_state(model_hash(cap));
	a_drain();
}

static const int powers[] = { 8, 15, 16, 24, 30, 31, 32 };

// From positions next to every power of two the position counters can reach.
static void sc_as_renorm(void)
{
	mq = NULL;
	isz = mc_flip() ? 4 : 3;
	uint32_t cap = 2 + (uint32_t)mc_choose(4);
	aq = as_queue_create(isz, cap);
	a_fresh(cap);
	int fill = 1 + mc_choose((int)cap - 1), which = mc_choose(7), back = mc_choose(mc_pick(3, 6));
	while (n < fill) a_push(false);
	for (int w = 0; w <= which; w++) {
		as_queue s0;
		// Leave the region where taken-back counters could hide the pace.
		memcpy(&s0, aq, sizeof s0);
		for (int i = 0; i < 5; i++) { a_push(false); a_pop(false); }
		counters c;
		find_counters(&c, &s0, aq, sizeof s0, 5);
		if (c.cnt == 0) { if (w < which) continue; break; }
		uint64_t target = (1ULL << powers[w]) - (uint64_t)back - 2, cur = counter(&c, aq);
		if (target > cur) advance(&c, aq, (uint32_t)((target - cur) / cap * cap));
		if (w < which) {
			for (int i = 0; i < 3 * (int)cap + 4; i++) { a_push(false); a_pop(false); }
			// Positions were taken back at this limit: the next one is not reachable.
			if (counter(&c, aq) < target) { while (n) a_pop(false); as_queue_destroy(aq); mc_prune(); }
		}
	}
	int d = mc_pick(4, 6);
	while (d--) {
		int op = mc_choose(5);
		if (op == 4) { for (int i = 0; i < (int)cap; i++) { a_push(false); a_pop(false); } }
		else if (op < 2) a_push(op); else a_pop(op == 3);
	}
	mc_state(model_hash(cap * 64 + (uint32_t)which));
	a_drain();
}

// ---- cf_queue -------------------------------------------------------------------
static cf_queue* cq;
static int seen[MAXI];
static int nseen;
static int act_at, act_rv;	// the reduce callback returns act_rv at the act_at-th call
static int act_at2;

static int visit(void* buf, void* u)
{
	if (u != &nseen) mc_violation("udata", "callback got another user pointer");
	if (nseen < MAXI) { seen[nseen] = ((uint8_t*)buf)[0]; if (!is_item(buf, seen[nseen])) mc_violation("reduce-item", "callback got a torn item"); }
	int k = nseen++;
	return k == act_at ? act_rv : k == act_at2 ? -2 : 0;
}

static void q_look(void)
{
	MC_CHECK(cf_queue_sz(cq) == (uint32_t)n, "size", "size %u, expected %d", cf_queue_sz(cq), n);
	if (!mc_fresh()) return;
	nseen = 0; act_at = act_at2 = -1;
	MC_CHECK(cf_queue_reduce(cq, visit, &nseen) == CF_QUEUE_OK, "reduce", "reduce failed");
	MC_CHECK(nseen == n, "content", "%d items visited, expected %d", nseen, n);
	for (int i = 0; i < n; i++) MC_CHECK(seen[i] == model[i], "content", "item %d of %d is %d, expected %d", i, n, seen[i], model[i]);
}

#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)

static int pick_value(void)
{
	// An old value (first or last queued) or one of three fixed ones.
	int k = mc_choose(3);
	return k + 1;
}

static void q_op(void)
{
	uint8_t buf[MAXSZ + 1];
	int op = mc_choose(13), id, rc, at;
	memset(buf, 0xEE, sizeof buf);
	mc_step();
	switch (op) {
	case 0:
		id = pick_value(); SAY("push %d", id);
		rc = cf_queue_push(cq, item(id));
		MC_CHECK(rc == CF_QUEUE_OK, "push", "push returned %d", rc);
		m_insert(n, id); break;
	case 1: {
		id = 2;
		int k = mc_choose(4);
		uint32_t limit = k == 0 ? 0 : k == 1 ? (uint32_t)n : k == 2 ? (uint32_t)n + 1 : UINT32_MAX;
		SAY("push %d limit %u", id, limit);
		bool ok = cf_queue_push_limit(cq, item(id), limit);
		MC_CHECK(ok == ((uint32_t)n < limit), "push-limit", "bounded push returned %d at size %d limit %u", ok, n, limit);
		if (ok) m_insert(n, id);
		break;
	}
	case 2: {
		id = 9;
		int k = mc_choose(n + 3);
		uint32_t ix = k == n + 2 ? UINT32_MAX : (uint32_t)k;
		SAY("push %d at %u", id, ix);
		rc = cf_queue_push_index(cq, item(id), ix);
		MC_CHECK(rc == CF_QUEUE_OK, "push-index", "indexed push returned %d", rc);
		m_insert(ix > (uint32_t)n ? n : (int)ix, id);
		break;
	}
	case 3: {
		id = pick_value(); SAY("push %d unique", id);
		bool there = false;
		for (int i = 0; i < n; i++) there |= model[i] == id;
		rc = cf_queue_push_unique(cq, item(id));
		MC_CHECK(there ? rc == -2 : rc == CF_QUEUE_OK, "push-unique", "unique push returned %d, item %s", rc, there ? "queued already" : "not queued");
		if (!there) m_insert(n, id);
		break;
	}
	case 4:
		id = mc_range(1, 2); SAY("push %d head", id);
		rc = cf_queue_push_head(cq, item(id));
		MC_CHECK(rc == CF_QUEUE_OK, "push-head", "head push returned %d", rc);
		m_insert(0, id); break;
	case 5:
		SAY("peek");
		rc = cf_queue_peek(cq, buf);
		MC_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "peek", "peek returned %d at size %d", rc, n);
		if (n) MC_CHECK(is_item(buf, model[0]), "peek-item", "peek gave another item");
		break;
	case 6: {
		int wait = mc_choose(n ? 3 : 1);
		SAY("pop");
		rc = cf_queue_pop(cq, buf, wait == 1 ? -1 : wait == 2 ? 1000 : 0);
		MC_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "pop", "pop returned %d at size %d", rc, n);
		if (n) { MC_CHECK(is_item(buf, model[0]), "pop-item", "pop gave another item than %d", model[0]); MC_CHECK(buf[isz] == 0xEE, "pop-overrun", "pop wrote beyond the item"); m_remove(0); }
		break;
	}
	case 7: case 8: {
		bool rev = op == 8;
		at = mc_choose(n + 1);
		bool del = at < n && mc_flip();
		SAY("reduce%s %s at %d of %d", rev ? " reverse" : "", del ? "delete" : "stop", at, n);
		nseen = 0; act_at = at; act_at2 = -1; act_rv = del ? -2 : -1;
		rc = rev ? cf_queue_reduce_reverse(cq, visit, &nseen) : cf_queue_reduce(cq, visit, &nseen);
		MC_CHECK(rc == CF_QUEUE_OK, "reduce", "reduce returned %d", rc);
		int want = at < n ? at + 1 : n;
		MC_CHECK(nseen == want, "reduce-count", "reduce made %d calls, expected %d", nseen, want);
		for (int i = 0; i < want; i++) MC_CHECK(seen[i] == model[rev ? n - 1 - i : i], "reduce-order", "reduce visit %d was %d", i, seen[i]);
		if (del) m_remove(rev ? n - 1 - at : at);
		break;
	}
	case 9: {
		// at: final choice (-1) or candidate (-2); a candidate before it.
		at = mc_choose(n + 1);
		bool fin = at < n && mc_flip();
		int cand = mc_choose(at + 1) - 1;
		SAY("reduce-pop %s at %d candidate %d", fin ? "final" : "candidate", at, cand);
		nseen = 0; act_at = at; act_at2 = cand; act_rv = fin ? -1 : -2;
		rc = cf_queue_reduce_pop(cq, buf, 0, visit, &nseen);
		MC_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "reduce-pop", "reduce-pop returned %d at size %d", rc, n);
		if (n) {
			int want = fin ? at + 1 : n, got = at < n ? at : cand >= 0 ? cand : 0;
			MC_CHECK(nseen == want, "reduce-pop-count", "reduce-pop made %d calls, expected %d", nseen, want);
			MC_CHECK(is_item(buf, model[got]), "reduce-pop-item", "reduce-pop gave another item than %d", model[got]);
			MC_CHECK(buf[isz] == 0xEE, "pop-overrun", "reduce-pop wrote beyond the item");
			m_remove(got);
		}
		break;
	}
	case 10: {
		id = pick_value();
		bool one = mc_flip();
		int found = 0;
		SAY("delete %d %s", id, one ? "one" : "all");
		rc = cf_queue_delete(cq, item(id), one);
		for (int i = 0; i < n;) if (model[i] == id && !(one && found)) { m_remove(i); found++; } else i++;
		MC_CHECK(rc == (found ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete", "delete returned %d, %d present", rc, found);
		break;
	}
	case 11:
		SAY("delete any one");
		rc = cf_queue_delete(cq, NULL, true);
		MC_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete", "delete returned %d at size %d", rc, n);
		if (n) m_remove(0);
		break;
	case 12:
		SAY("delete all");
		rc = cf_queue_delete_all(cq);
		MC_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete", "delete all returned %d at size %d", rc, n);
		n = 0;
		break;
	}
	q_look();
	mc_state(model_hash(isz));
}

static void q_drain(void)
{
	uint8_t buf[MAXSZ];
	while (n) {
		mc_step();
		MC_CHECK(cf_queue_pop(cq, buf, 0) == CF_QUEUE_OK && is_item(buf, model[0]), "drain", "draining gave another item than %d", model[0]);
		m_remove(0);
	}
	MC_CHECK(cf_queue_pop(cq, buf, 0) == CF_QUEUE_EMPTY, "drain-end", "an item was left after draining");
	cf_queue_destroy(cq);
}

static void q_raw_push(int id) { mc_step(); MC_CHECK(cf_queue_push(cq, item(id)) == CF_QUEUE_OK, "push", "push failed"); m_insert(n, id); }
static void q_raw_pop(void)
{
	uint8_t buf[MAXSZ];
	mc_step();
	MC_CHECK(cf_queue_pop(cq, buf, 0) == CF_QUEUE_OK && is_item(buf, model[0]), "pop-item", "pop gave another item than %d", model[0]);
	m_remove(0);
}

static cf_queue cq_s;

static void q_start(uint32_t cap, bool safe, int values)
{
	n = 0;
	cq = &cq_s;
	if (!cf_queue_init(cq, isz, cap, safe)) mc_error("init");
	int rot = mc_choose(cap ? (int)cap : 1), fill = mc_choose((int)cap + 1);
	if (rot) { q_raw_push(1); for (int i = 0; i < rot; i++) { q_raw_push(1); q_raw_pop(); } }
	// Content over two values: delete-all-matching sees every pattern.
	while (n < fill) q_raw_push(mc_range(1, values));
	if (rot) { if (fill) { q_raw_pop(); q_raw_push(mc_range(1, values)); } else q_raw_pop(); }
}

static void sc_cf(void)
{
	uint32_t cap = (uint32_t)mc_choose(5);
	bool safe = mc_flip();
	isz = mc_flip() ? 4 : mc_pick(3, 1);
	q_start(cap, safe, 2);
	int d = safe ? mc_pick(2, 3) : mc_pick(2, 3);
	while (d--) q_op();
	q_drain();
}

static void sc_cf_deep(void)
{
	uint32_t cap = 1 + (uint32_t)mc_choose(3);
	isz = 4;
	q_start(cap, false, 1);
	int d = mc_pick(3, 4);
	while (d--) q_op();
	q_drain();
}

// Wide rings with one deletion: all rings of 6 with content over two values.
static void sc_cf_delete(void)
{
	uint32_t cap = 5 + (uint32_t)mc_choose(mc_pick(2, 4));
	isz = 2;
	q_start(cap, false, 2);
	mc_step();
	int id = mc_range(1, 2), found = 0;
	bool one = mc_flip();
	SAY("delete %d %s of %d", id, one ? "one" : "all", n);
	int rc = cf_queue_delete(cq, item(id), one);
	for (int i = 0; i < n;) if (model[i] == id && !(one && found)) { m_remove(i); found++; } else i++;
	MC_CHECK(rc == (found ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete", "delete returned %d, %d present", rc, found);
	q_look();
	q_raw_push(7);
	q_look();
	q_drain();
}

// The default size and its growth.
static void sc_cf_big(void)
{
	isz = mc_flip() ? 8 : 33;
	cq = cf_queue_create(isz, mc_flip());
	if (!cq) mc_error("create");
	n = 0;
	int rot = mc_choose(3), fill = 63 + mc_choose(mc_pick(3, 4));
	rot = rot == 0 ? 0 : rot == 1 ? 1 : 63;
	q_raw_push(1);
	for (int i = 0; i < rot; i++) { q_raw_push(1); q_raw_pop(); }
	while (n < fill) q_raw_push(n % 100 + 10);
	int d = mc_pick(1, 2);
	while (d--) q_op();
	q_raw_push(3); q_raw_push(4);
	q_look();
	q_drain();
}

static void sc_cf_renorm(void)
{
	isz = mc_flip() ? 4 : 3;
	uint32_t cap = 2 + (uint32_t)mc_choose(4);
	n = 0;
	cq = &cq_s;
	memset(cq, 0, sizeof *cq);
	if (!cf_queue_init(cq, isz, cap, false)) mc_error("init");
	int fill = 1 + mc_choose((int)cap - 1), which = mc_choose(7), back = mc_choose(mc_pick(3, 5));
	while (n < fill) q_raw_push(1 + n);
	for (int w = 0; w <= which; w++) {
		cf_queue s0;
		memcpy(&s0, cq, sizeof s0);
		for (int i = 0; i < 5; i++) { q_raw_push(20 + i); q_raw_pop(); }
		counters c;
		find_counters(&c, &s0, cq, sizeof s0, 5);
		if (c.cnt == 0) { if (w < which) continue; break; }
		uint64_t target = (1ULL << powers[w]) - (uint64_t)back - 2, cur = counter(&c, cq);
		if (target > cur) advance(&c, cq, (uint32_t)((target - cur) / cap * cap));
		if (w < which) {
			for (int i = 0; i < 3 * (int)cap + 4; i++) { q_raw_push(30 + i); q_raw_pop(); }
			if (counter(&c, cq) < target) { q_drain(); mc_prune(); }
		}
	}
	int d = mc_pick(2, 3);
	while (d--) {
		if (mc_choose(2)) for (int i = 0; i < (int)cap; i++) { q_raw_push(60 + i); q_raw_pop(); }
		q_op();
	}
	q_drain();
}

// Items beyond 2^32 bytes. Only addresses are computed.
static void sc_as_far(void)
{
	static const uint32_t sizes[] = { 3, 8, 24, 4096, 65536, 65537, 1u << 20 };
	uint32_t size = sizes[mc_choose(7)];
	size_t edge = (size_t)1 << mc_range(31, 33);
	uint32_t at = (uint32_t)(edge / size) + (uint32_t)mc_range(-1, 2), cap = at + 1 + (uint32_t)mc_choose(3);
	as_queue q;
	as_queue_inita(&q, 8, 1);
	q.item_size = size;
	q.capacity = cap;
	mc_step();
	uintptr_t got = (uintptr_t)as_queue_get(&q, at) - (uintptr_t)as_queue_get(&q, 0);
	MC_CHECK(got == (size_t)at * size, "far", "item %u of %u bytes is looked for at offset %zu", at, size, (size_t)got);
	mc_state(mc_hash_u64(size, at));
	if ((uint64_t)at + cap > UINT32_MAX) return;
	got = (uintptr_t)as_queue_get(&q, at + cap) - (uintptr_t)as_queue_get(&q, cap);
	MC_CHECK(got == (size_t)at * size, "far", "item %u of %u bytes of the second round is looked for at offset %zu", at, size, (size_t)got);
}


// Full queues of so many items that twice their number does not fit 32 bits: there is
// no room for another, and nothing is lost.
static void sc_full(void)
{
	static const uint32_t caps[] = { 1u << 31, (1u << 31) + 1, 3u << 30, UINT32_MAX };
	static uint8_t* mem;
	if (!mem) {
		mem = mmap(NULL, (size_t)1 << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (mem == MAP_FAILED) mc_error("cannot map memory");
	}
	uint32_t c = caps[mc_choose(4)];
	uint8_t v = 7, got = 0;
	mem[0] = 5;
	mem[c - 1] = 6;
	int o = mc_choose(7);
	mc_log("operation %d on a full queue of %u items", o, c);
	mc_step();
	if (o < 4) {
		as_queue q;
		as_queue_inita(&q, 1, 1);
		q.data = mem;
		q.capacity = q.tail = c;
		bool ok = o == 0 ? as_queue_push(&q, &v) : o == 1 ? as_queue_push_head(&q, &v) : o == 2 ? as_queue_push_limit(&q, &v) : as_queue_push_head_limit(&q, &v);
		MC_CHECK(!ok, "full", "a queue of %u items took another", c);
		MC_CHECK(as_queue_size(&q) == c, "full", "a queue of %u items holds %u after a push that failed", c, as_queue_size(&q));
		MC_CHECK(as_queue_pop(&q, &got) && got == 5, "full", "the first of %u items is lost", c);
		MC_CHECK(as_queue_pop_tail(&q, &got) && got == 6, "full", "the last of %u items is lost", c);
	}
	else {
		cf_queue q;
		if (!cf_queue_init(&q, 1, 1, false)) mc_error("no queue");
		uint8_t* own = q.elements;
		q.elements = mem;
		q.alloc_sz = q.write_offset = c;
		q.n_eles = c;
		int rc = o == 4 ? cf_queue_push(&q, &v) : o == 5 ? cf_queue_push_head(&q, &v) : cf_queue_push_index(&q, &v, c / 2 + 1);
		MC_CHECK(rc == CF_QUEUE_ERR, "full", "a queue of %u items gave %d for another", c, rc);
		MC_CHECK((uint32_t)cf_queue_sz(&q) == c, "full", "a queue of %u items holds %u after a push that failed", c, (uint32_t)cf_queue_sz(&q));
		MC_CHECK(cf_queue_pop(&q, &got, CF_QUEUE_NOWAIT) == CF_QUEUE_OK && got == 5, "full", "the first of %u items is lost", c);
		q.elements = own;
		cf_queue_destroy(&q);
	}
	mc_state(mc_hash_u64(c, (uint64_t)o));
}

const mc_scenario mc_scenarios[] = {
	{ "as", sc_as, 5, "3 kinds of storage x capacity 0..4 x 2 (5) item sizes x every rotation and fill x all sequences of up to 4 (6) of 8 operations" },
	{ "mt", sc_mt, 5, "the locked queue by one thread, 3 kinds of storage x capacity 0..3 x 2 item sizes x every rotation and fill x all sequences of up to 3 (5) of 6 operations, pops waiting or not" },
	{ "as_long", sc_as_long, 4, "capacity 1..3 x all sequences of 9 (12) pushes and pops at either end" },
	{ "as_renorm", sc_as_renorm, 5, "from positions next to 2^8..2^32 as far as reachable, capacity 2..5, all sequences of 4 (6) pushes and pops at either end" },
	{ "cf", sc_cf, 5, "capacity 0..4 x lock on/off x 2 item sizes x rotation x fill over two values x all sequences of 2 (3) of 13 operations with all arguments" },
	{ "cf_deep", sc_cf_deep, 4, "capacity 1..3, all sequences of 3 (4) operations" },
	{ "cf_delete", sc_cf_delete, 4, "rings of 5..6 (8), every rotation, fill and content over two values, one deletion" },
	{ "cf_big", sc_cf_big, 4, "default capacity at fill 63..66, rotation 0, 1, 63, all sequences of 1 (2) operations" },
	{ "cf_renorm", sc_cf_renorm, 5, "from positions next to 2^8..2^32 as far as reachable, capacity 2..5, all sequences of 2 (3) operations" },
	{ "as_far", sc_as_far, 2, "addresses of 4 items around 2^31, 2^32 and 2^33 bytes, 7 item sizes" },
	{ "full", sc_full, 2, "7 kinds of push to full queues of 2^31 .. 2^32-1 items" },
	{ NULL } };
