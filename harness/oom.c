// C22: every allocation of every operation sequence fails once, fails together
// with the rest of the call, or fails for good.
#include "mc.h"
#include "val.h"
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_buffer_pool.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_timer.h>
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_ll.h>
#include <citrusleaf/cf_queue.h>
#include <stdio.h>

// ---- one faulted call ------------------------------------------------------------
static uint64_t failed_before;
#define FAULTY(expr) ({ failed_before = mc_alloc_failed; mc_step(); mc_alloc_enter(); __typeof__(expr) fr_ = (expr); mc_alloc_leave(); fr_; })
static bool faulted(void) { return mc_alloc_failed != failed_before; }
// A call reported 'ok'. Failing needs a reason.
static bool verdict(const char* what, bool ok)
{
	mc_log("%s -> %s%s", what, ok ? "done" : "failed", faulted() ? " (memory ran out)" : "");
	MC_CHECK(ok || faulted(), "spurious", "%s failed although no allocation did", what);
	return ok;
}
static void begin(int faults) { mc_alloc_explore(faults); }

// ---- lists -----------------------------------------------------------------------
#define MAXL 40
typedef struct { int64_t e[MAXL]; int n; } seq_t;
// Numbers stand for themselves, text "s<k>" for 1000+k, k+0.5 for 2000+k, nil for -1.
static int64_t code_of(const as_val* v)
{
	if (!v) return -2;
	switch (as_val_type(v)) {
	case AS_NIL: return -1;
	case AS_INTEGER: return as_integer_get((const as_integer*)v);
	case AS_DOUBLE: return 2000 + (int64_t)as_double_get((const as_double*)v);
	case AS_STRING: { const char* s = as_string_get((const as_string*)v); return s && s[0] == 's' ? 1000 + atoi(s + 1) : -3; }
	default: return -4;
	}
}
static void list_is(const char* what, const as_arraylist* l, const seq_t* m)
{
	MC_CHECK(as_arraylist_size(l) == (uint32_t)m->n, "contents", "%s: the list has %u elements, expected %d", what, as_arraylist_size(l), m->n);
	for (int i = 0; i < m->n; i++) {
		int64_t c = code_of(as_arraylist_get(l, (uint32_t)i));
		MC_CHECK(c == m->e[i], "contents", "%s: element %d is %lld, expected %lld", what, i, (long long)c, (long long)m->e[i]);
	}
}
static void seq_put(seq_t* m, int at, int64_t c, bool insert)
{
	while (m->n < at) m->e[m->n++] = -1;
	if (insert && at < m->n) memmove(m->e + at + 1, m->e + at, sizeof *m->e * (size_t)(m->n - at));
	m->e[at] = c;
	if (insert || at == m->n) m->n++;
}

static void list_op(as_arraylist* l, seq_t* m, int k)
{
	char what[64], txt[16];
	seq_t after = *m;
	int op = mc_choose(17), rc;
	uint32_t n = (uint32_t)m->n;
	as_val* v = NULL;
	snprintf(txt, sizeof txt, "s%d", k);
	snprintf(what, sizeof what, "list operation %d", op);
	if (op == 0 || op == 3 || op == 6 || op == 9) v = (as_val*)as_integer_new(k);
	switch (op) {
	case 0: rc = FAULTY(as_arraylist_append(l, v)); seq_put(&after, m->n, k, true); break;
	case 1: rc = FAULTY(as_list_append_int64((as_list*)l, k)); seq_put(&after, m->n, k, true); break;
	case 2: rc = FAULTY(as_arraylist_append_str(l, txt)); seq_put(&after, m->n, 1000 + k, true); break;
	case 3: rc = FAULTY(as_list_prepend((as_list*)l, v)); seq_put(&after, 0, k, true); break;
	case 4: rc = FAULTY(as_arraylist_prepend_double(l, k + 0.5)); seq_put(&after, 0, 2000 + k, true); break;
	case 5: rc = FAULTY(as_list_prepend_str((as_list*)l, txt)); seq_put(&after, 0, 1000 + k, true); break;
	case 6: rc = FAULTY(as_arraylist_insert(l, n / 2, v)); seq_put(&after, m->n / 2, k, true); break;
	case 7: rc = FAULTY(as_arraylist_insert_int64(l, n + 1, k)); seq_put(&after, m->n + 1, k, true); break;
	case 8: rc = FAULTY(as_list_insert_str((as_list*)l, n / 2, txt)); seq_put(&after, m->n / 2, 1000 + k, true); break;
	case 9: rc = FAULTY(as_arraylist_set(l, n, v)); seq_put(&after, m->n, k, false); break;
	case 10: rc = FAULTY(as_arraylist_set_str(l, n + 1, txt)); seq_put(&after, m->n + 1, 1000 + k, false); break;
	case 11: rc = FAULTY(as_list_set_int64((as_list*)l, n / 2, k)); seq_put(&after, m->n / 2, k, false); break;
	case 12: rc = FAULTY(as_arraylist_set_double(l, n / 2, k + 0.5)); seq_put(&after, m->n / 2, 2000 + k, false); break;
	case 13: {
		as_arraylist* o = as_arraylist_new(2, 2);
		as_arraylist_append_int64(o, k);
		as_arraylist_append_str(o, txt);
		rc = FAULTY(as_arraylist_concat(l, o));
		seq_put(&after, after.n, k, true); seq_put(&after, after.n, 1000 + k, true);
		seq_t om = { { k, 1000 + k }, 2 };
		list_is("list that was appended", o, &om);
		as_arraylist_destroy(o);
		break;
	}
	case 14: {
		int w = mc_choose(3);
		snprintf(what, sizeof what, "%s", w == 0 ? "tail" : w == 1 ? "take" : "drop");
		as_arraylist* r = w == 0 ? FAULTY(as_arraylist_tail(l)) : w == 1 ? FAULTY(as_arraylist_take(l, n / 2 + 1)) : FAULTY(as_arraylist_drop(l, n / 2));
		seq_t rm = *m;
		if (w == 0 && n == 0) { MC_CHECK(!r, "contents", "an empty list has a tail"); return; }
		int skip = w == 0 ? 1 : w == 1 ? 0 : m->n / 2;
		rm.n = w == 1 && m->n / 2 + 1 < m->n ? m->n / 2 + 1 : m->n - skip;
		memmove(rm.e, rm.e + skip, sizeof *rm.e * (size_t)rm.n);
		if (verdict(what, r != NULL)) { list_is(what, r, &rm); as_arraylist_destroy(r); }
		list_is(what, l, m);
		return;
	}
	case 15: {
		as_arraylist_iterator* it = FAULTY(as_arraylist_iterator_new(l));
		if (verdict("list iterator", it != NULL)) {
			int i = 0;
			while (as_arraylist_iterator_has_next(it)) {
				const as_val* e = as_arraylist_iterator_next(it);
				MC_CHECK(i < m->n && code_of(e) == m->e[i], "contents", "iteration gives a wrong element %d", i);
				i++;
			}
			MC_CHECK(i == m->n, "contents", "iteration gives %d of %d elements", i, m->n);
			as_arraylist_iterator_destroy(it);
		}
		list_is("iterator", l, m);
		return;
	}
	default:
		if (!n) return;
		as_arraylist_remove(l, 0);
		memmove(m->e, m->e + 1, sizeof *m->e * (size_t)--m->n);
		list_is("remove", l, m);
		return;
	}
	if (verdict(what, rc == AS_ARRAYLIST_OK)) *m = after;
	else if (v) as_val_destroy(v);	// the list did not take it
	list_is(what, l, m);
}
static void sc_list(void)
{
	static const uint32_t caps[] = { 0, 1, 2 };
	begin(mc_pick(1, 2));
	uint32_t cap = caps[mc_choose(3)], block = (uint32_t)mc_range(1, 2);
	bool heap = mc_flip();
	as_arraylist st, *l;
	memset(&st, 0xA5, sizeof st);
	l = heap ? FAULTY(as_arraylist_new(cap, block)) : FAULTY(as_arraylist_init(&st, cap, block));
	if (!verdict("list creation", l != NULL)) return;
	seq_t m = { .n = 0 };
	for (int i = 0, d = mc_pick(3, 4); i < d; i++) {
		list_op(l, &m, i + 1);
		uint64_t h = mc_hash_u64(cap, block);
		mc_state(mc_hash(mc_hash_u64(h, mc_alloc_failed), m.e, sizeof *m.e * (size_t)m.n));
	}
	// Memory is back: everything works.
	begin(0);
	for (int i = 0; i < 3; i++) {
		MC_CHECK(as_arraylist_append_int64(l, 50 + i) == AS_ARRAYLIST_OK, "unusable", "the list cannot be appended to afterwards");
		seq_put(&m, m.n, 50 + i, true);
	}
	list_is("appending afterwards", l, &m);
	as_arraylist_destroy(l);
}

// ---- maps ------------------------------------------------------------------------
// Keys are integers (code 0..) or text "s<k>" (1000+k), in order; values as above.
#define MAXM 4096
typedef struct { int64_t k[MAXM], v[MAXM]; int n; } map_t;
static map_t mm;
static int map_at(int64_t k) { int i = 0; while (i < mm.n && mm.k[i] < k) i++; return i; }
static void map_put(int64_t k, int64_t v)
{
	int i = map_at(k);
	if (i == mm.n || mm.k[i] != k) {
		memmove(mm.k + i + 1, mm.k + i, sizeof *mm.k * (size_t)(mm.n - i));
		memmove(mm.v + i + 1, mm.v + i, sizeof *mm.v * (size_t)(mm.n - i));
		mm.n++;
	}
	mm.k[i] = k; mm.v[i] = v;
}
static void map_del(int64_t k)
{
	int i = map_at(k);
	if (i == mm.n || mm.k[i] != k) return;
	mm.n--;
	memmove(mm.k + i, mm.k + i + 1, sizeof *mm.k * (size_t)(mm.n - i));
	memmove(mm.v + i, mm.v + i + 1, sizeof *mm.v * (size_t)(mm.n - i));
}
static void one_is(const char* what, as_orderedmap* m, int64_t k)
{
	int i = map_at(k);
	int64_t want = i < mm.n && mm.k[i] == k ? mm.v[i] : -2, got;
	if (k >= 100000) {
		char t[24];
		as_string s;
		snprintf(t, sizeof t, "s%lld", (long long)(k - 100000));
		as_string_init(&s, t, false);
		got = code_of(as_orderedmap_get(m, (as_val*)&s));
	}
	else {
		as_integer q;
		as_integer_init(&q, k);
		got = code_of(as_orderedmap_get(m, (as_val*)&q));
	}
	MC_CHECK(got == want, "contents", "%s: key %lld gives %lld, expected %lld", what, (long long)k, (long long)got, (long long)want);
}
static void map_is(const char* what, as_orderedmap* m)
{
	MC_CHECK(as_orderedmap_size(m) == (uint32_t)mm.n, "contents", "%s: the map has %u entries, expected %d", what, as_orderedmap_size(m), mm.n);
	if (mm.n < 64) { for (int i = 0; i < mm.n; i++) one_is(what, m, mm.k[i]); }
	else { for (int i = 0; i < mm.n; i += 97) one_is(what, m, mm.k[i]); one_is(what, m, mm.k[mm.n - 1]); }
}
typedef struct { int i; bool ok; } walk_t;
static bool entry_is(int i, const as_val* k, const as_val* v)
{
	int64_t kc = code_of(k);
	if (kc >= 1000 && k && as_val_type(k) == AS_STRING) kc += 100000 - 1000;
	return i < mm.n && kc == mm.k[i] && code_of(v) == mm.v[i];
}
static bool map_cb(const as_val* k, const as_val* v, void* u)
{
	walk_t* w = u;
	w->ok = w->ok && entry_is(w->i, k, v);
	w->i++;
	return true;
}
static void map_walk(const char* what, as_orderedmap* m)
{
	walk_t w = { 0, true };
	bool r = FAULTY(as_orderedmap_foreach(m, map_cb, &w));
	if (verdict(what, r)) MC_CHECK(w.ok && w.i == mm.n, "contents", "%s: the walk over the map is wrong (%d of %d)", what, w.i, mm.n);
}
static void map_iterate(as_orderedmap* m, bool heap)
{
	as_orderedmap_iterator st, *it = heap ? FAULTY(as_orderedmap_iterator_new(m)) : FAULTY(as_orderedmap_iterator_init(&st, m));
	if (!verdict("map iterator", it != NULL)) return;
	int i = 0;
	while (as_iterator_has_next((as_iterator*)it)) {
		const as_pair* p = (const as_pair*)as_iterator_next((as_iterator*)it);
		MC_CHECK(p && entry_is(i, as_pair_1((as_pair*)p), as_pair_2((as_pair*)p)), "contents", "map iteration gives a wrong entry %d", i);
		i++;
	}
	MC_CHECK(i == mm.n, "contents", "map iteration gives %d of %d entries", i, mm.n);
	as_iterator_destroy((as_iterator*)it);
}
static void map_set(as_orderedmap* m, int64_t key, int64_t k, bool viamap)
{
	as_val* kv = (as_val*)as_integer_new(key);
	as_val* vv = (as_val*)as_integer_new(k);
	int rc = viamap ? FAULTY(as_map_set((as_map*)m, kv, vv)) : FAULTY(as_orderedmap_set(m, kv, vv));
	if (verdict("set", rc == 0)) map_put(key, k);
	else { as_val_destroy(kv); as_val_destroy(vv); }
	one_is("set", m, key);
}
static void map_remove(as_orderedmap* m, int64_t key)
{
	as_integer q;
	as_integer_init(&q, key);
	int rc = FAULTY(as_orderedmap_remove(m, (as_val*)&q));
	if (verdict("remove", rc == 0)) map_del(key);
	one_is("remove", m, key);
}
static void map_op(as_orderedmap* m, int k)
{
	char txt[16], ktxt[16];
	int rc, op = mc_choose(12);
	snprintf(txt, sizeof txt, "s%d", k);
	snprintf(ktxt, sizeof ktxt, "s%d", k % 2);
	int64_t sk = 100000 + k % 2;
	switch (op) {
	case 0: map_set(m, 500 + k, k, false); break;
	case 1: map_set(m, k % 2, k, true); break;
	case 2: map_set(m, 10 + k % 2, k, false); break;
	case 3: map_remove(m, 11); break;
	case 4: map_remove(m, 499); break;
	case 5: map_walk("foreach", m); break;
	case 6: map_iterate(m, true); break;
	case 7: rc = FAULTY(as_stringmap_set_int64((as_map*)m, ktxt, k)); if (verdict("stringmap set int64", rc == 0)) map_put(sk, k); one_is("stringmap set", m, sk); break;
	case 8: rc = FAULTY(as_stringmap_set_str((as_map*)m, ktxt, txt)); if (verdict("stringmap set str", rc == 0)) map_put(sk, 1000 + k); one_is("stringmap set", m, sk); break;
	case 9: rc = FAULTY(as_stringmap_set_double((as_map*)m, ktxt, k + 0.5)); if (verdict("stringmap set double", rc == 0)) map_put(sk, 2000 + k); one_is("stringmap set", m, sk); break;
	case 10: {
		as_val* v = (as_val*)as_integer_new(k);
		rc = FAULTY(as_stringmap_set((as_map*)m, ktxt, v));
		if (verdict("stringmap set", rc == 0)) map_put(sk, k);
		else as_val_destroy(v);
		one_is("stringmap set", m, sk);
		break;
	}
	default: {
		as_integer* v = as_integer_new(k);
		rc = FAULTY(as_stringmap_set_integer((as_map*)m, ktxt, v));
		if (verdict("stringmap set integer", rc == 0)) map_put(sk, k);
		else as_val_destroy(v);
		one_is("stringmap set", m, sk);
		break;
	}
	}
	map_is("operation", m);
}
static as_orderedmap* map_make(as_orderedmap* st, uint32_t cap, bool heap)
{
	memset(st, 0xA5, sizeof *st);
	mm.n = 0;
	as_orderedmap* m = heap ? FAULTY(as_orderedmap_new(cap)) : FAULTY(as_orderedmap_init(st, cap));
	return verdict("map creation", m != NULL) ? m : NULL;
}
static void map_fill(as_orderedmap* m, int n, int64_t from, int step)
{
	for (int i = 0; i < n; i++) {
		int64_t k = from + (int64_t)i * step;
		if (as_orderedmap_set(m, (as_val*)as_integer_new(k), (as_val*)as_integer_new(k % 7)) != 0) mc_error("cannot fill the map");
		map_put(k, k % 7);
	}
}
static void map_afterwards(as_orderedmap* m)
{
	begin(0);
	map_set(m, 700, 1, false);
	map_set(m, -5, 2, false);
	for (int i = 0; i < mm.n; i += mm.n > 64 ? 97 : 1) one_is("afterwards", m, mm.k[i]);
	map_walk("foreach afterwards", m);
	map_iterate(m, false);
	map_remove(m, -5);
	map_is("afterwards", m);
	as_orderedmap_destroy(m);
}
static void sc_map(void)
{
	begin(mc_pick(1, 2));
	as_orderedmap st, *m = map_make(&st, (uint32_t)mc_choose(2) * 9, mc_flip());
	if (!m) return;
	static const int fill[] = { 0, 6, 7, 8, 15, 16 };
	map_fill(m, fill[mc_choose(6)], 10, 1);
	for (int i = 0, d = mc_pick(3, 4); i < d; i++) {
		map_op(m, i);
		mc_state(mc_hash_u64(mc_hash(mc_hash_u64(1, (uint64_t)mm.n), mm.k, sizeof *mm.k * (size_t)mm.n), mc_hash(mc_alloc_failed, mm.v, sizeof *mm.v * (size_t)mm.n)));
	}
	map_afterwards(m);
}
// Big maps put keys far from the end aside and merge them later.
static void sc_bigmap(void)
{
	static const int aside[] = { 0, 1, 997, 998, 999 };
	begin(mc_pick(1, 2));
	as_orderedmap st, *m = map_make(&st, 0, mc_flip());
	if (!m) return;
	map_fill(m, 1010, 2000, 1);
	map_fill(m, aside[mc_choose(5)], 900, 1);
	int lo = 0;
	for (int i = 0, d = mc_pick(2, 3); i < d; i++) {
		switch (mc_choose(9)) {
		case 0: map_set(m, lo++, i, false); break;
		case 1: map_set(m, 6000 + i, i, true); break;
		case 2: map_set(m, 2000, i, false); break;
		case 3: map_remove(m, 2000); break;
		case 4: map_walk("foreach", m); break;
		case 5: map_iterate(m, mc_flip()); break;
		case 6: {
			as_buffer b;
			as_serializer s;
			as_buffer_init(&b);
			as_msgpack_init(&s);
			int rc = FAULTY(as_serializer_serialize(&s, (as_val*)m, &b));
			if (verdict("serialize", rc == 0)) {
				as_val* v = NULL;
				MC_CHECK(as_serializer_deserialize(&s, &b, &v) == 0 && v && as_val_type(v) == AS_MAP, "contents", "what was serialized is not a map");
				walk_t w = { 0, true };
				as_map_foreach((as_map*)v, map_cb, &w);
				MC_CHECK(w.ok && w.i == mm.n, "contents", "the map was serialized wrong (%d of %d entries)", w.i, mm.n);
				as_val_destroy(v);
			}
			as_buffer_destroy(&b);
			break;
		}
		case 7: {
			as_orderedmap* o = as_orderedmap_new(8);
			for (int j = 0; j < mm.n; j++)
				as_orderedmap_set(o, (as_val*)as_integer_new(mm.k[j]), (as_val*)as_integer_new(mm.v[j]));
			msgpack_compare_t c = FAULTY(as_val_cmp((as_val*)m, (as_val*)o));
			if (verdict("compare", c != MSGPACK_COMPARE_ERROR)) MC_CHECK(c == MSGPACK_COMPARE_EQUAL, "contents", "equal maps compare %d", (int)c);
			as_orderedmap_destroy(o);
			break;
		}
		default: {
			as_serializer s;
			as_msgpack_init(&s);
			uint32_t sz = FAULTY(as_serializer_serialize_getsize(&s, (as_val*)m));
			if (verdict("size", sz != 0)) {
				as_buffer b;
				as_buffer_init(&b);
				if (as_serializer_serialize(&s, (as_val*)m, &b) != 0) mc_error("cannot serialize");
				MC_CHECK(sz == b.size, "contents", "size %u announced for %u", sz, b.size);
				as_buffer_destroy(&b);
			}
			break;
		}
		}
		map_is("operation", m);
		mc_state(mc_hash_u64(mc_hash(mc_hash_u64(2, (uint64_t)mm.n), mm.k, sizeof *mm.k * (size_t)mm.n), mc_hash(mc_alloc_failed, mm.v, sizeof *mm.v * (size_t)mm.n)));
	}
	map_afterwards(m);
}

// ---- queues ----------------------------------------------------------------------
static seq_t qm;
static void q_put(bool head, int64_t v) { seq_put(&qm, head ? 0 : qm.n, v, true); }
static void q_took(const char* what, bool ok, int64_t got, bool tail)
{
	MC_CHECK(ok == (qm.n > 0), "contents", "%s on a queue of %d elements %s", what, qm.n, ok ? "gives an element" : "gives nothing");
	if (!ok) return;
	int64_t want = tail ? qm.e[qm.n - 1] : qm.e[0];
	MC_CHECK(got == want, "contents", "%s gives %lld, expected %lld", what, (long long)got, (long long)want);
	if (!tail) memmove(qm.e, qm.e + 1, sizeof *qm.e * (size_t)(qm.n - 1));
	qm.n--;
}
static void q_state(int kind, uint64_t cap)
{
	mc_state(mc_hash(mc_hash_u64(mc_hash_u64((uint64_t)kind, cap), mc_alloc_failed), qm.e, sizeof *qm.e * (size_t)qm.n));
}
static void sc_queue(void)
{
	begin(mc_pick(1, 2));
	int how = mc_choose(5);		// init, create, caller's memory, threaded init, threaded create
	uint32_t cap = (uint32_t)mc_range(1, 3);
	as_queue st, *q;
	as_queue_mt stm, *qt = NULL;
	memset(&st, 0xA5, sizeof st);
	memset(&stm, 0xA5, sizeof stm);
	qm.n = 0;
	bool ok = true;
	switch (how) {
	case 0: q = &st; ok = FAULTY(as_queue_init(q, 8, cap)); break;
	case 1: q = FAULTY(as_queue_create(8, cap)); ok = q != NULL; break;
	case 2: q = &st; as_queue_inita(q, 8, cap); break;
	case 3: qt = &stm; ok = FAULTY(as_queue_mt_init(qt, 8, cap)); q = NULL; break;
	default: qt = FAULTY(as_queue_mt_create(8, cap)); ok = qt != NULL; q = NULL; break;
	}
	if (how != 2 && !verdict("queue creation", ok)) return;
	int d = mc_pick(6, 7);
	for (int i = 0; i <= d + 3; i++) {
		int64_t v = i + 1, got = -9;
		int op = i < d ? mc_choose(4) : i == d ? 0 : 2;
		if (i == d) begin(0);	// memory is back
		if (op < 2) {
			bool r = qt ? (op ? FAULTY(as_queue_mt_push_head(qt, &v)) : FAULTY(as_queue_mt_push(qt, &v))) :
				(op ? FAULTY(as_queue_push_head(q, &v)) : FAULTY(as_queue_push(q, &v)));
			if (verdict(op ? "push head" : "push", r)) q_put(op, v);
		}
		else {
			bool r = qt ? (op == 3 ? as_queue_mt_pop_tail(qt, &got, 0) : as_queue_mt_pop(qt, &got, 0)) :
				(op == 3 ? as_queue_pop_tail(q, &got) : as_queue_pop(q, &got));
			mc_log("pop%s -> %d %lld", op == 3 ? " tail" : "", r, (long long)got);
			q_took("pop", r, got, op == 3);
		}
		uint32_t n = qt ? as_queue_mt_size(qt) : as_queue_size(q);
		MC_CHECK(n == (uint32_t)qm.n, "contents", "the queue has %u elements, expected %d", n, qm.n);
		q_state(how, cap);
	}
	while (qm.n) {
		int64_t got = -9;
		bool r = qt ? as_queue_mt_pop(qt, &got, 0) : as_queue_pop(q, &got);
		q_took("draining", r, got, false);
	}
	if (qt) as_queue_mt_destroy(qt); else as_queue_destroy(q);
}
static int all_cb(void* e, void* u) { (void)e; (void)u; return 0; }
static void sc_cfqueue(void)
{
	begin(mc_pick(1, 2));
	bool made = mc_flip(), ts = mc_flip();
	uint32_t cap = made ? 64 : (uint32_t)mc_range(1, 3);
	cf_queue st, *q;
	memset(&st, 0xA5, sizeof st);
	qm.n = 0;
	bool ok;
	if (made) { q = FAULTY(cf_queue_create(8, ts)); ok = q != NULL; }
	else { q = &st; ok = FAULTY(cf_queue_init(q, 8, cap, ts)); }
	if (!verdict("queue creation", ok)) return;
	if (made) {
		// Not small: a full turn first, so that the next elements do not fit.
		static int64_t v;
		int fill = mc_pick(2, 2);
		for (int i = 0; i < fill; i++) { v = 900 + i; if (cf_queue_push(q, &v) != CF_QUEUE_OK) mc_error("cannot push"); q_put(false, v); }
	}
	int d = made ? 3 : mc_pick(5, 6);
	for (int i = 0; i < d; i++) {
		int64_t v = i + 1, got = -9;
		int op = mc_choose(6), rc;
		switch (op) {
		case 0: rc = FAULTY(cf_queue_push(q, &v)); if (verdict("push", rc == CF_QUEUE_OK)) q_put(false, v); break;
		case 1: rc = FAULTY(cf_queue_push_head(q, &v)); if (verdict("push head", rc == CF_QUEUE_OK)) q_put(true, v); break;
		case 2: {
			int64_t u = qm.n && mc_flip() ? qm.e[0] : v;
			rc = FAULTY(cf_queue_push_unique(q, &u));
			bool dup = qm.n && u == qm.e[0];
			mc_log("push unique -> %d", rc);
			if (dup) MC_CHECK(rc == -2, "contents", "an element that is there was pushed again: %d", rc);
			else if (verdict("push unique", rc == CF_QUEUE_OK)) q_put(false, u);
			break;
		}
		case 3: {
			bool r = FAULTY(cf_queue_push_limit(q, &v, (uint32_t)qm.n + 1));
			if (verdict("push limit", r)) q_put(false, v);
			break;
		}
		default:
			rc = cf_queue_pop(q, &got, CF_QUEUE_NOWAIT);
			mc_log("pop -> %d %lld", rc, (long long)got);
			q_took("pop", rc == CF_QUEUE_OK, got, false);
			break;
		}
		MC_CHECK(cf_queue_sz(q) == (uint32_t)qm.n, "contents", "the queue has %u elements, expected %d", cf_queue_sz(q), qm.n);
		cf_queue_reduce(q, all_cb, NULL);
		q_state(8 + made, cap);
	}
	begin(0);
	for (int i = 0; i < 5; i++) {
		int64_t v = 500 + i;
		MC_CHECK(cf_queue_push(q, &v) == CF_QUEUE_OK, "unusable", "the queue cannot be pushed to afterwards");
		q_put(false, v);
	}
	while (qm.n) {
		int64_t got = -9;
		int rc = cf_queue_pop(q, &got, CF_QUEUE_NOWAIT);
		q_took("draining", rc == CF_QUEUE_OK, got, false);
	}
	cf_queue_destroy(q);
}

// ---- byte buffers ----------------------------------------------------------------
static void sc_bytes(void)
{
	begin(mc_pick(1, 2));
	int how = mc_choose(3);
	uint32_t cap = (uint32_t)mc_range(0, 2) * 4;
	as_bytes st, *b;
	uint8_t model[256];
	uint32_t n = 0;
	memset(&st, 0xA5, sizeof st);
	if (how == 2) { static uint8_t raw[4]; memcpy(raw, "wxyz", 4); b = FAULTY(as_bytes_new_wrap(raw, 4, false)); memcpy(model, raw, 4); n = 4; }
	else b = how ? FAULTY(as_bytes_new(cap)) : FAULTY(as_bytes_init(&st, cap));
	if (!verdict("buffer creation", b != NULL)) return;
	for (int i = 0, d = mc_pick(4, 5); i <= d; i++) {
		int op = i < d ? mc_choose(4) : 3;
		if (i == d) begin(0);
		if (op < 2) {
			uint32_t to = as_bytes_capacity(b) + (op ? 3 : 40);
			uint32_t was = as_bytes_capacity(b);
			bool r = FAULTY(as_bytes_ensure(b, to, true));
			if (verdict("ensure", r)) MC_CHECK(as_bytes_capacity(b) >= to, "contents", "capacity %u after asking for %u", as_bytes_capacity(b), to);
			else MC_CHECK(as_bytes_capacity(b) == was, "contents", "capacity went from %u to %u in a failed call", was, as_bytes_capacity(b));
		}
		else {
			uint32_t len = op == 2 ? 1 : 3;
			uint8_t add[3] = { (uint8_t)i, (uint8_t)(i + 64), (uint8_t)(i + 128) };
			bool fits = n + len <= as_bytes_capacity(b);
			bool r = FAULTY(as_bytes_append(b, add, len));
			mc_log("append %u -> %d", len, r);
			MC_CHECK(r == fits || faulted() || r, "spurious", "appending %u bytes at %u of %u failed", len, n, as_bytes_capacity(b));
			if (r) { memcpy(model + n, add, len); n += len; }
		}
		MC_CHECK(as_bytes_size(b) == n, "contents", "size %u, expected %u", as_bytes_size(b), n);
		MC_CHECK(as_bytes_capacity(b) == 0 || as_bytes_get(b), "contents", "capacity %u without memory", as_bytes_capacity(b));
		if (n) MC_CHECK(memcmp(as_bytes_get(b), model, n) == 0, "contents", "the bytes changed");
		// All of the capacity is really there.
		for (uint32_t j = n; j < as_bytes_capacity(b); j++) as_bytes_get(b)[j] = 0;
		mc_state(mc_hash(mc_hash_u64(mc_hash_u64((uint64_t)how, as_bytes_capacity(b)), mc_alloc_failed), model, n));
	}
	as_val_destroy(b);
}

// ---- text builders ---------------------------------------------------------------
static void sc_builder(void)
{
	begin(mc_pick(1, 2));
	static const uint32_t caps[] = { 1, 2, 4, 9 };
	uint32_t cap = caps[mc_choose(4)];
	char mem[16], model[512] = "";
	as_string_builder sb;
	bool heap = mc_flip();
	if (heap) as_string_builder_init(&sb, cap, true);
	else { as_string_builder_assign(&sb, cap, mem); sb.resize = true; as_string_builder_reset(&sb); }
	static const char* const add[] = { "a", "bcd", "0123456789abcdefghij", "X", "-7", "123456789012", "0a 0b" };
	for (int i = 0, d = mc_pick(4, 5); i <= d; i++) {
		int op = i < d ? mc_choose(6) : 2;
		const char* t = add[op];
		bool r;
		if (i == d) begin(0);
		switch (op) {
		case 3: r = FAULTY(as_string_builder_append_char(&sb, 'X')); break;
		case 4: r = FAULTY(as_string_builder_append_int(&sb, -7)); break;
		case 5: r = FAULTY(as_string_builder_append_uint64(&sb, 123456789012ULL)); break;
		default: r = FAULTY(as_string_builder_append(&sb, t)); break;
		}
		bool ok = verdict("append", r);
		size_t ml = strlen(model), tl = strlen(t);
		MC_CHECK(sb.length < sb.capacity && sb.data[sb.length] == 0, "contents", "the text is not terminated at its length after %s append", ok ? "an" : "a failed");
		size_t got = strlen(sb.data);
		MC_CHECK(got == sb.length, "contents", "length %u of a text of %zu characters", sb.length, got);
		MC_CHECK(memcmp(sb.data, model, ml) == 0 && got >= ml && got <= ml + tl && memcmp(sb.data + ml, t, got - ml) == 0, "contents", "the text became '%.80s' after '%.80s'", sb.data, model);
		if (ok) MC_CHECK(got == ml + tl, "contents", "a successful append lost characters: '%.80s'", sb.data);
		memcpy(model, sb.data, got + 1);
		mc_state(mc_hash(mc_hash_u64(mc_hash_u64(heap, sb.capacity), mc_alloc_failed), model, got));
	}
	as_string_builder_destroy(&sb);
}

// ---- packing and unpacking -------------------------------------------------------
static uint8_t enc[1 << 17];
static void pack_check(const rv* r)
{
	as_val* v = rv_build(r);
	size_t n = rv_encode(r, enc, sizeof enc);
	int way = mc_choose(3);
	mc_log("value %s", rv_text(r));
	if (way == 0) {
		as_serializer st, *s = &st;
		as_buffer b;
		as_msgpack_init(s);
		as_buffer_init(&b);
		int rc = FAULTY(as_serializer_serialize(s, v, &b));
		if (verdict("serialize", rc == 0)) MC_CHECK(b.size == n && memcmp(b.data, enc, n) == 0, "contents", "wrong bytes were produced");
		else MC_CHECK(!b.data && !b.size && !b.capacity, "contents", "a failed serialization left something in the buffer");
		as_buffer_destroy(&b);
	}
	else if (way == 1) {
		// A packer that grows by chaining buffers.
		as_packer pk = { .buffer = cf_malloc(16), .capacity = 16 };
		int rc = FAULTY(as_pack_val(&pk, v));
		bool ok = verdict("pack", rc == 0);
		size_t o = 0;
		for (as_packer_buffer* p = pk.head; p;) {
			as_packer_buffer* next = p->next;
			if (ok) MC_CHECK(o + p->length <= n && memcmp(p->buffer, enc + o, p->length) == 0, "contents", "a wrong piece was produced");
			o += p->length;
			cf_free(p->buffer);
			cf_free(p);
			p = next;
		}
		if (ok) MC_CHECK(o + pk.offset == n && memcmp(pk.buffer, enc + o, pk.offset) == 0, "contents", "%zu bytes were produced, expected %zu", o + pk.offset, n);
		cf_free(pk.buffer);
	}
	else {
		as_unpacker u = { .buffer = enc, .length = (uint32_t)n };
		as_val* out = NULL;
		int rc = FAULTY(as_unpack_val(&u, &out));
		if (verdict("unpack", rc == 0)) {
			MC_CHECK(out, "unreported", "unpacking gave nothing without reporting it");
			MC_CHECK(rv_same(r, out), "contents", "unpacking gave a different value");
			as_val_destroy(out);
		}
		else MC_CHECK(!out, "contents", "unpacking failed and gave a value");
	}
	MC_CHECK(rv_same(r, v), "contents", "the value changed");
	as_val_destroy(v);
	mc_state(mc_hash(mc_hash_u64((uint64_t)way, mc_alloc_failed), enc, n < 64 ? n : 64));
}
static void sc_pack(void)
{
	begin(mc_pick(1, 2));
	rv_reset();
	rv_gen_opt o = { .scalars = mc_pick(12, 16), .mapflags = 2 };
	int budget = mc_pick(3, 4);
	pack_check(rv_gen(&budget, &o));
}
static void sc_packbig(void)
{
	begin(mc_pick(1, 2));
	rv_reset();
	static const uint32_t len[] = { 1, 60, 4100, 8185, 8190, 8192, 9000, 20000 };
	int n = mc_range(1, 3);
	rv* l = rv_seq(R_LIST, (uint32_t)n);
	for (int i = 0; i < n; i++) l->c[i] = rv_fill(mc_flip() ? R_STR : R_BYTES, len[mc_choose(8)], 4);
	pack_check(l);
}
// Deep nesting needs memory to be measured and compared.
static void sc_deep(void)
{
	static const uint32_t depths[] = { 255, 256, 257, 300, 511, 512, 513, 600, 770 };
	static uint8_t a[4096], b[4096];
	begin(mc_pick(1, 2));
	uint32_t d = depths[mc_choose(9)], n = 0;
	bool map = mc_flip();
	for (uint32_t i = 0; i < d; i++) { if (map) { a[n++] = 0x81; a[n++] = 1; } else a[n++] = 0x91; }
	a[n] = 5;
	memcpy(b, a, n);
	int diff = mc_choose(3) - 1;
	b[n] = (uint8_t)(5 + diff);
	n++;
	if (mc_flip()) {
		as_unpacker u = { .buffer = a, .length = n };
		int64_t sz = FAULTY(as_unpack_size(&u));
		if (verdict("size", sz >= 0)) MC_CHECK(sz == n && u.offset == n, "contents", "size %lld of %u bytes, %u read", (long long)sz, n, u.offset);
	}
	else {
		msgpack_compare_t c = FAULTY(as_unpack_buf_compare(a, n, b, n));
		if (verdict("compare", c != MSGPACK_COMPARE_ERROR))
			MC_CHECK(c == (diff > 0 ? MSGPACK_COMPARE_LESS : diff < 0 ? MSGPACK_COMPARE_GREATER : MSGPACK_COMPARE_EQUAL), "contents", "comparing gives %d", (int)c);
	}
	mc_state(mc_hash_u64(mc_hash_u64(d, (uint64_t)(diff + 1 + 3 * map)), mc_alloc_failed));
}

// ---- construction ----------------------------------------------------------------
static void sc_make(void)
{
	static const as_serializer_hooks no_ser;
	static const as_stream_hooks no_str;
	static const as_timer_hooks no_tim;
	static const as_aerospike_hooks no_aer;
	static const as_rec_hooks no_rec;
	static const as_list_hooks no_lst;
	static const as_map_hooks no_map;
	static const as_iterator_hooks no_it;
	begin(2);
	int w = mc_choose(24);
	as_val* v = NULL;
	bool is_val = true;
	switch (w) {
	case 0: v = (as_val*)FAULTY(as_integer_new(7)); break;
	case 1: v = (as_val*)FAULTY(as_double_new(7.5)); break;
	case 2: v = (as_val*)FAULTY(as_boolean_new(true)); break;
	case 3: v = (as_val*)FAULTY(as_string_new("t", false)); break;
	case 4: v = (as_val*)FAULTY(as_string_new_strdup("text")); if (v) MC_CHECK(as_string_get((as_string*)v) && !strcmp(as_string_get((as_string*)v), "text"), "unreported", "a text was made without its characters"); break;
	case 5: v = (as_val*)FAULTY(as_string_new_wlen("text", 4, false)); break;
	case 6: v = (as_val*)FAULTY(as_geojson_new("t", false)); break;
	case 7: v = (as_val*)FAULTY(as_geojson_new_strdup("text")); if (v) MC_CHECK(as_geojson_get((as_geojson*)v) && !strcmp(as_geojson_get((as_geojson*)v), "text"), "unreported", "a region was made without its characters"); break;
	case 8: v = (as_val*)FAULTY(as_geojson_new_wlen("text", 4, false)); break;
	case 9: v = (as_val*)FAULTY(as_pair_new((as_val*)&as_nil, (as_val*)&as_nil)); break;
	case 10: v = (as_val*)FAULTY(as_rec_new(NULL, &no_rec)); break;
	case 11: v = (as_val*)FAULTY(as_list_new(&no_lst)); break;
	case 12: v = (as_val*)FAULTY(as_map_new(&no_map)); break;
	case 13: {
		as_string f;
		const char* r = FAULTY(as_basename(&f, "/a/name/"));
		bool ok = verdict("file name", r != NULL);
		if (ok) { MC_CHECK(!strcmp(r, "name"), "contents", "file name '%s'", r); as_string_destroy(&f); }
		return;
	}
	default: is_val = false; break;
	}
	if (is_val) {
		if (verdict("creation", v != NULL)) as_val_destroy(v);
		mc_state(mc_hash_u64((uint64_t)w, mc_alloc_failed));
		return;
	}
	switch (w) {
	case 14: { as_result* r = FAULTY(as_result_new()); if (verdict("result", r != NULL)) as_result_destroy(r); break; }
	case 15: { as_result* r = FAULTY(as_success_new((as_val*)&as_nil)); if (verdict("success", r != NULL)) { MC_CHECK(r->is_success && as_result_value(r) == (as_val*)&as_nil, "contents", "wrong result"); as_result_destroy(r); } break; }
	case 16: { as_result* r = FAULTY(as_failure_new((as_val*)&as_nil)); if (verdict("failure", r != NULL)) { MC_CHECK(!r->is_success && as_result_value(r) == (as_val*)&as_nil, "contents", "wrong result"); as_result_destroy(r); } break; }
	case 17: { as_serializer* s = FAULTY(as_serializer_new(&no_ser)); if (verdict("serializer", s != NULL)) cf_free(s); break; }
	case 18: { as_serializer* s = FAULTY(as_msgpack_new()); if (verdict("serializer", s != NULL)) cf_free(s); break; }
	case 19: { as_stream* s = FAULTY(as_stream_new(NULL, &no_str)); if (verdict("stream", s != NULL)) cf_free(s); break; }
	case 20: { as_timer* t = FAULTY(as_timer_new(NULL, &no_tim)); if (verdict("timer", t != NULL)) cf_free(t); break; }
	case 21: {
		as_aerospike* a = FAULTY(as_aerospike_new(NULL, &no_aer));
		if (verdict("handle", a != NULL)) { size_t sz; if (mc_alloc_is_live(a, &sz)) cf_free(a); else cf_rc_free(a); }
		break;
	}
	case 22: { void* p = FAULTY(cf_rc_alloc(24)); if (verdict("counted block", p != NULL)) { memset(p, 1, 24); cf_rc_free(p); } break; }
	default: {
		cf_ll l;
		cf_ll_init(&l, NULL, false);
		cf_ll_iterator* it = FAULTY(cf_ll_getIterator(&l, true));
		if (verdict("list iterator", it != NULL)) cf_ll_releaseIterator(it);
		break;
	}
	}
	(void)no_it;
	mc_state(mc_hash_u64((uint64_t)w, mc_alloc_failed));
}

// ---- rendering -------------------------------------------------------------------
static void render_check(const rv* r)
{
	as_val* v = rv_build(r);
	char* good = as_val_tostring(v);
	char* s = FAULTY(as_val_tostring(v));
	mc_log("%s -> %.60s", rv_text(r), s ? s : "(nothing)");
	if (!faulted()) MC_CHECK((!s && !good) || (s && good && !strcmp(s, good)), "contents", "rendering twice gives different texts");
	else if (s) MC_CHECK(good && (!strcmp(s, good) || strstr(s, "NULL")), "contents", "rendering without memory gives '%.80s'", s);
	MC_CHECK(rv_same(r, v), "contents", "the value changed");
	cf_free(s);
	cf_free(good);
	as_val_destroy(v);
	mc_state(mc_hash_u64(mc_hash(1, rv_text(r), strlen(rv_text(r))), mc_alloc_failed));
}
static void sc_render(void)
{
	begin(mc_pick(1, 2));
	rv_reset();
	rv_gen_opt o = { .scalars = mc_pick(12, 16), .mapflags = 1 };
	int budget = mc_pick(3, 4);
	render_check(rv_gen(&budget, &o));
}
static void sc_renderbig(void)
{
	static const uint32_t len[] = { 1, 500, 1010, 1020, 1030, 2100 };
	begin(mc_pick(1, 2));
	rv_reset();
	int n = mc_range(1, 3);
	bool map = mc_flip();
	rv* l = rv_seq(map ? R_MAP : R_LIST, (uint32_t)n);
	for (int i = 0; i < n; i++) {
		rv* x = rv_fill(R_STR, len[mc_choose(6)], 0);
		if (map) { l->c[2 * i] = rv_int(i); l->c[2 * i + 1] = x; }
		else l->c[i] = x;
	}
	render_check(l);
}

// ---- buffer pools ----------------------------------------------------------------
static void sc_pool(void)
{
	begin(mc_pick(1, 2));
	as_buffer_pool p;
	memset(&p, 0xA5, sizeof p);
	int rc = as_buffer_pool_init(&p, 4, 32);
	if (rc != 0) mc_error("cannot make a pool");
	as_buffer_result held[8];
	int n = 0;
	for (int i = 0, d = mc_pick(5, 6); i < d; i++) {
		int op = mc_choose(3);
		if (op < 2) {
			as_buffer_result r = { NULL, 0 };
			uint32_t size = op ? 100 : 20;
			rc = FAULTY(as_buffer_pool_pop(&p, size, &r));
			if (verdict("pop", rc >= 0)) {
				MC_CHECK(r.data && r.capacity >= size, "contents", "no buffer of %u bytes was given", size);
				memset(r.data, i, r.capacity + 4);
				held[n++] = r;
			}
		}
		else if (n) {
			n--;
			as_buffer_pool_push(&p, held[n].data, held[n].capacity);
		}
		mc_state(mc_hash_u64(mc_hash_u64((uint64_t)n, (uint64_t)i), mc_alloc_failed));
	}
	begin(0);
	as_buffer_result r = { NULL, 0 };
	rc = as_buffer_pool_pop(&p, 20, &r);
	MC_CHECK(rc >= 0 && r.data, "unusable", "the pool gives nothing afterwards");
	cf_free(r.data);
	for (int i = 0; i < n; i++) cf_free(held[i].data);
	as_buffer_pool_destroy(&p);
}

// ---- growable arrays ---------------------------------------------------------------
static void sc_vector(void)
{
	begin(mc_pick(1, 2));
	uint32_t cap = (uint32_t)mc_choose(4);
	as_vector* v = FAULTY(as_vector_create(8, cap));
	if (!verdict("array creation", v != NULL)) return;
	int n = mc_choose(6);
	mc_alloc_explore(0);
	for (int64_t i = 0; i < n; i++) as_vector_append(v, &(int64_t){ 100 + i });
	for (int round = 0; round < 3; round++) {
		if (round < 2) begin(mc_pick(1, 2)); else begin(0);
		uint32_t sz = 77;
		int64_t* a = FAULTY(as_vector_to_array(v, &sz));
		if (verdict("conversion to an array", a != NULL)) {
			MC_CHECK(sz == (uint32_t)n, "contents", "array of %u items, expected %d", sz, n);
			for (int i = 0; i < n; i++) MC_CHECK(a[i] == 100 + i, "contents", "item %d of the array is %lld", i, (long long)a[i]);
			cf_free(a);
		}
		MC_CHECK(v->size == (uint32_t)n, "contents", "%u items, expected %d", v->size, n);
		for (int i = 0; i < n; i++) MC_CHECK(*(int64_t*)as_vector_get(v, (uint32_t)i) == 100 + i, "contents", "item %d changed", i);
		mc_state(mc_hash_u64(mc_hash_u64(cap, (uint64_t)n), mc_alloc_failed * 4 + (uint64_t)round));
	}
	as_vector_destroy(v);
}

// ---- containers larger than memory ---------------------------------------------------
// No request above the allocation limit succeeds, so all of these have to be refused.
static void sc_toolarge(void)
{
	static const int dv[] = { 0, -1, 1 };
	begin(0);
	int a = mc_range(1, 31), b = mc_range(1, 31);
	if (a + b < 31) mc_prune();
	uint32_t size = (uint32_t)((1ll << a) + dv[mc_choose(3)]), cap = (uint32_t)((1ll << b) + dv[mc_choose(3)]);
	if (!size || !cap || (uint64_t)size * cap <= mc_alloc_limit) mc_prune();
	int how = mc_choose(6);
	as_queue q;
	as_queue_mt qm2;
	cf_queue cq;
	bool ok;
	mc_step();
	switch (how) {
	case 0: ok = as_queue_create(size, cap) != NULL; break;
	case 1: ok = as_queue_init(&q, size, cap); break;
	case 2: ok = as_queue_mt_create(size, cap) != NULL; break;
	case 3: ok = as_queue_mt_init(&qm2, size, cap); break;
	case 4: ok = cf_queue_init(&cq, size, cap, true); break;
	default: ok = as_vector_create(size, cap) != NULL; break;
	}
	MC_CHECK(!ok, "too-large", "%s for %u items of %u bytes was made without the memory for it",
		how < 4 ? "a queue" : how == 4 ? "a cf queue" : "an array", cap, size);
	mc_state(mc_hash_u64(mc_hash_u64(size, cap), (uint64_t)how));
}

const mc_scenario mc_scenarios[] = {
	{ "list", sc_list, 3, "array lists on the heap or not, capacity 0..2, growing by 1 or 2: creation and all sequences of 3 (4) of 19 operations; 1 (2) faults at every allocation, each alone, for the rest of the call or for good" },
	{ "map", sc_map, 3, "ordered maps, capacity 8 or 16 with 0, 6, 7, 8, 15 or 16 entries: creation and all sequences of 3 (4) of 12 operations, 1 (2) faults" },
	{ "bigmap", sc_bigmap, 2, "maps of 1010 entries with 0, 1 or 997..999 entries put aside: all sequences of 2 (3) of 9 operations, 1 (2) faults" },
	{ "queue", sc_queue, 3, "plain and threaded queues of capacity 1..3, made in five ways: all sequences of 6 (7) pushes and pops at both ends, 1 (2) faults" },
	{ "cfqueue", sc_cfqueue, 3, "cf queues of capacity 1..3 or the default one: all sequences of 5 (6) pushes of four kinds and pops, 1 (2) faults" },
	{ "bytes", sc_bytes, 2, "byte buffers of capacity 0, 4 or 8 or around a caller's memory: all sequences of 4 (5) growths and appends, 1 (2) faults" },
	{ "builder", sc_builder, 2, "text builders of capacity 1, 2, 4 or 9 on the heap or the stack: all sequences of 4 (5) of 6 appends, 1 (2) faults" },
	{ "pack", sc_pack, 2, "all values of up to 4 (5) nodes serialized, packed into a growing packer and unpacked, 1 (2) faults" },
	{ "packbig", sc_packbig, 2, "lists of 1..3 strings or blobs of 8 lengths around the buffer size, 1 (2) faults" },
	{ "deep", sc_deep, 2, "lists and maps nested 255..770 deep measured and compared, 1 (2) faults" },
	{ "make", sc_make, 1, "24 constructors, up to 2 faults" },
	{ "render", sc_render, 2, "all values of up to 4 (5) nodes rendered, 1 (2) faults" },
	{ "renderbig", sc_renderbig, 2, "lists and maps of 1..3 strings of 6 lengths around the block size rendered, 1 (2) faults" },
	{ "pool", sc_pool, 2, "buffer pools: all sequences of 5 (6) takes and returns, 1 (2) faults" },
	{ "vector", sc_vector, 2, "growable arrays of capacity 0..3: creation, 0..5 items, three conversions to a plain array, 1 (2) faults each" },
	{ "toolarge", sc_toolarge, 2, "queues of all kinds and growable arrays for 2^31 bytes and more: item sizes and capacities next to all pairs of powers of two" },
	{ 0 }
};
