// Sizes across the powers of two (C01, C02, C10, C14, C15, C16, C17, C18): one operation of every kind at every place of interest.
#include "mc.h"
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_b64.h>
#include <citrusleaf/cf_ll.h>
#include <citrusleaf/cf_queue.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const uint32_t sizes[] = { 255, 256, 257, 65535, 65536, 65537, 127, 128, 129, 1024, 4096, 32767, 32768, 32769, 131072 };
static uint32_t pick_size(void) { return sizes[mc_choose(mc_pick(6, 15))]; }
// Places in a sequence of n: both ends, the middle, and next to the powers of two.
static uint32_t pick_at(uint32_t n, bool end)
{
	uint32_t at[20]; int k = 0;
	const uint32_t c[] = { 0, 1, n / 2, n - 2, n - 1, n, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536 };
	for (size_t i = 0; i < sizeof c / sizeof *c; i++) {
		bool dup = c[i] > n || (c[i] == n && !end);
		for (int j = 0; j < k; j++) dup |= at[j] == c[i];
		if (!dup) at[k++] = c[i];
	}
	return at[mc_choose(k)];
}

#define MAXN 300000
static uint32_t model[MAXN], mn;
static void put(uint32_t at, uint32_t v) { memmove(model + at + 1, model + at, (mn - at) * 4); model[at] = v; mn++; }
static void cut(uint32_t at, uint32_t k) { memmove(model + at, model + at + k, (mn - at - k) * 4); mn -= k; }

// ---- C01 -------------------------------------------------------------------
static uint32_t walk;
static bool each(as_val* v, void* u) { MC_CHECK(walk < mn && as_integer_get(as_integer_fromval(v)) == model[walk], u, "foreach gives another element at %u", walk); walk++; return true; }
static void list_is(as_arraylist* l)
{
	MC_CHECK(as_arraylist_size(l) == mn, "list-size", "size %u, expected %u", as_arraylist_size(l), mn);
	for (uint32_t i = 0; i < mn; i++) MC_CHECK(as_arraylist_get_int64(l, i) == model[i], "list-element", "element %u of %u is %ld, expected %u", i, mn, (long)as_arraylist_get_int64(l, i), model[i]);
	MC_CHECK(as_arraylist_get(l, mn) == NULL, "list-element", "an element beyond the end");
	walk = 0;
	MC_CHECK(as_arraylist_foreach(l, each, "list-foreach") && walk == mn, "list-foreach", "foreach ends after %u of %u", walk, mn);
	as_arraylist_iterator it;
	as_arraylist_iterator_init(&it, l);
	for (walk = 0; as_arraylist_iterator_has_next(&it); ) each((as_val*)as_arraylist_iterator_next(&it), "list-iterate");
	MC_CHECK(walk == mn, "list-iterate", "iteration ends after %u of %u", walk, mn);
	as_arraylist_iterator_destroy(&it);
	mc_steps(3 * mn);
}
static as_arraylist* list_of(uint32_t n, uint32_t cap, uint32_t block)
{
	as_arraylist* l = as_arraylist_new(cap, block);
	for (mn = 0; mn < n; mn++) { model[mn] = mn * 3 + 1; MC_CHECK(as_arraylist_append_int64(l, model[mn]) == 0, "list-return-code", "append %u", mn); }
	return l;
}
static void sc_list(void)
{
	uint32_t n = pick_size(), at, roomy = (uint32_t)mc_choose(3);
	as_arraylist* l = list_of(n, roomy == 1 ? n + 1 : roomy ? n : 1, 4096 + roomy), *o;
	int op = mc_choose(10), rc = 0;
	switch (op) {
	case 0: rc = as_arraylist_append_int64(l, 7); put(mn, 7); break;
	case 1: rc = as_arraylist_prepend_int64(l, 7); put(0, 7); break;
	case 2: at = pick_at(n, true); rc = as_arraylist_insert_int64(l, at, 7); put(at, 7); break;
	case 3: at = pick_at(n, false); rc = as_arraylist_set_int64(l, at, 7); model[at] = 7; break;
	case 4: at = pick_at(n, false); rc = as_arraylist_remove(l, at); cut(at, 1); break;
	case 5: at = pick_at(n, false); rc = as_arraylist_trim(l, at); mn = at; break;
	case 6: {
		uint32_t k = (uint32_t[]){ 1, 255, 256, 257, 65536 }[mc_choose(5)];
		o = as_arraylist_new(k, 1);
		for (uint32_t i = 0; i < k; i++) { as_arraylist_append_int64(o, i); model[mn + i] = i; }
		rc = as_arraylist_concat(l, o); mn += k;
		as_arraylist_destroy(o);
		break;
	}
	case 7: case 8: {
		at = pick_at(n, true);
		o = op == 7 ? as_arraylist_take(l, at) : as_arraylist_drop(l, at);
		list_is(l);
		as_arraylist_destroy(l);
		l = o;
		if (op == 7) mn = at; else cut(0, at);
		if (!l && !mn) l = as_arraylist_new(1, 1);
		MC_CHECK(l, "list-take-drop", "no list");
		break;
	}
	case 9: o = as_arraylist_tail(l); as_arraylist_destroy(l); l = o; cut(0, 1); break;
	}
	MC_CHECK(rc == 0, "list-return-code", "operation %d gives %d", op, rc);
	list_is(l);
	mc_state(mc_hash(op, model, mn * 4));
	as_arraylist_destroy(l);
}
// ---- C02: keys are even numbers in order, values the model's ---------------
static void map_put(as_orderedmap* m, uint32_t k, uint32_t v)
{
	MC_CHECK(as_orderedmap_set(m, (as_val*)as_integer_new(k), (as_val*)as_integer_new(v)) == 0, "map-set", "key %u is refused", k);
	mc_step();
}
typedef struct { uint32_t k, v; } entry;
static entry ent[MAXN];
static uint32_t en;
static bool each_entry(const as_val* k, const as_val* v, void* u)
{
	MC_CHECK(walk < en && as_integer_get(as_integer_fromval(k)) == ent[walk].k && as_integer_get(as_integer_fromval(v)) == ent[walk].v, "map-order", "foreach gives another entry at %u", walk);
	walk++;
	return true;
}
static void sc_map(void)
{
	uint32_t n = mc_thorough() ? pick_size() : mc_choose(2) ? 65537 : 257, built = (uint32_t)mc_choose(3);
	as_orderedmap* m = as_orderedmap_new(built == 2 ? n : 8);
	en = n;
	for (uint32_t i = 0; i < n; i++) { ent[i].k = 2 * i + 2; ent[i].v = i; }
	// Ascending, or every other one first and the rest behind.
	if (built == 0 || built == 2) for (uint32_t i = 0; i < n; i++) map_put(m, ent[i].k, i);
	else { for (uint32_t i = 0; i < n; i += 2) map_put(m, ent[i].k, i); for (uint32_t i = 1; i < n; i += 2) map_put(m, ent[i].k, i); }
	for (int step = 0; step < (n > 5000 ? 1 : 2); step++) {
		uint32_t at;
		switch (mc_choose(step ? 3 : 4)) {
		case 0:
			at = pick_at(en, true);
			if (at && ent[at - 1].k % 2) mc_prune();
			map_put(m, 2 * at + 1, 9);
			if (at < en && ent[at].k == 2 * at + 1) { ent[at].v = 9; break; }
			{ uint32_t p = 0; while (p < en && ent[p].k < 2 * at + 1) p++;
			  if (p < en && ent[p].k == 2 * at + 1) { ent[p].v = 9; break; }
			  memmove(ent + p + 1, ent + p, (en - p) * sizeof *ent); ent[p] = (entry){ 2 * at + 1, 9 }; en++; }
			break;
		case 1: at = pick_at(en, false); map_put(m, ent[at].k, 8); ent[at].v = 8; break;
		case 2: {
			at = pick_at(en, false);
			as_integer k;
			as_integer_init(&k, ent[at].k);
			MC_CHECK(as_orderedmap_remove(m, (as_val*)&k) == 0, "map-remove", "key %u cannot be removed", ent[at].k);
			memmove(ent + at, ent + at + 1, (en - at - 1) * sizeof *ent); en--;
			break;
		}
		case 3: step = 2; as_orderedmap_clear(m); en = 0; break;
		}
		MC_CHECK(as_orderedmap_size(m) == en, "map-size", "size %u, expected %u", as_orderedmap_size(m), en);
	}
	for (uint32_t i = 0; i < en; i++) {
		as_integer k;
		as_integer_init(&k, ent[i].k);
		as_val* v = as_orderedmap_get(m, (as_val*)&k);
		MC_CHECK(v && as_integer_get(as_integer_fromval(v)) == ent[i].v, "map-get", "key %u is not found or has another value", ent[i].k);
	}
	walk = 0;
	MC_CHECK(as_orderedmap_foreach(m, each_entry, NULL) && walk == en, "map-order", "foreach ends after %u of %u", walk, en);
	mc_steps(2 * en);
	mc_state(mc_hash(n, ent, en * sizeof *ent));
	as_orderedmap_destroy(m);
}
// ---- C10 -------------------------------------------------------------------
static uint32_t isz;
static uint8_t* item(uint32_t id)
{
	static uint8_t b[2][70000];
	static int k;
	uint8_t* p = b[k++ & 1];
	for (uint32_t i = 0; i < isz; i++) p[i] = (uint8_t)(id >> 8 * (i % 4)) ^ (uint8_t)(i >> 2);
	if (isz > 8) p[isz - 1] ^= (uint8_t)id;
	return p;
}
static uint8_t got[70000];
static void as_drain(as_queue* q)
{
	MC_CHECK(as_queue_size(q) == mn, "size", "size %u, expected %u", as_queue_size(q), mn);
	for (uint32_t i = 0; i < mn; i++) {
		MC_CHECK(as_queue_pop(q, got), "pop-empty", "empty after %u of %u", i, mn);
		MC_CHECK(!memcmp(got, item(model[i]), isz), "pop-item", "item %u of %u is another one", i, mn);
		mc_step();
	}
	MC_CHECK(!as_queue_pop(q, got), "pop-empty", "an item too many");
}
static void sc_asqueue(void)
{
	uint32_t n = pick_size(), rot = (uint32_t[]){ 0, 1, n / 2, n - 1 }[mc_choose(4)];
	isz = (uint32_t[]){ 4, 8 }[mc_choose(2)];
	as_queue* q = as_queue_create(isz, mc_choose(2) ? n : 3);
	for (uint32_t i = 0; i < n; i++) { model[i] = i; as_queue_push(q, item(i)); }
	mn = n;
	for (uint32_t i = 0; i < rot; i++) {
		as_queue_pop(q, got);
		as_queue_push(q, item(n + i));
		model[mn + i] = n + i;
	}
	memmove(model, model + rot, n * 4);
	mc_steps(n + rot);
	switch (mc_choose(5)) {
	case 0: as_queue_push(q, item(99)); put(mn, 99); break;
	case 1: as_queue_push_head(q, item(99)); put(0, 99); break;
	case 2: MC_CHECK(as_queue_pop_tail(q, got) && !memcmp(got, item(model[mn - 1]), isz), "pop-item", "the last item is another one"); mn--; break;
	case 3: for (uint32_t i = 0; i < 300; i++) { as_queue_push_head(q, item(i)); put(0, i); } break;
	case 4: if (as_queue_push_limit(q, item(98))) put(mn, 98); if (as_queue_push_head_limit(q, item(97))) put(0, 97); break;
	}
	mc_state(mc_hash(isz, model, mn * 4));
	as_drain(q);
	as_queue_destroy(q);
}
static uint32_t stop_at, visited, verb; static bool backwards;
static int visit(void* b, void* u)
{
	uint32_t i = backwards ? mn - 1 - visited : visited;
	MC_CHECK(visited < mn && !memcmp(b, item(model[i]), isz), "reduce-item", "visit %u is another item", visited);
	return visited++ == stop_at ? (verb ? -2 : -1) : 0;
}
static void cf_drain(cf_queue* q)
{
	MC_CHECK((uint32_t)cf_queue_sz(q) == mn, "size", "size %u, expected %u", (uint32_t)cf_queue_sz(q), mn);
	for (uint32_t i = 0; i < mn; i++) {
		MC_CHECK(cf_queue_pop(q, got, CF_QUEUE_NOWAIT) == CF_QUEUE_OK, "pop-empty", "empty after %u of %u", i, mn);
		MC_CHECK(!memcmp(got, item(model[i]), isz), "pop-item", "item %u of %u is another one", i, mn);
		mc_step();
	}
	MC_CHECK(cf_queue_pop(q, got, CF_QUEUE_NOWAIT) == CF_QUEUE_EMPTY, "pop-empty", "an item too many");
}
static void sc_cfqueue(void)
{
	uint32_t n = pick_size(), rot = (uint32_t[]){ 0, 1, n / 2, n - 1 }[mc_choose(4)], at;
	isz = 4;
	cf_queue q;
	cf_queue_init(&q, isz, mc_choose(2) ? n : 3, false);
	for (uint32_t i = 0; i < n; i++) { model[i] = i; cf_queue_push(&q, item(i)); }
	mn = n;
	for (uint32_t i = 0; i < rot; i++) { cf_queue_pop(&q, got, CF_QUEUE_NOWAIT); cf_queue_push(&q, item(n + i)); model[mn + i] = n + i; }
	memmove(model, model + rot, n * 4);
	mc_steps(n + rot);
	visited = 0; stop_at = UINT32_MAX;
	switch (mc_choose(9)) {
	case 0: cf_queue_push(&q, item(999999)); put(mn, 999999); break;
	case 1: cf_queue_push_head(&q, item(999999)); put(0, 999999); break;
	case 2: at = pick_at(n, true); MC_CHECK(cf_queue_push_index(&q, item(999999), at) == 0, "push-index", "push at %u is refused", at); put(at, 999999); break;
	case 3: at = pick_at(n, false); MC_CHECK(cf_queue_delete(&q, item(model[at]), true) == CF_QUEUE_OK, "delete", "item at %u is not found", at); cut(at, 1); break;
	case 4: at = pick_at(n, false); MC_CHECK(cf_queue_delete(&q, item(model[at]), false) == CF_QUEUE_OK, "delete", "item at %u is not found", at); cut(at, 1); break;
	case 5: case 6:
		backwards = mc_choose(2); at = pick_at(n, false); verb = (uint32_t)mc_choose(2); stop_at = at;
		if (backwards) cf_queue_reduce_reverse(&q, visit, NULL); else cf_queue_reduce(&q, visit, NULL);
		MC_CHECK(visited == at + 1, "reduce-visits", "%u visits, expected %u", visited, at + 1);
		if (verb) cut(backwards ? mn - 1 - at : at, 1);
		break;
	case 7: MC_CHECK(cf_queue_push_limit(&q, item(999999), n + 1) && !cf_queue_push_limit(&q, item(999998), n + 1), "limit", "the limit of %u is not kept", n + 1); put(mn, 999999); break;
	case 8:
		at = pick_at(n, false);
		MC_CHECK(cf_queue_push_unique(&q, item(model[at])) == -2, "unique", "the item at %u is pushed again", at);
		MC_CHECK(cf_queue_push_unique(&q, item(999999)) == CF_QUEUE_OK, "unique", "a new item is refused");
		put(mn, 999999);
		break;
	}
	mc_state(mc_hash(isz, model, mn * 4));
	cf_drain(&q);
	cf_queue_destroy(&q);
}
// Items of every size of interest, few of them.
static const uint32_t widths[] = { 1, 2, 3, 5, 7, 16, 127, 128, 129, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 15, 17, 31, 32, 33, 63, 64, 65 };
enum { WIDTHS = sizeof widths / sizeof *widths };
// An item that differs from another in one byte only.
static uint8_t* nearly(uint32_t id, int where)
{
	static uint8_t b[70000];
	memcpy(b, item(id), isz);
	b[where == 0 ? 0 : where == 1 ? isz / 2 : isz - 1] ^= 0x80;
	return b;
}
static as_queue q; static cf_queue c; static as_queue_mt t;
static void push_item(int kind, int way, bool head, uint32_t id)
{
	uint8_t* p = item(id);
	if (kind == 0) {
		if (!way || !(head ? as_queue_push_head_limit(&q, p) : as_queue_push_limit(&q, p))) { if (head) as_queue_push_head(&q, p); else as_queue_push(&q, p); }
	}
	else if (kind == 1) {
		if (head) { if (way == 2) cf_queue_push_index(&c, p, 0); else cf_queue_push_head(&c, p); }
		else if (way == 0) cf_queue_push(&c, p);
		else if (way == 1) cf_queue_push_limit(&c, p, UINT32_MAX);
		else if (way == 2) cf_queue_push_unique(&c, p);
		else cf_queue_push_index(&c, p, mn);
	}
	else {
		if (!way || !(head ? as_queue_mt_push_head_limit(&t, p) : as_queue_mt_push_limit(&t, p))) { if (head) as_queue_mt_push_head(&t, p); else as_queue_mt_push(&t, p); }
	}
	put(head ? 0 : mn, id);
}
static void sc_items(void)
{
	isz = widths[mc_choose(WIDTHS)];
	int kind = mc_choose(3), n = 1 + mc_choose(6), rot = mc_choose(4), way = mc_choose(kind == 1 ? 4 : 2), stack = kind == 1 ? 0 : mc_choose(2);
	if (kind == 0) { if (stack) { as_queue_inita(&q, isz, 2); } else as_queue_init(&q, isz, 2); }
	else if (kind == 1) cf_queue_init(&c, isz, 2, false);
	else { if (stack) { as_queue_mt_inita(&t, isz, 2); } else as_queue_mt_init(&t, isz, 2); }
	mn = 0;
	for (int i = 0; i < n + rot; i++) {
		if (i >= n) {
			if (kind == 0) as_queue_pop(&q, got); else if (kind == 1) cf_queue_pop(&c, got, CF_QUEUE_NOWAIT); else as_queue_mt_pop(&t, got, 0);
			MC_CHECK(!memcmp(got, item(model[0]), isz), "pop-item", "an item of %u bytes is another one", isz);
			cut(0, 1);
		}
		push_item(kind, way, i % 3 == 1, (uint32_t)(i + 1) * 0x01030507u);
		mc_step();
	}
	if (kind == 1) {
		int d = mc_choose((int)mn + 1), where = mc_choose(3);
		visited = 0; stop_at = UINT32_MAX; backwards = where == 1;
		if (backwards) cf_queue_reduce_reverse(&c, visit, NULL); else cf_queue_reduce(&c, visit, NULL);
		MC_CHECK(visited == mn, "reduce-visits", "%u visits, expected %u", visited, mn);
		if (d < (int)mn) {
			MC_CHECK(cf_queue_delete(&c, nearly(model[d], where), true) == CF_QUEUE_EMPTY, "delete", "an item that differs in one byte of %u is taken for another", isz);
			MC_CHECK(cf_queue_push_unique(&c, nearly(model[d], where)) == CF_QUEUE_OK, "unique", "an item that differs in one byte of %u is refused", isz);
			MC_CHECK(cf_queue_delete(&c, nearly(model[d], where), false) == CF_QUEUE_OK, "delete", "an item of %u bytes is not found", isz);
			cf_queue_delete(&c, item(model[d]), true);
			cut((uint32_t)d, 1);
		}
	}
	mc_state(mc_hash(isz + (uint32_t)(kind * 8 + way * 2 + stack) * 100000, model, mn * 4));
	if (kind == 1) { cf_drain(&c); cf_queue_destroy(&c); return; }
	if (mc_choose(2)) while (mn) {
		MC_CHECK(kind ? as_queue_mt_pop_tail(&t, got, 0) : as_queue_pop_tail(&q, got), "pop-empty", "empty with %u left", mn);
		mn--;
		MC_CHECK(!memcmp(got, item(model[mn]), isz), "pop-item", "item %u from the tail is another one", mn);
	}
	if (kind == 0) { as_drain(&q); as_queue_destroy(&q); }
	else {
		for (uint32_t i = 0; i < mn; i++) MC_CHECK(as_queue_mt_pop(&t, got, 0) && !memcmp(got, item(model[i]), isz), "pop-item", "item %u of %u is another one", i, mn);
		as_queue_mt_destroy(&t);
	}
}
// ---- C15 -------------------------------------------------------------------
static void vector_is(as_vector* v)
{
	MC_CHECK(v->size == mn, "size", "size %u, expected %u", v->size, mn);
	for (uint32_t i = 0; i < mn; i++) MC_CHECK(!memcmp(as_vector_get(v, i), item(model[i]), isz), "item", "item %u of %u changed", i, mn);
	uint32_t n = 0;
	uint8_t* a = as_vector_to_array(v, &n);
	MC_CHECK(n == mn, "array-size", "array of %u items, expected %u", n, mn);
	for (uint32_t i = 0; i < mn; i++) MC_CHECK(!memcmp(a + (size_t)i * isz, item(model[i]), isz), "array-item", "array item %u wrong", i);
	cf_free(a);
	mc_steps(2 * mn);
}
static void vector_op(as_vector* v, uint32_t n)
{
	uint32_t at;
	switch (mc_choose(7)) {
	case 0: as_vector_append(v, item(77)); put(mn, 77); break;
	case 1: at = pick_at(n, false); as_vector_set(v, at, item(77)); model[at] = 77; break;
	case 2: at = pick_at(n, false); MC_CHECK(as_vector_remove(v, at), "remove", "item %u of %u is not removed", at, n); cut(at, 1); break;
	case 3: MC_CHECK(!as_vector_remove(v, n) && !as_vector_remove(v, n + 65536), "remove", "removal beyond the end is accepted"); break;
	case 4: at = pick_at(n, false); MC_CHECK(!as_vector_append_unique(v, item(model[at])), "unique", "item %u is appended again", at); break;
	case 5: MC_CHECK(as_vector_append_unique(v, item(0x7fffff)), "unique", "a new item is not appended"); put(mn, 0x7fffff); break;
	case 6: {
		uint8_t* p = as_vector_reserve(v);
		for (uint32_t i = 0; i < isz; i++) MC_CHECK(!p[i], "reserve-zero", "reserved slot is not zeroed");
		memcpy(p, item(78), isz); put(mn, 78);
		break;
	}
	}
}
static void sc_vector(void)
{
	uint32_t n = pick_size();
	isz = (uint32_t[]){ 4, 8, 12 }[mc_choose(mc_pick(2, 3))];
	as_vector* v = as_vector_create(isz, mc_choose(2) ? n : 0);
	for (mn = 0; mn < n; mn++) { model[mn] = mn + 100; as_vector_append(v, item(mn + 100)); }
	vector_op(v, n);
	vector_is(v);
	mc_state(mc_hash(isz, model, mn * 4));
	as_vector_destroy(v);
}
static void sc_wide(void)
{
	isz = widths[mc_choose(WIDTHS)];
	uint32_t n = 1 + (uint32_t)mc_choose(6), cap = (uint32_t)mc_choose(4);
	int kind = mc_choose(3), where = mc_choose(4);
	as_vector s, *v = &s;
	if (kind == 0) v = as_vector_create(isz, cap); else if (kind == 1) as_vector_init(&s, isz, cap); else { as_vector_inita(&s, isz, cap); }
	for (mn = 0; mn < n; mn++) { model[mn] = (mn + 1) * 0x01030507u; as_vector_append(v, item(model[mn])); }
	if (where == 3) vector_op(v, n);
	else {
		uint32_t at = (uint32_t)mc_choose((int)n);
		MC_CHECK(as_vector_append_unique(v, nearly(model[at], where)), "unique", "an item that differs in one byte of %u is not appended", isz);
		MC_CHECK(!memcmp(as_vector_get(v, n), nearly(model[at], where), isz), "item", "the item appended is another one");
		MC_CHECK(as_vector_remove(v, n), "remove", "the last item is not removed");
	}
	vector_is(v);
	mc_state(mc_hash(isz * 16 + (uint32_t)(kind * 4 + where), model, mn * 4));
	as_vector_destroy(v);
}
// ---- C14 -------------------------------------------------------------------
typedef struct { cf_ll_element e; uint32_t id; } node;
static node nodes[140000];
static cf_ll ll;
static uint32_t dropped;
static void drop_node(cf_ll_element* e) { dropped++; ((node*)e)->id = UINT32_MAX; }
static int del(cf_ll_element* e, void* u) { (void)u; return ((node*)e)->id == stop_at ? CF_LL_REDUCE_DELETE : 0; }
static void ll_is(void)
{
	MC_CHECK(cf_ll_size(&ll) == mn, "size", "size %u, expected %u", cf_ll_size(&ll), mn);
	uint32_t i = 0;
	for (cf_ll_element* e = cf_ll_get_head(&ll); e; e = cf_ll_get_next(e), i++) MC_CHECK(i < mn && ((node*)e)->id == model[i], "order", "element %u is another one", i);
	MC_CHECK(i == mn, "order", "%u elements forwards, expected %u", i, mn);
	for (cf_ll_element* e = cf_ll_get_tail(&ll); e; e = cf_ll_get_prev(e)) MC_CHECK(i-- && ((node*)e)->id == model[i], "order", "element %u is another one backwards", i);
	MC_CHECK(i == 0, "order", "%u elements too few backwards", i);
	mc_steps(2 * mn);
}
static void sc_llist(void)
{
	uint32_t n = pick_size(), at;
	if (n > 131072) mc_prune();
	dropped = 0;
	cf_ll_init(&ll, drop_node, false);
	for (mn = 0; mn < n; mn++) { nodes[mn].id = model[mn] = mn; cf_ll_append(&ll, &nodes[mn].e); }
	node* x = &nodes[n];
	x->id = 999999;
	switch (mc_choose(7)) {
	case 0: cf_ll_append(&ll, &x->e); put(mn, x->id); break;
	case 1: cf_ll_prepend(&ll, &x->e); put(0, x->id); break;
	case 2: at = pick_at(n, false); cf_ll_insert_before(&ll, &nodes[at].e, &x->e); put(at, x->id); break;
	case 3: at = pick_at(n, false); cf_ll_insert_after(&ll, &nodes[at].e, &x->e); put(at + 1, x->id); break;
	case 4: at = pick_at(n, false); cf_ll_delete(&ll, &nodes[at].e); cut(at, 1); MC_CHECK(dropped == 1, "destructor", "%u elements destroyed", dropped); break;
	case 5: stop_at = pick_at(n, false); cf_ll_reduce(&ll, mc_choose(2), del, NULL); cut(stop_at, 1); MC_CHECK(dropped == 1, "destructor", "%u elements destroyed", dropped); break;
	case 6: {
		at = pick_at(n, false);
		node* e = (node*)cf_ll_index(&ll, (int)at);
		MC_CHECK(e && e->id == model[at], "index", "index %u gives another element", at);
		e = (node*)cf_ll_index(&ll, -1 - (int)at);
		MC_CHECK(e && e->id == model[n - 1 - at], "index", "index -%u gives another element", at + 1);
		MC_CHECK(!cf_ll_index(&ll, (int)n) && !cf_ll_index(&ll, -1 - (int)n), "index", "an element beyond the ends");
		break;
	}
	}
	ll_is();
	mc_state(mc_hash(1, model, mn * 4));
}
// ---- C16 -------------------------------------------------------------------
static char text[200000], big[200000];
static void fill(char* p, uint32_t n, uint32_t salt) { for (uint32_t i = 0; i < n; i++) p[i] = (char)('!' + (i * 7 + (i >> 8) * 3 + salt) % 90); p[n] = 0; }
static void sc_builder(void)
{
	uint32_t n = pick_size();
	int kind = mc_choose(4), first = mc_choose(3);
	as_string_builder sb;
	static char buf[200000];
	uint32_t cap = kind == 0 ? 1 : kind == 1 ? 100 : n + 1 - (uint32_t)(kind == 3);
	// Growing from small, growing from medium, exactly enough, one too few.
	if (kind < 2) as_string_builder_init(&sb, cap, true);
	else { memset(buf, 'G', sizeof buf); as_string_builder_assign(&sb, cap, buf); }
	bool ok = true;
	fill(text, n, 0);
	if (first == 0) ok = as_string_builder_append(&sb, text);
	else {
		uint32_t at = pick_at(n, true);
		char keep = text[at];
		text[at] = 0;
		ok = as_string_builder_append(&sb, text);
		text[at] = keep;
		MC_CHECK(ok || (kind == 3 && at == n), "append", "a text of %u characters is refused with room for %u", at, cap);
		if (ok) { if (first == 1) ok = as_string_builder_append(&sb, text + at); else for (uint32_t i = at; i < n && ok; i++) ok = as_string_builder_append_char(&sb, text[i]); }
	}
	mc_steps(n);
	MC_CHECK(ok == (kind != 3), "append", "%u characters into %u: %d", n, cap, ok);
	MC_CHECK(strlen(sb.data) <= n && !strncmp(sb.data, text, strlen(sb.data)), "content", "the text differs");
	if (ok) MC_CHECK(strlen(sb.data) == n && sb.length == n, "content", "length %zu (%u) of %u", strlen(sb.data), sb.length, n);
	if (kind >= 2) for (uint32_t i = cap; i < sizeof buf; i++) MC_CHECK(buf[i] == 'G', "overrun", "byte %u behind a buffer of %u is written", i, cap);
	mc_state(mc_hash((uint64_t)kind, sb.data, strlen(sb.data)));
	if (kind < 2) as_string_builder_destroy(&sb);
}
static void sc_copy(void)
{
	uint32_t n = pick_size();
	int cutoff = mc_choose(5) - 2;
	size_t room = (size_t)((int)n + 1 + cutoff);
	fill(text, n, 5);
	memset(big, 'G', sizeof big);
	bool trunc = as_strncpy(big, text, room);
	size_t want = n < room ? n : room - 1;
	MC_CHECK(trunc == (n >= room), "truncation", "copying %u into %zu reports %d", n, room, trunc);
	MC_CHECK(strlen(big) == want && !memcmp(big, text, want), "copy", "copy of %u into %zu differs", n, room);
	for (size_t i = room; i < sizeof big; i++) MC_CHECK(big[i] == 'G', "overrun", "byte %zu behind a buffer of %zu is written", i, room);
	mc_steps(n);
	mc_state(n * 8 + (uint32_t)(cutoff + 2));
}
// ---- C17 -------------------------------------------------------------------
static void sc_bytes(void)
{
	uint32_t n = pick_size(), at, k;
	static uint8_t m[300000], r[300000], w[140000];
	uint8_t* src = (uint8_t*)text;
	for (uint32_t i = 0; i < n; i++) m[i] = (uint8_t)(i * 5 + (i >> 8) + 1);
	fill(text, 70000, 1);
	int kind = mc_choose(3);
	as_bytes* b = kind < 2 ? as_bytes_new(kind ? n : 1) : as_bytes_new_wrap(memcpy(w, m, n), n, false);
	if (kind < 2) {
		as_bytes_ensure(b, n, true);
		MC_CHECK(as_bytes_capacity(b) >= n, "capacity", "capacity %u, %u asked for", as_bytes_capacity(b), n);
		MC_CHECK(as_bytes_append(b, m, n), "append", "%u bytes are refused", n);
	}
	uint32_t sz = n;
	switch (mc_choose(6)) {
	case 0: at = pick_at(n, false); MC_CHECK(as_bytes_set_byte(b, at, 0xEE), "set", "byte %u of %u is refused", at, n); m[at] = 0xEE; break;
	case 1:
		at = pick_at(n, false); k = (uint32_t[]){ 2, 255, 256, 65536 }[mc_choose(4)];
		if (at + k > n) { MC_CHECK(as_bytes_copy(b, at, r, k) == 0, "get", "%u bytes at %u of %u are given", k, at, n); break; }
		MC_CHECK(as_bytes_set(b, at, src, k), "set", "%u bytes at %u of %u are refused", k, at, n);
		memcpy(m + at, src, k);
		MC_CHECK(as_bytes_copy(b, at, r, k) == k && !memcmp(r, src, k), "get", "%u bytes at %u differ", k, at);
		break;
	case 2: at = pick_at(n, true); MC_CHECK(as_bytes_truncate(b, at), "truncate", "cutting %u of %u is refused", at, n); sz = n - at; break;
	case 3: k = (uint32_t[]){ 1, 255, 256, 65536 }[mc_choose(4)]; as_bytes_ensure(b, n + k, true); MC_CHECK(as_bytes_append(b, src, k), "append", "%u more bytes are refused", k); memcpy(m + n, src, k); sz = n + k; break;
	case 4: {
		at = pick_at(n, false);
		int64_t v = 0x0102030405060708ll, g = 0;
		bool ok = as_bytes_set_int64(b, at, v);
		MC_CHECK(ok == (at + 8 <= n), "set", "8 bytes at %u of %u: %d", at, n, ok);
		if (ok) { MC_CHECK(as_bytes_get_int64(b, at, &g) == 8 && g == v, "get", "number at %u differs", at); memcpy(m + at, &v, 8); }
		break;
	}
	case 5: as_bytes_ensure(b, 3 * n, true); break;
	}
	MC_CHECK(as_bytes_size(b) == sz, "size", "size %u, expected %u", as_bytes_size(b), sz);
	MC_CHECK(!memcmp(as_bytes_get(b), m, sz), "content", "the bytes differ");
	mc_steps(sz);
	mc_state(mc_hash(n, m, sz));
	as_bytes_destroy(b);
}
// ---- C18 -------------------------------------------------------------------
static void sc_codec(void)
{
	static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	uint32_t n = sizes[mc_choose(15)] + (uint32_t)mc_choose(3), i;
	uint8_t* in = malloc(n), *out;
	for (i = 0; i < n; i++) in[i] = (uint8_t)(i * 131 + (i >> 8) * 7);
	uint32_t len = cf_b64_encoded_len(n);
	MC_CHECK(len == (n + 2) / 3 * 4, "b64-len", "text of %u bytes has %u characters", n, len);
	char* t = malloc(len);
	cf_b64_encode(in, n, t);
	for (i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)in[i] << 16 | (i + 1 < n ? in[i + 1] << 8 : 0) | (i + 2 < n ? in[i + 2] : 0);
		char w[4] = { al[v >> 18], al[v >> 12 & 63], i + 1 < n ? al[v >> 6 & 63] : '=', i + 2 < n ? al[v & 63] : '=' };
		MC_CHECK(!memcmp(t + i / 3 * 4, w, 4), "b64-text", "text of %u bytes differs at byte %u", n, i);
	}
	uint32_t room = cf_b64_decoded_buf_size(len), got_n = 0;
	MC_CHECK(room >= n, "b64-room", "room of %u for %u bytes", room, n);
	out = malloc(room);
	MC_CHECK(cf_b64_validate_and_decode(t, len, out, &got_n) && got_n == n && !memcmp(out, in, n), "b64-decode", "%u bytes do not come back", n);
	memset(out, 0, room);
	cf_b64_decode(t, len, out, &got_n);
	MC_CHECK(got_n == n && !memcmp(out, in, n), "b64-decode", "%u bytes do not come back", n);
	char c = t[len / 2];
	t[len / 2] = '%';
	MC_CHECK(!cf_b64_validate_and_decode(t, len, out, &got_n), "b64-invalid", "an invalid character at %u of %u is accepted", len / 2, len);
	t[len / 2] = c;
	MC_CHECK(cf_b64_validate_and_decode_in_place((uint8_t*)t, len, &got_n) && got_n == n && !memcmp(t, in, n), "b64-decode", "%u bytes do not come back in place", n);
	free(t); free(out);
	t = malloc(2 * n + 3);
	for (int pre = 0; pre < 2; pre++) for (int lack = 0; lack < 2; lack++) {
		uint32_t size = 2 * n + 1 + 2 * (uint32_t)pre - (uint32_t)lack;
		bool ok = pre ? as_bytes_to_string_with_prefix(in, n, t, size) : as_bytes_to_string(in, n, t, size);
		MC_CHECK(ok == !lack, "hex-room", "%u bytes into %u characters: %d", n, size, ok);
		if (lack) { MC_CHECK(strlen(t) < size, "hex-text", "cut hex text does not end in its buffer"); continue; }
		MC_CHECK(strlen(t) == size - 1, "hex-text", "hex text of %zu characters, expected %u", strlen(t), size - 1);
		for (i = 0; i < n; i++) {
			unsigned v = 0;
			char two[3] = { t[2 * pre + 2 * (int)i], t[2 * pre + 2 * (int)i + 1], 0 };
			MC_CHECK(sscanf(two, "%x", &v) == 1 && v == in[i], "hex-text", "hex text differs at byte %u", i);
		}
		out = malloc(n);
		MC_CHECK(as_bytes_from_string(out, n, t) == (int)n && !memcmp(out, in, n), "hex-decode", "%u bytes do not come back", n);
		free(out);
	}
	free(t); free(in);
	mc_steps(n);
	mc_state(n);
}
const mc_scenario mc_scenarios[] = {
	{ "list", sc_list, 3, "lists of 255..257, 65535..65537 (127..131072) elements: one of 10 operations at up to 17 places next to the ends and powers of two" },
	{ "map", sc_map, 3, "maps of 257, 65537 (127..131072) entries built in 3 ways: two operations (one above 5000) at up to 17 places" },
	{ "asqueue", sc_asqueue, 3, "queues of 255..257, 65535..65537 (127..131072) items in 4 rotations: one of 5 operations" },
	{ "cfqueue", sc_cfqueue, 3, "the same for the other queue: one of 9 operations at up to 17 places" },
	{ "items", sc_items, 3, "26 item sizes of 1..65537 bytes x 3 queues in the heap or on the stack x 1..6 items x 4 rotations, each kind of push, items that differ in one byte" },
	{ "vector", sc_vector, 3, "arrays of 255..257, 65535..65537 (127..131072) items: one of 7 operations at up to 17 places" },
	{ "wide", sc_wide, 3, "26 item sizes of 1..65537 bytes x 1..6 items x capacity 0..3 x 3 storage kinds: one of 7 operations, items that differ in one byte" },
	{ "llist", sc_llist, 2, "linked lists of 255..257, 65535..65537 (127..131072) elements: one of 7 operations at up to 17 places" },
	{ "builder", sc_builder, 2, "texts of 255..257, 65535..65537 (127..131072) characters at once or in two parts into 4 buffers" },
	{ "copy", sc_copy, 2, "texts of the same lengths copied into buffers of 5 sizes around" },
	{ "bytes", sc_bytes, 2, "buffers of 255..257, 65535..65537 (127..131072) bytes, owned or wrapped: one of 6 operations at up to 17 places" },
	{ "codec", sc_codec, 2, "base64 and hex of 45 lengths up to 131074" },
	{ NULL } };
