// C02: ordered maps against a sorted dictionary.
#include "mc.h"

#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_double.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_hashmap_iterator.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_stringmap.h>
#include <stdio.h>
#include <string.h>

typedef struct {
	int kind;		// 0 integer, 1 string, 2 blob: in key order
	int64_t i;
	const char* s;
	int len;
} key;

typedef struct {
	key k;
	int tok;		// 0: nil
} entry;

#define MAXE 8000

typedef struct {
	as_orderedmap* m;
	entry* e;
	int n;
	int route;
	uint32_t flags;
	int tok;
} inst;

static int
kcmp(const key* a, const key* b)
{
	if (a->kind != b->kind) return a->kind < b->kind ? -1 : 1;
	if (a->kind == 0) return a->i < b->i ? -1 : a->i > b->i;
	int n = a->len < b->len ? a->len : b->len;
	for (int i = 0; i < n; i++) {
		unsigned char x = a->s[i], y = b->s[i];
		if (x != y) return x < y ? -1 : 1;
	}
	return a->len < b->len ? -1 : a->len > b->len;
}

static const char*
kname(const key* k)
{
	static char b[4][64];
	static int r;
	char* o = b[r++ & 3];
	if (k->kind == 0) snprintf(o, 64, "%lld", (long long)k->i);
	else if (k->kind == 1) snprintf(o, 64, "\"%s\"", k->s);
	else {
		int n = snprintf(o, 64, "blob:");
		for (int i = 0; i < k->len && i < 8; i++) n += snprintf(o + n, 64 - n, "%02x", (unsigned char)k->s[i]);
	}
	return o;
}

static as_val*
mkkey(const key* k)
{
	if (k->kind == 0) return (as_val*)as_integer_new(k->i);
	if (k->kind == 1) return (as_val*)as_string_new_strdup(k->s);
	as_bytes* b = as_bytes_new(k->len ? k->len : 1);
	as_bytes_append(b, (const uint8_t*)k->s, k->len);
	return (as_val*)b;
}

// Calls f with a stack key, as a lookup would.
static as_val*
lookup(inst* in, const key* k)
{
	if (k->kind == 1 && in->route == 2) return as_stringmap_get((as_map*)in->m, k->s);
	as_integer ai;
	as_string as;
	as_bytes ab;
	as_val* v;
	if (k->kind == 0) v = (as_val*)as_integer_init(&ai, k->i);
	else if (k->kind == 1) v = (as_val*)as_string_init(&as, (char*)k->s, false);
	else v = (as_val*)as_bytes_init_wrap(&ab, (uint8_t*)k->s, k->len, false);
	return in->route ? as_map_get((as_map*)in->m, v) : as_orderedmap_get(in->m, v);
}

static int
find(inst* in, const key* k, bool* found)
{
	int lo = 0, hi = in->n;
	while (lo < hi) {
		int mid = (lo + hi) / 2;
		int c = kcmp(&in->e[mid].k, k);
		if (c == 0) { *found = true; return mid; }
		if (c < 0) lo = mid + 1; else hi = mid;
	}
	*found = false;
	return lo;
}

static bool
val_is(const as_val* v, int tok)
{
	if (!v) return false;
	if (tok == 0) return as_val_type(v) == AS_NIL;
	if (tok % 3 == 0) {
		as_string* s = as_string_fromval(v);
		char b[16];
		snprintf(b, sizeof b, "v%d", tok);
		return s && strcmp(as_string_get(s), b) == 0;
	}
	as_integer* i = as_integer_fromval(v);
	return i && as_integer_get(i) == tok;
}

static bool
key_is(const as_val* v, const key* k)
{
	if (!v) return false;
	if (k->kind == 0) return as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == k->i;
	if (k->kind == 1) return as_val_type(v) == AS_STRING && strcmp(as_string_get((as_string*)v), k->s) == 0;
	return as_val_type(v) == AS_BYTES && (int)as_bytes_size((as_bytes*)v) == k->len &&
		(k->len == 0 || memcmp(as_bytes_get((as_bytes*)v), k->s, k->len) == 0);
}

static void
check_get(inst* in, const key* k)
{
	bool f;
	int ix = find(in, k, &f);
	as_val* v = lookup(in, k);
	if (f) MC_CHECK(v != NULL && val_is(v, in->e[ix].tok), "map-get", "get(%s) does not give value %d", kname(k), in->e[ix].tok);
	else MC_CHECK(v == NULL, "map-get", "get(%s) gives a value for an absent key", kname(k));
}

static void
check_size(inst* in)
{
	uint32_t s = in->route ? as_map_size((as_map*)in->m) : as_orderedmap_size(in->m);
	MC_CHECK((int)s == in->n, "map-size", "size %u, expected %d", s, in->n);
	MC_CHECK(((as_map*)in->m)->flags == in->flags, "map-flags", "flags %x, expected %x", ((as_map*)in->m)->flags, in->flags);
}

static void
do_set(inst* in, const key* k, bool nil)
{
	int tok = nil ? 0 : ++in->tok;
	char b[16];
	snprintf(b, sizeof b, "v%d", tok);
	mc_step();
	int rc;
	as_map* m = (as_map*)in->m;
	if (in->route == 2 && k->kind == 1) {
		if (tok == 0) rc = as_stringmap_set(m, k->s, NULL);
		else if (tok % 3 == 0) rc = tok % 2 ? as_stringmap_set_str(m, k->s, b) : as_stringmap_set_string(m, k->s, as_string_new_strdup(b));
		else rc = tok % 2 ? as_stringmap_set_int64(m, k->s, tok) : as_stringmap_set_integer(m, k->s, as_integer_new(tok));
	}
	else {
		as_val* v = tok == 0 ? NULL : tok % 3 == 0 ? (as_val*)as_string_new_strdup(b) : (as_val*)as_integer_new(tok);
		as_val* kv = mkkey(k);
		rc = in->route ? as_map_set(m, kv, v) : as_orderedmap_set(in->m, kv, v);
	}
	MC_CHECK(rc == 0, "map-return-code", "set(%s) returned %d", kname(k), rc);
	bool f;
	int ix = find(in, k, &f);
	if (!f) {
		memmove(&in->e[ix + 1], &in->e[ix], (in->n - ix) * sizeof(entry));
		in->n++;
		in->e[ix].k = *k;
	}
	in->e[ix].tok = tok;
}

static void
do_remove(inst* in, const key* k)
{
	mc_step();
	as_val* kv = mkkey(k);
	int rc = in->route ? as_map_remove((as_map*)in->m, kv) : as_orderedmap_remove(in->m, kv);
	as_val_destroy(kv);
	MC_CHECK(rc == 0, "map-return-code", "remove(%s) returned %d", kname(k), rc);
	bool f;
	int ix = find(in, k, &f);
	if (f) {
		memmove(&in->e[ix], &in->e[ix + 1], (in->n - ix - 1) * sizeof(entry));
		in->n--;
	}
}

static void
do_clear(inst* in)
{
	mc_step();
	int rc = in->route ? as_map_clear((as_map*)in->m) : as_orderedmap_clear(in->m);
	MC_CHECK(rc == 0, "map-return-code", "clear returned %d", rc);
	in->n = 0;
}

static void
do_flags(inst* in, uint32_t f)
{
	mc_step();
	if (in->route) as_map_set_flags((as_map*)in->m, f);
	else as_orderedmap_set_flags(in->m, f);
	in->flags = f & 0x13;
	if (in->flags) in->flags |= 1;
}

typedef struct { inst* in; int n; int stop; } walk;

static bool
walk_cb(const as_val* k, const as_val* v, void* u)
{
	walk* w = u;
	inst* in = w->in;
	MC_CHECK(w->n < in->n, "map-foreach", "foreach visits more than %d entries", in->n);
	MC_CHECK(key_is(k, &in->e[w->n].k), "map-order", "foreach: entry %d is not key %s", w->n, kname(&in->e[w->n].k));
	MC_CHECK(val_is(v, in->e[w->n].tok), "map-value", "foreach: value of %s is not %d", kname(&in->e[w->n].k), in->e[w->n].tok);
	w->n++;
	return w->n != w->stop;
}

static void
do_foreach(inst* in, int stop)
{
	mc_step();
	walk w = {.in = in, .stop = stop};
	bool r = in->route ? as_map_foreach((as_map*)in->m, walk_cb, &w) : as_orderedmap_foreach(in->m, walk_cb, &w);
	bool stopped = stop >= 1 && stop <= in->n;
	MC_CHECK(w.n == (stopped ? stop : in->n) && r == !stopped, "map-foreach", "foreach visited %d of %d, returned %d", w.n, in->n, r);
}

static void
do_iterate(inst* in, bool heap)
{
	mc_step();
	as_map_iterator st;
	as_iterator* it;
	if (in->route) it = heap ? (as_iterator*)as_map_iterator_new((as_map*)in->m) : (as_iterator*)as_map_iterator_init(&st, (as_map*)in->m);
	else it = heap ? (as_iterator*)as_orderedmap_iterator_new(in->m) : (as_iterator*)as_orderedmap_iterator_init(&st.orderedmap, in->m);
	MC_CHECK(it != NULL, "map-iterator", "no iterator");
	for (int i = 0; i < in->n; i++) {
		MC_CHECK(in->route ? as_iterator_has_next(it) : as_orderedmap_iterator_has_next((as_orderedmap_iterator*)it), "map-iterator", "has_next is false at %d of %d", i, in->n);
		as_pair* p = as_pair_fromval(in->route ? as_iterator_next(it) : as_orderedmap_iterator_next((as_orderedmap_iterator*)it));
		MC_CHECK(p && key_is(as_pair_1(p), &in->e[i].k), "map-order", "iterator: entry %d is not key %s", i, kname(&in->e[i].k));
		MC_CHECK(val_is(as_pair_2(p), in->e[i].tok), "map-value", "iterator: value of %s", kname(&in->e[i].k));
	}
	MC_CHECK(!as_iterator_has_next(it) && as_iterator_next(it) == NULL, "map-iterator", "iterator goes past the end");
	if (in->route) as_iterator_destroy(it);
	else as_orderedmap_iterator_destroy((as_orderedmap_iterator*)it);
}

// Keys that a map does not accept.
static void
do_invalid(inst* in, int which)
{
	mc_step();
	as_val* k = NULL;
	as_bytes* b;
	switch (which) {
	case 0: k = NULL; break;
	case 1: k = (as_val*)as_double_new(1.5); break;
	case 2: k = (as_val*)&as_nil; break;
	case 3: k = (as_val*)as_boolean_new(true); break;
	case 4: k = (as_val*)as_arraylist_new(1, 1); break;
	case 5: k = (as_val*)as_orderedmap_new(1); break;
	case 6: b = as_bytes_new(1); as_bytes_set_type(b, AS_BYTES_STRING); k = (as_val*)b; break;
	case 7: k = (as_val*)as_geojson_new_strdup("a"); break;
	case 8: k = (as_val*)as_pair_new((as_val*)as_integer_new(7), NULL); break;
	case 9: k = (as_val*)as_rec_new(NULL, NULL); break;
	case 10: k = (as_val*)&as_cmp_wildcard; break;
	case 11: k = (as_val*)&as_cmp_inf; break;
	default:
		// A blob of another type, like a key that may be there.
		b = as_bytes_new(1);
		as_bytes_append(b, (const uint8_t*)"a", (which - 12) & 1);
		as_bytes_set_type(b, (as_bytes_type)((which - 12) / 2));
		k = (as_val*)b;
		break;
	}
	as_val* v = (as_val*)as_integer_new(99);
	int rc = in->route ? as_map_set((as_map*)in->m, k, v) : as_orderedmap_set(in->m, k, v);
	MC_CHECK(rc != 0, "map-invalid-key", "set with unsupported key kind %d reported success", which);
	as_val* g = in->route ? as_map_get((as_map*)in->m, k) : as_orderedmap_get(in->m, k);
	MC_CHECK(g == NULL, "map-invalid-key", "get with unsupported key kind %d gives a value", which);
	rc = in->route ? as_map_remove((as_map*)in->m, k) : as_orderedmap_remove(in->m, k);
	MC_CHECK(rc != 0, "map-invalid-key", "remove with unsupported key kind %d reported success", which);
	as_val_destroy(v);
	if (k) as_val_destroy(k);
}

static entry* pool_e;

static void
open_map(inst* in, as_orderedmap* st, int storage, uint32_t cap, int route)
{
	if (!pool_e) pool_e = mc_raw_malloc(sizeof(entry) * MAXE);
	*in = (inst){.route = route, .e = pool_e, .flags = storage >= 2 ? 0 : 1};
	switch (storage) {
	case 0: in->m = as_orderedmap_new(cap); break;
	case 1: in->m = as_orderedmap_init(st, cap); break;
	case 2: in->m = as_hashmap_new(cap); break;
	case 3: in->m = as_hashmap_init(st, cap); break;
	}
	MC_CHECK(in->m != NULL, "map-create", "cannot create a map");
	mc_log("map: storage %d capacity %u route %d", storage, cap, route);
}

static void
finish(inst* in)
{
	check_size(in);
	for (int i = 0; i < in->n; i++) check_get(in, &in->e[i].k);
	do_foreach(in, 0);
	do_iterate(in, true);
	for (int i = 0; i < in->n; i++) check_get(in, &in->e[i].k);
	as_orderedmap_destroy(in->m);
}

static void
note_state(inst* in, uint64_t extra)
{
	uint64_t h = mc_hash_u64(extra, in->n);
	for (int i = 0; i < in->n; i++) {
		h = mc_hash_u64(h, in->e[i].k.kind * 7 + (in->e[i].k.kind ? mc_hash(1, in->e[i].k.s, in->e[i].k.len) : (uint64_t)in->e[i].k.i));
		h = mc_hash_u64(h, in->e[i].tok);
	}
	mc_state(h);
}

static const key small_keys[] = {
	{0, -1}, {0, 0}, {0, 7}, {0, INT64_MAX}, {0, INT64_MIN},
	{1, 0, "", 0}, {1, 0, "a", 1}, {1, 0, "ab", 2}, {1, 0, "\xc3\xa9", 2},
	{2, 0, "", 0}, {2, 0, "a", 1}, {2, 0, "a\0", 2}, {2, 0, "\xff", 1}, {2, 0, "b", 1},
};
#define N_SMALL ((int)(sizeof small_keys / sizeof small_keys[0]))

// All short histories over a few keys of every kind.
static void
s_small(void)
{
	inst in;
	as_orderedmap st;
	static const uint32_t caps[] = {0, 1, 8, 100};
	int route = mc_choose(3);
	int cfg = mc_choose(4);
	open_map(&in, &st, cfg, caps[(cfg + route) % 4], route);
	int depth = mc_pick(4, 5);
	for (int i = 0; i < depth; i++) {
		int c = mc_choose(2 * N_SMALL + 1 + 1 + 1 + 1);
		if (c < N_SMALL) { mc_log("set(%s)", kname(&small_keys[c])); do_set(&in, &small_keys[c], c % 5 == 4); }
		else if (c < 2 * N_SMALL) { mc_log("remove(%s)", kname(&small_keys[c - N_SMALL])); do_remove(&in, &small_keys[c - N_SMALL]); }
		else switch (c - 2 * N_SMALL) {
			case 0: mc_log("clear"); do_clear(&in); break;
			case 1: mc_log("foreach"); do_foreach(&in, in.n / 2 + 1); break;
			case 2: mc_log("iterate"); do_iterate(&in, i & 1); break;
			case 3: mc_log("unsupported keys"); for (int k = 0; k < 7; k++) do_invalid(&in, k); break;
		}
		check_size(&in);
		for (int k = 0; k < N_SMALL; k++) check_get(&in, &small_keys[k]);
	}
	if (mc_fresh()) note_state(&in, 0);
	finish(&in);
}

// Every kind of key that is not accepted, by maps with and without keys like it.
static void
s_refused(void)
{
	inst in;
	as_orderedmap st;
	int route = mc_choose(3), fill = mc_choose(3), which = mc_choose(12 + 2 * 256);
	if (which >= 12 && (which - 12) / 2 == AS_BYTES_BLOB) mc_prune();
	open_map(&in, &st, mc_choose(4), 0, route);
	if (fill) for (int k = 0; k < N_SMALL; k++) do_set(&in, &small_keys[k], false);
	if (fill == 2) {
		if (which >= 12 + 2 * 32 && !mc_thorough()) { as_orderedmap_destroy(in.m); mc_prune(); }
		for (int i = 0; i < 1100; i++) { key k = {0, 100 + 2 * i}; do_set(&in, &k, false); }
		for (int i = 0; i < 20; i++) { key k = {0, 101 + 2 * i}; do_set(&in, &k, false); }
	}
	do_invalid(&in, which);
	if (mc_fresh()) note_state(&in, which);
	finish(&in);
}

static void
s_flags(void)
{
	inst in;
	as_orderedmap st;
	open_map(&in, &st, mc_choose(4), 0, mc_choose(2));
	check_size(&in);
	for (int i = 0; i < 2; i++) {
		uint32_t f = mc_choose(35);
		if (f == 34) f = UINT32_MAX;
		if (f == 33) f = 0x100;
		mc_log("set_flags(%x)", f);
		do_flags(&in, f);
		check_size(&in);
		key k = {0, (int64_t)f};
		do_set(&in, &k, false);
		mc_state(in.flags);
	}
	finish(&in);
}

// Every arrival order of a set of keys, crossing the first growth steps.
static void
s_orders(void)
{
	inst in;
	as_orderedmap st;
	int pre = (int[]){0, 3, 6, 7, 12}[mc_choose(5)];
	open_map(&in, &st, 1, 0, mc_choose(2));
	for (int i = 0; i < pre; i++) { key k = {0, 10 * i}; do_set(&in, &k, false); }
	int n = mc_pick(6, 7);
	bool used[8] = {0};
	for (int i = 0; i < n; i++) {
		int c = mc_choose(n - i);
		int j = 0;
		for (; j < n; j++) {
			if (used[j]) continue;
			if (c-- == 0) break;
		}
		used[j] = true;
		key k = {0, j * 17 - 13};	// falls between and next to the others
		mc_log("set(%s)", kname(&k));
		do_set(&in, &k, false);
		check_get(&in, &k);
	}
	if (mc_fresh()) note_state(&in, 1);
	finish(&in);
}

// Large maps: out-of-order inserts far from the end are buffered and merged.
static void
s_hold(void)
{
	static const int sizes_q[] = {999, 1000, 1001, 2003};
	static const int sizes_t[] = {998, 999, 1000, 1001, 1002, 1003, 1500, 2003};
	inst in;
	as_orderedmap st;
	int N = mc_thorough() ? sizes_t[mc_choose(8)] : sizes_q[mc_choose(4)];
	// How many keys are already buffered, and the order in which they arrived.
	static const int pre[] = {0, 1, 998, 999, 1000, 2, 997};
	int h = pre[mc_choose(mc_pick(5, 7))];
	int order = h > 1 ? mc_choose(mc_pick(2, 3)) : 0;
	if (order == 1 && !mc_thorough()) order = 2;
	int route = N & 1;
	open_map(&in, &st, 1, 0, route);
	mc_log("%d ascending keys, then %d keys before them in order %d", N, h, order);
	for (int i = 0; i < N; i++) { key k = {0, 1000 * (int64_t)i}; do_set(&in, &k, false); }
	for (int i = 0; i < h; i++) {
		int j = order == 0 ? i : order == 1 ? h - 1 - i : (i * 619) % 1009 % h;
		key k = {0, -5000 + j * 3};
		if (order == 2) k.i = -5000 + (int64_t)((i * 619) % 1009) * 3;
		do_set(&in, &k, false);
	}
	if (mc_fresh()) note_state(&in, N * 10 + order);
	int depth = mc_pick(2, 3);
	for (int d = 0; d < depth; d++) {
		int64_t last = in.n - 1;
		int c = mc_choose(18);
		key k = {0, 0};
		// Keys relative to the present contents.
#define AT(ix) (in.n == 0 ? 0 : in.e[(ix) < 0 ? 0 : (ix) > last ? last : (ix)].k.i)
		int op = 0;	// set
		switch (c) {
		case 0: k.i = AT(0) - 7; break;
		case 1: k.i = AT(0) + 1; break;
		case 2: k.i = AT(last - 1001) + 1; break;
		case 3: k.i = AT(last - 1000) + 1; break;
		case 4: k.i = AT(last - 999) + 1; break;
		case 5: k.i = AT(last - 998) + 1; break;
		case 6: k.i = AT(last) + 7; break;
		case 7: k.i = AT(last) - 1; break;
		case 8: k.i = AT(0); break;			// replace
		case 9: k.i = AT(h / 2); break;
		case 10: k.i = AT(last - 1000); break;
		case 11: k.i = AT(0); op = 1; break;		// remove
		case 12: k.i = AT(last - 500); op = 1; break;
		case 13: k.i = AT(0) - 100; op = 1; break;	// absent
		case 14: op = 2; break;
		case 15: op = 3; break;
		case 16: op = 4; break;
		case 17: k = (key){1, 0, "zz", 2}; break;
		}
		mc_log("op %d key %s", op, kname(&k));
		switch (op) {
		case 0: do_set(&in, &k, false); break;
		case 1: do_remove(&in, &k); break;
		case 2: do_foreach(&in, 3); break;
		case 3: do_iterate(&in, false); break;
		case 4: do_clear(&in); break;
		}
		check_size(&in);
		check_get(&in, &k);
		if (in.n) {
			check_get(&in, &in.e[0].k);
			check_get(&in, &in.e[in.n / 2].k);
			check_get(&in, &in.e[in.n - 1].k);
		}
		if (mc_fresh()) note_state(&in, N * 10 + order);
	}
	finish(&in);
}

// Buffered and direct inserts interleaved: every sequence of front / middle /
// boundary / end inserts, long enough to need several merges.
static void
s_mix(void)
{
	inst in;
	as_orderedmap st;
	open_map(&in, &st, 1, 0, 1);
	int N = 1000 + mc_choose(3);
	for (int i = 0; i < N; i++) { key k = {0, 100000 * (int64_t)i}; do_set(&in, &k, false); }
	int depth = mc_pick(6, 8);
	for (int d = 0; d < depth; d++) {
		int c = mc_choose(5);
		mc_log("insert kind %d", c);
		int ix = c == 0 ? 0 : c == 1 ? in.n - 1001 : c == 2 ? in.n - 1000 : c == 3 ? in.n / 2 : in.n - 1;
		if (ix < 0) ix = 0;
		key k = {0, in.e[ix].k.i + 1 + d};
		do_set(&in, &k, false);
		check_get(&in, &k);
		check_size(&in);
	}
	if (mc_fresh()) note_state(&in, N);
	finish(&in);
}

// Long histories with a fixed arrival pattern, several merges deep.
static void
s_long(void)
{
	inst in;
	as_orderedmap st;
	static const int primes[] = {1, 7, 997, 2999, 3989, 1009};
	int p = primes[mc_choose(6)];
	int desc = mc_flip();
	int N = mc_pick(4001, 6007);
	open_map(&in, &st, 1, mc_choose(2) * 5000, 0);
	mc_log("%d keys with stride %d %s", N, p, desc ? "descending" : "ascending");
	for (int i = 0; i < N; i++) {
		int64_t j = ((int64_t)i * p) % N;
		key k = {0, desc ? -j : j};
		do_set(&in, &k, false);
		mc_case();
		if (i % 500 == 499) {
			check_size(&in);
			for (int q = 0; q < in.n; q += 7) check_get(&in, &in.e[q].k);
		}
		if (i == N / 2) { key r = in.e[in.n / 3].k; do_remove(&in, &r); }
	}
	mc_state(p * 4 + desc);
	finish(&in);
}

// Initial capacities up to the largest: a map that works, or none when memory is short.
static void s_capacity(void)
{
	uint32_t cap = mc_flip() ? UINT32_MAX - (uint32_t)mc_choose(40) : mc_flip() ? (uint32_t)mc_choose(40) : (1u << mc_range(8, 31)) - 4 + (uint32_t)mc_choose(8);
	int way = mc_choose(4);
	as_orderedmap st;
	as_hashmap hs;
	uint64_t live = mc_alloc_live;
	mc_log("capacity %u, created in way %d", cap, way);
	mc_step();
	as_map* m = way == 0 ? (as_map*)as_orderedmap_new(cap) : way == 1 ? (as_map*)as_orderedmap_init(&st, cap) :
		way == 2 ? (as_map*)as_hashmap_new(cap) : (as_map*)as_hashmap_init(&hs, cap);
	bool room = ((uint64_t)cap + 8) * 16 <= mc_alloc_limit;
	if (!m) {
		MC_CHECK(!room, "capacity", "no map of capacity %u", cap);
		MC_CHECK(mc_alloc_live == live, "capacity", "a map that could not be created left blocks behind");
		return;
	}
	for (int64_t i = 0; i < 20; i++) MC_CHECK(as_map_set(m, (as_val*)as_integer_new(i * 7 % 20), (as_val*)as_integer_new(i)) == 0, "capacity", "a key was refused by a map of capacity %u", cap);
	MC_CHECK(as_map_size(m) == 20, "capacity", "%u keys", as_map_size(m));
	for (int64_t i = 0; i < 20; i++) {
		as_integer k;
		as_integer_init(&k, i * 7 % 20);
		MC_CHECK(as_integer_getorelse((as_integer*)as_map_get(m, (as_val*)&k), -1) == i, "capacity", "key %lld lost", (long long)i);
	}
	as_map_destroy(m);
	MC_CHECK(mc_alloc_live == live, "capacity", "blocks left behind");
	mc_state(mc_hash_u64(cap, (uint64_t)way));
}

// Keys that differ in one byte, one bit or by where they end.
static void
s_near(void)
{
	static const int lens[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4097};
	static const unsigned char bytes[] = {1, 'a', 0x7f, 0x80, 0xff, 0};
	static char text[3][4100];
	inst in;
	as_orderedmap st;
	key k[3];
	int kind = mc_choose(3), route = mc_choose(3);
	if (kind == 0) {
		int bit = mc_choose(64), other = mc_choose(65);
		int64_t base = (int64_t[]){0, -1, 1LL << 53, -(1LL << 53)}[mc_choose(4)];
		k[0] = (key){0, base};
		k[1] = (key){0, base ^ (int64_t)(1ULL << bit)};
		k[2] = (key){0, other == 64 ? base + 1 : base ^ (int64_t)(1ULL << other)};
	}
	else {
		int len = lens[mc_choose(26)], nb = kind == 2 ? 6 : 5;
		int at = len <= 17 ? mc_choose(len) : (int[]){0, 1, len / 2, len - 2, len - 1}[mc_choose(5)];
		int x = mc_choose(nb), y = mc_choose(nb + 1), fill = mc_choose(nb);
		for (int i = 0; i < 3; i++) {
			memset(text[i], bytes[fill], len);
			text[i][len] = 0;
			k[i] = (key){kind, 0, text[i], len};
		}
		text[0][at] = (char)bytes[x];
		if (y < nb) text[1][at] = (char)bytes[y];
		else { text[1][at] = 0; k[1].len = at; }
	}
	open_map(&in, &st, mc_choose(2), 0, route);
	int order = mc_choose(6);
	static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (int i = 0; i < 3; i++) {
		do_set(&in, &k[orders[order][i]], false);
		check_size(&in);
		for (int j = 0; j < 3; j++) check_get(&in, &k[j]);
	}
	do_foreach(&in, in.n + 1);
	do_remove(&in, &k[0]);
	for (int j = 0; j < 3; j++) check_get(&in, &k[j]);
	if (mc_fresh()) note_state(&in, 2);
	finish(&in);
}

const mc_scenario mc_scenarios[] = {
	{"small", s_small, 3, "all sequences of 4 (thorough 5) operations over 14 keys of every supported kind, 3 call routes, 4 ways to create the map"},
	{"refused", s_refused, 3, "12 kinds of key that are not accepted and blobs of all 255 other types x maps of 0, 14, 1134 keys x 3 routes x 4 ways to create the map"},
	{"flags", s_flags, 2, "all pairs of flag settings 0..0x20 and extremes"},
	{"orders", s_orders, 3, "every arrival order of 6 (7) keys into maps of 0..12 keys, across storage growth"},
	{"hold", s_hold, 3, "all sequences of 2 (3) of 18 operations from maps of 4 (8) sizes 998..2003 with 0..1000 buffered out-of-order keys in 2 (3) arrival orders"},
	{"mix", s_mix, 3, "all sequences of 6 (8) inserts at 5 positions around the buffering threshold"},
	{"long", s_long, 3, "histories of thousands of inserts with fixed strides"},
	{"near", s_near, 3, "all arrival orders of 3 keys that differ in one bit (all 64), one byte (5 or 6 values at up to 17 places of 26 lengths 1..4097) or by where they end, 3 routes, 2 ways to create the map"},
	{"capacity", s_capacity, 3, "capacities 0..39, around every power of two and the 40 largest x 4 ways to create the map, 20 keys"},
	{0}
};
