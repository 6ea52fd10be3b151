// C04: shared values and reference-counted blocks under every interleaving.
#include "mcthr.h"
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_result.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <stdlib.h>
#include <string.h>
MC_QUIET_BEGIN

enum { INTEGER, DOUBLE, BOOLEAN, STRING, GEO, BYTES, PAIR, LIST, MAP, RESULT, BLOCK, BLOCK_FREE, N_KINDS };
static const char* const kinds[] = { "integer", "double", "boolean", "string", "geojson", "bytes", "pair", "list", "map", "result", "block", "block (release and free)" };
static void* obj;
static int kind, freed;

static void* make(void)
{
	switch (kind) {
	case INTEGER: return as_integer_new(42);
	case DOUBLE: return as_double_new(4.5);
	case BOOLEAN: return as_boolean_new(true);
	// The length is computed on first use and remembered, so it is asked for before sharing.
	case STRING: { as_string* s = as_string_new(strdup("forty-two"), true); as_string_len(s); return s; }
	case GEO: return as_geojson_new(strdup("{}"), true);
	case BYTES: { as_bytes* b = as_bytes_new(4); as_bytes_append(b, (const uint8_t*)"abcd", 4); return b; }
	case PAIR: return as_pair_new((as_val*)as_integer_new(1), (as_val*)as_string_new(strdup("two"), true));
	case LIST: { as_arraylist* l = as_arraylist_new(2, 2); as_arraylist_append_int64(l, 1); as_arraylist_append(l, (as_val*)as_string_new(strdup("two"), true)); return l; }
	case MAP: { as_orderedmap* m = as_orderedmap_new(2); as_orderedmap_set(m, (as_val*)as_integer_new(1), (as_val*)as_integer_new(2)); return m; }
	case RESULT: return as_success_new((as_val*)as_integer_new(7));
	default: { char* p = cf_rc_alloc(8); memset(p, 5, 8); return p; }
	}
}
// Called by instrumented code below; checks that the object is intact.
static void intact(bool ok) { MC_CHECK(ok, "changed", "a shared %s was damaged while it had owners", kinds[kind]); }
MC_QUIET_END
// These are seen by the race check.
__attribute__((noinline)) static void use(void)
{
	switch (kind) {
	case INTEGER: intact(as_integer_get(obj) == 42); break;
	case DOUBLE: intact(as_double_get(obj) == 4.5); break;
	case BOOLEAN: intact(as_boolean_get(obj)); break;
	case STRING: intact(as_string_get(obj)[1] == 'o' && as_string_len(obj) == 9); break;
	case GEO: intact(as_geojson_get(obj)[0] == '{'); break;
	case BYTES: intact(as_bytes_size(obj) == 4 && as_bytes_get(obj)[3] == 'd'); break;
	case PAIR: intact(as_integer_get(as_integer_fromval(as_pair_1(obj))) == 1); break;
	case LIST: intact(as_arraylist_size(obj) == 2 && as_arraylist_get_int64(obj, 0) == 1); break;
	case MAP: intact(as_orderedmap_size(obj) == 1); break;
	case RESULT: { as_result* r = obj; intact(r->is_success && as_integer_get(as_integer_fromval(as_result_value(r))) == 7); break; }
	default: { volatile char* p = obj; intact(p[0] == 5 && p[7] == 5); }
	}
}
MC_QUIET_BEGIN
static void reserve(void)
{
	mc_log("T%d reserves", mc_self());
	if (kind == RESULT) { MC_CHECK(as_result_reserve(obj) == obj, "reserve", "reserving a result gives another"); return; }
	if (kind >= BLOCK) { uint32_t n = cf_rc_reserve(obj); MC_CHECK(n >= 2, "reserve", "reserving an owned block gives count %u", n); return; }
	MC_CHECK(as_val_reserve(obj) == obj, "reserve", "reserving a value gives another");
}
static void release(void)
{
	mc_log("T%d releases", mc_self());
	if (kind == RESULT) { as_result_destroy(obj); return; }
	if (kind == BLOCK) { if (cf_rc_release(obj) == 0) { freed++; cf_rc_free(obj); } return; }
	if (kind == BLOCK_FREE) { if (cf_rc_releaseandfree(obj) == 0) freed++; return; }
	if (!as_val_destroy(obj)) freed++;
}

enum { USE, RESERVE, RELEASE, N_OPS };
static struct { int n, op[4]; } prog[4];
static void body(void* p)
{
	int t = (int)(intptr_t)p, own = 1;
	for (int i = 0; i < prog[t].n; i++) {
		switch (prog[t].op[i]) {
		case USE: use(); break;
		case RESERVE: reserve(); own++; break;
		case RELEASE: release(); own--; break;
		}
	}
	while (own > 0) { release(); own--; }
}
static void go(int threads, const int* len, int bound)
{
	kind = mc_choose(N_KINDS);
	freed = 0;
	for (int t = 0; t < threads; t++) {
		int own = 1;
		memset(&prog[t], 0, sizeof prog[t]);
		for (int i = 0; i < len[t]; i++) {
			// Nothing may be done with it after the last own reference is gone.
			int o = mc_choose(own == 0 ? 1 : N_OPS + 1) - 1;
			if (o < 0) break;
			prog[t].op[prog[t].n++] = o;
			own += (o == RESERVE) - (o == RELEASE);
		}
	}
	obj = make();
	mc_log("%s shared by %d", kinds[kind], threads);
	for (int t = 1; t < threads; t++) reserve();
	for (int t = 0; t < threads; t++) mc_spawn(body, (void*)(intptr_t)t, "owner");
	mc_sched_tag(mc_hash_u64(mc_hash(1, prog, sizeof prog[0] * (size_t)threads), (uint64_t)kind));
	mc_sched_bound(bound);
	mc_join_all();
	if (kind != RESULT) MC_CHECK(freed == 1, "freed", "%d releases of a %s claim to have freed it", freed, kinds[kind]);
	MC_CHECK(mc_alloc_live == 0, "leak", "a %s is not freed after its last release", kinds[kind]);
	mc_state(mc_hash_u64(mc_hash(1, prog, sizeof prog[0] * (size_t)threads), (uint64_t)kind));
}
static void sc_two(void) { int l[2] = { mc_pick(2, 3), mc_pick(2, 3) }; go(2, l, -1); }
static void sc_three(void) { int l[3] = { mc_pick(1, 2), 1, mc_pick(1, 2) }; go(3, l, mc_pick(2, 3)); }

// A value that sits in two containers owned by different threads.
static void* holder[3];
static void drop_holder(void* p) { as_val_destroy((as_val*)holder[(intptr_t)p]); }
static void sc_nested(void)
{
	kind = mc_choose(RESULT);
	obj = make();
	int n = 2 + mc_choose(2);
	for (int i = 0; i < n; i++) {
		as_val* v = i ? as_val_reserve(obj) : obj;
		if (mc_choose(2)) { as_arraylist* l = as_arraylist_new(1, 1); as_arraylist_append(l, v); holder[i] = l; }
		else holder[i] = as_pair_new((as_val*)as_integer_new(i), v);
	}
	for (int i = 0; i < n; i++) mc_spawn(drop_holder, (void*)(intptr_t)i, "holder");
	mc_sched_tag((uint64_t)(1000 + kind * 4 + n));
	mc_sched_bound(n == 3 ? 3 : -1);
	mc_join_all();
	MC_CHECK(mc_alloc_live == 0, "leak", "a %s shared by containers is not freed", kinds[kind]);
	mc_state((uint64_t)(kind * 4 + n));
}
const mc_scenario mc_scenarios[] = {
	{ "two", sc_two, 3, "two owners x programs of up to 2 + 2 (3 + 3) of use, reserve, release, 12 kinds of object, all interleavings" },
	{ "three", sc_three, 3, "three owners x programs of up to 1 + 1 + 1 (2 + 1 + 2), preemption bound 2 (3)" },
	{ "nested", sc_nested, 2, "a value inside 2..3 containers destroyed concurrently, all interleavings (bound 3 for three)" },
	{ NULL } };
MC_QUIET_END
