// C27: abstract handles dispatch to their provider or give the neutral result.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_module.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_timer.h>
#include <aerospike/as_udf_context.h>
#include <citrusleaf/alloc.h>

// ---- what the provider saw -----------------------------------------------------
static const char* seen_op;
static const void* seen_self;
static uint64_t seen[8];
static int seen_n, calls;
static uint64_t R;		// what it returns
static uint64_t A;		// where the arguments come from

static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static void note(const char* op, const void* self, int n, const uint64_t* a)
{
	seen_op = op;
	seen_self = self;
	seen_n = n;
	memcpy(seen, a, sizeof *a * (size_t)n);
	calls++;
}
#define P(x) ((uint64_t)(uintptr_t)(x))
#define ARGS(...) (int)(sizeof((uint64_t[]){ 0, ##__VA_ARGS__ }) / 8), (uint64_t[]){ 0, ##__VA_ARGS__ }

static const uint64_t results[] = { 0, 1, 2, 0xffffffffffffffffULL, 0x8000000080008000ULL, 0x123456789abcdef0ULL };
#define NRESULTS 6
static const uint64_t seeds[] = { 0, 1, 0x7fffffffffffffffULL, 0xfedcba9876543210ULL };
#define NSEEDS 4

// Argument k of the call, different from every other.
static uint64_t arg(int k) { return A ? A + (uint64_t)k * 0x0101010101010101ULL : (uint64_t)k; }
#define AP(T, k) ((T)(uintptr_t)arg(k))
#define AU(k) ((uint32_t)arg(k))
#define AI(k) ((int64_t)arg(k))
#define AD(k) ((double)(int64_t)arg(k))

static void expect(const char* op, const void* self, bool on, int n, const uint64_t* a)
{
	mc_step();
	if (!on) {
		MC_CHECK(calls == 0, "reached", "%s: the provider's %s was called", op, seen_op);
		return;
	}
	MC_CHECK(calls == 1, "not-once", "%s: the provider was called %d times", op, calls);
	MC_CHECK(strcmp(seen_op, op) == 0, "wrong-operation", "%s reached the provider's %s", op, seen_op);
	MC_CHECK(seen_self == self, "wrong-handle", "%s: the provider was given another handle", op);
	MC_CHECK(seen_n == n && memcmp(seen, a, sizeof *a * (size_t)n) == 0, "wrong-arguments", "%s: the provider was given other arguments", op);
}

// PROV: a provider operation. OP: the call that must reach it.
#define PROV(I, NAME, RET, PARAMS, ...) \
	static RET I##_p_##NAME PARAMS { note(#I "." #NAME, self, ARGS(__VA_ARGS__)); return (RET)R; }
#define PROVV(I, NAME, PARAMS, ...) \
	static void I##_p_##NAME PARAMS { note(#I "." #NAME, self, ARGS(__VA_ARGS__)); }
#define OP(I, NAME, SLOT, RET, NEUTRAL, CALL, ...) \
	static void I##_o_##NAME(as_##I* h, bool on) \
	{ \
		calls = 0; \
		RET got = CALL; \
		RET want = on ? (RET)R : (RET)NEUTRAL; \
		expect(#I "." #SLOT, h, on, ARGS(__VA_ARGS__)); \
		MC_CHECK(got == want, "result", #I "." #NAME ": %s result, got %llx", on ? "not the provider's" : "not the neutral", (unsigned long long)P((uintptr_t)got)); \
	}

// ---- list -------------------------------------------------------------------------
#define LS as_list* self
#define CLS const as_list* self
PROV(list, destroy, bool, (LS))
PROV(list, hashcode, uint32_t, (CLS))
PROV(list, size, uint32_t, (CLS))
PROV(list, get, as_val*, (CLS, uint32_t i), i)
PROV(list, get_int64, int64_t, (CLS, uint32_t i), i)
PROV(list, get_double, double, (CLS, uint32_t i), i)
PROV(list, get_str, char*, (CLS, uint32_t i), i)
PROV(list, set, int, (LS, uint32_t i, as_val* v), i, P(v))
PROV(list, set_int64, int, (LS, uint32_t i, int64_t v), i, (uint64_t)v)
PROV(list, set_double, int, (LS, uint32_t i, double v), i, dbits(v))
PROV(list, set_str, int, (LS, uint32_t i, const char* v), i, P(v))
PROV(list, insert, int, (LS, uint32_t i, as_val* v), i, P(v))
PROV(list, insert_int64, int, (LS, uint32_t i, int64_t v), i, (uint64_t)v)
PROV(list, insert_double, int, (LS, uint32_t i, double v), i, dbits(v))
PROV(list, insert_str, int, (LS, uint32_t i, const char* v), i, P(v))
PROV(list, append, int, (LS, as_val* v), P(v))
PROV(list, append_int64, int, (LS, int64_t v), (uint64_t)v)
PROV(list, append_double, int, (LS, double v), dbits(v))
PROV(list, append_str, int, (LS, const char* v), P(v))
PROV(list, prepend, int, (LS, as_val* v), P(v))
PROV(list, prepend_int64, int, (LS, int64_t v), (uint64_t)v)
PROV(list, prepend_double, int, (LS, double v), dbits(v))
PROV(list, prepend_str, int, (LS, const char* v), P(v))
PROV(list, remove, int, (LS, uint32_t i), i)
PROV(list, concat, int, (LS, const as_list* o), P(o))
PROV(list, trim, int, (LS, uint32_t i), i)
PROV(list, head, as_val*, (CLS))
PROV(list, tail, as_list*, (CLS))
PROV(list, drop, as_list*, (CLS, uint32_t i), i)
PROV(list, take, as_list*, (CLS, uint32_t i), i)
PROV(list, foreach, bool, (CLS, as_list_foreach_callback c, void* u), P(c), P(u))
PROV(list, iterator_new, union as_list_iterator_u*, (CLS))
PROV(list, iterator_init, union as_list_iterator_u*, (CLS, union as_list_iterator_u* it), P(it))
#define LIST_SLOTS(X) X(destroy) X(hashcode) X(size) X(get) X(get_int64) X(get_double) X(get_str) X(set) X(set_int64) X(set_double) X(set_str) \
	X(insert) X(insert_int64) X(insert_double) X(insert_str) X(append) X(append_int64) X(append_double) X(append_str) X(prepend) X(prepend_int64) \
	X(prepend_double) X(prepend_str) X(remove) X(concat) X(trim) X(head) X(tail) X(drop) X(take) X(foreach) X(iterator_new) X(iterator_init)

OP(list, hashcode, hashcode, uint32_t, 0, as_list_hashcode(h))
OP(list, val_hashcode, hashcode, uint32_t, 0, as_val_hashcode(h))
OP(list, size, size, uint32_t, 0, as_list_size(h))
OP(list, get, get, as_val*, NULL, as_list_get(h, AU(1)), AU(1))
OP(list, get_int64, get_int64, int64_t, 0, as_list_get_int64(h, AU(1)), AU(1))
OP(list, get_double, get_double, double, 0.0, as_list_get_double(h, AU(1)), AU(1))
OP(list, get_str, get_str, char*, NULL, as_list_get_str(h, AU(1)), AU(1))
OP(list, set, set, int, 1, as_list_set(h, AU(1), AP(as_val*, 2)), AU(1), arg(2))
OP(list, set_int64, set_int64, int, 1, as_list_set_int64(h, AU(1), AI(2)), AU(1), arg(2))
OP(list, set_double, set_double, int, 1, as_list_set_double(h, AU(1), AD(2)), AU(1), dbits(AD(2)))
OP(list, set_str, set_str, int, 1, as_list_set_str(h, AU(1), AP(char*, 2)), AU(1), arg(2))
OP(list, set_integer, set, int, 1, as_list_set_integer(h, AU(1), AP(as_integer*, 2)), AU(1), arg(2))
OP(list, set_as_double, set, int, 1, as_list_set_as_double(h, AU(1), AP(as_double*, 2)), AU(1), arg(2))
OP(list, set_string, set, int, 1, as_list_set_string(h, AU(1), AP(as_string*, 2)), AU(1), arg(2))
OP(list, set_bytes, set, int, 1, as_list_set_bytes(h, AU(1), AP(as_bytes*, 2)), AU(1), arg(2))
OP(list, set_list, set, int, 1, as_list_set_list(h, AU(1), AP(as_list*, 2)), AU(1), arg(2))
OP(list, set_map, set, int, 1, as_list_set_map(h, AU(1), AP(as_map*, 2)), AU(1), arg(2))
OP(list, insert, insert, int, 1, as_list_insert(h, AU(1), AP(as_val*, 2)), AU(1), arg(2))
OP(list, insert_int64, insert_int64, int, 1, as_list_insert_int64(h, AU(1), AI(2)), AU(1), arg(2))
OP(list, insert_double, insert_double, int, 1, as_list_insert_double(h, AU(1), AD(2)), AU(1), dbits(AD(2)))
OP(list, insert_str, insert_str, int, 1, as_list_insert_str(h, AU(1), AP(char*, 2)), AU(1), arg(2))
OP(list, insert_integer, insert, int, 1, as_list_insert_integer(h, AU(1), AP(as_integer*, 2)), AU(1), arg(2))
OP(list, insert_as_double, insert, int, 1, as_list_insert_as_double(h, AU(1), AP(as_double*, 2)), AU(1), arg(2))
OP(list, insert_string, insert, int, 1, as_list_insert_string(h, AU(1), AP(as_string*, 2)), AU(1), arg(2))
OP(list, insert_bytes, insert, int, 1, as_list_insert_bytes(h, AU(1), AP(as_bytes*, 2)), AU(1), arg(2))
OP(list, insert_list, insert, int, 1, as_list_insert_list(h, AU(1), AP(as_list*, 2)), AU(1), arg(2))
OP(list, insert_map, insert, int, 1, as_list_insert_map(h, AU(1), AP(as_map*, 2)), AU(1), arg(2))
OP(list, append, append, int, 1, as_list_append(h, AP(as_val*, 1)), arg(1))
OP(list, append_int64, append_int64, int, 1, as_list_append_int64(h, AI(1)), arg(1))
OP(list, append_double, append_double, int, 1, as_list_append_double(h, AD(1)), dbits(AD(1)))
OP(list, append_str, append_str, int, 1, as_list_append_str(h, AP(char*, 1)), arg(1))
OP(list, append_integer, append, int, 1, as_list_append_integer(h, AP(as_integer*, 1)), arg(1))
OP(list, append_as_double, append, int, 1, as_list_append_as_double(h, AP(as_double*, 1)), arg(1))
OP(list, append_string, append, int, 1, as_list_append_string(h, AP(as_string*, 1)), arg(1))
OP(list, append_bytes, append, int, 1, as_list_append_bytes(h, AP(as_bytes*, 1)), arg(1))
OP(list, append_list, append, int, 1, as_list_append_list(h, AP(as_list*, 1)), arg(1))
OP(list, append_map, append, int, 1, as_list_append_map(h, AP(as_map*, 1)), arg(1))
OP(list, prepend, prepend, int, 1, as_list_prepend(h, AP(as_val*, 1)), arg(1))
OP(list, prepend_int64, prepend_int64, int, 1, as_list_prepend_int64(h, AI(1)), arg(1))
OP(list, prepend_double, prepend_double, int, 1, as_list_prepend_double(h, AD(1)), dbits(AD(1)))
OP(list, prepend_str, prepend_str, int, 1, as_list_prepend_str(h, AP(char*, 1)), arg(1))
OP(list, prepend_integer, prepend, int, 1, as_list_prepend_integer(h, AP(as_integer*, 1)), arg(1))
OP(list, prepend_as_double, prepend, int, 1, as_list_prepend_as_double(h, AP(as_double*, 1)), arg(1))
OP(list, prepend_string, prepend, int, 1, as_list_prepend_string(h, AP(as_string*, 1)), arg(1))
OP(list, prepend_bytes, prepend, int, 1, as_list_prepend_bytes(h, AP(as_bytes*, 1)), arg(1))
OP(list, prepend_list, prepend, int, 1, as_list_prepend_list(h, AP(as_list*, 1)), arg(1))
OP(list, prepend_map, prepend, int, 1, as_list_prepend_map(h, AP(as_map*, 1)), arg(1))
OP(list, remove, remove, int, 1, as_list_remove(h, AU(1)), AU(1))
OP(list, concat, concat, int, 1, as_list_concat(h, AP(as_list*, 1)), arg(1))
OP(list, trim, trim, int, 1, as_list_trim(h, AU(1)), AU(1))
OP(list, head, head, as_val*, NULL, as_list_head(h))
OP(list, tail, tail, as_list*, NULL, as_list_tail(h))
OP(list, drop, drop, as_list*, NULL, as_list_drop(h, AU(1)), AU(1))
OP(list, take, take, as_list*, NULL, as_list_take(h, AU(1)), AU(1))
OP(list, foreach, foreach, bool, false, as_list_foreach(h, AP(as_list_foreach_callback, 1), AP(void*, 2)), arg(1), arg(2))
OP(list, iterator_new, iterator_new, union as_list_iterator_u*, NULL, as_list_iterator_new(h))
OP(list, iterator_init, iterator_init, union as_list_iterator_u*, NULL, as_list_iterator_init(AP(union as_list_iterator_u*, 1), h), arg(1))

// ---- map ---------------------------------------------------------------------------
#define MS as_map* self
#define CMS const as_map* self
PROV(map, destroy, bool, (MS))
PROV(map, hashcode, uint32_t, (CMS))
PROV(map, size, uint32_t, (CMS))
PROV(map, set, int, (MS, const as_val* k, const as_val* v), P(k), P(v))
PROV(map, get, as_val*, (CMS, const as_val* k), P(k))
PROV(map, clear, int, (MS))
PROV(map, remove, int, (MS, const as_val* k), P(k))
PROVV(map, set_flags, (MS, uint32_t f), f)
PROV(map, foreach, bool, (CMS, as_map_foreach_callback c, void* u), P(c), P(u))
PROV(map, iterator_new, union as_map_iterator_u*, (CMS))
PROV(map, iterator_init, union as_map_iterator_u*, (CMS, union as_map_iterator_u* it), P(it))
#define MAP_SLOTS(X) X(destroy) X(hashcode) X(size) X(set) X(get) X(clear) X(remove) X(set_flags) X(foreach) X(iterator_new) X(iterator_init)

OP(map, hashcode, hashcode, uint32_t, 0, as_map_hashcode(h))
OP(map, val_hashcode, hashcode, uint32_t, 0, as_val_hashcode(h))
OP(map, size, size, uint32_t, 0, as_map_size(h))
OP(map, get, get, as_val*, NULL, as_map_get(h, AP(as_val*, 1)), arg(1))
OP(map, set, set, int, 1, as_map_set(h, AP(as_val*, 1), AP(as_val*, 2)), arg(1), arg(2))
OP(map, clear, clear, int, 1, as_map_clear(h))
OP(map, remove, remove, int, 1, as_map_remove(h, AP(as_val*, 1)), arg(1))
OP(map, set_flags, set_flags, uint64_t, R, (as_map_set_flags(h, AU(1)), R), AU(1))
OP(map, foreach, foreach, bool, false, as_map_foreach(h, AP(as_map_foreach_callback, 1), AP(void*, 2)), arg(1), arg(2))
OP(map, iterator_new, iterator_new, union as_map_iterator_u*, NULL, as_map_iterator_new(h))
OP(map, iterator_init, iterator_init, union as_map_iterator_u*, NULL, as_map_iterator_init(AP(union as_map_iterator_u*, 1), h), arg(1))

// ---- record -------------------------------------------------------------------------
#define RS const as_rec* self
PROV(rec, destroy, bool, (as_rec* self))
PROV(rec, hashcode, uint32_t, (RS))
PROV(rec, get, as_val*, (RS, const char* n), P(n))
PROV(rec, set, int, (RS, const char* n, const as_val* v), P(n), P(v))
PROV(rec, remove, int, (RS, const char* n), P(n))
PROV(rec, ttl, uint32_t, (RS))
PROV(rec, last_update_time, uint64_t, (RS))
PROV(rec, gen, uint16_t, (RS))
PROV(rec, size, uint32_t, (RS))
PROV(rec, memory_size, uint32_t, (RS))
PROV(rec, device_size, uint32_t, (RS))
PROV(rec, key, as_val*, (RS))
PROV(rec, setname, const char*, (RS))
PROV(rec, numbins, uint16_t, (RS))
PROV(rec, bin_names, int, (RS, as_rec_bin_names_callback c, void* u), P(c), P(u))
PROV(rec, digest, as_bytes*, (RS))
PROV(rec, set_ttl, int, (RS, uint32_t t), t)
PROV(rec, drop_key, int, (RS))
PROV(rec, foreach, bool, (RS, as_rec_foreach_callback c, void* u), P(c), P(u))
#define REC_SLOTS(X) X(destroy) X(hashcode) X(get) X(set) X(remove) X(ttl) X(last_update_time) X(gen) X(size) X(memory_size) X(device_size) X(key) \
	X(setname) X(numbins) X(bin_names) X(digest) X(set_ttl) X(drop_key) X(foreach)

OP(rec, val_hashcode, hashcode, uint32_t, 0, as_val_hashcode(h))
OP(rec, get, get, as_val*, NULL, as_rec_get(h, AP(char*, 1)), arg(1))
OP(rec, set, set, int, 1, as_rec_set(h, AP(char*, 1), AP(as_val*, 2)), arg(1), arg(2))
OP(rec, set_integer, set, int, 1, as_rec_set_integer(h, AP(char*, 1), AP(as_integer*, 2)), arg(1), arg(2))
OP(rec, set_as_double, set, int, 1, as_rec_set_as_double(h, AP(char*, 1), AP(as_double*, 2)), arg(1), arg(2))
OP(rec, set_string, set, int, 1, as_rec_set_string(h, AP(char*, 1), AP(as_string*, 2)), arg(1), arg(2))
OP(rec, set_geojson, set, int, 1, as_rec_set_geojson(h, AP(char*, 1), AP(as_geojson*, 2)), arg(1), arg(2))
OP(rec, set_bytes, set, int, 1, as_rec_set_bytes(h, AP(char*, 1), AP(as_bytes*, 2)), arg(1), arg(2))
OP(rec, set_list, set, int, 1, as_rec_set_list(h, AP(char*, 1), AP(as_list*, 2)), arg(1), arg(2))
OP(rec, set_map, set, int, 1, as_rec_set_map(h, AP(char*, 1), AP(as_map*, 2)), arg(1), arg(2))
OP(rec, remove, remove, int, 1, as_rec_remove(h, AP(char*, 1)), arg(1))
OP(rec, ttl, ttl, uint32_t, 0, as_rec_ttl(h))
OP(rec, last_update_time, last_update_time, uint64_t, 0, as_rec_last_update_time(h))
OP(rec, gen, gen, uint16_t, 0, as_rec_gen(h))
OP(rec, size, size, uint32_t, 0, as_rec_size(h))
OP(rec, memory_size, memory_size, uint32_t, 0, as_rec_memory_size(h))
OP(rec, device_size, device_size, uint32_t, 0, as_rec_device_size(h))
OP(rec, key, key, as_val*, NULL, as_rec_key(h))
OP(rec, setname, setname, const char*, NULL, as_rec_setname(h))
OP(rec, numbins, numbins, uint16_t, 0, as_rec_numbins(h))
OP(rec, bin_names, bin_names, int, 0, as_rec_bin_names(h, AP(as_rec_bin_names_callback, 1), AP(void*, 2)), arg(1), arg(2))
OP(rec, digest, digest, as_bytes*, NULL, as_rec_digest(h))
OP(rec, set_ttl, set_ttl, int, 0, as_rec_set_ttl(h, AU(1)), AU(1))
OP(rec, drop_key, drop_key, int, 0, as_rec_drop_key(h))
OP(rec, foreach, foreach, bool, false, as_rec_foreach(h, AP(as_rec_foreach_callback, 1), AP(void*, 2)), arg(1), arg(2))

// ---- stream, iterator, module, timer, aerospike, serializer ---------------------------
PROV(stream, destroy, int, (as_stream* self))
PROV(stream, read, as_val*, (const as_stream* self))
PROV(stream, write, as_stream_status, (const as_stream* self, as_val* v), P(v))
#define STREAM_SLOTS(X) X(destroy) X(read) X(write)
OP(stream, read, read, as_val*, NULL, as_stream_read(h))
OP(stream, write, write, as_stream_status, AS_STREAM_ERR, as_stream_write(h, AP(as_val*, 1)), arg(1))

PROV(iterator, destroy, bool, (as_iterator* self))
PROV(iterator, has_next, bool, (const as_iterator* self))
PROV(iterator, next, const as_val*, (as_iterator* self))
#define ITERATOR_SLOTS(X) X(destroy) X(has_next) X(next)
OP(iterator, has_next, has_next, bool, false, as_iterator_has_next(h))
OP(iterator, next, next, const as_val*, NULL, as_iterator_next(h))

PROV(timer, destroy, int, (as_timer* self))
PROV(timer, timedout, bool, (const as_timer* self))
PROV(timer, timeslice, uint64_t, (const as_timer* self))
#define TIMER_SLOTS(X) X(destroy) X(timedout) X(timeslice)
OP(timer, timedout, timedout, bool, false, as_timer_timedout(h))
OP(timer, timeslice, timeslice, uint64_t, 0, as_timer_timeslice(h))

static as_module_event seen_event;
static int module_p_update(as_module* self, as_module_event* e) { seen_event = *e; note("module.update", self, ARGS(P(e))); return (int)R; }
PROV(module, destroy, int, (as_module* self))
PROV(module, validate, int, (as_module* self, as_aerospike* a, const char* f, const char* c, uint32_t n, as_module_error* e), P(a), P(f), P(c), n, P(e))
PROV(module, apply_record, int, (as_module* self, as_udf_context* x, const char* f, const char* fn, as_rec* r, as_list* l, as_result* res),
	P(x), P(f), P(fn), P(r), P(l), P(res))
PROV(module, apply_stream, int, (as_module* self, as_udf_context* x, const char* f, const char* fn, as_stream* i, as_list* l, as_stream* o, as_result* res),
	P(x), P(f), P(fn), P(i), P(l), P(o), P(res))
#define MODULE_SLOTS(X) X(destroy) X(update) X(validate) X(apply_record) X(apply_stream)
static as_module_event mev;
OP(module, destroy, destroy, int, 1, as_module_destroy(h))
OP(module, update, update, int, 1, as_module_update(h, &mev), P(&mev))
OP(module, validate, validate, int, 1, as_module_validate(h, AP(as_aerospike*, 1), AP(char*, 2), AP(char*, 3), AU(4), AP(as_module_error*, 5)),
	arg(1), arg(2), arg(3), AU(4), arg(5))
OP(module, apply_record, apply_record, int, 1, as_module_apply_record(h, AP(as_udf_context*, 1), AP(char*, 2), AP(char*, 3), AP(as_rec*, 4),
	AP(as_list*, 5), AP(as_result*, 6)), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6))
OP(module, apply_stream, apply_stream, int, 1, as_module_apply_stream(h, AP(as_udf_context*, 1), AP(char*, 2), AP(char*, 3), AP(as_stream*, 4),
	AP(as_list*, 5), AP(as_stream*, 6), AP(as_result*, 7)), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6), arg(7))
static void module_o_configure(as_module* h, bool on)
{
	// Configuring is one kind of update.
	calls = 0;
	int got = as_module_configure(h, AP(void*, 1));
	mc_step();
	MC_CHECK(got == (on ? (int)R : 1), "result", "configuring a module gives %d", got);
	MC_CHECK(calls == (on ? 1 : 0), "not-once", "configuring called the provider %d times", calls);
	if (on) MC_CHECK(strcmp(seen_op, "module.update") == 0 && seen_self == h && seen_event.type == AS_MODULE_EVENT_CONFIGURE &&
		seen_event.data.config == AP(void*, 1), "wrong-arguments", "configuring a module passed on another event");
}

PROVV(aerospike, destroy, (as_aerospike* self))
PROV(aerospike, rec_create, int, (const as_aerospike* self, const as_rec* r), P(r))
PROV(aerospike, rec_update, int, (const as_aerospike* self, const as_rec* r), P(r))
PROV(aerospike, rec_remove, int, (const as_aerospike* self, const as_rec* r), P(r))
PROV(aerospike, rec_exists, int, (const as_aerospike* self, const as_rec* r), P(r))
PROV(aerospike, log, int, (const as_aerospike* self, const char* f, const int l, const int lv, const char* m), P(f), (uint64_t)l, (uint64_t)lv, P(m))
PROV(aerospike, get_current_time, cf_clock, (const as_aerospike* self))
PROV(aerospike, set_context, int, (const as_aerospike* self, const as_rec* r, const uint32_t c), P(r), c)
PROV(aerospike, get_config, int, (const as_aerospike* self, const as_rec* r, const char* n), P(r), P(n))
#define AEROSPIKE_SLOTS(X) X(destroy) X(rec_create) X(rec_update) X(rec_remove) X(rec_exists) X(log) X(get_current_time) X(set_context) X(get_config)
OP(aerospike, rec_create, rec_create, int, 1, as_aerospike_rec_create(h, AP(as_rec*, 1)), arg(1))
OP(aerospike, rec_update, rec_update, int, 1, as_aerospike_rec_update(h, AP(as_rec*, 1)), arg(1))
OP(aerospike, rec_remove, rec_remove, int, 1, as_aerospike_rec_remove(h, AP(as_rec*, 1)), arg(1))
OP(aerospike, rec_exists, rec_exists, int, 1, as_aerospike_rec_exists(h, AP(as_rec*, 1)), arg(1))
OP(aerospike, log, log, int, 1, as_aerospike_log(h, AP(char*, 1), (int)arg(2), (int)arg(3), AP(char*, 4)), arg(1), (uint64_t)(int)arg(2), (uint64_t)(int)arg(3), arg(4))
OP(aerospike, get_current_time, get_current_time, cf_clock, 0, as_aerospike_get_current_time(h))
OP(aerospike, set_context, set_context, int, 2, as_aerospike_set_context(h, AP(as_rec*, 1), AU(2)), arg(1), AU(2))
OP(aerospike, get_config, get_config, int, 0, as_aerospike_get_config(h, AP(as_rec*, 1), AP(char*, 2)), arg(1), arg(2))

PROVV(serializer, destroy, (as_serializer* self))
PROV(serializer, serialize, int, (as_serializer* self, const as_val* v, as_buffer* b), P(v), P(b))
PROV(serializer, serialize_presized, int32_t, (as_serializer* self, const as_val* v, uint8_t* b), P(v), P(b))
PROV(serializer, deserialize, int, (as_serializer* self, as_buffer* b, as_val** v), P(b), P(v))
PROV(serializer, serialize_getsize, uint32_t, (as_serializer* self, const as_val* v), P(v))
#define SERIALIZER_SLOTS(X) X(destroy) X(serialize) X(serialize_presized) X(deserialize) X(serialize_getsize)
OP(serializer, serialize, serialize, int, 1, as_serializer_serialize(h, AP(as_val*, 1), AP(as_buffer*, 2)), arg(1), arg(2))
OP(serializer, serialize_presized, serialize_presized, int32_t, 1, as_serializer_serialize_presized(h, AP(as_val*, 1), AP(uint8_t*, 2)), arg(1), arg(2))
OP(serializer, deserialize, deserialize, int, 1, as_serializer_deserialize(h, AP(as_buffer*, 1), AP(as_val**, 2)), arg(1), arg(2))
OP(serializer, serialize_getsize, serialize_getsize, uint32_t, 1, as_serializer_serialize_getsize(h, AP(as_val*, 1)), arg(1))

// ---- exploring ---------------------------------------------------------------------------
typedef struct { const char* name; size_t slot; void (*call)(void* h, bool on); } op_t;
#define O(I, NAME, SLOT) { #I "." #NAME, offsetof(as_##I##_hooks, SLOT), (void (*)(void*, bool))I##_o_##NAME }
#define OS(I, NAME) O(I, NAME, NAME)

static const op_t list_ops[] = { OS(list, hashcode), O(list, val_hashcode, hashcode), OS(list, size), OS(list, get), OS(list, get_int64), OS(list, get_double),
	OS(list, get_str), OS(list, set), OS(list, set_int64), OS(list, set_double), OS(list, set_str), O(list, set_integer, set), O(list, set_as_double, set),
	O(list, set_string, set), O(list, set_bytes, set), O(list, set_list, set), O(list, set_map, set), OS(list, insert), OS(list, insert_int64),
	OS(list, insert_double), OS(list, insert_str), O(list, insert_integer, insert), O(list, insert_as_double, insert), O(list, insert_string, insert),
	O(list, insert_bytes, insert), O(list, insert_list, insert), O(list, insert_map, insert), OS(list, append), OS(list, append_int64),
	OS(list, append_double), OS(list, append_str), O(list, append_integer, append), O(list, append_as_double, append), O(list, append_string, append),
	O(list, append_bytes, append), O(list, append_list, append), O(list, append_map, append), OS(list, prepend), OS(list, prepend_int64),
	OS(list, prepend_double), OS(list, prepend_str), O(list, prepend_integer, prepend), O(list, prepend_as_double, prepend), O(list, prepend_string, prepend),
	O(list, prepend_bytes, prepend), O(list, prepend_list, prepend), O(list, prepend_map, prepend), OS(list, remove), OS(list, concat), OS(list, trim),
	OS(list, head), OS(list, tail), OS(list, drop), OS(list, take), OS(list, foreach), OS(list, iterator_new), OS(list, iterator_init), { NULL } };
static const op_t map_ops[] = { OS(map, hashcode), O(map, val_hashcode, hashcode), OS(map, size), OS(map, get), OS(map, set), OS(map, clear), OS(map, remove),
	OS(map, set_flags), OS(map, foreach), OS(map, iterator_new), OS(map, iterator_init), { NULL } };
static const op_t rec_ops[] = { O(rec, val_hashcode, hashcode), OS(rec, get), OS(rec, set), O(rec, set_integer, set), O(rec, set_as_double, set),
	O(rec, set_string, set), O(rec, set_geojson, set), O(rec, set_bytes, set), O(rec, set_list, set), O(rec, set_map, set), OS(rec, remove), OS(rec, ttl),
	OS(rec, last_update_time), OS(rec, gen), OS(rec, size), OS(rec, memory_size), OS(rec, device_size), OS(rec, key), OS(rec, setname), OS(rec, numbins),
	OS(rec, bin_names), OS(rec, digest), OS(rec, set_ttl), OS(rec, drop_key), OS(rec, foreach), { NULL } };
static const op_t stream_ops[] = { OS(stream, read), OS(stream, write), { NULL } };
static const op_t iterator_ops[] = { OS(iterator, has_next), OS(iterator, next), { NULL } };
static const op_t timer_ops[] = { OS(timer, timedout), OS(timer, timeslice), { NULL } };
static const op_t module_ops[] = { OS(module, destroy), OS(module, update), OS(module, validate), OS(module, apply_record), OS(module, apply_stream),
	O(module, configure, update), { NULL } };
static const op_t aerospike_ops[] = { OS(aerospike, rec_create), OS(aerospike, rec_update), OS(aerospike, rec_remove), OS(aerospike, rec_exists),
	OS(aerospike, log), OS(aerospike, get_current_time), OS(aerospike, set_context), OS(aerospike, get_config), { NULL } };
static const op_t serializer_ops[] = { OS(serializer, serialize), OS(serializer, serialize_presized), OS(serializer, deserialize),
	OS(serializer, serialize_getsize), { NULL } };

#define S_LIST(f) .f = list_p_##f,
#define S_MAP(f) .f = map_p_##f,
#define S_REC(f) .f = rec_p_##f,
#define S_STREAM(f) .f = stream_p_##f,
#define S_ITERATOR(f) .f = iterator_p_##f,
#define S_TIMER(f) .f = timer_p_##f,
#define S_MODULE(f) .f = module_p_##f,
#define S_AEROSPIKE(f) .f = aerospike_p_##f,
#define S_SERIALIZER(f) .f = serializer_p_##f,
static const as_list_hooks list_full = { LIST_SLOTS(S_LIST) };
static const as_map_hooks map_full = { MAP_SLOTS(S_MAP) };
static const as_rec_hooks rec_full = { REC_SLOTS(S_REC) };
static const as_stream_hooks stream_full = { STREAM_SLOTS(S_STREAM) };
static const as_iterator_hooks iterator_full = { ITERATOR_SLOTS(S_ITERATOR) };
static const as_timer_hooks timer_full = { TIMER_SLOTS(S_TIMER) };
static const as_module_hooks module_full = { MODULE_SLOTS(S_MODULE) };
typedef struct as_aerospike_hooks_s aerospike_hooks_t;
static const aerospike_hooks_t aerospike_full = { AEROSPIKE_SLOTS(S_AEROSPIKE) };
static const as_serializer_hooks serializer_full = { SERIALIZER_SLOTS(S_SERIALIZER) };

static const struct { const char* name; const op_t* ops; const void* full; size_t size; } ifs[] = {
	{ "list", list_ops, &list_full, sizeof list_full }, { "map", map_ops, &map_full, sizeof map_full }, { "record", rec_ops, &rec_full, sizeof rec_full },
	{ "stream", stream_ops, &stream_full, sizeof stream_full }, { "iterator", iterator_ops, &iterator_full, sizeof iterator_full },
	{ "timer", timer_ops, &timer_full, sizeof timer_full }, { "module", module_ops, &module_full, sizeof module_full },
	{ "aerospike", aerospike_ops, &aerospike_full, sizeof aerospike_full }, { "serializer", serializer_ops, &serializer_full, sizeof serializer_full },
};
#define NIFS 9
enum { LIST, MAP, REC, STREAM, ITERATOR, TIMER, MODULE, AEROSPIKE, SERIALIZER };

typedef union { as_list l; as_map m; as_rec r; as_stream s; as_iterator i; as_timer t; as_module mo; as_aerospike a; as_serializer z; } handle;
typedef union { as_list_hooks l; as_map_hooks m; as_rec_hooks r; as_stream_hooks s; as_iterator_hooks i; as_timer_hooks t; as_module_hooks mo;
	aerospike_hooks_t a; as_serializer_hooks z; } hooks_any;
static hooks_any hooks;
static char source[4];

// A handle for the interface; heap or not.
static void* make(int f, bool heap, handle* st, const void* hk)
{
	switch (f) {
	case LIST: return heap ? as_list_new(hk) : as_list_init(&st->l, hk);
	case MAP: return heap ? as_map_new(hk) : as_map_init(&st->m, hk);
	case REC: return heap ? as_rec_new(source, hk) : as_rec_init(&st->r, source, hk);
	case STREAM: return heap ? as_stream_new(source, hk) : as_stream_init(&st->s, source, hk);
	case ITERATOR: return as_iterator_init(heap ? cf_malloc(sizeof(as_iterator)) : &st->i, heap, source, hk);
	case TIMER: return heap ? as_timer_new(source, hk) : as_timer_init(&st->t, source, hk);
	case MODULE: st->mo.source = source; st->mo.hooks = hk; return &st->mo;
	case AEROSPIKE: return heap ? as_aerospike_new(source, hk) : as_aerospike_init(&st->a, source, hk);
	default: return heap ? as_serializer_new(hk) : as_serializer_init(&st->z, hk);
	}
}

// True when the call returned something that says it happened.
static void unmake(int f, void* h)
{
	switch (f) {
	case LIST: as_list_destroy(h); break;
	case MAP: as_map_destroy(h); break;
	case REC: as_rec_destroy(h); break;
	case STREAM: as_stream_destroy(h); break;
	case ITERATOR: as_iterator_destroy(h); break;
	case TIMER: (void)as_timer_destroy(h); break;
	case MODULE: (void)as_module_destroy(h); break;
	case AEROSPIKE: as_aerospike_destroy(h); break;
	default: as_serializer_destroy(h); break;
	}
}

enum { NULL_HANDLE, NO_PROVIDER, LACKING, ONLY, FULL, NCONF };
static const char* const conf_name[] = { "no handle", "no provider", "provider lacking it", "provider with only it", "full provider" };

static const void* provider(int f, int conf, size_t slot)
{
	void* none = NULL;
	if (conf == NULL_HANDLE || conf == NO_PROVIDER) return NULL;
	memset(&hooks, 0, sizeof hooks);
	if (conf != ONLY) memcpy(&hooks, ifs[f].full, ifs[f].size);
	if (conf == ONLY) memcpy((char*)&hooks + slot, (const char*)ifs[f].full + slot, sizeof(void*));
	if (conf == LACKING) memcpy((char*)&hooks + slot, &none, sizeof(void*));
	return &hooks;
}

static void sc_calls(void)
{
	int f = mc_choose(NIFS);
	int n = 0;
	while (ifs[f].ops[n].name) n++;
	const op_t* o = &ifs[f].ops[mc_choose(n)];
	int conf = mc_choose(NCONF);
	bool heap = conf != NULL_HANDLE && f != MODULE ? mc_flip() : false;
	R = results[mc_choose(NRESULTS)];
	A = seeds[mc_choose(NSEEDS)];
	mc_log("%s with %s, %s handle, provider returning %llx", o->name, conf_name[conf], heap ? "heap" : "stack", (unsigned long long)R);
	handle st;
	memset(&st, 0xa5, sizeof st);
	const void* hk = provider(f, conf, o->slot);
	void* h = conf == NULL_HANDLE ? NULL : make(f, heap, &st, hk);
	MC_CHECK(conf == NULL_HANDLE || h, "create", "no handle");
	handle before;
	size_t sz = f == LIST ? sizeof st.l : f == MAP ? sizeof st.m : f == REC ? sizeof st.r : f == STREAM ? sizeof st.s : f == ITERATOR ? sizeof st.i :
		f == TIMER ? sizeof st.t : f == MODULE ? sizeof st.mo : f == AEROSPIKE ? sizeof st.a : sizeof st.z;
	if (h) memcpy(&before, h, sz);
	uint64_t live = mc_alloc_live;
	o->call(h, conf == ONLY || conf == FULL);
	MC_CHECK(mc_alloc_live == live, "leak", "%s left blocks behind", o->name);
	if (h) MC_CHECK(memcmp(&before, h, sz) == 0, "handle-changed", "%s changed the handle", o->name);
	mc_state(mc_hash_u64(mc_hash_u64(P(o), (uint64_t)(conf * 2 + heap)), R ^ A));
	// A timer is only released when its provider agrees.
	R = 0;
	if (h) {
		if (f == TIMER && heap && !(hk && ((const as_timer_hooks*)hk)->destroy)) free(h);
		else unmake(f, h);
	}
}

// ---- life cycle -------------------------------------------------------------------------
static void sc_life(void)
{
	int f = mc_choose(NIFS);
	if (f == MODULE) mc_prune();	// has no constructor, see calls
	bool heap = mc_flip();
	int conf = mc_choose(4);	// no provider, lacking destroy, only destroy, full
	int extra = f == LIST || f == MAP || f == REC || f == AEROSPIKE ? mc_choose(3) : 0;
	if (f == AEROSPIKE && !heap) extra = 0;
	R = mc_choose(2);
	A = 0;
	mc_log("%s: %s handle, %s destroy, %d extra references, provider returning %d", ifs[f].name, heap ? "heap" : "stack", conf_name[conf + 1], extra, (int)R);
	mc_state(mc_hash_u64((uint64_t)f, (uint64_t)(((heap * 4 + conf) * 3 + extra) * 2) + R));
	static const size_t slot[] = { offsetof(as_list_hooks, destroy), offsetof(as_map_hooks, destroy), offsetof(as_rec_hooks, destroy),
		offsetof(as_stream_hooks, destroy), offsetof(as_iterator_hooks, destroy), offsetof(as_timer_hooks, destroy), offsetof(as_module_hooks, destroy),
		offsetof(aerospike_hooks_t, destroy), offsetof(as_serializer_hooks, destroy) };
	const void* hk = provider(f, conf + 1, slot[f]);
	bool has = conf >= 2;
	handle st;
	memset(&st, 0xa5, sizeof st);
	uint64_t live = mc_alloc_live;
	calls = 0;
	void* h = make(f, heap, &st, hk);
	mc_step();
	MC_CHECK(h != NULL && (heap || h == &st), "create", "no handle");
	MC_CHECK(mc_alloc_live == live + heap, "create", "%s: %lld blocks for a %s handle", ifs[f].name, (long long)(mc_alloc_live - live), heap ? "heap" : "stack");
	MC_CHECK(calls == 0, "create", "creating a handle called the provider");
	switch (f) {
	case LIST: MC_CHECK(as_val_type(h) == AS_LIST && as_list_fromval(h) == h, "kind", "not a list"); break;
	case MAP: MC_CHECK(as_val_type(h) == AS_MAP && as_map_fromval(h) == h, "kind", "not a map"); break;
	case REC: MC_CHECK(as_val_type(h) == AS_REC && as_rec_fromval(h) == h && as_rec_source(h) == source, "kind", "not a record"); break;
	case STREAM: MC_CHECK(as_stream_source(h) == source, "source", "another source"); break;
	case TIMER: MC_CHECK(as_timer_source(h) == source, "source", "another source"); break;
	case ITERATOR: MC_CHECK(((as_iterator*)h)->data == source, "source", "another source"); break;
	case AEROSPIKE: MC_CHECK(((as_aerospike*)h)->source == source, "source", "another source"); break;
	default: break;
	}
	for (int i = 0; i < extra; i++) {
		if (f == AEROSPIKE) cf_rc_reserve(h);
		else as_val_reserve(h);
	}
	for (int i = 0; i < extra; i++) {
		unmake(f, h);
		mc_step();
		MC_CHECK(calls == 0, "destroy-early", "%s: the provider was told to destroy while the handle has owners", ifs[f].name);
		MC_CHECK(mc_alloc_live == live + heap, "destroy-early", "%s: released while it has owners", ifs[f].name);
	}
	unmake(f, h);
	mc_step();
	bool released = heap;
	if (f == TIMER) released = heap && has && R == 0;	// documented: only when the provider's destruction succeeds
	MC_CHECK(mc_alloc_live == live + (heap && !released), "destroy", "%s: %s handle %s by destroying it", ifs[f].name, heap ? "heap" : "stack", released ? "not released" : "released");
	if (heap && !released) free(h);
	if (has) {
		if (f == AEROSPIKE || f == SERIALIZER)
			MC_CHECK(calls == 1, f == AEROSPIKE ? "aerospike-destroy-hook" : "serializer-destroy-hook", "destroying a %s handle does not reach its provider's destroy", ifs[f].name);
		else MC_CHECK(calls == 1, "destroy-provider", "%s: the provider's destroy ran %d times", ifs[f].name, calls);
		expect(f == LIST ? "list.destroy" : f == MAP ? "map.destroy" : f == REC ? "rec.destroy" : f == STREAM ? "stream.destroy" : f == ITERATOR ? "iterator.destroy" :
			f == TIMER ? "timer.destroy" : f == AEROSPIKE ? "aerospike.destroy" : "serializer.destroy", h, true, ARGS());
	}
	else MC_CHECK(calls == 0, "reached", "the provider's %s was called", seen_op);
}

// Missing handles where creation and destruction accept them.
static void sc_missing(void)
{
	int f = mc_choose(NIFS + 2);
	mc_state((uint64_t)f);
	mc_log("missing %s", f < NIFS ? ifs[f].name : "source");
	calls = 0;
	uint64_t live = mc_alloc_live;
	mc_step();
	if (f < NIFS) {
		if (f == TIMER) MC_CHECK(as_timer_destroy(NULL) == 1, "missing", "destroying no timer");
		else if (f == MODULE) MC_CHECK(as_module_destroy(NULL) == 1, "missing", "destroying no module");
		else unmake(f, NULL);
		switch (f) {
		case LIST: MC_CHECK(as_list_init(NULL, &list_full) == NULL, "missing", "a list from nothing"); break;
		case MAP: MC_CHECK(as_map_init(NULL, &map_full) == NULL, "missing", "a map from nothing"); break;
		case REC: MC_CHECK(as_rec_init(NULL, source, &rec_full) == NULL, "missing", "a record from nothing"); break;
		case STREAM: MC_CHECK(as_stream_init(NULL, source, &stream_full) == NULL, "missing", "a stream from nothing"); break;
		case ITERATOR: MC_CHECK(as_iterator_init(NULL, true, source, &iterator_full) == NULL, "missing", "an iterator from nothing"); break;
		case TIMER: MC_CHECK(as_timer_init(NULL, source, &timer_full) == NULL, "missing", "a timer from nothing"); break;
		case SERIALIZER: MC_CHECK(as_serializer_init(NULL, &serializer_full) == NULL, "missing", "a serializer from nothing"); break;
		default: break;
		}
	}
	else if (f == NIFS) {
		MC_CHECK(as_rec_source(NULL) == NULL && as_stream_source(NULL) == NULL && as_timer_source(NULL) == NULL && as_module_source(NULL) == NULL, "missing", "a source of nothing");
		as_module m = { source, NULL };
		MC_CHECK(as_module_source(&m) == source, "source", "another source");
	}
	else {
		// A buffer owns its data.
		as_buffer b;
		memset(&b, 0xa5, sizeof b);
		MC_CHECK(as_buffer_init(&b) == 0 && b.size == 0 && b.capacity == 0 && b.data == NULL, "buffer", "a new buffer is not empty");
		as_buffer_destroy(&b);
		b.data = cf_malloc(8);
		b.size = b.capacity = 8;
		as_buffer_destroy(&b);
		MC_CHECK(b.data == NULL, "buffer", "a destroyed buffer keeps its data");
		as_buffer_destroy(&b);
	}
	MC_CHECK(calls == 0, "reached", "a provider was called");
	MC_CHECK(mc_alloc_live == live, "leak", "blocks left behind");
}

// Readable and writable say what a stream can do.
static void sc_streams(void)
{
	int conf = mc_choose(6);
	as_stream_hooks h = { .read = conf & 1 ? stream_p_read : NULL, .write = conf & 2 ? stream_p_write : NULL };
	as_stream s;
	as_stream_init(&s, source, conf >= 4 ? NULL : &h);
	as_stream* p = conf == 5 ? NULL : &s;
	mc_step();
	mc_state((uint64_t)conf);
	MC_CHECK(as_stream_readable(p) == (conf < 4 && (conf & 1)), "readable", "a stream %s reading says otherwise", conf & 1 ? "with" : "without");
	MC_CHECK(as_stream_writable(p) == (conf < 4 && (conf & 2)), "writable", "a stream %s writing says otherwise", conf & 2 ? "with" : "without");
}

// ---- typed access through a provider ------------------------------------------------------
static as_val* fetched;
static const void* fetch_self;
static uint64_t fetch_arg;
static as_val* rec_fetch(const as_rec* r, const char* n) { calls++; fetch_self = r; fetch_arg = P(n); return fetched; }
static as_val* list_fetch(const as_list* l, uint32_t i) { calls++; fetch_self = l; fetch_arg = i; return fetched; }
static as_val* stored;
static char stored_name[8];
static int store_rc;
static int rec_store(const as_rec* r, const char* n, const as_val* v) { calls++; fetch_self = r; snprintf(stored_name, sizeof stored_name, "%s", n); stored = (as_val*)v; return store_rc; }

#define NKIND 11
static as_val* kind_val(int k)
{
	switch (k) {
	case 0: return NULL;
	case 1: return (as_val*)&as_nil;
	case 2: return (as_val*)as_boolean_new(true);
	case 3: return (as_val*)as_integer_new(-77);
	case 4: return (as_val*)as_double_new(2.25);
	case 5: return (as_val*)as_string_new_strdup("text");
	case 6: return (as_val*)as_geojson_new_strdup("geo");
	case 7: return (as_val*)as_bytes_new(3);
	case 8: return (as_val*)as_arraylist_new(1, 1);
	case 9: return (as_val*)as_orderedmap_new(1);
	default: return (as_val*)as_rec_new(NULL, NULL);
	}
}

static void sc_typed(void)
{
	int k = mc_choose(NKIND);
	bool list = mc_flip();
	fetched = kind_val(k);
	mc_state(mc_hash_u64((uint64_t)k, list));
	mc_log("%s element of kind %d", list ? "list" : "record", k);
	as_rec r;
	as_list l;
	static as_rec_hooks rh;
	static as_list_hooks lh;
	memset(&rh, 0, sizeof rh);
	memset(&lh, 0, sizeof lh);
	rh.get = rec_fetch;
	lh.get = list_fetch;
	as_rec_init(&r, source, &rh);
	as_list_init(&l, &lh);
	const char* n = "bin";
#define G(F, IS, WANT, NONE) do { \
		calls = 0; \
		mc_step(); \
		MC_CHECK(F == ((IS) ? (WANT) : (NONE)), "typed", "%s on an element of kind %d", #F, k); \
		MC_CHECK(calls == 1 && fetch_self == (list ? (void*)&l : (void*)&r) && fetch_arg == (list ? 5 : P(n)), "typed-call", "%s asked for something else", #F); \
	} while (0)
	if (!list) {
		G(as_rec_get_int64(&r, n), k == 3, -77, 0);
		G(as_rec_get_double(&r, n), k == 4, 2.25, 0.0);
		G(as_rec_get_str(&r, n), k == 5, as_string_get((as_string*)fetched), NULL);
		G(as_rec_get_geojson_str(&r, n), k == 6, as_geojson_get((as_geojson*)fetched), NULL);
		G((void*)as_rec_get_integer(&r, n), k == 3, (void*)fetched, NULL);
		G((void*)as_rec_get_as_double(&r, n), k == 4, (void*)fetched, NULL);
		G((void*)as_rec_get_string(&r, n), k == 5, (void*)fetched, NULL);
		G((void*)as_rec_get_geojson(&r, n), k == 6, (void*)fetched, NULL);
		G((void*)as_rec_get_bytes(&r, n), k == 7, (void*)fetched, NULL);
		G((void*)as_rec_get_list(&r, n), k == 8, (void*)fetched, NULL);
		G((void*)as_rec_get_map(&r, n), k == 9, (void*)fetched, NULL);
		// And with nobody to ask.
		rh.get = NULL;
		calls = 0;
		MC_CHECK(as_rec_get_int64(&r, n) == 0 && as_rec_get_double(&r, n) == 0.0 && !as_rec_get_str(&r, n) && !as_rec_get_geojson_str(&r, n) &&
			!as_rec_get_integer(&r, n) && !as_rec_get_as_double(&r, n) && !as_rec_get_string(&r, n) && !as_rec_get_geojson(&r, n) && !as_rec_get_bytes(&r, n) &&
			!as_rec_get_list(&r, n) && !as_rec_get_map(&r, n) && calls == 0, "typed", "a record without contents gives something");
		MC_CHECK(as_rec_get_int64(NULL, n) == 0 && as_rec_get_double(NULL, n) == 0.0 && !as_rec_get_str(NULL, n) && !as_rec_get_geojson_str(NULL, n) &&
			!as_rec_get_integer(NULL, n) && !as_rec_get_as_double(NULL, n) && !as_rec_get_string(NULL, n) && !as_rec_get_geojson(NULL, n) && !as_rec_get_bytes(NULL, n) &&
			!as_rec_get_list(NULL, n) && !as_rec_get_map(NULL, n) && calls == 0, "typed", "no record gives something");
	}
	else {
		G((void*)as_list_get_integer(&l, 5), k == 3, (void*)fetched, NULL);
		G((void*)as_list_get_as_double(&l, 5), k == 4, (void*)fetched, NULL);
		G((void*)as_list_get_string(&l, 5), k == 5, (void*)fetched, NULL);
		G((void*)as_list_get_bytes(&l, 5), k == 7, (void*)fetched, NULL);
		G((void*)as_list_get_list(&l, 5), k == 8, (void*)fetched, NULL);
		G((void*)as_list_get_map(&l, 5), k == 9, (void*)fetched, NULL);
		lh.get = NULL;
		calls = 0;
		MC_CHECK(!as_list_get_integer(&l, 5) && !as_list_get_as_double(&l, 5) && !as_list_get_string(&l, 5) && !as_list_get_bytes(&l, 5) && !as_list_get_list(&l, 5) &&
			!as_list_get_map(&l, 5) && !as_list_get_integer(NULL, 5) && !as_list_get_map(NULL, 5) && calls == 0, "typed", "a list without contents gives something");
	}
	as_rec_destroy(&r);
	as_list_destroy(&l);
	as_val_destroy(fetched);
}

// Setters that make the value themselves hand it over, or make nothing.
static void sc_made(void)
{
	int which = mc_choose(3), conf = mc_choose(4);	// no record, no provider, no set, set
	store_rc = mc_choose(2) * 3;
	static const int64_t ints[] = { 0, -1, INT64_MIN, INT64_MAX };
	int w = mc_choose(4);
	static as_rec_hooks rh;
	memset(&rh, 0, sizeof rh);
	if (conf == 3) rh.set = rec_store;
	else rh = rec_full, rh.set = NULL;
	as_rec r;
	as_rec_init(&r, source, conf == 1 ? NULL : &rh);
	as_rec* p = conf == 0 ? NULL : &r;
	mc_state(mc_hash_u64((uint64_t)which, (uint64_t)(conf * 8 + w * 2 + !store_rc)));
	uint64_t live = mc_alloc_live;
	calls = 0;
	stored = NULL;
	mc_step();
	int rc = which == 0 ? as_rec_set_int64(p, "b", ints[w]) : which == 1 ? as_rec_set_double(p, "b", (double)ints[w]) : as_rec_set_str(p, "b", w ? "str" : "");
	if (conf != 3) {
		MC_CHECK(rc == 1 && calls == 0 && mc_alloc_live == live, "made", "setting on nothing: result %d, %d calls, %lld blocks", rc, calls, (long long)(mc_alloc_live - live));
	}
	else {
		MC_CHECK(rc == store_rc && calls == 1 && fetch_self == &r && strcmp(stored_name, "b") == 0 && stored, "made", "setting did not reach the provider properly");
		if (which == 0) MC_CHECK(as_val_type(stored) == AS_INTEGER && as_integer_get((as_integer*)stored) == ints[w], "made", "another value handed over");
		if (which == 1) MC_CHECK(as_val_type(stored) == AS_DOUBLE && as_double_get((as_double*)stored) == (double)ints[w], "made", "another value handed over");
		if (which == 2) MC_CHECK(as_val_type(stored) == AS_STRING && strcmp(as_string_get((as_string*)stored), w ? "str" : "") == 0, "made", "another value handed over");
		as_val_destroy(stored);
		MC_CHECK(mc_alloc_live == live, "made", "the value handed over has other owners");
	}
	calls = 0;
	R = 1;
	as_rec_destroy(&r);
}

// String maps over any provider of maps.
static char key_text[8];
static as_val* key_held;
static as_val* map_fetch(const as_map* m, const as_val* k)
{
	calls++;
	fetch_self = m;
	const char* t = as_string_get(as_string_fromval(k));
	snprintf(key_text, sizeof key_text, "%s", t ? t : "(none)");
	return fetched;
}
static int map_store(as_map* m, const as_val* k, const as_val* v)
{
	map_fetch(m, k);
	stored = (as_val*)v;
	key_held = (as_val*)k;
	return store_rc;
}

static void sc_stringmap(void)
{
	int k = mc_choose(NKIND), conf = mc_choose(4);	// no map, no provider, no get, get
	fetched = kind_val(k);
	mc_state(mc_hash_u64((uint64_t)k, (uint64_t)conf));
	mc_log("element of kind %d, configuration %d", k, conf);
	static as_map_hooks mh;
	mh = map_full;
	mh.get = conf == 3 ? map_fetch : NULL;
	as_map m;
	as_map_init(&m, conf == 1 ? NULL : &mh);
	as_map* p = conf == 0 ? NULL : &m;
	uint64_t live = mc_alloc_live;
#define S(F, IS, WANT, NONE) do { \
		calls = 0; \
		key_text[0] = 0; \
		mc_step(); \
		MC_CHECK(F == (conf == 3 && (IS) ? (WANT) : (NONE)), "typed", "%s on an element of kind %d", #F, k); \
		MC_CHECK(conf == 3 ? calls == 1 && fetch_self == &m && strcmp(key_text, "kee") == 0 : calls == 0, "typed-call", "%s asked for %s, %d calls", #F, key_text, calls); \
	} while (0)
	S((void*)as_stringmap_get(p, "kee"), true, (void*)fetched, NULL);
	S(as_stringmap_get_int64(p, "kee"), k == 3, -77, 0);
	S(as_stringmap_get_double(p, "kee"), k == 4, 2.25, 0.0);
	S(as_stringmap_get_str(p, "kee"), k == 5, as_string_get((as_string*)fetched), NULL);
	S((void*)as_stringmap_get_integer(p, "kee"), k == 3, (void*)fetched, NULL);
	S((void*)as_stringmap_get_as_double(p, "kee"), k == 4, (void*)fetched, NULL);
	S((void*)as_stringmap_get_string(p, "kee"), k == 5, (void*)fetched, NULL);
	S((void*)as_stringmap_get_bytes(p, "kee"), k == 7, (void*)fetched, NULL);
	S((void*)as_stringmap_get_list(p, "kee"), k == 8, (void*)fetched, NULL);
	S((void*)as_stringmap_get_map(p, "kee"), k == 9, (void*)fetched, NULL);
	MC_CHECK(mc_alloc_live == live, "leak", "asking leaves %lld blocks", (long long)(mc_alloc_live - live));
	calls = 0;
	R = 1;
	as_map_destroy(&m);
	as_val_destroy(fetched);
}

static void sc_stringmap_set(void)
{
	int k = 1 + mc_choose(NKIND - 1), conf = mc_choose(4), made = mc_choose(2);
	store_rc = mc_choose(2) * 3;
	if (made && (k < 3 || k > 5)) mc_prune();
	mc_state(mc_hash_u64((uint64_t)k, (uint64_t)(conf * 4 + made * 2 + !store_rc)));
	static as_map_hooks mh;
	mh = map_full;
	mh.set = conf == 3 ? map_store : NULL;
	as_map m;
	as_map_init(&m, conf == 1 ? NULL : &mh);
	as_map* p = conf == 0 ? NULL : &m;
	uint64_t live = mc_alloc_live;
	as_val* v = made ? NULL : kind_val(k);
	uint64_t with = mc_alloc_live;
	calls = 0;
	stored = key_held = NULL;
	mc_step();
	int rc;
	if (made) rc = k == 3 ? as_stringmap_set_int64(p, "kee", -77) : k == 4 ? as_stringmap_set_double(p, "kee", 2.25) : as_stringmap_set_str(p, "kee", "text");
	else switch (k) {
	case 3: rc = as_stringmap_set_integer(p, "kee", (as_integer*)v); break;
	case 4: rc = as_stringmap_set_as_double(p, "kee", (as_double*)v); break;
	case 5: rc = as_stringmap_set_string(p, "kee", (as_string*)v); break;
	case 7: rc = as_stringmap_set_bytes(p, "kee", (as_bytes*)v); break;
	case 8: rc = as_stringmap_set_list(p, "kee", (as_list*)v); break;
	case 9: rc = as_stringmap_set_map(p, "kee", (as_map*)v); break;
	default: rc = as_stringmap_set(p, "kee", v); break;
	}
	bool kept = conf == 3 && store_rc == 0;
	if (conf == 3) {
		MC_CHECK(rc == store_rc && calls == 1 && fetch_self == &m && strcmp(key_text, "kee") == 0 && stored, "made", "setting did not reach the provider properly");
		if (!made) MC_CHECK(stored == v, "made", "another value handed over");
		else if (kept) {
			if (k == 3) MC_CHECK(as_integer_get(as_integer_fromval(stored)) == -77, "made", "another value handed over");
			if (k == 4) MC_CHECK(as_double_get(as_double_fromval(stored)) == 2.25, "made", "another value handed over");
			if (k == 5) MC_CHECK(strcmp(as_string_get(as_string_fromval(stored)), "text") == 0, "made", "another value handed over");
		}
	}
	else MC_CHECK(rc != 0 && calls == 0, "made", "setting on nothing: result %d, %d calls", rc, calls);
	// What was not taken is still the caller's, or gone when it was made for the call.
	if (!kept) MC_CHECK(mc_alloc_live == with, "made", "a refused value or key leaves %lld blocks", (long long)(mc_alloc_live - with));
	if (kept) {
		MC_CHECK(mc_alloc_is_live(key_held, NULL), "made", "the key handed over is gone");
		as_val_destroy(key_held);
	}
	if (kept && made) as_val_destroy(stored);
	as_val_destroy(v);
	MC_CHECK(mc_alloc_live == live, "made", "the key or value handed over has other owners");
	calls = 0;
	R = 1;
	as_map_destroy(&m);
}

const mc_scenario mc_scenarios[] = {
	{ "calls", sc_calls, 2, "118 operations of 9 interfaces x {no handle, no provider, lacking it, only it, full} x heap/stack x 6 results x 4 argument sets" },
	{ "life", sc_life, 1, "8 interfaces x heap/stack x {no provider, lacking destroy, only destroy, full} x up to 2 extra references x provider result" },
	{ "missing", sc_missing, 1, "creating and destroying missing handles; buffers" },
	{ "streams", sc_streams, 1, "readable/writable for every combination" },
	{ "typed", sc_typed, 1, "typed getters of records and lists x 11 kinds" },
	{ "stringmap", sc_stringmap, 1, "string map getters over a provider x 11 kinds x {no map, no provider, no get, get}" },
	{ "stringmap_set", sc_stringmap_set, 1, "string map setters over a provider x 10 kinds x 4 configurations x provider result" },
	{ "made", sc_made, 1, "record setters that create the value" },
	{ NULL } };
