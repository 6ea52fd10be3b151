// C15: the growable array is a plain sequence of items.
#include "mc.h"
#include <aerospike/as_vector.h>
#include <alloca.h>
#include <citrusleaf/alloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define MAXN 1100
static as_vector* v;
static int model[MAXN];		// 0: zeroed slot
static int n, next_id;
static uint32_t isz;

static uint8_t* item(int id)
{
	static uint8_t b[4][64];
	static int k;
	uint8_t* p = b[k++ & 3];
	for (uint32_t i = 0; i < isz; i++) p[i] = id ? (uint8_t)(i == 1 ? (id >> 8) + 1 : id + (i ? i * 7 + id * 3 : 0)) : 0;
	return p;
}
static void look(void)
{
	// The item count is a documented public field.
	MC_CHECK(v->size == (uint32_t)n, "size", "size %u, expected %d", v->size, n);
	if (!mc_fresh()) return;
	for (int i = 0; i < n; i++) MC_CHECK(memcmp(as_vector_get(v, (uint32_t)i), item(model[i]), isz) == 0, "item", "item %d of %d changed", i, n);
	if (isz == sizeof(void*)) for (int i = 0; i < n; i++) {
		void* p; memcpy(&p, item(model[i]), sizeof p);
		MC_CHECK(as_vector_get_ptr(v, (uint32_t)i) == p, "item-ptr", "pointer item %d is wrong", i);
	}
	uint32_t sz = 9999;
	uint8_t* a = as_vector_to_array(v, &sz);
	MC_CHECK(a && sz == (uint32_t)n, "array-size", "array of %u items, expected %d", sz, n);
	for (int i = 0; i < n; i++) MC_CHECK(memcmp(a + (size_t)i * isz, item(model[i]), isz) == 0, "array-item", "array item %d wrong", i);
	cf_free(a);
	mc_state(mc_hash(isz, model, (size_t)n * sizeof(int)));
}
#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)
static void append(int id) { SAY("append %d", id); mc_step(); as_vector_append(v, item(id)); model[n++] = id; }

static void op(void)
{
	int o = mc_choose(8), id, at;
	mc_step();
	switch (o) {
	case 0: append(next_id++); break;
	case 1: {
		id = n && mc_flip() ? model[mc_choose(n)] : next_id++;
		bool there = false;
		for (int i = 0; i < n; i++) there |= model[i] == id;
		SAY("append unique %d", id);
		bool ok = as_vector_append_unique(v, item(id));
		MC_CHECK(ok == !there, "unique", "unique append returned %d, item %s", ok, there ? "present" : "absent");
		if (!there) model[n++] = id;
		break;
	}
	case 2: {
		SAY("reserve");
		uint8_t* p = as_vector_reserve(v);
		MC_CHECK(p == as_vector_get(v, (uint32_t)n), "reserve", "reserved slot is not the last item");
		for (uint32_t i = 0; i < isz; i++) MC_CHECK(p[i] == 0, "reserve-zero", "reserved slot is not zeroed");
		model[n++] = 0;
		if (mc_flip()) { id = next_id++; memcpy(p, item(id), isz); model[n - 1] = id; }
		break;
	}
	case 3: if (!n) mc_prune(); at = mc_choose(n); id = next_id++; SAY("set #%d to %d", at, id); as_vector_set(v, (uint32_t)at, item(id)); model[at] = id; break;
	case 4: {
		at = mc_choose(n + 3);
		uint32_t ix = at == n + 2 ? UINT32_MAX : (uint32_t)at;
		SAY("remove #%u of %d", ix, n);
		bool ok = as_vector_remove(v, ix);
		MC_CHECK(ok == (ix < (uint32_t)n), "remove", "remove of %u of %d returned %d", ix, n, ok);
		if (ok) { memmove(model + at, model + at + 1, (size_t)(n - at - 1) * sizeof(int)); n--; }
		break;
	}
	case 5: SAY("clear"); as_vector_clear(v); n = 0; break;
	case 6: SAY("increase capacity"); as_vector_increase_capacity(v); break;
	case 7: append(next_id++); append(next_id++); append(next_id++); break;
	}
	look();
}

static as_vector vs;
static void run(int kind, uint32_t cap, int fill, int depth)
{
	n = 0; next_id = 1;
	// The structure is handed over uninitialised.
	memset(&vs, 0xA5, sizeof vs);
	if (kind == 0) { v = &vs; as_vector_init(v, isz, cap); }
	else if (kind == 1) v = as_vector_create(isz, cap);
	else { v = &vs; as_vector_inita(v, isz, cap); }
	while (n < fill) append(next_id++);
	look();
	while (depth--) op();
	as_vector_destroy(v);
}
static void sc_seq(void)
{
	static const uint32_t sizes[] = { 8, 1, 3, 4, 16, 40 };
	int kind = mc_choose(3);
	isz = sizes[mc_choose(mc_pick(3, 6))];
	uint32_t cap = (uint32_t)mc_choose(5);
	run(kind, cap, mc_choose((int)cap + 1), mc_pick(4, 5));
}
static void sc_deep(void)
{
	isz = 4;
	uint32_t cap = (uint32_t)mc_choose(3);
	run(mc_choose(3), cap, 0, mc_pick(5, 6));
}
// Repeated growth.
static void sc_grow(void)
{
	static const uint32_t sizes[] = { 2, 8, 24 };
	isz = sizes[mc_choose(3)];
	int kind = mc_choose(3);
	uint32_t cap = (uint32_t)mc_choose(70);
	int fill = mc_choose(mc_pick(3, 5)) * 70;
	run(kind, cap, fill, 1);
}
// Arrays of more than 2^32 bytes, in a caller's memory of which only the pages used exist.
#define FAR_SIZE ((size_t)9 << 30)
static void sc_far(void)
{
	static uint8_t* mem;
	static uint8_t* val;
	static const uint32_t sizes[] = { 3, 8, 24, 4096, 65536, 65537, 1u << 20 };
	if (!mem) {
		mem = mmap(NULL, FAR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (mem == MAP_FAILED) mc_error("cannot map memory");
		val = mc_raw_malloc(1u << 20);
		for (uint32_t i = 0; i < 1u << 20; i++) val[i] = (uint8_t)(i * 7 + (i >> 8) + 5);
	}
	isz = sizes[mc_choose(7)];
	static const size_t edges[] = { (size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 33 };
	size_t edge = edges[mc_choose(3)];
	uint32_t at = (uint32_t)(edge / isz) + (uint32_t)mc_range(-1, 2);
	as_vector w;
	as_vector_inita(&w, 8, 1);
	w.list = mem;
	w.item_size = isz;
	w.capacity = (uint32_t)((FAR_SIZE - (1u << 20)) / isz < UINT32_MAX ? (FAR_SIZE - (1u << 20)) / isz : UINT32_MAX);
	w.size = at + 2;
	uint8_t* want = mem + (size_t)at * isz;
	mc_step();
	MC_CHECK(as_vector_get(&w, at) == (void*)want, "far-get", "item %u of %u bytes is looked for %td bytes away", at, isz, (uint8_t*)as_vector_get(&w, at) - want);
	int o = mc_choose(6);
	uint32_t end = at + 2;
	switch (o) {
	case 0:
		as_vector_set(&w, at, val);
		MC_CHECK(memcmp(want, val, isz) == 0, "far-set", "item %u of %u bytes was not set", at, isz);
		break;
	case 1:
		if (isz < sizeof(void*)) break;
		memcpy(want, &val, sizeof val);
		MC_CHECK(as_vector_get_ptr(&w, at) == val, "far-ptr", "pointer item %u of %u bytes is wrong", at, isz);
		break;
	case 2:
		as_vector_append(&w, val);
		MC_CHECK(w.size == end + 1 && memcmp(mem + (size_t)end * isz, val, isz) == 0, "far-append", "item %u of %u bytes was not appended", end, isz);
		break;
	case 3: {
		memset(mem + (size_t)end * isz, 0x5A, isz);
		uint8_t* p = as_vector_reserve(&w);
		MC_CHECK(w.size == end + 1 && p == mem + (size_t)end * isz && p[0] == 0 && p[isz - 1] == 0, "far-reserve", "item %u of %u bytes was not reserved", end, isz);
		break;
	}
	case 4:
		memcpy(want + isz, val, isz);
		MC_CHECK(as_vector_remove(&w, at) && w.size == end - 1, "far-remove", "item %u was not removed", at);
		MC_CHECK(memcmp(want, val, isz) == 0, "far-remove", "the item after item %u of %u bytes did not move up", at, isz);
		break;
	default: {
		// More than any allocation may have, so there is no array.
		uint32_t sz;
		void* a = as_vector_to_array(&w, &sz);
		MC_CHECK(!a, "far-array", "an array of %u items of %u bytes without the memory for it", end, isz);
		break;
	}
	}
	mc_state(mc_hash_u64(mc_hash_u64(isz, at), (uint64_t)o));
	if (isz >= 4096) madvise(want - ((uintptr_t)want & 4095) - (1 << 20), 6u << 20, MADV_DONTNEED);
}

const mc_scenario mc_scenarios[] = {
	{ "seq", sc_seq, 4, "3 storage kinds x 3 (6) item sizes x capacity 0..4 x every fill x all sequences of 4 (5) operations" },
	{ "deep", sc_deep, 4, "capacity 0..2 x 3 storage kinds x all sequences of 5 (6) operations" },
	{ "grow", sc_grow, 2, "capacity 0..69 grown to 0..140 (280) items, then every operation" },
	{ "far", sc_far, 3, "arrays of 2^31, 2^32 and 2^33 bytes, 7 item sizes, 4 items around each: each operation" },
	{ NULL } };
