// C13, one thread: buffer pool histories against a plain set of buffers.
#include "mc.h"
#include <aerospike/as_buffer_pool.h>
#include <citrusleaf/alloc.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>

#define MAXB 320
typedef struct { uint8_t* data; uint32_t cap; int mark; } held_t;
static as_buffer_pool pool;
static uint32_t hdr, bs;
static held_t held[MAXB];
static int nheld, marks;
static uint8_t* unused[MAXB];
static int nunused;

static int find_unused(void* p) { for (int i = 0; i < nunused; i++) if (unused[i] == p) return i; return -1; }
static void intact(const held_t* h)
{
	for (uint32_t i = 0; i < h->cap + hdr; i++)
		MC_CHECK(h->data[i] == (uint8_t)(h->mark + (int)i), "shared", "byte %u of a held buffer was overwritten", i);
}
static void all_intact(void) { for (int i = 0; i < nheld; i++) intact(&held[i]); }

static void op_pop(uint32_t size)
{
	as_buffer_result r = { (void*)0x55, 0x5555 };
	bool large = (uint64_t)size + hdr > bs;
	int rc = as_buffer_pool_pop(&pool, size, &r);
	mc_log("pop(%u) -> %d, capacity %u", size, rc, r.capacity);
	if (large && (uint64_t)size + hdr > mc_alloc_limit) { MC_CHECK(rc == -1, "pop-code", "a request of %u bytes that cannot be met gives %d", size, rc); return; }
	MC_CHECK(rc == (large ? 2 : nunused ? 0 : 1), "pop-code", "taking %u bytes with %d pooled gives %d", size, nunused, rc);
	MC_CHECK(r.capacity >= size, "capacity", "asked for %u, capacity %u", size, r.capacity);
	MC_CHECK(r.capacity == (large ? size : bs - hdr), "capacity", "asked for %u, capacity reported %u", size, r.capacity);
	int k = find_unused(r.data);
	if (rc == 0) {
		MC_CHECK(k >= 0, "reuse", "a buffer said to come from the pool was not in it");
		memmove(unused + k, unused + k + 1, sizeof *unused * (size_t)(--nunused - k));
	}
	else MC_CHECK(k < 0, "reuse", "a pooled buffer was handed out as new");
	for (int i = 0; i < nheld; i++) MC_CHECK(held[i].data != r.data, "shared", "a held buffer was handed out again");
	held_t* h = &held[nheld++];
	*h = (held_t){ r.data, r.capacity, marks += 37 };
	for (uint32_t i = 0; i < h->cap + hdr; i++) h->data[i] = (uint8_t)(h->mark + (int)i);
}
static held_t take(int i) { held_t h = held[i]; memmove(held + i, held + i + 1, sizeof *held * (size_t)(--nheld - i)); return h; }
static void returned(const held_t* h, uint32_t cap, int rc, bool limited, uint32_t max)
{
	int want = (uint64_t)cap + hdr > bs ? -2 : limited && (uint32_t)nunused >= max ? -1 : 0;
	mc_log("push(cap %u, limit %d) with %d pooled -> %d", cap, limited ? (int)max : -1, nunused, rc);
	MC_CHECK(rc == want, "push-code", "returning a buffer of capacity %u (limit %d) with %d pooled gives %d, expected %d", cap, limited ? (int)max : -1, nunused, rc, want);
	size_t sz;
	if (rc == 0) { unused[nunused++] = h->data; MC_CHECK(mc_alloc_is_live(h->data, &sz), "early-free", "a pooled buffer was freed"); }
	else MC_CHECK(!mc_alloc_is_live(h->data, &sz), "not-freed", "a refused buffer was not freed");
}
static void settle(void)
{
	all_intact();
	uint64_t h = mc_hash_u64(hdr, (uint64_t)nunused);
	for (int i = 0; i < nheld; i++) h = mc_hash_u64(h, held[i].cap);
	mc_state(h);
}
static void begin(uint32_t header, uint32_t buffer)
{
	hdr = header; bs = buffer;
	nheld = nunused = marks = 0;
	memset(&pool, 0xA5, sizeof pool);
	MC_CHECK(as_buffer_pool_init(&pool, hdr, bs) == 0, "init", "starting a pool failed");
}
static void end(void)
{
	uint8_t* u[MAXB];
	size_t sz;
	memcpy(u, unused, sizeof u);
	as_buffer_pool_destroy(&pool);
	for (int i = 0; i < nunused; i++) MC_CHECK(!mc_alloc_is_live(u[i], &sz), "leak", "a pooled buffer outlives the pool");
	all_intact();
	for (int i = 0; i < nheld; i++) cf_free(held[i].data);
}
static void one(void)
{
	uint32_t room = bs > hdr ? bs - hdr : 0;
	switch (mc_choose(6)) {
	case 0: {
		const uint32_t sizes[] = { room, 0, room + 1, room ? room - 1 : 3 };
		op_pop(sizes[mc_choose(4)]);
		break;
	}
	case 1: {
		if (!nheld) mc_prune();
		held_t h = take(mc_choose(nheld));
		returned(&h, h.cap, as_buffer_pool_push(&pool, h.data, h.cap), false, 0);
		break;
	}
	case 2: {
		if (!nheld) mc_prune();
		held_t h = take(mc_choose(nheld));
		uint32_t max = (uint32_t)mc_choose(4);
		if (max == 3) max = UINT32_MAX;
		returned(&h, h.cap, as_buffer_pool_push_limit(&pool, h.data, h.cap, max), true, max);
		break;
	}
	case 3: {
		static const int ns[] = { 1, 2, 0, -1, INT_MAX };
		int n = ns[mc_choose(5)], want = n < 0 ? 0 : n < nunused ? n : nunused, live = 0;
		int rc = as_buffer_pool_drop_buffers(&pool, n);
		mc_log("drop(%d) of %d -> %d", n, nunused, rc);
		MC_CHECK(rc == want, "drop-count", "dropping %d of %d pooled buffers gives %d", n, nunused, rc);
		size_t sz;
		for (int i = 0; i < nunused; i++) if (mc_alloc_is_live(unused[i], &sz)) unused[live++] = unused[i];
		MC_CHECK(live == nunused - want, "drop-freed", "%d of %d buffers left after dropping %d", live, nunused, n);
		nunused = live;
		break;
	}
	case 4: {	// sizes near the end of the range
		op_pop(UINT32_MAX - (uint32_t)mc_choose(3) * hdr / 2);
		break;
	}
	case 5: {	// a foreign buffer that is far too large
		held_t h = { malloc(8), 0, 0 };
		const uint32_t caps[] = { room + 1, UINT32_MAX, UINT32_MAX - hdr + 1, UINT32_MAX - hdr / 2, bs + 1 };
		uint32_t c = caps[mc_choose(5)];
		bool lim = mc_flip();
		if ((uint64_t)c + hdr <= bs) mc_prune();
		returned(&h, c, lim ? as_buffer_pool_push_limit(&pool, h.data, c, 9) : as_buffer_pool_push(&pool, h.data, c), lim, 9);
		break;
	}
	}
	mc_step();
}
static void sc_seq(void)
{
	static const uint32_t cfg[][2] = { { 8, 32 }, { 0, 16 }, { 8, 8 }, { 16, 8 } };
	const uint32_t* c = cfg[mc_choose(4)];
	begin(c[0], c[1]);
	int depth = mc_pick(4, 5);
	for (int i = 0; i < depth && mc_flip(); i++) { one(); settle(); }
	end();
}
// Long bursts: take n, return some, take again.
static void sc_burst(void)
{
	begin((uint32_t)mc_choose(2) * 24, 64);
	int n = mc_choose(mc_pick(9, 12)), lim = mc_choose(n + 2), again = mc_choose(n + 1), drop = mc_choose(n + 2), rev = mc_choose(2);
	for (int i = 0; i < n; i++) op_pop(10);
	for (int i = 0; i < n; i++) {
		held_t h = take(rev ? nheld - 1 : 0);
		returned(&h, h.cap, as_buffer_pool_push_limit(&pool, h.data, h.cap, (uint32_t)lim), true, (uint32_t)lim);
	}
	for (int i = 0; i < again; i++) op_pop(40);
	int rc = as_buffer_pool_drop_buffers(&pool, drop), want = drop < nunused ? drop : nunused, live = 0;
	size_t sz;
	MC_CHECK(rc == want, "drop-count", "dropping %d of %d pooled buffers gives %d", drop, nunused, rc);
	for (int i = 0; i < nunused; i++) if (mc_alloc_is_live(unused[i], &sz)) unused[live++] = unused[i];
	MC_CHECK(live == nunused - want, "drop-freed", "%d buffers left after dropping %d", live, drop);
	nunused = live;
	settle();
	mc_steps((uint64_t)(2 * n + again));
	end();
}
// As many buffers as make the pool's storage grow once and twice, from a start anywhere in it.
static void sc_many(void)
{
	static const int ns[] = { 63, 64, 65, 66, 127, 128, 129, 130, 200, 255, 256, 257 };
	static const int lead[] = { 0, 1, 31, 63 };
	static const int lims[] = { 62, 63, 64, 65, 127, 128, 129, 255, 256 };
	begin((uint32_t)mc_choose(2) * 8, 16);
	int n = ns[mc_choose(mc_pick(9, 12))], ld = lead[mc_choose(4)], l = mc_choose(11), rev = mc_choose(2), again = mc_choose(3);
	uint32_t lim = l < 9 ? (uint32_t)lims[l] : UINT32_MAX;
	for (int i = 0; i < n; i++) op_pop(4);
	if (ld) {	// move the start of the pooled buffers: one stays pooled while others come and go
		held_t h = take(0);
		returned(&h, h.cap, as_buffer_pool_push(&pool, h.data, h.cap), false, 0);
		for (int i = 0; i < ld; i++) {
			h = take(0);
			returned(&h, h.cap, as_buffer_pool_push(&pool, h.data, h.cap), false, 0);
			op_pop(4);
		}
	}
	while (nheld) {
		held_t h = take(rev ? nheld - 1 : 0);
		if (l == 10) returned(&h, h.cap, as_buffer_pool_push(&pool, h.data, h.cap), false, 0);
		else returned(&h, h.cap, as_buffer_pool_push_limit(&pool, h.data, h.cap, lim), true, lim);
	}
	for (int i = again == 0 ? 0 : again == 1 ? n / 2 : n + 1; i > 0; i--) op_pop(i % 5);
	settle();
	mc_steps((uint64_t)(3 * n));
	end();
}
// Headers and buffers around powers of two.
static void sc_wide(void)
{
	static const int bits[] = { 8, 15, 16, 17, 20 };
	int b = bits[mc_choose(mc_pick(4, 5))];
	uint32_t h = (uint32_t)((1 << b) + mc_choose(3) - 1), room = (uint32_t[]){ 0, 1, 200, 70000 }[mc_choose(4)];
	begin(h, h + room);
	for (int i = 0; i < 3; i++) {
		switch (mc_choose(4)) {
		case 0: op_pop(room); break;
		case 1: op_pop(room + 1); break;
		case 2: op_pop(room / 2); break;
		case 3: {
			if (!nheld) mc_prune();
			held_t x = take(mc_choose(nheld));
			returned(&x, x.cap, as_buffer_pool_push(&pool, x.data, x.cap), false, 0);
			break;
		}
		}
		mc_step();
	}
	settle();
	end();
}
const mc_scenario mc_scenarios[] = {
	{ "seq", sc_seq, 4, "4 pools x sequences of up to 4 (5) of 6 operations with sizes around the pool's and the integer limit" },
	{ "burst", sc_burst, 3, "take 0..8 (11) buffers, return them in either order under every bound, take and drop every number" },
	{ "many", sc_many, 3, "63..200 (257) buffers returned under 11 bounds with 4 starts in either order and taken again" },
	{ "wide", sc_wide, 3, "headers within 1 of 2^8, 2^15, 2^16, 2^17 (2^20) x 4 sizes of room x all sequences of 3 operations" },
	{ NULL } };
