// C33: memory blocks of the library's allocator.
#include "mc.h"
#include <citrusleaf/alloc.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define SLOTS 3
typedef struct { uint8_t* p; uint32_t n; uint8_t tag; bool rc; uint32_t refs; } block;
static block B[SLOTS];
static uint8_t next_tag;

static void fill(block* b) { b->tag = next_tag++; for (uint32_t i = 0; i < b->n; i++) b->p[i] = (uint8_t)(b->tag + i * 7); }
static void verify(void)
{
	for (int s = 0; s < SLOTS; s++) {
		block* b = &B[s];
		if (!b->p) continue;
		for (uint32_t i = 0; i < b->n; i++) MC_CHECK(b->p[i] == (uint8_t)(b->tag + i * 7), "content", "byte %u of block %d of %u changed", i, s, b->n);
	}
}
static void placed(const void* p, size_t n, size_t align, const char* what)
{
	MC_CHECK((uintptr_t)p % align == 0, "alignment", "%s of %zu bytes is not aligned to %zu", what, n, align);
	size_t real;
	MC_CHECK(!mc_alloc_is_live(p, &real) || real >= n, "short", "%s of %zu bytes has %zu", what, n, real);
	for (int s = 0; s < SLOTS; s++) if (B[s].p) MC_CHECK((const uint8_t*)p >= B[s].p + B[s].n || (const uint8_t*)p + n <= B[s].p, "overlap", "two blocks overlap");
}
static void drop(block* b) { if (b->p) { if (b->rc) cf_rc_free(b->p); else cf_free(b->p); } memset(b, 0, sizeof *b); }

static const uint32_t SZ[] = { 1, 8, 24, 33, 200, 255, 256, 4097, 65536 };
#define NSZ(q) mc_choose(mc_pick(q, 9))
static void op(void)
{
	int s = mc_choose(2), o = mc_choose(9);
	block* b = &B[s];
	uint64_t failed = mc_alloc_failed;
	mc_step();
	switch (o) {
	case 0: { // plain
		uint32_t n = SZ[NSZ(4)];
		mc_alloc_enter(); void* p = cf_malloc(n); mc_alloc_leave();
		mc_log("allocate %u", n);
		if (!p) break;
		placed(p, n, 16, "a block");
		drop(b);
		b->p = p; b->n = n; fill(b);
		break;
	}
	case 1: { // zeroed
		uint32_t e = (uint32_t[]){ 1, 3, 16 }[mc_choose(3)], c = SZ[NSZ(3)];
		mc_alloc_enter(); uint8_t* p = cf_calloc(c, e); mc_alloc_leave();
		mc_log("allocate %u elements of %u", c, e);
		if (!p) break;
		placed(p, (size_t)c * e, 16, "a block");
		for (uint32_t i = 0; i < c * e; i++) MC_CHECK(p[i] == 0, "zero", "byte %u of %u elements of %u is %u", i, c, e, p[i]);
		drop(b);
		b->p = p; b->n = c * e; fill(b);
		break;
	}
	case 2: { // resize
		if (b->rc) mc_prune();
		uint32_t n = SZ[NSZ(5)];
		mc_alloc_enter(); uint8_t* p = cf_realloc(b->p, n); mc_alloc_leave();
		mc_log("resize block %d of %u to %u", s, b->n, n);
		if (!p) break;
		uint32_t keep = b->n < n ? b->n : n;
		for (uint32_t i = 0; i < keep; i++) MC_CHECK(p[i] == (uint8_t)(b->tag + i * 7), "resize", "byte %u is lost resizing %u to %u", i, b->n, n);
		b->p = NULL;
		placed(p, n, 16, "a resized block");
		b->p = p; b->n = n; fill(b);
		break;
	}
	case 3: case 4: { // duplicate, whole or cut
		static const char text[] = "0123456789abcdefghijklmnopqrstuv";
		int from = (int[]){ 0, 1, 31, 32 }[mc_choose(4)];
		uint32_t len = (uint32_t)(32 - from), cut = o == 4 ? (uint32_t[]){ 0, 1, 2, 31, 32, 33, UINT32_MAX }[mc_choose(7)] : len;
		mc_alloc_enter(); char* p = o == 4 ? cf_strndup(text + from, cut == UINT32_MAX ? SIZE_MAX : cut) : cf_strdup(text + from); mc_alloc_leave();
		if (!p) break;
		uint32_t want = cut < len ? cut : len;
		placed(p, want + 1, 1, "a text");
		MC_CHECK(memcmp(p, text + from, want) == 0 && p[want] == 0, "text", "the first %u of \"%s\" are \"%.40s\"", want, text + from, p);
		drop(b);
		b->p = (uint8_t*)p; b->n = want + 1; fill(b);
		break;
	}
	case 5: { // whole pages
		uint32_t n = SZ[NSZ(4)];
		mc_alloc_enter(); void* p = cf_valloc(n); mc_alloc_leave();
		if (!p) break;
		placed(p, n, (size_t)sysconf(_SC_PAGESIZE), "a page aligned block");
		drop(b);
		b->p = p; b->n = n; fill(b);
		break;
	}
	case 6: { // counted
		uint32_t n = SZ[NSZ(4)];
		mc_alloc_enter(); void* p = cf_rc_alloc(n); mc_alloc_leave();
		if (!p) break;
		placed(p, n, 8, "a counted block");
		drop(b);
		b->p = p; b->n = n; b->rc = true; b->refs = 1; fill(b);
		break;
	}
	case 7: // count
		if (!b->rc) mc_prune();
		if (mc_choose(2)) {
			uint32_t c = cf_rc_reserve(b->p);
			MC_CHECK(c == ++b->refs, "count", "%u owners are counted as %u", b->refs, c);
		}
		else if (mc_choose(2) && b->refs > 1) {
			uint32_t c = cf_rc_release(b->p);
			MC_CHECK(c == --b->refs, "count", "%u owners are counted as %u", b->refs, c);
		}
		else {
			uint8_t* p = b->p;
			uint32_t c = cf_rc_releaseandfree(p);
			MC_CHECK(c == --b->refs, "count", "%u owners are counted as %u", b->refs, c);
			if (!c) memset(b, 0, sizeof *b);
		}
		break;
	case 8: // free, also nothing
		drop(b);
		cf_free(NULL);
		break;
	}
	bool made = o < 7;
	if (made && mc_alloc_failed == failed && !B[s].p) mc_violation("refused", "an allocation is refused with memory left");
	verify();
}
static void state(void)
{
	uint64_t h = 1;
	for (int s = 0; s < SLOTS; s++) h = mc_hash_u64(h, B[s].p ? B[s].n * 64ull + B[s].rc * 32ull + B[s].refs : 0);
	mc_state(h);
}
static void run(int depth, int faults)
{
	memset(B, 0, sizeof B);
	next_tag = 1;
	mc_alloc_explore(faults);
	B[2].p = cf_malloc(40); B[2].n = 40; fill(&B[2]);
	for (int i = 0; i < depth; i++) { op(); if (mc_fresh()) state(); }
	for (int s = 0; s < SLOTS; s++) drop(&B[s]);
}
static void sc_histories(void) { run(mc_pick(3, 4), 0); }
static void sc_shortage(void) { run(2, 2); }
// Every size, by every way to ask.
static void sc_sizes(void)
{
	uint32_t n = 1 + (uint32_t)mc_choose(mc_pick(2100, 20000));
	size_t page = (size_t)sysconf(_SC_PAGESIZE);
	memset(B, 0, sizeof B);
	uint8_t* z = cf_calloc(1, n), * y = cf_calloc(n, 3), * m = cf_malloc(n), * v = cf_valloc(n), * r = cf_rc_alloc(n);
	MC_CHECK(z && y && m && v && r, "refused", "an allocation of %u is refused with memory left", n);
	placed(z, n, 16, "a block"); placed(y, 3 * n, 16, "a block"); placed(m, n, 16, "a block"); placed(v, n, page, "a page aligned block"); placed(r, n, 8, "a counted block");
	for (uint32_t i = 0; i < n; i++) MC_CHECK(z[i] == 0, "zero", "byte %u of %u is %u", i, n, z[i]);
	for (uint32_t i = 0; i < 3 * n; i++) MC_CHECK(y[i] == 0, "zero", "byte %u of 3 x %u is %u", i, n, y[i]);
	memset(m, 'm', n); memset(v, 'v', n); memset(r, 'r', n); memset(y, 'y', 3 * n); memset(z, 'z', n);
	m = cf_realloc(m, n + 1);
	m[n] = 0;
	MC_CHECK(strlen((char*)m) == n && strspn((char*)m, "m") == n, "resize", "content of %u lost", n);
	char* d = cf_strdup((char*)m);
	MC_CHECK(strcmp(d, (char*)m) == 0, "text", "a text of %u is duplicated as one of %zu", n, strlen(d));
	for (uint32_t k = n > 2 ? n - 2 : 0; k <= n + 2; k++) {
		char* c = cf_strndup((char*)m, k);
		MC_CHECK(strlen(c) == (k < n ? k : n) && strspn(c, "m") == strlen(c), "text", "the first %u of a text of %u are %zu", k, n, strlen(c));
		cf_free(c);
	}
	// Text that is not terminated within the length asked for is not read further.
	char* raw = malloc(n);
	memset(raw, 'q', n);
	char* c = cf_strndup(raw, n);
	MC_CHECK(strlen(c) == n && strspn(c, "q") == n, "text", "the %u characters of an unterminated text are %zu", n, strlen(c));
	mc_steps(12);
	free(raw); cf_free(c); cf_free(d); cf_free(z); cf_free(y); cf_free(m); cf_free(v); cf_rc_free(r);
	mc_state(n);
}
// More than there is, also where the number of bytes does not fit.
static void sc_huge(void)
{
	static const size_t big[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX / 2 + 1, (size_t)1 << 62, (size_t)1 << 48, (size_t)1 << 63, ((size_t)1 << 63) + 1, SIZE_MAX / 3 + 1, ((size_t)1 << 32) + 1 };
	int how = mc_choose(7), i = mc_choose(9), j = mc_choose(9);
	size_t n = big[i];
	if (how > 3 && i < 2) n = SIZE_MAX - (size_t)(i * 9 + j);
	uint8_t* keep = cf_malloc(24), * p = NULL;
	memset(keep, 'k', 24);
	mc_step();
	switch (how) {
	case 0: p = cf_calloc(n, big[j]); break;
	case 1: p = cf_calloc(n, (size_t[]){ 16, 2, 3, 4, 8, 24, 1u << 31, 12, 5 }[j]); break;
	case 2: p = cf_calloc((size_t[]){ 16, 2, 3, 4, 8, 24, 1u << 31, 12, 5 }[j], n); break;
	case 3: if (j) mc_prune(); p = cf_realloc(keep, n); break;
	case 4: if (i > 1 && j) mc_prune(); p = cf_malloc(n); break;
	case 5: if (i > 1 && j) mc_prune(); p = cf_valloc(n); break;
	case 6: if (i > 1 && j) mc_prune(); p = cf_rc_alloc(n); break;
	}
	MC_CHECK(!p, "huge", "more memory than there is was given (way %d, %zu)", how, n);
	for (int k = 0; k < 24; k++) MC_CHECK(keep[k] == 'k', "content", "a block is damaged by a failed request");
	cf_free(keep);
	mc_state((uint64_t)(how * 81 + i * 9 + j));
}
const mc_scenario mc_scenarios[] = {
	{ "histories", sc_histories, 2, "all sequences of 3 (4) of 9 operations with all arguments on two of three blocks" },
	{ "shortage", sc_shortage, 2, "all sequences of 2 of them with up to two refusals by the system at any attempt" },
	{ "sizes", sc_sizes, 1, "every size 1..2100 (20000) by every way to ask" },
	{ "huge", sc_huge, 2, "7 ways x 9 x 9 numbers beyond the memory, with and without overflow of the product" },
	{ NULL } };
