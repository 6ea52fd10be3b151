// Independent reading of the wire format, and input placed where every access
// outside of it traps.
#pragma once
#include "val.h"
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>

// ---- guarded input -------------------------------------------------------------
// The bytes sit at the end of a page run; behind them lies more unreadable
// address space than any 32-bit cursor can reach.
typedef struct { uint8_t* base; uint8_t* data; size_t len; } guarded;
#define GUARD_DATA (1u << 20)

static uint8_t* guard_put(guarded* g, const void* p, size_t n)
{
	if (!g->base) {
		size_t sz = GUARD_DATA + (5ULL << 30);
		g->base = mmap(NULL, sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (g->base == MAP_FAILED) mc_error("cannot reserve address space");
		if (mprotect(g->base, GUARD_DATA, PROT_READ | PROT_WRITE)) mc_error("mprotect failed");
		g->data = g->base + GUARD_DATA / 2;
		ASAN_POISON_MEMORY_REGION(g->base, GUARD_DATA);
	}
	if (n > GUARD_DATA / 2) mc_error("input too large");
	if (n > g->len) ASAN_UNPOISON_MEMORY_REGION(g->data, n);
	if (n) memcpy(g->data, p, n);
	if (n < g->len) ASAN_POISON_MEMORY_REGION(g->data + n, g->len - n);
	// Granules are 8 bytes: poison the rest exactly.
	if (n < g->len || n > g->len) {
		ASAN_POISON_MEMORY_REGION(g->data, (n | 7) + 9);
		ASAN_UNPOISON_MEMORY_REGION(g->data, n);
	}
	g->len = n;
	return g->data;
}

// ---- reference reader ------------------------------------------------------------
typedef enum { W_BAD, W_NIL, W_BOOL, W_INT, W_FLT, W_DBL, W_BLOB, W_LIST, W_MAP, W_EXT } wkind;

typedef struct {
	wkind k;
	uint32_t head;		// bytes before payload / elements (ext: up to and including the type)
	uint64_t size;		// blob or ext payload; element count of containers
	uint64_t u;		// integer, two's complement; bool
	double d;
	uint8_t ext;
} witem;

static uint64_t w_be(const uint8_t* p, int n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }

// Reads the item header at p with 'left' bytes available. False: not an item, or truncated header.
static bool w_head(const uint8_t* p, uint64_t left, witem* w)
{
	memset(w, 0, sizeof *w);
	if (left == 0) return false;
	uint8_t t = p[0];
	int extra;
	w->head = 1;
	if (t <= 0x7f) { w->k = W_INT; w->u = t; return true; }
	if (t <= 0x8f) { w->k = W_MAP; w->size = t & 15; return true; }
	if (t <= 0x9f) { w->k = W_LIST; w->size = t & 15; return true; }
	if (t <= 0xbf) { w->k = W_BLOB; w->size = t & 31; return true; }
	if (t >= 0xe0) { w->k = W_INT; w->u = (uint64_t)(int64_t)(int8_t)t; return true; }
	switch (t) {
	case 0xc0: w->k = W_NIL; return true;
	case 0xc1: return false;
	case 0xc2: case 0xc3: w->k = W_BOOL; w->u = t & 1; return true;
	case 0xc4: case 0xc5: case 0xc6: case 0xd9: case 0xda: case 0xdb:
		extra = t < 0xd0 ? 1 << (t - 0xc4) : 1 << (t - 0xd9);
		if (left < 1u + extra) return false;
		w->k = W_BLOB; w->head = 1 + extra; w->size = w_be(p + 1, extra);
		return true;
	case 0xc7: case 0xc8: case 0xc9:
		extra = 1 << (t - 0xc7);
		if (left < 2u + extra) return false;
		w->k = W_EXT; w->head = 2 + extra; w->size = w_be(p + 1, extra); w->ext = p[1 + extra];
		return true;
	case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8:
		if (left < 2) return false;
		w->k = W_EXT; w->head = 2; w->size = 1u << (t - 0xd4); w->ext = p[1];
		return true;
	case 0xca: {
		if (left < 5) return false;
		uint32_t u = (uint32_t)w_be(p + 1, 4); float f; memcpy(&f, &u, 4);
		w->k = W_FLT; w->head = 5; w->d = f;
		return true;
	}
	case 0xcb: {
		if (left < 9) return false;
		uint64_t u = w_be(p + 1, 8); memcpy(&w->d, &u, 8);
		w->k = W_DBL; w->head = 9;
		return true;
	}
	case 0xcc: case 0xcd: case 0xce: case 0xcf:
		extra = 1 << (t - 0xcc);
		if (left < 1u + extra) return false;
		w->k = W_INT; w->head = 1 + extra; w->u = w_be(p + 1, extra);
		return true;
	case 0xd0: case 0xd1: case 0xd2: case 0xd3: {
		extra = 1 << (t - 0xd0);
		if (left < 1u + extra) return false;
		uint64_t v = w_be(p + 1, extra);
		if (extra < 8 && (v >> (8 * extra - 1))) v |= ~0ULL << (8 * extra);
		w->k = W_INT; w->head = 1 + extra; w->u = v;
		return true;
	}
	case 0xdc: case 0xdd: case 0xde: case 0xdf:
		extra = (t & 1) ? 4 : 2;
		if (left < 1u + extra) return false;
		w->k = t <= 0xdd ? W_LIST : W_MAP; w->head = 1 + extra; w->size = w_be(p + 1, extra);
		return true;
	}
	return false;
}

// Size of the whole item at p, or -1 when it is not an item lying in 'left' bytes.
static int64_t w_size(const uint8_t* p, uint64_t left)
{
	uint64_t pending = 1, at = 0;
	while (pending) {
		witem w;
		if (pending > left - at || !w_head(p + at, left - at, &w)) return -1;
		at += w.head;
		pending--;
		if (w.k == W_BLOB || w.k == W_EXT) {
			if (w.size > left - at) return -1;
			at += w.size;
		}
		else if (w.k == W_LIST) pending += w.size;
		else if (w.k == W_MAP) pending += 2 * w.size;
	}
	return (int64_t)at;
}

static const char* w_hex(const uint8_t* p, size_t n)
{
	static char b[4][260];
	static int k;
	k = (k + 1) & 3;
	size_t o = 0;
	b[k][0] = 0;
	for (size_t i = 0; i < n && i < 60; i++) o += (size_t)snprintf(b[k] + o, sizeof b[k] - o, "%02x ", p[i]);
	if (n > 60) snprintf(b[k] + o, sizeof b[k] - o, "..(%zu)", n);
	return b[k];
}
