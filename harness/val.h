// Reference values: an independent description of a value, its standard
// encoding and its order, written without the library.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include <aerospike/as_arraylist.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include <aerospike/as_msgpack_ext.h>

// In the documented order of kinds.
typedef enum { R_NIL, R_BOOL, R_INT, R_STR, R_LIST, R_MAP, R_BYTES, R_DBL, R_GEO, R_WILD, R_INF, R_PAIR } rkind;

typedef struct rv {
	rkind k;
	int64_t i;		// R_BOOL, R_INT
	double d;
	const uint8_t* s;	// R_STR, R_GEO, R_BYTES
	uint32_t len;
	uint8_t tag;		// R_BYTES: type tag
	uint8_t flags;		// R_MAP
	struct rv** c;		// R_LIST: n children; R_MAP: n pairs, key order
	uint32_t n;
} rv;

// ---- arena, reset per path ---------------------------------------------------
#define RV_ARENA (96u << 20)
static uint8_t* rv_mem;
static size_t rv_used;

static void rv_reset(void)
{
	if (!rv_mem) rv_mem = mc_raw_malloc(RV_ARENA);
	rv_used = 0;
}

static void* rv_alloc(size_t n)
{
	void* p = rv_mem + rv_used;
	rv_used += (n + 15) & ~(size_t)15;
	if (rv_used > RV_ARENA) mc_error("reference arena exhausted");
	return p;
}

static rv* rv_new(rkind k)
{
	rv* r = rv_alloc(sizeof *r);
	memset(r, 0, sizeof *r);
	r->k = k;
	return r;
}
static rv* rv_nil(void) { return rv_new(R_NIL); }
static rv* rv_bool(bool b) { rv* r = rv_new(R_BOOL); r->i = b; return r; }
static rv* rv_int(int64_t i) { rv* r = rv_new(R_INT); r->i = i; return r; }
static rv* rv_dbl(double d) { rv* r = rv_new(R_DBL); r->d = d; return r; }
static rv* rv_blob(rkind k, const void* s, uint32_t len, uint8_t tag)
{
	rv* r = rv_new(k);
	uint8_t* p = rv_alloc(len + 1);
	if (len) memcpy(p, s, len);
	p[len] = 0;
	r->s = p;
	r->len = len;
	r->tag = tag;
	return r;
}
static rv* rv_str(const char* s) { return rv_blob(R_STR, s, (uint32_t)strlen(s), 0); }
static rv* rv_fill(rkind k, uint32_t len, uint8_t tag)
{
	rv* r = rv_new(k);
	uint8_t* p = rv_alloc(len + 1);
	for (uint32_t i = 0; i < len; i++) p[i] = k == R_BYTES ? (uint8_t)(i * 7) : (uint8_t)('a' + i % 26);
	p[len] = 0;
	r->s = p;
	r->len = len;
	r->tag = tag;
	return r;
}
static rv* rv_seq(rkind k, uint32_t n)
{
	rv* r = rv_new(k);
	r->c = rv_alloc(sizeof(rv*) * (k == R_MAP ? 2 : 1) * (n ? n : 1));
	r->n = n;
	return r;
}

// ---- order -------------------------------------------------------------------
static int rv_sgn(int64_t a, int64_t b) { return a < b ? -1 : a > b; }

static int rv_cmp(const rv* a, const rv* b)
{
	if (a->k == R_WILD || b->k == R_WILD) return 0;
	if (a->k != b->k) return a->k < b->k ? -1 : 1;
	switch (a->k) {
	case R_NIL: case R_INF: case R_WILD: case R_PAIR: return 0;
	case R_BOOL: case R_INT: return rv_sgn(a->i, b->i);
	case R_DBL: return a->d < b->d ? -1 : a->d > b->d;
	case R_STR: case R_GEO: case R_BYTES: {
		uint32_t m = a->len < b->len ? a->len : b->len;
		int c = m ? memcmp(a->s, b->s, m) : 0;
		return c ? (c < 0 ? -1 : 1) : rv_sgn(a->len, b->len);
	}
	case R_LIST: {
		uint32_t m = a->n < b->n ? a->n : b->n;
		for (uint32_t i = 0; i < m; i++) {
			if (a->c[i]->k == R_WILD || b->c[i]->k == R_WILD) return 0;
			int c = rv_cmp(a->c[i], b->c[i]);
			if (c) return c;
		}
		return rv_sgn(a->n, b->n);
	}
	case R_MAP:
		if (a->n != b->n) return rv_sgn(a->n, b->n);
		for (uint32_t i = 0; i < 2 * a->n; i++) {
			if (a->c[i]->k == R_WILD || b->c[i]->k == R_WILD) return 0;
			int c = rv_cmp(a->c[i], b->c[i]);
			if (c) return c;
		}
		return 0;
	}
	return 0;
}

// Sort the pairs of a map by key; false when two keys are equal.
static bool rv_map_sort(rv* m)
{
	for (uint32_t i = 1; i < m->n; i++) {
		for (uint32_t j = i; j > 0; j--) {
			int c = rv_cmp(m->c[2 * j - 2], m->c[2 * j]);
			if (c == 0) return false;
			if (c < 0) break;
			rv* k = m->c[2 * j]; rv* v = m->c[2 * j + 1];
			m->c[2 * j] = m->c[2 * j - 2]; m->c[2 * j + 1] = m->c[2 * j - 1];
			m->c[2 * j - 2] = k; m->c[2 * j - 1] = v;
		}
	}
	return true;
}

// ---- standard encoding ---------------------------------------------------------
static uint8_t* rv_out;
static size_t rv_len, rv_cap;

static void rv_putn(const void* p, size_t n)
{
	if (rv_len + n > rv_cap) mc_error("reference output buffer exhausted");
	if (n) memcpy(rv_out + rv_len, p, n);
	rv_len += n;
}
static void rv_put(uint8_t b) { rv_putn(&b, 1); }
static void rv_be(uint64_t v, int bytes) { for (int i = bytes - 1; i >= 0; i--) rv_put((uint8_t)(v >> (8 * i))); }

static void rv_enc_head(uint32_t n, uint8_t fix, uint32_t fixmax, int t8, int t16, int t32)
{
	if (n <= fixmax) rv_put((uint8_t)(fix | n));
	else if (n <= 0xff && t8) { rv_put((uint8_t)t8); rv_be(n, 1); }
	else if (n <= 0xffff) { rv_put((uint8_t)t16); rv_be(n, 2); }
	else { rv_put((uint8_t)t32); rv_be(n, 4); }
}

static void rv_enc_int(int64_t v)
{
	if (v >= 0) {
		if (v <= 0x7f) rv_put((uint8_t)v);
		else if (v <= 0xff) { rv_put(0xcc); rv_be((uint64_t)v, 1); }
		else if (v <= 0xffff) { rv_put(0xcd); rv_be((uint64_t)v, 2); }
		else if (v <= 0xffffffffLL) { rv_put(0xce); rv_be((uint64_t)v, 4); }
		else { rv_put(0xcf); rv_be((uint64_t)v, 8); }
	}
	else if (v >= -32) rv_put((uint8_t)v);
	else if (v >= -128) { rv_put(0xd0); rv_be((uint64_t)v, 1); }
	else if (v >= -32768) { rv_put(0xd1); rv_be((uint64_t)v, 2); }
	else if (v >= -2147483648LL) { rv_put(0xd2); rv_be((uint64_t)v, 4); }
	else { rv_put(0xd3); rv_be((uint64_t)v, 8); }
}

#define RV_TAG_STRING 3
#define RV_TAG_GEO 23

static void rv_enc(const rv* r)
{
	switch (r->k) {
	case R_NIL: rv_put(0xc0); break;
	case R_BOOL: rv_put(r->i ? 0xc3 : 0xc2); break;
	case R_INT: rv_enc_int(r->i); break;
	case R_DBL: { uint64_t u; memcpy(&u, &r->d, 8); rv_put(0xcb); rv_be(u, 8); break; }
	case R_STR: case R_GEO: case R_BYTES:
		rv_enc_head(r->len + 1, 0xa0, 31, 0xd9, 0xda, 0xdb);
		rv_put(r->k == R_STR ? RV_TAG_STRING : r->k == R_GEO ? RV_TAG_GEO : r->tag);
		rv_putn(r->s, r->len);
		break;
	case R_PAIR:	// written as a list of two
	case R_LIST:
		rv_enc_head(r->n, 0x90, 15, 0, 0xdc, 0xdd);
		for (uint32_t i = 0; i < r->n; i++) rv_enc(r->c[i]);
		break;
	case R_MAP:
		rv_enc_head(r->n + (r->flags ? 1 : 0), 0x80, 15, 0, 0xde, 0xdf);
		if (r->flags) { rv_put(0xc7); rv_put(0); rv_put(r->flags); rv_put(0xc0); }
		for (uint32_t i = 0; i < 2 * r->n; i++) rv_enc(r->c[i]);
		break;
	case R_WILD: rv_put(0xd4); rv_put(0xff); rv_put(0); break;
	case R_INF: rv_put(0xd4); rv_put(0xff); rv_put(1); break;
	}
}

static size_t rv_encode(const rv* r, uint8_t* out, size_t cap)
{
	rv_out = out;
	rv_len = 0;
	rv_cap = cap;
	rv_enc(r);
	return rv_len;
}

// ---- the library's value ---------------------------------------------------------
static as_val* rv_build(const rv* r)
{
	switch (r->k) {
	case R_NIL: return (as_val*)&as_nil;
	case R_BOOL: return (as_val*)as_boolean_new(r->i != 0);
	case R_INT: return (as_val*)as_integer_new(r->i);
	case R_DBL: return (as_val*)as_double_new(r->d);
	case R_STR: return (as_val*)as_string_new_strdup((const char*)r->s);
	case R_GEO: return (as_val*)as_geojson_new_strdup((const char*)r->s);
	case R_BYTES: {
		as_bytes* b = as_bytes_new(r->len);
		if (!b) mc_error("cannot build blob");
		if (r->len && !as_bytes_set(b, 0, r->s, r->len)) mc_error("cannot fill blob");
		as_bytes_set_type(b, (as_bytes_type)r->tag);
		return (as_val*)b;
	}
	case R_LIST: {
		as_arraylist* l = as_arraylist_new(r->n, 8);
		for (uint32_t i = 0; i < r->n; i++)
			if (as_arraylist_append(l, rv_build(r->c[i])) != 0) mc_error("cannot build list");
		return (as_val*)l;
	}
	case R_MAP: {
		as_orderedmap* m = as_orderedmap_new(r->n);
		// Inserted in the opposite order, so that the map has to sort.
		for (uint32_t i = r->n; i > 0; i--)
			if (as_orderedmap_set(m, rv_build(r->c[2 * i - 2]), rv_build(r->c[2 * i - 1])) != 0) mc_error("cannot build map");
		as_map_set_flags((as_map*)m, r->flags);
		return (as_val*)m;
	}
	case R_WILD: return (as_val*)&as_cmp_wildcard;
	case R_INF: return (as_val*)&as_cmp_inf;
	case R_PAIR: {
		as_val* a = rv_build(r->c[0]), * b = rv_build(r->c[1]);
		return (as_val*)as_pair_new(a, b);
	}
	}
	return NULL;
}

static bool rv_same(const rv* r, const as_val* v);

typedef struct { const rv* r; uint32_t i; bool ok; } rv_walk;

static bool rv_list_cb(as_val* v, void* u)
{
	rv_walk* w = u;
	w->ok = w->i < w->r->n && rv_same(w->r->c[w->i], v);
	w->i++;
	return w->ok;
}
static bool rv_map_cb(const as_val* k, const as_val* v, void* u)
{
	rv_walk* w = u;
	w->ok = w->i < w->r->n && rv_same(w->r->c[2 * w->i], k) && rv_same(w->r->c[2 * w->i + 1], v);
	w->i++;
	return w->ok;
}

static bool rv_same(const rv* r, const as_val* v)
{
	if (!v) return false;
	switch (r->k) {
	case R_NIL: return as_val_type(v) == AS_NIL;
	case R_BOOL: return as_val_type(v) == AS_BOOLEAN && as_boolean_get((const as_boolean*)v) == (r->i != 0);
	case R_INT: return as_val_type(v) == AS_INTEGER && as_integer_get((const as_integer*)v) == r->i;
	case R_DBL: {
		if (as_val_type(v) != AS_DOUBLE) return false;
		double d = as_double_get((const as_double*)v);
		return memcmp(&d, &r->d, 8) == 0;
	}
	case R_STR:
		return as_val_type(v) == AS_STRING && as_string_len((as_string*)v) == r->len &&
			memcmp(as_string_get((const as_string*)v), r->s, r->len + 1) == 0;
	case R_GEO:
		return as_val_type(v) == AS_GEOJSON && as_geojson_len((as_geojson*)v) == r->len &&
			memcmp(as_geojson_get((const as_geojson*)v), r->s, r->len + 1) == 0;
	case R_BYTES:
		return as_val_type(v) == AS_BYTES && as_bytes_size((const as_bytes*)v) == r->len &&
			as_bytes_get_type((const as_bytes*)v) == r->tag &&
			(r->len == 0 || memcmp(as_bytes_get((const as_bytes*)v), r->s, r->len) == 0);
	case R_LIST: {
		if (as_val_type(v) != AS_LIST || as_list_size((as_list*)v) != r->n) return false;
		rv_walk w = { r, 0, true };
		as_list_foreach((const as_list*)v, rv_list_cb, &w);
		return w.ok && w.i == r->n;
	}
	case R_MAP: {
		if (as_val_type(v) != AS_MAP || as_map_size((const as_map*)v) != r->n) return false;
		if (((const as_map*)v)->flags != r->flags) return false;
		rv_walk w = { r, 0, true };
		as_map_foreach((const as_map*)v, rv_map_cb, &w);
		return w.ok && w.i == r->n;
	}
	case R_WILD: return as_val_type(v) == AS_CMP_WILDCARD;
	case R_INF: return as_val_type(v) == AS_CMP_INF;
	case R_PAIR: {
		// As built, or as read back.
		if (as_val_type(v) == AS_PAIR) return rv_same(r->c[0], as_pair_1((as_pair*)v)) && rv_same(r->c[1], as_pair_2((as_pair*)v));
		if (as_val_type(v) != AS_LIST || as_list_size((as_list*)v) != 2) return false;
		rv_walk w = { r, 0, true };
		as_list_foreach((const as_list*)v, rv_list_cb, &w);
		return w.ok && w.i == 2;
	}
	}
	return false;
}

static void rv_print(const rv* r, char* b, size_t n, size_t* o)
{
#define RVP(...) do { if (*o < n) { int rv_w = snprintf(b + *o, n - *o, __VA_ARGS__); *o += (size_t)rv_w; } } while (0)
	switch (r->k) {
	case R_NIL: RVP("nil"); break;
	case R_BOOL: RVP(r->i ? "true" : "false"); break;
	case R_INT: RVP("%lld", (long long)r->i); break;
	case R_DBL: RVP("%a", r->d); break;
	case R_STR: RVP(r->len > 12 ? "str[%u]\"%.12s..\"" : "str[%u]\"%s\"", r->len, (const char*)r->s); break;
	case R_GEO: RVP("geo[%u]", r->len); break;
	case R_BYTES: RVP("bytes[%u]#%u", r->len, r->tag); if (r->len) RVP(":%02x", r->s[0]); break;
	case R_PAIR: case R_LIST: case R_MAP: {
		bool map = r->k == R_MAP;
		RVP(map ? "{" : "[");
		if (map && r->flags) RVP("flags=%u ", r->flags);
		uint32_t tot = map ? 2 * r->n : r->n;
		for (uint32_t i = 0; i < tot && i < 12; i++) {
			if (i) RVP(map && (i & 1) ? ":" : ",");
			rv_print(r->c[i], b, n, o);
		}
		if (tot > 12) RVP(",..%u", r->n);
		RVP(map ? "}" : "]");
		break;
	}
	case R_WILD: RVP("*"); break;
	case R_INF: RVP("INF"); break;
	}
#undef RVP
}
static const char* rv_text(const rv* r)
{
	static char b[4][1200];
	static int k;
	k = (k + 1) & 3;
	size_t o = 0;
	b[k][0] = 0;
	rv_print(r, b[k], sizeof b[k] - 1, &o);
	return b[k];
}

// ---- enumeration -------------------------------------------------------------------
// Scalars that sit on both sides of every boundary; 'level' widens the alphabet.
static rv* rv_scalar(int which)
{
	switch (which) {
	case 0: return rv_int(0);
	case 1: return rv_str("a");
	case 2: return rv_nil();
	case 3: return rv_blob(R_BYTES, "a", 1, 4);
	case 4: return rv_dbl(0.5);
	case 5: return rv_bool(false);
	case 6: return rv_int(-1);
	case 7: return rv_str("");
	case 8: return rv_bool(true);
	case 9: return rv_str("ab");
	case 10: return rv_blob(R_GEO, "a", 1, 0);
	case 11: return rv_int(128);
	case 12: return rv_blob(R_BYTES, "", 0, 4);
	case 13: return rv_dbl(-1.0);
	case 14: return rv_int(-33);
	case 15: return rv_blob(R_STR, "\xff", 1, 0);
	case 16: return rv_blob(R_BYTES, "\0b", 2, 1);
	case 17: return rv_int(65536);
	case 18: return rv_blob(R_GEO, "", 0, 0);
	case 19: return rv_int(INT64_MIN);
	case 20: return rv_int(INT64_MAX);
	case 21: return rv_dbl(0.0);
	}
	return NULL;
}
#define RV_SCALARS 22

typedef struct { int scalars; bool wild, inf; int mapflags; bool pair; } rv_gen_opt;

// Integers, text and plain blobs can be map keys.
static bool rv_keyable(const rv* r) { return r->k == R_INT || r->k == R_STR || (r->k == R_BYTES && r->tag == 4); }

static rv* rv_gen_key(int scalars)
{
	int ok[RV_SCALARS], n = 0;
	for (int i = 0; i < scalars; i++) {
		size_t mark = rv_used;
		if (rv_keyable(rv_scalar(i))) ok[n++] = i;
		rv_used = mark;
	}
	return rv_scalar(ok[mc_choose(n)]);
}

// Every tree of at most *budget further nodes plus this one. Map keys that
// repeat are pruned, so are pairs in descending order (same map).
static rv* rv_gen(int* budget, const rv_gen_opt* o)
{
	int extra = (o->wild ? 1 : 0) + (o->inf ? 1 : 0);
	int total = o->scalars + extra;
	int seqs = *budget + 1;			// lists of 0..budget elements
	int maps = *budget / 2 + 1;		// maps of 0..budget/2 pairs
	int pairs = o->pair && *budget >= 2;
	int w = mc_choose(total + seqs + maps * o->mapflags + pairs);
	if (w < o->scalars) return rv_scalar(w);
	if (w < total) return rv_new(o->wild && w == o->scalars ? R_WILD : R_INF);
	w -= total;
	if (w < seqs) {
		rv* r = rv_seq(R_LIST, (uint32_t)w);
		*budget -= w;
		for (int i = 0; i < w; i++) r->c[i] = rv_gen(budget, o);
		return r;
	}
	w -= seqs;
	if (w == maps * o->mapflags) {
		rv* r = rv_seq(R_PAIR, 2);
		*budget -= 2;
		r->c[0] = rv_gen(budget, o);
		r->c[1] = rv_gen(budget, o);
		return r;
	}
	static const uint8_t fl[] = { 0, 1, 3, 0x11 };
	rv* r = rv_seq(R_MAP, (uint32_t)(w % maps));
	r->flags = fl[w / maps];
	*budget -= 2 * (int)r->n;
	for (uint32_t i = 0; i < r->n; i++) {
		r->c[2 * i] = rv_gen_key(o->scalars);
		if (i > 0 && rv_cmp(r->c[2 * i - 2], r->c[2 * i]) >= 0) mc_prune();
		r->c[2 * i + 1] = rv_gen(budget, o);
	}
	return r;
}
