// C09: every reader accepts every encoding of its kind and nothing else.
#include "wire.h"
#include <math.h>

static guarded g;
static uint8_t in[1 << 18];

static bool same_double(double a, double b) { return (isnan(a) && isnan(b)) || memcmp(&a, &b, 8) == 0; }

static as_val_t peeked(const uint8_t* b, const witem* w)
{
	switch (w->k) {
	case W_NIL: return AS_NIL;
	case W_BOOL: return AS_BOOLEAN;
	case W_INT: return AS_INTEGER;
	case W_FLT: case W_DBL: return AS_DOUBLE;
	case W_LIST: return AS_LIST;
	case W_MAP: return AS_MAP;
	case W_BLOB:
		if (w->size == 0) return AS_BYTES;
		return b[w->head] == RV_TAG_STRING ? AS_STRING : b[w->head] == RV_TAG_GEO ? AS_GEOJSON : AS_BYTES;
	case W_EXT:
		if (b[0] == 0xd4 && w->ext == 0xff && b[2] < 2) return b[2] ? AS_CMP_INF : AS_CMP_WILDCARD;
		return AS_CMP_EXT;
	default: return AS_UNDEF;
	}
}

#define OPEN as_unpacker pk = { .buffer = b, .offset = off, .length = (uint32_t)n }; mc_step()
#define AT(x) MC_CHECK(pk.offset == off + (x), "cursor", "%s: cursor moved by %u, expected %llu", w_hex(p, left), pk.offset - off, (unsigned long long)(x))
#define ONLY(ok, kind, name) MC_CHECK((ok) == (kind), (kind) ? "refused-" name : "accepted-" name, "%s reader %s %s", name, (ok) ? "accepted" : "refused", w_hex(p, left))

// The item at 'off' of the n bytes in 'in' is complete.
static void read_all(uint32_t off, size_t n)
{
	uint8_t* b = guard_put(&g, in, n);
	const uint8_t* p = b + off;
	size_t left = n - off;
	witem w;
	bool good = w_head(p, left, &w);
	int64_t full = w_size(p, left);
	if (mc_verbose()) mc_log("input %s", w_hex(p, left));
	mc_state(mc_hash(off, in, n < 24 ? n : 24));
	wkind k = good ? w.k : W_BAD;

	{ OPEN; int64_t v = 12345; int rc = as_unpack_int64(&pk, &v); ONLY(rc == 0, k == W_INT, "int64");
	  if (rc == 0) { MC_CHECK((uint64_t)v == w.u, "value-int64", "%s read as %lld, is %lld", w_hex(p, left), (long long)v, (long long)w.u); AT(w.head); } }
	{ OPEN; uint64_t v = 12345; int rc = as_unpack_uint64(&pk, &v); ONLY(rc == 0, k == W_INT, "uint64");
	  if (rc == 0) { MC_CHECK(v == w.u, "value-uint64", "%s read as %llu, is %llu", w_hex(p, left), (unsigned long long)v, (unsigned long long)w.u); AT(w.head); } }
	{ OPEN; double v = 12345; int rc = as_unpack_double(&pk, &v); ONLY(rc == 0, k == W_FLT || k == W_DBL, "double");
	  if (rc == 0) { MC_CHECK(same_double(v, w.d), "value-double", "%s read as %a, is %a", w_hex(p, left), v, w.d); AT(w.head); } }
	{ OPEN; bool v = p[0] == 0xc2; int rc = as_unpack_boolean(&pk, &v); ONLY(rc == 0, k == W_BOOL, "boolean");
	  if (rc == 0) { MC_CHECK(v == (w.u != 0), "value-boolean", "%s read as %d", w_hex(p, left), v); AT(1); } }
	{ OPEN; int rc = as_unpack_nil(&pk); ONLY(rc == 0, k == W_NIL, "nil"); if (rc == 0) AT(1); }
	{ OPEN; int64_t v = as_unpack_blob_size(&pk); ONLY(v >= 0, k == W_BLOB, "blob-size");
	  if (v >= 0) { MC_CHECK((uint64_t)v == w.size, "value-blob-size", "%s: blob length %lld, is %llu", w_hex(p, left), (long long)v, (unsigned long long)w.size); AT(w.head); } }
	for (int i = 0; i < 2; i++) {
		OPEN;
		uint32_t sz = 777;
		const uint8_t* s = i ? as_unpack_bin(&pk, &sz) : as_unpack_str(&pk, &sz);
		ONLY(s != NULL, k == W_BLOB && full >= 0, "text");
		if (s) { MC_CHECK(s == p + w.head && sz == w.size, "value-text", "%s: text of %u at %td, is %llu at %u", w_hex(p, left), sz, s - p, (unsigned long long)w.size, w.head); AT(w.head + w.size); }
	}
	{ OPEN; as_msgpack_ext e; memset(&e, 0x55, sizeof e); int rc = as_unpack_ext(&pk, &e); ONLY(rc == 0, k == W_EXT && full >= 0, "ext");
	  if (rc == 0) {
		MC_CHECK(e.type == w.ext && e.size == w.size && e.data == p + w.head && e.type_offset == off + w.head - 1, "value-ext",
			"%s: extension type %u size %u data at %td type at %u", w_hex(p, left), e.type, e.size, e.data - p, e.type_offset - off);
		AT(w.head + w.size);
	  } }
	{ OPEN; int64_t v = as_unpack_list_header_element_count(&pk); ONLY(v >= 0, k == W_LIST, "list-header");
	  if (v >= 0) { MC_CHECK((uint64_t)v == w.size, "value-list-header", "%s: list of %lld", w_hex(p, left), (long long)v); AT(w.head); }
	  int64_t v2 = as_unpack_buf_list_element_count(p, (uint32_t)left); MC_CHECK(v2 < 0 ? v < 0 : v2 == v, "buf-list", "list count of buffer %lld, of cursor %lld", (long long)v2, (long long)v); }
	{ OPEN; int64_t v = as_unpack_map_header_element_count(&pk); ONLY(v >= 0, k == W_MAP, "map-header");
	  if (v >= 0) { MC_CHECK((uint64_t)v == w.size, "value-map-header", "%s: map of %lld", w_hex(p, left), (long long)v); AT(w.head); }
	  int64_t v2 = as_unpack_buf_map_element_count(p, (uint32_t)left); MC_CHECK(v2 < 0 ? v < 0 : v2 == v, "buf-map", "map count of buffer %lld, of cursor %lld", (long long)v2, (long long)v); }
	if (full >= 0 || k == W_BAD) {
		OPEN;
		as_val_t t = as_unpack_peek_type(&pk), want = peeked(p, &w);
		MC_CHECK(t == want, "peek", "%s peeked as kind %d, is %d", w_hex(p, left), t, want);
		AT(0);
		MC_CHECK(as_unpack_buf_peek_type(p, (uint32_t)left) == want, "buf-peek", "%s peeked differently as a buffer", w_hex(p, left));
		MC_CHECK(as_unpack_peek_is_ext(&pk) == (k == W_EXT), "is-ext", "%s: is-extension is wrong", w_hex(p, left));
	}
	{ OPEN; int64_t v = as_unpack_size(&pk); ONLY(v >= 0, full >= 0, "size");
	  if (v >= 0) { MC_CHECK(v == full, "value-size", "%s: size %lld, is %lld", w_hex(p, left), (long long)v, (long long)full); AT(full); } }
	// The whole-value reader on scalars.
	if (k == W_INT || k == W_FLT || k == W_DBL || k == W_NIL || k == W_BOOL || (k == W_BLOB && full >= 0 && w.size < 200)) {
		OPEN;
		as_val* v = NULL;
		int rc = as_unpack_val(&pk, &v);
		MC_CHECK(rc == 0 && v, "refused-value", "%s refused as a value", w_hex(p, left));
		AT(full);
		bool ok = false;
		switch (k) {
		case W_INT: ok = as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == (int64_t)w.u; break;
		case W_FLT: case W_DBL: ok = as_val_type(v) == AS_DOUBLE && same_double(as_double_get((as_double*)v), w.d); break;
		case W_NIL: ok = as_val_type(v) == AS_NIL; break;
		case W_BOOL: ok = as_val_type(v) == AS_BOOLEAN && as_boolean_get((as_boolean*)v) == (w.u != 0); break;
		default: {
			as_val_t t = peeked(p, &w);
			uint32_t len = w.size ? (uint32_t)w.size - 1 : 0;
			const uint8_t* s = p + w.head + 1;
			// Text ends at its first zero byte.
			uint32_t tl = 0;
			while (tl < len && s[tl]) tl++;
			ok = as_val_type(v) == t;
			if (ok && t == AS_STRING) ok = as_string_len((as_string*)v) == tl && memcmp(as_string_get((as_string*)v), s, tl) == 0;
			else if (ok && t == AS_GEOJSON) ok = as_geojson_len((as_geojson*)v) == tl && memcmp(as_geojson_get((as_geojson*)v), s, tl) == 0;
			else if (ok) ok = as_bytes_size((as_bytes*)v) == len && (!len || memcmp(as_bytes_get((as_bytes*)v), s, len) == 0) &&
				as_bytes_get_type((as_bytes*)v) == (w.size ? p[w.head] : 0);
		}
		}
		MC_CHECK(ok, "value", "%s read as a different value", w_hex(p, left));
		as_val_destroy(v);
	}
}

// Every tag with boundary bytes behind it.
static void sc_tags(void)
{
	static const uint8_t e[] = { 0x00, 0x01, 0x7f, 0x80, 0xff, 0x03, 0x17 };
	uint32_t off = (uint32_t)mc_choose(2) * 3;
	memset(in, 0xc1, 4);
	uint8_t* p = in + off;
	p[0] = (uint8_t)mc_choose(256);
	// Four free bytes, the rest of an eight byte payload follows a pattern.
	for (int i = 1; i <= 4; i++) p[i] = e[mc_choose(i <= 2 ? 7 : 5)];
	int pat = mc_choose(5);
	for (int i = 5; i < 40; i++) p[i] = i == 8 ? e[pat] : (uint8_t)(pat < 2 ? 0 : pat == 4 ? 0xff : i);
	read_all(off, off + 40);
}

// Blobs and extensions with everything they promise present, all header widths.
static void sc_blobs(void)
{
	static const uint8_t heads[] = { 0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xc7, 0xc8, 0xc9, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xa0 };
	int h = mc_choose(15);
	uint8_t t = heads[h];
	uint32_t len;
	int lw = mc_choose(290);
	len = lw < 270 ? (uint32_t)lw : (uint32_t)(65536 - 10 + lw - 270);
	int wd = h < 9 ? 1 << (h % 3) : 0;
	if (wd == 1 && len > 255) mc_prune();
	if (wd == 2 && len > 65535) mc_prune();
	if (h >= 9 && h < 14 && len != (1u << (h - 9))) mc_prune();
	if (h == 14 && len > 31) mc_prune();
	static const uint8_t tags[] = { 0, 1, 3, 4, 23, 24, 0x80, 0xff };
	uint8_t tag = tags[mc_choose(8)];
	uint32_t off = (uint32_t)mc_choose(2) * 2, n = off;
	memset(in, 0xc1, 4);
	in[n++] = h == 14 ? (uint8_t)(t | len) : t;
	for (int i = wd - 1; i >= 0; i--) in[n++] = (uint8_t)(len >> (8 * i));
	bool ext = h >= 6 && h < 14;
	if (ext) in[n++] = tag;
	for (uint32_t i = 0; i < len; i++) in[n++] = (uint8_t)(i == 0 && !ext ? tag : i % 251 + 1);
	int more = mc_choose(2);
	if (more) in[n++] = 0x03;
	read_all(off, n);
}

// Integers in every width that holds them.
static void sc_widths(void)
{
	int bit = mc_choose(64), m = mc_choose(6);
	uint64_t p = 1ULL << bit;
	int64_t v = (int64_t)(m == 0 ? p - 1 : m == 1 ? p : m == 2 ? p + 1 : m == 3 ? 0 - p : m == 4 ? 0 - p - 1 : 0 - p + 1);
	static const uint8_t t[] = { 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3 };
	int h = mc_choose(8), wd = 1 << (h & 3);
	uint32_t n = 0;
	in[n++] = t[h];
	for (int i = wd - 1; i >= 0; i--) in[n++] = (uint8_t)((uint64_t)v >> (8 * i));
	read_all(0, n);
}

// ---- whole trees in non-minimal form ---------------------------------------------
static void put_wide_head(uint32_t n, int w, uint8_t fix, uint32_t fixmax, int t8, int t16, int t32)
{
	// w 0: minimal; 1..3: at least 8, 16, 32 bits.
	if (w == 0) { rv_enc_head(n, fix, fixmax, t8, t16, t32); return; }
	if (w == 1 && t8 && n <= 0xff) { rv_put((uint8_t)t8); rv_be(n, 1); }
	else if (w <= 2 && n <= 0xffff) { rv_put((uint8_t)t16); rv_be(n, 2); }
	else { rv_put((uint8_t)t32); rv_be(n, 4); }
}

static void enc_wide(const rv* r)
{
	int w;
	switch (r->k) {
	case R_INT: {
		static const uint8_t t[] = { 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3 };
		w = mc_choose(9);
		if (w == 8) { rv_enc(r); break; }
		int bits = 8 << (w & 3);
		bool fits = w < 4 ? (r->i >= 0 && (bits == 64 || (uint64_t)r->i >> bits == 0)) :
			(bits == 64 || (r->i >= -(1LL << (bits - 1)) && r->i < (1LL << (bits - 1))));
		if (!fits) mc_prune();
		rv_put(t[w]);
		rv_be((uint64_t)r->i, bits / 8);
		break;
	}
	case R_DBL: {
		float f = (float)r->d;
		if ((double)f == r->d && mc_flip()) { uint32_t u; memcpy(&u, &f, 4); rv_put(0xca); rv_be(u, 4); }
		else rv_enc(r);
		break;
	}
	case R_STR: case R_GEO: case R_BYTES:
		w = mc_choose(7);
		if (w < 4) put_wide_head(r->len + 1, w, 0xa0, 31, 0xd9, 0xda, 0xdb);
		else put_wide_head(r->len + 1, w - 3, 0, 0, 0xc4, 0xc5, 0xc6);
		rv_put(r->k == R_STR ? RV_TAG_STRING : r->k == R_GEO ? RV_TAG_GEO : r->tag);
		rv_putn(r->s, r->len);
		break;
	case R_LIST:
		w = mc_choose(3);
		put_wide_head(r->n, w ? w + 1 : 0, 0x90, 15, 0, 0xdc, 0xdd);
		for (uint32_t i = 0; i < r->n; i++) enc_wide(r->c[i]);
		break;
	case R_MAP:
		w = mc_choose(3);
		put_wide_head(r->n + (r->flags ? 1 : 0), w ? w + 1 : 0, 0x80, 15, 0, 0xde, 0xdf);
		if (r->flags) {
			w = mc_choose(3);
			if (w == 0) { rv_put(0xc7); rv_put(0); }
			else if (w == 1) { rv_put(0xc8); rv_put(0); rv_put(0); }
			else { rv_put(0xc9); rv_be(0, 4); }
			rv_put(r->flags);
			rv_put(0xc0);
		}
		for (uint32_t i = 0; i < 2 * r->n; i++) enc_wide(r->c[i]);
		break;
	default: rv_enc(r);
	}
}

static void sc_wide(void)
{
	rv_reset();
	int which = mc_choose(2);
	int budget = which ? mc_pick(3, 4) : mc_pick(1, 2);
	rv_gen_opt o = { which ? 5 : RV_SCALARS, false, false, 2 };
	rv* r = rv_gen(&budget, &o);
	rv_out = in; rv_len = 0; rv_cap = sizeof in;
	enc_wide(r);
	size_t n = rv_len;
	uint8_t* b = guard_put(&g, in, n);
	uint32_t off = 0;
	const uint8_t* p = b; size_t left = n;
	if (mc_verbose()) mc_log("%s as %s", rv_text(r), w_hex(in, n));
	mc_state(mc_hash(5, in, n));
	{ OPEN; as_val* v = NULL; int rc = as_unpack_val(&pk, &v);
	  MC_CHECK(rc == 0 && v && rv_same(r, v), "wide-value", "%s does not read as %s", w_hex(p, left), rv_text(r)); AT(n); as_val_destroy(v); }
	{ OPEN; int64_t s = as_unpack_size(&pk); MC_CHECK(s == (int64_t)n, "wide-size", "%s sized as %lld", w_hex(p, left), (long long)s); AT(n); }
	static guarded g2;
	static uint8_t min[4096];
	size_t m = rv_encode(r, min, sizeof min);
	uint8_t* q = guard_put(&g2, min, m);
	as_unpacker p1 = { .buffer = b, .offset = 0, .length = (uint32_t)n }, p2 = { .buffer = q, .offset = 0, .length = (uint32_t)m };
	mc_step();
	MC_CHECK(as_unpack_compare(&p1, &p2) == MSGPACK_COMPARE_EQUAL && p1.offset == n && p2.offset == m, "wide-compare",
		"%s differs from its minimal form %s", w_hex(p, left), w_hex(min, m));
}

// Skipping item by item through concatenated trees.
static void sc_skip(void)
{
	rv_reset();
	int n = mc_pick(3, 3);
	size_t len = 0, at[5];
	for (int i = 0; i < n; i++) {
		int budget = mc_pick(1, 2);
		rv_gen_opt o = { mc_pick(10, 8), true, true, 2 };
		rv* r = rv_gen(&budget, &o);
		at[i] = len;
		len += rv_encode(r, in + len, sizeof in - len);
	}
	at[n] = len;
	uint8_t* b = guard_put(&g, in, len);
	as_unpacker pk = { .buffer = b, .offset = 0, .length = (uint32_t)len };
	for (int i = 0; i < n; i++) {
		mc_step();
		int64_t s = as_unpack_size(&pk);
		MC_CHECK(s == (int64_t)(at[i + 1] - at[i]) && pk.offset == at[i + 1], "skip", "item %d of %s: size %lld, cursor %u", i, w_hex(in, len), (long long)s, pk.offset);
	}
	MC_CHECK(as_unpack_size(&pk) < 0, "skip-end", "sized an item behind the end");
	mc_state(mc_hash(6, in, len));
}

const mc_scenario mc_scenarios[] = {
	{ "tags", sc_tags, 2, "256 first bytes x boundary values of the next four bytes x 5 patterns behind x 2 positions" },
	{ "blobs", sc_blobs, 2, "15 blob and extension headers x lengths 0..269, 65526..65545 x 8 tags x 2 positions x with and without following bytes" },
	{ "widths", sc_widths, 2, "2^k and neighbours in all 8 integer encodings" },
	{ "wide", sc_wide, 3, "trees of up to 2..3 (3..4) nodes in every combination of header widths" },
	{ "skip", sc_skip, 2, "skipping through all concatenations of three trees of up to 2 (3) nodes" },
	{ NULL } };
