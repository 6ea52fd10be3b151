// C25: every value renders as text faithfully and hashes consistently; the
// conversions between kinds succeed for the matching kind only.
#include "valscen.h"
#include "alias.h"
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_stringmap.h>
#include <citrusleaf/alloc.h>

// ---- reference rendering ----------------------------------------------------
#define TEXT_CAP (80u << 20)
static char* text;
static size_t tlen;

static void tput(const char* s, size_t n)
{
	if (tlen + n >= TEXT_CAP) mc_error("reference text buffer exhausted");
	memcpy(text + tlen, s, n);
	tlen += n;
}
static void tputs(const char* s) { tput(s, strlen(s)); }

// A value without text of its own: shown as such inside a container.
static bool untextable(const rv* r) { return r == NULL || (r->k == R_BYTES && r->len == 0); }

static void render(const rv* r)
{
	char b[400];
	if (untextable(r)) { tputs("<NULL>"); return; }
	switch (r->k) {
	case R_NIL: tputs("NIL"); break;
	case R_BOOL: tputs(r->i ? "true" : "false"); break;
	case R_INT: {
		// Written out by hand: no shared formatting code.
		uint64_t u = r->i < 0 ? 0 - (uint64_t)r->i : (uint64_t)r->i;
		char* p = b + sizeof b;
		*--p = 0;
		do *--p = (char)('0' + u % 10); while (u /= 10);
		if (r->i < 0) *--p = '-';
		tputs(p);
		break;
	}
	case R_DBL: snprintf(b, sizeof b, "%.16g", r->d); tputs(b); break;
	case R_STR: case R_GEO: tputs("\""); tput((const char*)r->s, r->len); tputs("\""); break;
	case R_BYTES:
		for (uint32_t i = 0; i < r->len; i++) {
			char h[3] = { "0123456789ABCDEF"[r->s[i] >> 4], "0123456789ABCDEF"[r->s[i] & 15], ' ' };
			tput(h, i + 1 < r->len ? 3 : 2);
		}
		break;
	case R_LIST:
		tputs("[");
		for (uint32_t i = 0; i < r->n; i++) { if (i) tputs(", "); render(r->c[i]); }
		tputs("]");
		break;
	case R_MAP:
		tputs("{");
		for (uint32_t i = 0; i < r->n; i++) { if (i) tputs(", "); render(r->c[2 * i]); tputs(":"); render(r->c[2 * i + 1]); }
		tputs("}");
		break;
	case R_WILD: tputs("*"); break;
	case R_INF: tputs("INF"); break;
	}
}

static void text_begin(void)
{
	if (!text) text = mc_raw_malloc(TEXT_CAP);
	tlen = 0;
}

static bool same_text(const char* s)
{
	if (memchr(text, 0, tlen)) mc_error("NUL in reference text");
	size_t n = strlen(s);
	return n == tlen && memcmp(s, text, n) == 0;
}

static const char* cut(const char* s)
{
	static char b[2][200];
	static int k;
	k ^= 1;
	snprintf(b[k], sizeof b[k], "%.190s", s ? s : "(null)");
	return b[k];
}

// ---- conversions ------------------------------------------------------------
static void check_conversions(const rv* r, as_val* v)
{
	mc_steps(10);
	struct { const char* name; void* got; bool want; } t[] = {
		{ "boolean", as_boolean_fromval(v), r->k == R_BOOL },
		{ "integer", as_integer_fromval(v), r->k == R_INT },
		{ "double", as_double_fromval(v), r->k == R_DBL },
		{ "string", as_string_fromval(v), r->k == R_STR },
		{ "geojson", as_geojson_fromval(v), r->k == R_GEO },
		{ "bytes", as_bytes_fromval(v), r->k == R_BYTES },
		{ "list", as_list_fromval(v), r->k == R_LIST },
		{ "map", as_map_fromval(v), r->k == R_MAP },
		{ "record", as_rec_fromval(v), false },
		{ "pair", as_pair_fromval(v), false },
	};
	for (size_t i = 0; i < sizeof t / sizeof *t; i++) {
		if (t[i].want) MC_CHECK(t[i].got == (void*)v, "conversion", "%s does not convert to a %s", rv_text(r), t[i].name);
		else MC_CHECK(t[i].got == NULL, "conversion", "%s converts to a %s", rv_text(r), t[i].name);
	}
	bool b = as_val_tobool(v);
	bool want = (r->k == R_BOOL || r->k == R_INT) && r->i != 0;
	MC_CHECK(b == want, "tobool", "%s taken as %s", rv_text(r), b ? "true" : "false");
	switch (r->k) {
	case R_BOOL:
		MC_CHECK(as_boolean_get((as_boolean*)v) == (r->i != 0) && as_boolean_tobool((as_boolean*)v) == (r->i != 0) &&
			as_boolean_getorelse((as_boolean*)v, r->i == 0) == (r->i != 0) && as_boolean_toval((as_boolean*)v) == v, "get", "content of %s", rv_text(r));
		break;
	case R_INT:
		MC_CHECK(as_integer_get((as_integer*)v) == r->i && as_integer_toint((as_integer*)v) == r->i &&
			as_integer_getorelse((as_integer*)v, ~r->i) == r->i && as_integer_toval((as_integer*)v) == v, "get", "content of %s", rv_text(r));
		break;
	case R_DBL:
		MC_CHECK(as_double_get((as_double*)v) == r->d && as_double_getorelse((as_double*)v, r->d + 1) == r->d && as_double_toval((as_double*)v) == v,
			"get", "content of %s", rv_text(r));
		break;
	case R_STR: {
		as_string* s = (as_string*)v;
		MC_CHECK(as_string_get(s) && as_string_get(s) == as_string_getorelse(s, "x") && as_string_get(s) == as_string_tostring(s) &&
			as_string_toval(s) == v && strcmp(as_string_get(s), (const char*)r->s) == 0, "get", "content of %s", rv_text(r));
		break;
	}
	case R_GEO: {
		as_geojson* s = (as_geojson*)v;
		MC_CHECK(as_geojson_get(s) && as_geojson_get(s) == as_geojson_getorelse(s, "x") && as_geojson_toval(s) == v &&
			strcmp(as_geojson_get(s), (const char*)r->s) == 0, "get", "content of %s", rv_text(r));
		break;
	}
	case R_BYTES: {
		as_bytes* s = (as_bytes*)v;
		MC_CHECK(as_bytes_get(s) == as_bytes_getorelse(s, NULL) && as_bytes_toval(s) == v && as_bytes_size(s) == r->len, "get", "content of %s", rv_text(r));
		break;
	}
	case R_LIST: MC_CHECK(as_list_toval((as_list*)v) == v, "get", "list as value"); break;
	case R_MAP: MC_CHECK(as_map_toval((as_map*)v) == v, "get", "map as value"); break;
	default: break;
	}
}

// The same value made another way.
static as_val* rebuild(const rv* r)
{
	switch (r->k) {
	case R_BOOL: return r->i ? (as_val*)&as_true : (as_val*)&as_false;
	case R_STR: {
		char* s = cf_malloc(r->len + 9);
		memset(s, 'Q', r->len + 9);
		memcpy(s, r->s, r->len + 1);
		return (as_val*)as_string_new_wlen(s, r->len, true);
	}
	case R_GEO: {
		char* s = cf_malloc(r->len + 9);
		memset(s, 'Q', r->len + 9);
		memcpy(s, r->s, r->len + 1);
		return (as_val*)as_geojson_new_wlen(s, r->len, true);
	}
	case R_BYTES: {
		// With room to spare, holding something else.
		uint8_t* s = cf_malloc(r->len + 5);
		memcpy(s, r->s, r->len);
		memset(s + r->len, 'Q', 5);
		as_bytes* b = as_bytes_new_wrap(s, r->len + 5, true);
		if (!as_bytes_truncate(b, 5)) mc_error("cannot build blob");
		as_bytes_set_type(b, (as_bytes_type)r->tag);
		return (as_val*)b;
	}
	case R_LIST: {
		as_arraylist* l = as_arraylist_new(0, 3);
		for (uint32_t i = 0; i < r->n; i++)
			if (as_arraylist_append(l, rebuild(r->c[i])) != 0) mc_error("cannot build list");
		return (as_val*)l;
	}
	case R_MAP: {
		as_orderedmap* m = as_orderedmap_new(0);
		for (uint32_t i = 0; i < r->n; i++)
			if (as_orderedmap_set(m, rebuild(r->c[2 * i]), rebuild(r->c[2 * i + 1])) != 0) mc_error("cannot build map");
		as_map_set_flags((as_map*)m, r->flags);
		return (as_val*)m;
	}
	default: return rv_build(r);
	}
}

static void check_text(const rv* r, as_val* v, const char* how)
{
	uint64_t live = mc_alloc_live;
	mc_step();
	char* s = as_val_tostring(v);
	if (untextable(r)) {
		if (s) { MC_CHECK(*s == 0, "text", "an empty blob renders as %s", cut(s)); free(s); }
	}
	else {
		MC_CHECK(s != NULL, "no-text", "%s%s renders as nothing", rv_text(r), how);
		MC_CHECK(same_text(s), "text", "%s%s renders as %s (%zu characters), expected %s (%zu)", rv_text(r), how,
			cut(s), strlen(s), cut(text), tlen);
		size_t sz = 0;
		MC_CHECK(mc_alloc_is_live(s, &sz), "not-owned", "%s%s: the text is not a block the caller can free", rv_text(r), how);
		free(s);
	}
	MC_CHECK(mc_alloc_live == live, "leak", "rendering %s%s left %lld blocks", rv_text(r), how, (long long)(mc_alloc_live - live));
}

static void check_value(const rv* r)
{
	// The largest containers are slow to render.
	if (!mc_thorough() && r->n > 65532) mc_prune();
	text_begin();
	render(r);
	text[tlen] = 0;
	mc_log("value %s: %zu characters", rv_text(r), tlen);
	mc_state(mc_hash(r->k, text, tlen));

	as_val* v = rv_build(r);
	uint32_t h = as_val_hashcode(v);
	mc_step();
	check_text(r, v, "");
	MC_CHECK(rv_same(r, v), "changed", "rendering or hashing changed %s", rv_text(r));
	MC_CHECK(as_val_hashcode(v) == h, "hash-unstable", "hash of %s changed", rv_text(r));
	check_conversions(r, v);
	MC_CHECK(rv_same(r, v), "changed", "converting changed %s", rv_text(r));

	as_val* w = rebuild(r);
	mc_step();
	MC_CHECK(as_val_hashcode(w) == h, "hash", "two equal values %s hash to %08x and %08x", rv_text(r), h, as_val_hashcode(w));
	check_text(r, w, " (made another way)");
	MC_CHECK(rv_same(r, w), "changed", "rendering or hashing changed %s", rv_text(r));
	as_val_destroy(v);
	as_val_destroy(w);

	if (r->k == R_DBL && r->d == 0.0) {
		as_double z, m;
		as_double_init(&z, 0.0);
		as_double_init(&m, -0.0);
		MC_CHECK(as_val_hashcode((as_val*)&z) == as_val_hashcode((as_val*)&m), "hash-zero", "0.0 and -0.0 are equal but hash to %08x and %08x",
			as_val_hashcode((as_val*)&z), as_val_hashcode((as_val*)&m));
		as_double_destroy(&z);
		as_double_destroy(&m);
	}
}

// ---- lengths around the steps in which the text grows --------------------------
// Element texts of every length in windows around the places where list and map
// rendering extend their output.
static uint32_t window(int w)
{
	return w < 8 ? (uint32_t)w : w < 58 ? (uint32_t)(980 + w - 8) : w < 78 ? (uint32_t)(246 + w - 58) : (uint32_t)(1260 + w - 78);
}
#define WINDOW 108

static void sc_growth(void)
{
	rv_reset();
	int form = mc_choose(6);
	uint32_t a = window(mc_choose(WINDOW));
	uint32_t b = window(mc_choose(WINDOW));
	rv* x = rv_fill(R_STR, a, 0);
	rv* y = rv_fill(R_STR, b, 0);
	rv* r;
	switch (form) {
	case 0: r = rv_seq(R_LIST, 2); r->c[0] = x; r->c[1] = y; break;
	case 1: r = rv_seq(R_MAP, 1); r->c[0] = x; r->c[1] = y; break;
	case 2: r = rv_seq(R_LIST, 3); r->c[0] = x; r->c[1] = y; r->c[2] = rv_int(7); break;
	case 3:
		r = rv_seq(R_MAP, 2);
		r->c[0] = rv_int(1); r->c[1] = x;
		r->c[2] = rv_int(2); r->c[3] = y;
		break;
	case 4: r = rv_seq(R_LIST, 3); r->c[0] = rv_int(7); r->c[1] = x; r->c[2] = y; break;
	default:
		r = rv_seq(R_LIST, 1);
		r->c[0] = rv_seq(R_MAP, 2);
		r->c[0]->c[0] = rv_int(1); r->c[0]->c[1] = x;
		r->c[0]->c[2] = rv_str("k"); r->c[0]->c[3] = rv_seq(R_LIST, 1);
		r->c[0]->c[3]->c[0] = y;
		break;
	}
	check_value(r);
}

// Many short elements: every alignment of the element texts to the growth steps.
static void sc_many(void)
{
	rv_reset();
	int map = mc_choose(2), width = mc_choose(mc_pick(4, 12));
	uint32_t n = (uint32_t)mc_choose(mc_pick(700, 2500));
	if (!mc_thorough() && n > 40 && n % 5) mc_prune();
	rv* r = rv_seq(map ? R_MAP : R_LIST, n);
	for (uint32_t i = 0; i < n; i++) {
		rv* e = rv_fill(R_STR, (uint32_t)width, 0);
		if (map) { r->c[2 * i] = rv_int(i); r->c[2 * i + 1] = e; }
		else r->c[i] = e;
	}
	check_value(r);
}

// ---- pairs and absent elements ---------------------------------------------------
static rv* place_scalar(int w) { return w == RV_SCALARS ? NULL : rv_scalar(w); }

static void expect_text(as_val* v, const char* what)
{
	text[tlen] = 0;
	mc_state(mc_hash(77, text, tlen));
	mc_log("%s: expecting %s", what, cut(text));
	uint64_t live = mc_alloc_live;
	mc_step();
	char* s = as_val_tostring(v);
	MC_CHECK(s != NULL, "no-text", "%s renders as nothing, expected %s", what, cut(text));
	MC_CHECK(same_text(s), "text", "%s renders as %s, expected %s", what, cut(s), cut(text));
	free(s);
	MC_CHECK(mc_alloc_live == live, "leak", "rendering %s left %lld blocks", what, (long long)(mc_alloc_live - live));
}

static void sc_pairs(void)
{
	rv_reset();
	text_begin();
	rv* a = place_scalar(mc_choose(RV_SCALARS + 1));
	rv* b = place_scalar(mc_choose(RV_SCALARS + 1));
	int where = mc_choose(5);
	as_val* va = a ? rv_build(a) : NULL;
	as_val* vb = b ? rv_build(b) : NULL;
	switch (where) {
	case 0: {
		as_pair* p = as_pair_new(va, vb);
		tputs("("); render(a); tputs(", "); render(b); tputs(")");
		expect_text((as_val*)p, "a pair");
		MC_CHECK(as_pair_1(p) == va && as_pair_2(p) == vb, "changed", "rendering changed a pair");
		MC_CHECK(as_pair_fromval((as_val*)p) == p && as_pair_toval(p) == (as_val*)p && as_list_fromval((as_val*)p) == NULL &&
			as_map_fromval((as_val*)p) == NULL && as_integer_fromval((as_val*)p) == NULL, "conversion", "conversions of a pair");
		uint32_t h = as_val_hashcode(p);
		as_pair q;
		as_pair_init(&q, a ? rebuild(a) : NULL, b ? rebuild(b) : NULL);
		MC_CHECK(as_val_hashcode(&q) == h, "hash", "two equal pairs hash differently");
		as_val_destroy(&q);
		as_pair_destroy(p);
		break;
	}
	case 1: {
		// In a list, between others.
		as_arraylist* l = as_arraylist_new(4, 4);
		as_arraylist_append(l, (as_val*)as_pair_new(va, vb));
		as_arraylist_append_int64(l, 3);
		tputs("[("); render(a); tputs(", "); render(b); tputs("), 3]");
		expect_text((as_val*)l, "a list with a pair");
		as_arraylist_destroy(l);
		break;
	}
	case 2: {
		// In a map.
		as_orderedmap* m = as_orderedmap_new(4);
		as_orderedmap_set(m, (as_val*)as_integer_new(1), (as_val*)as_pair_new(va, vb));
		as_orderedmap_set(m, (as_val*)as_integer_new(2), (as_val*)as_integer_new(9));
		tputs("{1:("); render(a); tputs(", "); render(b); tputs("), 2:9}");
		expect_text((as_val*)m, "a map with a pair");
		as_orderedmap_destroy(m);
		break;
	}
	case 3: {
		// Elements of a list set past its end leave absent ones before them.
		as_arraylist* l = as_arraylist_new(1, 4);
		if (va) as_arraylist_append(l, va);
		as_arraylist_set(l, 2, vb ? vb : (as_val*)as_integer_new(5));
		uint32_t n = as_arraylist_size(l);
		tputs("[");
		if (va) { render(a); tputs(", "); }
		else tputs("<NULL>, ");
		tputs("<NULL>, ");
		if (vb) render(b);
		else tputs("5");
		tputs("]");
		if (n == 3 && as_arraylist_get(l, 1) == NULL) expect_text((as_val*)l, "a list with absent elements");
		as_arraylist_destroy(l);
		break;
	}
	default: {
		// Two values of a map.
		as_orderedmap* m = as_orderedmap_new(4);
		as_orderedmap_set(m, (as_val*)as_integer_new(1), va ? va : (as_val*)&as_nil);
		as_orderedmap_set(m, (as_val*)as_integer_new(2), vb ? vb : (as_val*)&as_nil);
		tputs("{1:");
		if (a) render(a);
		else tputs("NIL");
		tputs(", 2:");
		if (b) render(b);
		else tputs("NIL");
		tputs("}");
		expect_text((as_val*)m, "a map of two");
		as_orderedmap_destroy(m);
		break;
	}
	}
}

// Texts on either side of 2^16 characters, next to one another.
static void sc_long(void)
{
	static const uint32_t len[] = { 0, 3, 65528, 65533, 65534, 65535, 65536, 65537, 131072 };
	rv_reset();
	int form = mc_choose(6);
	rv* x = rv_fill(R_STR, len[mc_choose(9)], 0);
	rv* y = rv_fill(R_STR, len[mc_choose(9)], 0);
	rv* r;
	switch (form) {
	case 0: {
		text_begin();
		as_pair* p = as_pair_new(rv_build(x), rv_build(y));
		tputs("("); render(x); tputs(", "); render(y); tputs(")");
		expect_text((as_val*)p, "a pair");
		as_pair_destroy(p);
		return;
	}
	case 1: r = rv_seq(R_LIST, 2); r->c[0] = x; r->c[1] = y; break;
	case 2: r = rv_seq(R_MAP, 1); r->c[0] = x; r->c[1] = y; break;
	case 3:
		r = rv_seq(R_MAP, 2);
		r->c[0] = rv_int(1); r->c[1] = x;
		r->c[2] = rv_int(2); r->c[3] = y;
		break;
	case 4: r = rv_seq(R_LIST, 3); r->c[0] = x; r->c[1] = y; r->c[2] = rv_fill(R_BYTES, 40, 0); break;
	default:
		r = rv_seq(R_LIST, 2);
		r->c[0] = rv_fill(R_BYTES, x->len, 0);
		r->c[1] = rv_fill(R_GEO, y->len, 0);
		break;
	}
	check_value(r);
}

// ---- constants, absent values, records --------------------------------------------
static uint32_t rec_hash(const as_rec* r) { (void)r; return 0x1234; }
static bool rec_destroy(as_rec* r) { (void)r; return true; }
static const as_rec_hooks rhooks = { .destroy = rec_destroy, .hashcode = rec_hash };

static void sc_special(void)
{
	rv_reset();
	text_begin();
	switch (mc_choose(7)) {
	case 0: tputs("NIL"); expect_text((as_val*)&as_nil, "nil"); break;
	case 1: tputs("*"); expect_text((as_val*)&as_cmp_wildcard, "the wildcard"); break;
	case 2: tputs("INF"); expect_text((as_val*)&as_cmp_inf, "infinity"); break;
	case 3: {
		mc_step();
		as_val* nv = NULL;
		MC_CHECK(as_val_tostring(nv) == NULL && as_val_hashcode(nv) == 0 && !as_val_tobool(nv), "null", "an absent value has text, hash or truth");
		MC_CHECK(!as_boolean_fromval(nv) && !as_integer_fromval(nv) && !as_double_fromval(nv) && !as_string_fromval(nv) && !as_geojson_fromval(nv) &&
			!as_bytes_fromval(nv) && !as_list_fromval(nv) && !as_map_fromval(nv) && !as_rec_fromval(nv) && !as_pair_fromval(nv), "null", "an absent value converts");
		MC_CHECK(as_boolean_get(NULL) == false && as_boolean_tobool(NULL) == false && as_boolean_getorelse(NULL, true) == true && as_boolean_getorelse(NULL, false) == false &&
			as_integer_get(NULL) == 0 && as_integer_toint(NULL) == 0 && as_integer_getorelse(NULL, -5) == -5 && as_double_get(NULL) == 0.0 && as_double_getorelse(NULL, 2.5) == 2.5 &&
			as_string_get(NULL) == NULL && as_geojson_get(NULL) == NULL && as_bytes_get(NULL) == NULL, "fallback", "fallbacks of absent values");
		char fb[] = "f";
		MC_CHECK(as_string_getorelse(NULL, fb) == fb && as_geojson_getorelse(NULL, fb) == fb && as_bytes_getorelse(NULL, (uint8_t*)fb) == (uint8_t*)fb,
			"fallback", "fallbacks of absent values");
		mc_state(1);
		break;
	}
	case 4: {
		as_rec r;
		as_rec_init(&r, NULL, &rhooks);
		tputs("[ REC ]");
		expect_text((as_val*)&r, "a record");
		MC_CHECK(as_val_hashcode(&r) == 0x1234, "hash", "the hash of a record is not its provider's");
		MC_CHECK(as_rec_fromval((as_val*)&r) == &r && !as_map_fromval((as_val*)&r) && !as_list_fromval((as_val*)&r) && as_rec_toval(&r) == (as_val*)&r,
			"conversion", "conversions of a record");
		as_rec_destroy(&r);
		break;
	}
	case 5: {
		// Text without content.
		as_string s;
		as_geojson g;
		as_string_init(&s, NULL, false);
		as_geojson_init(&g, NULL, false);
		mc_step();
		char* a = as_val_tostring(&s);
		char* b = as_val_tostring(&g);
		free(a);
		free(b);
		MC_CHECK(as_string_len(&s) == 0 && as_geojson_len(&g) == 0, "null-text", "text without content has a length");
		as_arraylist* l = as_arraylist_new(2, 2);
		as_arraylist_append(l, (as_val*)as_string_new(NULL, false));
		as_arraylist_append_int64(l, 1);
		tputs("[<NULL>, 1]");
		expect_text((as_val*)l, "a list with text without content");
		as_arraylist_destroy(l);
		as_string_destroy(&s);
		as_geojson_destroy(&g);
		break;
	}
	default: {
		as_boolean* t = as_boolean_new(true);
		as_boolean* f = as_boolean_new(false);
		MC_CHECK(as_val_hashcode(t) == as_val_hashcode(&as_true) && as_val_hashcode(f) == as_val_hashcode(&as_false), "hash", "boolean hashes");
		as_boolean_destroy(t);
		as_boolean_destroy(f);
		mc_state(2);
		break;
	}
	}
}

// ---- typed access to containers -------------------------------------------------------
// A container holding one value of each kind: every typed getter on every element.
static void sc_typed(void)
{
	rv_reset();
	int w = mc_choose(RV_SCALARS + 3);
	rv* r = w < RV_SCALARS ? rv_scalar(w) : w == RV_SCALARS ? rv_seq(R_LIST, 0) : w == RV_SCALARS + 1 ? rv_seq(R_MAP, 0) : NULL;
	mc_state(mc_hash_u64(5, (uint64_t)w));
	mc_log("element %s", r ? rv_text(r) : "absent");
	as_val* v = r ? rv_build(r) : NULL;
	bool map = mc_choose(2);
	int setter = mc_choose(3);	// as a value, from C, as an object
	as_arraylist* l = NULL;
	as_orderedmap* m = NULL;
	if (!map) {
		l = as_arraylist_new(4, 4);
		as_arraylist_append_int64(l, 99);
		if (v) as_arraylist_append(l, v);
	}
	else {
		m = as_orderedmap_new(4);
		as_stringmap_set_int64((as_map*)m, "j", 99);
		if (v) {
			as_map* mm = (as_map*)m;
			if (setter == 0) MC_CHECK(as_stringmap_set(mm, "k", v) == 0, "set", "setting an entry failed");
			else {
				int rc = 0;
				if (setter == 2) switch (r->k) {
				case R_INT: rc = as_stringmap_set_integer(mm, "k", (as_integer*)v); break;
				case R_DBL: rc = as_stringmap_set_as_double(mm, "k", (as_double*)v); break;
				case R_STR: rc = as_stringmap_set_string(mm, "k", (as_string*)v); break;
				default: mc_prune();
				}
				else switch (r->k) {
				case R_INT: as_val_destroy(v); rc = as_stringmap_set_int64(mm, "k", r->i); break;
				case R_DBL: as_val_destroy(v); rc = as_stringmap_set_double(mm, "k", r->d); break;
				case R_STR: as_val_destroy(v); rc = as_stringmap_set_str(mm, "k", (const char*)r->s); break;
				case R_BYTES: rc = as_stringmap_set_bytes(mm, "k", (as_bytes*)v); break;
				case R_LIST: rc = as_stringmap_set_list(mm, "k", (as_list*)v); break;
				case R_MAP: rc = as_stringmap_set_map(mm, "k", (as_map*)v); break;
				default: rc = as_stringmap_set(mm, "k", v); break;
				}
				MC_CHECK(rc == 0, "set", "setting an entry failed");
				v = as_stringmap_get(mm, "k");
				MC_CHECK(rv_same(r, v), "set-content", "the typed setter stored something else than %s", rv_text(r));
			}
		}
	}
	mc_steps(10);
#define GET(x) (map ? (void*)as_stringmap_get_##x((as_map*)m, "k") : (void*)as_list_get_##x((as_list*)l, 1))
#define ALG(x) (map ? (void*)as_stringmap_get_##x((as_map*)m, "k") : (void*)as_arraylist_get_##x(l, 1))
	MC_CHECK((map ? as_stringmap_get((as_map*)m, "k") : as_list_get((as_list*)l, 1)) == v, "getter", "the element is not what was put in");
	struct { const char* n; void* p; void* q; bool want; } t[] = {
		{ "integer", GET(integer), ALG(integer), r && r->k == R_INT },
		{ "double", GET(as_double), ALG(as_double), r && r->k == R_DBL },
		{ "string", GET(string), ALG(string), r && r->k == R_STR },
		{ "bytes", GET(bytes), ALG(bytes), r && r->k == R_BYTES },
		{ "list", GET(list), ALG(list), r && r->k == R_LIST },
		{ "map", GET(map), ALG(map), r && r->k == R_MAP },
	};
	for (size_t i = 0; i < sizeof t / sizeof *t; i++) {
		void* want = t[i].want ? v : NULL;
		MC_CHECK(t[i].p == want && t[i].q == want, "getter", "%s fetched as %s gives %s", r ? rv_text(r) : "absent element", t[i].n, want ? "nothing or another object" : "something");
	}
	int64_t n = map ? as_stringmap_get_int64((as_map*)m, "k") : as_list_get_int64((as_list*)l, 1);
	MC_CHECK(n == (r && r->k == R_INT ? r->i : 0), "getter", "%s fetched as a number gives %lld", r ? rv_text(r) : "absent element", (long long)n);
	double d = map ? as_stringmap_get_double((as_map*)m, "k") : as_list_get_double((as_list*)l, 1);
	MC_CHECK(d == (r && r->k == R_DBL ? r->d : 0), "getter", "%s fetched as a double gives %g", r ? rv_text(r) : "absent element", d);
	char* s = map ? as_stringmap_get_str((as_map*)m, "k") : as_list_get_str((as_list*)l, 1);
	MC_CHECK(r && r->k == R_STR ? s && strcmp(s, (const char*)r->s) == 0 : s == NULL, "getter", "%s fetched as text gives %s", r ? rv_text(r) : "absent element", s ? s : "null");
	if (map) {
		MC_CHECK(as_stringmap_get_int64((as_map*)m, "j") == 99, "getter", "the other entry");
		as_orderedmap_destroy(m);
	}
	else as_arraylist_destroy(l);
}


// Blobs whose text has a size beyond 32 bits, without the memory for it.
static void sc_far(void)
{
	static const uint32_t sizes[] = { 0x2AAAAAAA, 0x2AAAAAAB, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x40000010, 0x55555555, 0x55555556, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF };
	static uint8_t* mem;
	if (!mem) {
		mem = mmap(NULL, (size_t)1 << 32, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (mem == MAP_FAILED) mc_error("cannot map memory");
	}
	uint32_t n = sizes[mc_choose(12)];
	as_bytes b;
	as_bytes_init_wrap(&b, mem, n, false);
	mc_step();
	char* s = as_val_tostring((as_val*)&b);
	MC_CHECK(!s, "far", "text of a blob of %u bytes without the memory for it", n);
	as_bytes_destroy(&b);
	mc_state(n);
}

const mc_scenario mc_scenarios[] = {
	{ "growth", sc_growth, 2, "6 shapes x two element texts with lengths 0..7, 246..265, 980..1029, 1260..1289" },
	{ "many", sc_many, 2, "lists and maps of up to 700 (2500) short elements" },
	{ "pairs", sc_pairs, 1, "all pairs of 23 elements (22 scalars, absent) in 5 placements" },
	{ "long", sc_long, 2, "two texts of 9 lengths across 2^16 in 6 placements" },
	{ "special", sc_special, 1, "constants, absent values, records, text without content" },
	{ "typed", sc_typed, 1, "25 elements x list/string map x generic/typed setter x every typed getter" },
	VS_SCENARIOS,
	{ "far", sc_far, 1, "blobs of 12 sizes around 2^30, 2^31 and 2^32 in memory of 64 MB" },
	{ NULL } };
