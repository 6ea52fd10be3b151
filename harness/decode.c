// C07: decoding arbitrary bytes is safe.
#include "wire.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

static guarded ga, gb;

// Largest single allocation allowed for an input of n bytes.
static uint64_t alloc_bound(size_t n) { return 40960 + 256 * (uint64_t)n; }

#define START uint32_t L = (uint32_t)n; as_unpacker pk = { .buffer = b, .offset = 0, .length = L }; mc_step()
#define INSIDE(name) MC_CHECK(pk.offset <= L, name "-cursor", "%s: cursor at %u after success on %u bytes: %s", name, pk.offset, L, w_hex(b, n))

static void decode_val(const uint8_t* b, size_t n, int64_t rs)
{
	START;
	as_val* v = NULL;
	mc_alloc_largest = 0;
	int rc = as_unpack_val(&pk, &v);
	MC_CHECK(mc_alloc_largest <= alloc_bound(n), "memory", "decoding %zu bytes allocated %llu at once: %s", n,
		(unsigned long long)mc_alloc_largest, w_hex(b, n));
	if (rc == 0) {
		MC_CHECK(rs >= 0, "accepted", "decoding succeeded on bytes that hold no complete item: %s", w_hex(b, n));
		MC_CHECK(pk.offset == rs, "consumed", "decoding consumed %u bytes of an item of %lld: %s", pk.offset, (long long)rs, w_hex(b, n));
		if (v) {
			// What came out must be usable.
			char* s = as_val_tostring(v);
			free(s);
			as_val_destroy(v);
		}
	}
	else MC_CHECK(v == NULL, "value-on-failure", "failed decoding left a value: %s", w_hex(b, n));
}

static void decode_rest(const uint8_t* b, size_t n, int64_t rs)
{
	witem w;
	bool head = w_head(b, n, &w);
	{ START; int64_t s = as_unpack_size(&pk);
	  if (s >= 0) MC_CHECK(s == rs && pk.offset == rs, "size", "item size %lld (cursor %u), really %lld: %s", (long long)s, pk.offset, (long long)rs, w_hex(b, n));
	}
	{ START; (void)as_unpack_peek_type(&pk); MC_CHECK(pk.offset == 0, "peek", "peeking moved the cursor"); (void)as_unpack_buf_peek_type(b, L); }
	{ START; (void)as_unpack_peek_is_ext(&pk); }
	{ START; bool v = false; if (as_unpack_boolean(&pk, &v) == 0) { INSIDE("boolean"); MC_CHECK(head && w.k == W_BOOL, "boolean", "read a boolean from %s", w_hex(b, n)); } }
	{ START; if (as_unpack_nil(&pk) == 0) { INSIDE("nil"); MC_CHECK(head && w.k == W_NIL, "nil", "read nil from %s", w_hex(b, n)); } }
	{ START; int64_t v = 0; if (as_unpack_int64(&pk, &v) == 0) { INSIDE("int64"); MC_CHECK(head && w.k == W_INT, "int64", "read an integer from %s", w_hex(b, n)); } }
	{ START; uint64_t v = 0; if (as_unpack_uint64(&pk, &v) == 0) { INSIDE("uint64"); MC_CHECK(head && w.k == W_INT, "uint64", "read an integer from %s", w_hex(b, n)); } }
	{ START; double v = 0; if (as_unpack_double(&pk, &v) == 0) { INSIDE("double"); MC_CHECK(head && (w.k == W_FLT || w.k == W_DBL), "double", "read a double from %s", w_hex(b, n)); } }
	{ START; if (as_unpack_blob_size(&pk) >= 0) { INSIDE("blob-size"); MC_CHECK(head && w.k == W_BLOB, "blob-size", "read a blob length from %s", w_hex(b, n)); } }
	for (int i = 0; i < 2; i++) {
		START;
		uint32_t sz = 0;
		const uint8_t* p = i ? as_unpack_bin(&pk, &sz) : as_unpack_str(&pk, &sz);
		if (p) {
			INSIDE("str");
			MC_CHECK(p >= b && p <= b + n && sz <= (size_t)(b + n - p), "str-range", "text of %u bytes at %td reported inside %zu bytes: %s", sz, p - b, n, w_hex(b, n));
			MC_CHECK(rs >= 0 && w.k == W_BLOB, "str", "read text from %s", w_hex(b, n));
		}
	}
	{ START; as_msgpack_ext e; memset(&e, 0, sizeof e);
	  if (as_unpack_ext(&pk, &e) == 0) {
		INSIDE("ext");
		MC_CHECK(e.data >= b && e.data <= b + n && e.size <= (size_t)(b + n - e.data), "ext-range", "extension of %u bytes reported inside %zu bytes: %s", e.size, n, w_hex(b, n));
		MC_CHECK(rs >= 0 && w.k == W_EXT, "ext", "read an extension from %s", w_hex(b, n));
	  }
	}
	{ START; if (as_unpack_list_header_element_count(&pk) >= 0) { INSIDE("list-header"); MC_CHECK(head && w.k == W_LIST, "list-header", "read a list header from %s", w_hex(b, n)); } (void)as_unpack_buf_list_element_count(b, L); }
	{ START; if (as_unpack_map_header_element_count(&pk) >= 0) { INSIDE("map-header"); MC_CHECK(head && w.k == W_MAP, "map-header", "read a map header from %s", w_hex(b, n)); } (void)as_unpack_buf_map_element_count(b, L); }
}

static void compare2(const uint8_t* a, size_t na, int64_t ra, const uint8_t* b, size_t nb, int64_t rb)
{
	as_unpacker p1 = { .buffer = a, .offset = 0, .length = (uint32_t)na };
	as_unpacker p2 = { .buffer = b, .offset = 0, .length = (uint32_t)nb };
	mc_step();
	msgpack_compare_t c = as_unpack_compare(&p1, &p2);
	if (c == MSGPACK_COMPARE_LESS || c == MSGPACK_COMPARE_EQUAL || c == MSGPACK_COMPARE_GREATER) {
		MC_CHECK(ra >= 0 && rb >= 0, "compared", "comparison succeeded on incomplete items: %s / %s", w_hex(a, na), w_hex(b, nb));
		MC_CHECK(p1.offset <= na && p2.offset <= nb, "compare-cursor", "comparison left the cursors at %u of %zu and %u of %zu: %s / %s",
			p1.offset, na, p2.offset, nb, w_hex(a, na), w_hex(b, nb));
	}
	msgpack_compare_t c2 = as_unpack_buf_compare(a, (uint32_t)na, b, (uint32_t)nb);
	MC_CHECK(c == c2, "compare-buf", "comparing buffers gives %d, comparing cursors %d", c2, c);
}

static void run_all(const uint8_t* src, size_t n)
{
	int64_t rs = w_size(src, n);
	uint8_t* b = guard_put(&ga, src, n);
	if (mc_verbose()) mc_log("input %s: %s", w_hex(src, n), rs < 0 ? "no complete item" : "complete item");
	mc_state(mc_hash(n, src, n));
	decode_val(b, n, rs);
	decode_rest(b, n, rs);
	// Against itself and against one of each kind.
	uint8_t* o = guard_put(&gb, src, n);
	compare2(b, n, rs, o, n, rs);
}

static const uint8_t partners[][8] = {
	{ 1, 0xc0 }, { 1, 0xc2 }, { 1, 5 }, { 3, 0xa2, 3, 'a' }, { 2, 0x91, 1 }, { 1, 0x90 }, { 3, 0x81, 1, 2 }, { 1, 0x80 }, { 3, 0xa2, 4, 'a' },
	{ 5, 0xca, 0, 0, 0, 0 }, { 3, 0xd4, 0xff, 0 }, { 3, 0xd4, 0xff, 1 }, { 3, 0xd4, 1, 1 }, { 6, 0x82, 0xc7, 0, 1, 0xc0, 1 }, { 6, 0x81, 0xc7, 0, 1, 0xc0, 0 }, { 1, 0xa0 }, { 3, 0x92, 1, 1 } };
#define NPART ((int)(sizeof partners / sizeof *partners))

static void run_partners(const uint8_t* src, size_t n)
{
	int64_t rs = w_size(src, n);
	uint8_t* b = guard_put(&ga, src, n);
	for (int i = 0; i < NPART; i++) {
		size_t pn = partners[i][0];
		int64_t pr = w_size(partners[i] + 1, pn);
		uint8_t* o = guard_put(&gb, partners[i] + 1, pn);
		compare2(b, n, rs, o, pn, pr);
		compare2(o, pn, pr, b, n, rs);
	}
}

static void sc_bytes(void)
{
	uint8_t s[3];
	int n = mc_choose(4);
	for (int i = 0; i < n; i++) s[i] = (uint8_t)mc_choose(256);
	run_all(s, (size_t)n);
	if (n < 3) run_partners(s, (size_t)n);
}

static const uint8_t alpha[] = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x17, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xbf,
	0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8,
	0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff };
#define NALPHA ((int)sizeof alpha)
// The symbols that decide structure, for longer strings.
static const uint8_t alpha2[] = { 0x00, 0x01, 0x03, 0x08, 0x81, 0x82, 0x91, 0x92, 0xa1, 0xa2, 0xc0, 0xc4, 0xc5, 0xc7, 0xc9, 0xca, 0xcd, 0xd4, 0xd9, 0xdc, 0xde, 0xdf, 0xff };
#define NALPHA2 ((int)sizeof alpha2)

static void sc_words(void)
{
	uint8_t s[8];
	int n = 4;
	for (int i = 0; i < n; i++) s[i] = alpha[mc_choose(NALPHA)];
	run_all(s, (size_t)n);
}

static void sc_longer(void)
{
	uint8_t s[8];
	int n = mc_pick(5, 6);
	for (int i = 0; i < n; i++) s[i] = alpha2[mc_choose(NALPHA2)];
	run_all(s, (size_t)n);
}

// All pairs of short strings.
static void sc_pairs(void)
{
	uint8_t a[4], b[4];
	int na = mc_range(1, 2), nb = mc_range(1, mc_pick(2, 3));
	for (int i = 0; i < na; i++) a[i] = alpha[mc_choose(NALPHA)];
	for (int i = 0; i < nb; i++) b[i] = i < 2 ? alpha[mc_choose(NALPHA)] : alpha2[mc_choose(NALPHA2)];
	int64_t ra = w_size(a, (size_t)na), rb = w_size(b, (size_t)nb);
	uint8_t* p = guard_put(&ga, a, (size_t)na);
	uint8_t* q = guard_put(&gb, b, (size_t)nb);
	mc_state(mc_hash(mc_hash(3, a, (size_t)na), b, (size_t)nb));
	if (mc_verbose()) mc_log("compare %s with %s", w_hex(a, (size_t)na), w_hex(b, (size_t)nb));
	compare2(p, (size_t)na, ra, q, (size_t)nb, rb);
}

static uint8_t enc[1 << 16];

// Asks for the entries of every map in their order.
static void keep_order(rv* r)
{
	if (r->k != R_LIST && r->k != R_MAP) return;
	if (r->k == R_MAP) r->flags |= 8;
	for (uint32_t i = 0; i < (r->k == R_MAP ? 2 : 1) * r->n; i++) keep_order(r->c[i]);
}
// Every prefix of every encoding must fail; the encoding followed by anything is fine.
static void sc_truncate(void)
{
	rv_reset();
	int which = mc_choose(3);
	int budget = which == 1 ? mc_pick(5, 6) : which ? mc_pick(4, 5) : mc_pick(3, 4);
	rv_gen_opt o = { which ? 3 : RV_SCALARS, false, false, which == 2 ? 1 : which ? 2 : 4 };
	rv* r = rv_gen(&budget, &o);
	if (which == 2) keep_order(r);
	size_t n = rv_encode(r, enc, sizeof enc);
	for (size_t k = 0; k < n; k++) {
		uint8_t* b = guard_put(&ga, enc, k);
		as_unpacker pk = { .buffer = b, .offset = 0, .length = (uint32_t)k };
		as_val* v = NULL;
		mc_step();
		int rc = as_unpack_val(&pk, &v);
		MC_CHECK(rc != 0 && !v, "truncated", "%zu of %zu bytes of %s were accepted", k, n, rv_text(r));
		as_unpacker ps = { .buffer = b, .offset = 0, .length = (uint32_t)k };
		mc_step();
		MC_CHECK(as_unpack_size(&ps) < 0, "truncated-size", "%zu of %zu bytes of %s were sized", k, n, rv_text(r));
		uint8_t* f = guard_put(&gb, enc, n);
		as_unpacker p1 = { .buffer = b, .offset = 0, .length = (uint32_t)k }, p2 = { .buffer = f, .offset = 0, .length = (uint32_t)n };
		mc_step();
		msgpack_compare_t c = as_unpack_compare(&p1, &p2);
		MC_CHECK(c == MSGPACK_COMPARE_ERROR || c == MSGPACK_COMPARE_END, "truncated-compare", "%zu of %zu bytes of %s compared as %d", k, n, rv_text(r), c);
		decode_rest(b, k, w_size(enc, k));
		mc_case();
	}
	mc_state(mc_hash(5, enc, n));
}

// Every byte of every encoding replaced by every value.
static void sc_corrupt(void)
{
	rv_reset();
	int which = mc_choose(3);
	int budget = which ? mc_pick(4, 5) : mc_pick(2, 3);
	rv_gen_opt o = { which ? 3 : RV_SCALARS, false, false, which == 2 ? 1 : 2 };
	rv* r = rv_gen(&budget, &o);
	if (which == 2) keep_order(r);
	size_t n = rv_encode(r, enc, sizeof enc);
	size_t at = (size_t)mc_choose((int)n);
	uint8_t old = enc[at];
	for (int x = 0; x < 256; x++) {
		if (x == old) continue;
		if (!mc_thorough() && !memchr(alpha, x, sizeof alpha)) continue;
		enc[at] = (uint8_t)x;
		run_all(enc, n);
		mc_case();
	}
}

// Headers that promise more, or less, than there is.
static void sc_lies(void)
{
	static const uint8_t heads[] = { 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf };
	int h = mc_choose(13);
	int wd = h < 3 ? 1 << h : h < 6 ? 1 << (h - 3) : h < 9 ? 1 << (h - 6) : (h & 1) ? 2 : 4;
	int avail = mc_choose(12), nest = mc_choose(4), fill = mc_choose(5);
	static const uint32_t lens[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000,
		0x1000000, 0x1fffffff, 0x20000000, 0x3fffffff, 0x40000000, 0x7ffffffd, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xbfffffffu, 0xfffffff0u,
		0xfffffff4u, 0xfffffff5u, 0xfffffff6u, 0xfffffff7u, 0xfffffff8u, 0xfffffff9u, 0xfffffffau, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu };
	uint32_t len = lens[mc_choose((int)(sizeof lens / sizeof *lens))];
	uint8_t s[64];
	size_t n = 0;
	if (nest == 1) s[n++] = 0x91;
	if (nest == 2) { s[n++] = 0x92; s[n++] = 1; }
	if (nest == 3) { s[n++] = 0x81; s[n++] = 1; }
	s[n++] = heads[h];
	for (int i = wd - 1; i >= 0; i--) s[n++] = (uint8_t)(len >> (8 * i));
	static const uint8_t f[] = { 0, 1, 0x91, 0xc7, 3 };
	for (int i = 0; i < avail; i++) s[n++] = fill == 4 ? (i ? 'a' : 3) : f[fill];
	run_all(s, n);
}

// Deep nesting that ends in something malformed or truncated.
static void sc_deep(void)
{
	int pat = mc_choose(6);
	int w = mc_choose(mc_pick(36, 140));
	static const int around[] = { 1, 255, 512, 768 };
	int depth = mc_thorough() ? around[w / 35] + w % 35 - (w < 35 ? 0 : 15) : around[w / 12] + w % 12 - (w < 12 ? 0 : 5);
	if (depth < 1) mc_prune();
	size_t n = 0;
	for (int i = 0; i < depth; i++) {
		switch (pat) {
		case 0: enc[n++] = 0x91; break;
		case 1: enc[n++] = 0x81; enc[n++] = 1; break;
		case 2: if (i & 1) enc[n++] = 0x91; else { enc[n++] = 0x81; enc[n++] = 2; } break;
		case 3: enc[n++] = 0x92; enc[n++] = 0; break;
		case 4: enc[n++] = 0xdc; enc[n++] = 0; enc[n++] = 1; break;
		default: enc[n++] = 0x82; enc[n++] = 0xc7; enc[n++] = 0; enc[n++] = 1; enc[n++] = 0xc0; enc[n++] = 1; break;
		}
	}
	static const uint8_t tails[][6] = { { 1, 5 }, { 0 }, { 1, 0xc1 }, { 1, 0xcd }, { 1, 0xdc }, { 3, 0xdc, 0, 2 }, { 5, 0xdd, 0xff, 0xff, 0xff, 0xff }, { 1, 0xd4 },
		{ 2, 0xa3, 3 }, { 3, 0x81, 1, 0xc1 }, { 1, 0x90 }, { 1, 0x80 }, { 2, 0x92, 1 }, { 3, 0xd4, 0xff, 0 }, { 3, 0xd4, 0xff, 1 }, { 4, 0x81, 0xc7, 0, 1 } };
	int t = mc_choose((int)(sizeof tails / sizeof *tails));
	memcpy(enc + n, tails[t] + 1, tails[t][0]);
	n += tails[t][0];
	run_all(enc, n);
	// And against a well formed one of the same shape.
	int64_t rs = w_size(enc, n);
	uint8_t* b = guard_put(&ga, enc, n);
	size_t m = n - tails[t][0];
	enc[m++] = 5;
	int64_t ro = w_size(enc, m);
	uint8_t* o = guard_put(&gb, enc, m);
	compare2(b, n, rs, o, m, ro);
	compare2(o, m, ro, b, n, rs);
}

// Nesting without bound, decoded in a child process.
static void sc_stack(void)
{
	static const char* what[] = { "decoding", "sizing", "comparing" };
	static const char* sig[] = { "stack-decode", "stack-size", "stack-compare" };
	int which = mc_choose(3), map = mc_choose(2);
	mc_log("%s %s nested 200000 deep", what[which], map ? "maps" : "lists");
	mc_step();
	mc_state(mc_hash_u64((uint64_t)which, (uint64_t)map));
	pid_t pid = fork();
	if (pid < 0) mc_error("fork failed");
	if (pid == 0) {
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 2);
		dup2(fd, 1);
		size_t n = 0;
		uint8_t* b = mc_raw_malloc(400001);
		for (int i = 0; i < 200000; i++) { if (map) { b[n++] = 0x81; b[n++] = 1; } else b[n++] = 0x91; }
		b[n++] = 5;
		as_unpacker p1 = { .buffer = b, .offset = 0, .length = (uint32_t)n }, p2 = p1;
		as_val* v = NULL;
		if (which == 0) { if (as_unpack_val(&p1, &v) == 0) as_val_destroy(v); }
		else if (which == 1) as_unpack_size(&p1);
		else as_unpack_compare(&p1, &p2);
		_exit(0);
	}
	int st;
	waitpid(pid, &st, 0);
	MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, sig[which], "%s %s nested 200000 deep crashed", what[which], map ? "maps" : "lists");
}

const mc_scenario mc_scenarios[] = {
	{ "stack", sc_stack, 1, "lists and maps nested 200000 deep: decode, size, compare" },
	{ "bytes", sc_bytes, 2, "all byte strings of length 0..3; length <= 2 also compared with 17 others" },
	{ "words", sc_words, 2, "all strings of length 4 over 54 bytes (every tag class)" },
	{ "longer", sc_longer, 2, "all strings of length 5 (6) over 23 bytes" },
	{ "pairs", sc_pairs, 3, "comparison of all pairs of strings of length 1..2 (1..3) over 54 bytes" },
	{ "truncate", sc_truncate, 3, "all prefixes of the encodings of all trees of up to 4 (5) nodes, maps in key order or in the order written" },
	{ "corrupt", sc_corrupt, 3, "every byte of the encodings of all trees of up to 3 (4) nodes, maps in key order or in the order written, replaced by 54 (256) values" },
	{ "lies", sc_lies, 2, "13 headers x 50 lengths x 0..11 bytes present x 4 nestings x 5 fillings" },
	{ "deep", sc_deep, 2, "6 nesting patterns, depths around 1, 256, 512, 768, 16 endings" },
	{ NULL } };
