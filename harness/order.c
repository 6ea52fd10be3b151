// C08: the order of values is total and agrees with the order of their bytes.
#include "wire.h"

static uint8_t bufa[1 << 20], bufb[1 << 20];
static guarded ga, gb;

static int sign(msgpack_compare_t c, const char* how, const rv* a, const rv* b)
{
	switch (c) {
	case MSGPACK_COMPARE_LESS: return -1;
	case MSGPACK_COMPARE_EQUAL: return 0;
	case MSGPACK_COMPARE_GREATER: return 1;
	default: mc_violation("error", "comparing %s of %s with %s reports an error (%d)", how, rv_text(a), rv_text(b), c);
	}
}

static const char* word(int s) { return s < 0 ? "less" : s > 0 ? "greater" : "equal"; }

// Both directions on the bytes, with other bytes around the items.
static void check_wire(const rv* a, const rv* b, int want)
{
	bufa[0] = 0xc1;
	bufb[0] = bufb[1] = 0xc1;
	size_t na = rv_encode(a, bufa + 1, sizeof bufa - 8), nb = rv_encode(b, bufb + 2, sizeof bufb - 8);
	memset(bufa + 1 + na, 0x01, 3);
	memset(bufb + 2 + nb, 0x02, 3);
	uint8_t* pa = guard_put(&ga, bufa, na + 1 + 3);
	uint8_t* pb = guard_put(&gb, bufb, nb + 2 + 3);
	for (int dir = 0; dir < 2; dir++) {
		as_unpacker ua = { .buffer = pa, .offset = 1, .length = (uint32_t)na + 4 };
		as_unpacker ub = { .buffer = pb, .offset = 2, .length = (uint32_t)nb + 5 };
		mc_step();
		int s = sign(dir ? as_unpack_compare(&ub, &ua) : as_unpack_compare(&ua, &ub), "bytes", dir ? b : a, dir ? a : b);
		if (dir) s = -s;
		MC_CHECK(s == want, "wire-order", "bytes of %s compare as %s to %s, should be %s", rv_text(a), word(s), rv_text(b), word(want));
		MC_CHECK(ua.offset == 1 + na && ub.offset == 2 + nb, "cursor", "comparing %s with %s (%s) left the cursors at %u of %zu and %u of %zu",
			rv_text(a), rv_text(b), word(want), ua.offset - 1, na, ub.offset - 2, nb);
	}
	mc_step();
	int s = sign(as_unpack_buf_compare(pa + 1, (uint32_t)na, pb + 2, (uint32_t)nb), "buffers", a, b);
	MC_CHECK(s == want, "buffer-order", "buffers of %s compare as %s to %s, should be %s", rv_text(a), word(s), rv_text(b), word(want));
	MC_CHECK(as_unpack_buf_is_less(pa + 1, (uint32_t)na, pb + 2, (uint32_t)nb) == (want < 0), "is-less", "%s is-less %s is wrong", rv_text(a), rv_text(b));
}

static void check_pair(const rv* a, const rv* b)
{
	int want = rv_cmp(a, b);
	if (mc_verbose()) mc_log("%s is %s to %s", rv_text(a), word(want), rv_text(b));
	as_val* va = rv_build(a);
	as_val* vb = rv_build(b);
	mc_steps(3);
	int s = sign(as_val_cmp(va, vb), "values", a, b);
	MC_CHECK(s == want, "order", "%s compares as %s to %s, should be %s", rv_text(a), word(s), rv_text(b), word(want));
	s = sign(as_val_cmp(vb, va), "values", b, a);
	MC_CHECK(s == -want, "antisymmetry", "%s compares as %s to %s, should be %s", rv_text(b), word(s), rv_text(a), word(-want));
	s = sign(as_val_cmp(va, va), "values", a, a);
	MC_CHECK(s == 0, "reflexive", "%s compares as %s to itself", rv_text(a), word(s));
	MC_CHECK(rv_same(a, va) && rv_same(b, vb), "changed", "comparing changed a value");
	as_val_destroy(va);
	as_val_destroy(vb);
	check_wire(a, b, want);
	mc_state(mc_hash(mc_hash(9, ga.data, ga.len), gb.data, gb.len));
}

static void set_flags(rv* r, uint8_t f)
{
	if (r->k == R_MAP) r->flags = f;
	uint32_t n = r->k == R_MAP ? 2 * r->n : r->k == R_LIST ? r->n : 0;
	for (uint32_t i = 0; i < n; i++) set_flags(r->c[i], f);
}

static void sc_trees(void)
{
	rv_reset();
	int which = mc_choose(3);
	// Maps of both sides carry the same flags: flags are not part of the order of values.
	rv_gen_opt o;
	int ba, bb;
	if (which == 0) { o = (rv_gen_opt){ RV_SCALARS, true, true, 1 }; ba = mc_pick(2, 2); bb = mc_pick(2, 3); }
	else if (which == 1) { o = (rv_gen_opt){ 4, true, true, 1 }; ba = 3; bb = mc_pick(3, 4); }
	else { o = (rv_gen_opt){ 2, false, false, 1 }; ba = 4; bb = mc_pick(4, 5); }
	rv* a = rv_gen(&ba, &o);
	rv* b = rv_gen(&bb, &o);
	uint8_t f = mc_flip() ? 1 : 0;
	set_flags(a, f);
	set_flags(b, f);
	check_pair(a, b);
}

static int64_t edge(int w)
{
	uint64_t p = 1ULL << (w / 4 % 64);
	switch (w % 4) {
	case 0: return (int64_t)(p - 1);
	case 1: return (int64_t)p;
	case 2: return (int64_t)(0 - p);
	default: return (int64_t)(0 - p - 1);
	}
}

static void sc_ints(void)
{
	rv_reset();
	check_pair(rv_int(edge(mc_choose(256))), rv_int(edge(mc_choose(256))));
}

static void sc_doubles(void)
{
	rv_reset();
	static const double d[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 1e308, -1e308, 4.9e-324, -4.9e-324, 1.0 / 3, 16777217.0, 9007199254740993.0, __builtin_inf(), -__builtin_inf(), 2.0, -2.0 };
	check_pair(rv_dbl(d[mc_choose(16)]), rv_dbl(d[mc_choose(16)]));
}

static void sc_texts(void)
{
	rv_reset();
	static const uint32_t len[] = { 0, 1, 2, 3, 30, 31, 32, 254, 255, 256, 65534, 65535, 65536 };
	static const rkind k[] = { R_STR, R_GEO, R_BYTES };
	int kind = mc_choose(3), nl = mc_pick(11, 13);
	rv* a = rv_fill(k[kind], len[mc_choose(nl)], 4);
	rv* b = rv_fill(k[kind], len[mc_choose(nl)], (uint8_t)mc_pick(4, 4));
	int where = mc_choose(5), how = mc_choose(4);
	uint32_t m = a->len < b->len ? a->len : b->len;
	uint32_t at = where == 1 ? 0 : where == 2 ? m / 2 : m - 1;
	if (where && m == 0) mc_prune();
	static const uint8_t x[] = { 1, 0x7f, 0x80, 0xff };
	if (where == 4) { if (a->len < 2) mc_prune(); at = 1; }
	if (where && at < a->len) ((uint8_t*)a->s)[at] = x[how];
	if (!where && how) mc_prune();
	check_pair(a, b);
	// Wrapped, so that what follows must be found.
	rv* la = rv_seq(R_LIST, 2); la->c[0] = a; la->c[1] = rv_int(1);
	rv* lb = rv_seq(R_LIST, 2); lb->c[0] = b; lb->c[1] = rv_int(2);
	check_pair(la, lb);
	// As map keys (text and blobs only).
	if (kind != 1) {
		rv* ma = rv_seq(R_MAP, 1); ma->c[0] = a; ma->c[1] = rv_int(1);
		rv* mb = rv_seq(R_MAP, 1); mb->c[0] = b; mb->c[1] = rv_int(0);
		check_pair(ma, mb);
	}
}

// Long lists and maps that differ in one place.
static void sc_wide(void)
{
	rv_reset();
	static const uint32_t len[] = { 15, 16, 17, 300, 65535, 65536 };
	bool map = mc_flip();
	int nl = mc_pick(4, 6);
	uint32_t na = len[mc_choose(nl)], nb = len[mc_choose(nl)];
	uint8_t f = mc_flip() ? 1 : 0;
	int where = mc_choose(4), part = mc_choose(map ? 2 : 1);
	rv* r[2];
	for (int s = 0; s < 2; s++) {
		uint32_t n = s ? nb : na;
		r[s] = rv_seq(map ? R_MAP : R_LIST, n);
		if (map) r[s]->flags = f;
		for (uint32_t i = 0; i < n; i++) {
			if (map) { r[s]->c[2 * i] = rv_int(2 * i); r[s]->c[2 * i + 1] = rv_int(7); }
			else r[s]->c[i] = rv_int(i);
		}
	}
	uint32_t m = na < nb ? na : nb;
	uint32_t at = where == 1 ? 0 : where == 2 ? m / 2 : m - 1;
	if (where) {
		if (!map) r[1]->c[at] = rv_str("x");
		else if (part) r[1]->c[2 * at + 1] = rv_nil();
		else r[1]->c[2 * at] = rv_int(2 * at + 1);
	}
	check_pair(r[0], r[1]);
}

// Sizes on either side of 2^16, and ones that would agree if cut to 16 bits.
static void sc_far(void)
{
	rv_reset();
	static const uint32_t len[] = { 1, 65535, 65536, 65537 };
	bool map = mc_flip();
	uint32_t n[2] = { len[mc_choose(4)], len[mc_choose(4)] };
	uint8_t f = mc_flip() ? 1 : 0;
	if (f && !map) mc_prune();
	int differ = mc_choose(2);
	rv* r[2];
	for (int s = 0; s < 2; s++) {
		r[s] = rv_seq(map ? R_MAP : R_LIST, n[s]);
		if (map) r[s]->flags = f;
		for (uint32_t i = 0; i < n[s]; i++) {
			rv* e = rv_int(s && differ && i + 1 == n[s] ? 8 : 7);
			if (map) { r[s]->c[2 * i] = rv_int(i); r[s]->c[2 * i + 1] = e; }
			else r[s]->c[i] = e;
		}
	}
	check_pair(r[0], r[1]);
}

static rv* inner(int w)
{
	rv* r;
	switch (w) {
	case 0: return rv_int(1);
	case 1: return rv_int(2);
	case 2: return rv_str("a");
	case 3: return rv_seq(R_LIST, 0);
	case 4: r = rv_seq(R_LIST, 1); r->c[0] = rv_int(1); return r;
	case 5: r = rv_seq(R_LIST, 2); r->c[0] = rv_int(1); r->c[1] = rv_int(1); return r;
	case 6: return rv_seq(R_MAP, 0);
	case 7: r = rv_seq(R_MAP, 1); r->c[0] = rv_int(1); r->c[1] = rv_int(1); return r;
	case 8: r = rv_seq(R_MAP, 2); r->c[0] = rv_int(1); r->c[1] = rv_int(1); r->c[2] = rv_int(2); r->c[3] = rv_nil(); return r;
	case 9: return rv_new(R_WILD);
	case 10: return rv_new(R_INF);
	case 11: r = rv_seq(R_LIST, 2); r->c[0] = rv_new(R_WILD); r->c[1] = rv_int(3); return r;
	case 12: r = rv_seq(R_MAP, 1); r->c[0] = rv_int(1); r->c[1] = rv_int(2); return r;
	case 13: r = rv_seq(R_MAP, 2); r->c[0] = rv_int(1); r->c[1] = rv_int(1); r->c[2] = rv_int(3); r->c[3] = rv_nil(); return r;
	default: r = rv_seq(R_MAP, 2); r->c[0] = rv_int(0); r->c[1] = rv_int(1); r->c[2] = rv_int(2); r->c[3] = rv_nil(); return r;
	}
}
#define INNERS 15

// Deep chains. Every level has something after the nested part, so that a
// cursor left in the wrong place is seen; one level differs in what follows.
static rv* chain(int depth, int pat, uint8_t f, rv* r, int lv, int extra)
{
	for (int i = 0; i < depth; i++) {
		int n = i == lv ? extra : 1;
		bool map = pat == 1 || pat == 4 || ((pat == 2 || pat == 5) && (i & 1)) || (pat == 3 && !(i & 1));
		rv* p = rv_seq(map ? R_MAP : R_LIST, (uint32_t)(1 + n));
		if (map && pat >= 4) {	// nested in the key
			p->flags = f;
			p->c[0] = r;
			p->c[1] = rv_int(i);
			for (int k = 0; k < n; k++) { p->c[2 + 2 * k] = rv_dbl(1 + k); p->c[3 + 2 * k] = rv_bool(k == 0); }
		}
		else if (map) {
			p->flags = f;
			p->c[0] = rv_int(0);
			p->c[1] = r;
			for (int k = 0; k < n; k++) { p->c[2 + 2 * k] = rv_int(1 + k); p->c[3 + 2 * k] = rv_bool(k == 0); }
		}
		else {
			p->c[0] = r;
			for (int k = 0; k < n; k++) p->c[1 + k] = rv_int(i);
		}
		r = p;
	}
	return r;
}

static void sc_depth(void)
{
	rv_reset();
	static const int depths[] = { 1, 2, 255, 256, 257, 258, 512, 513, 3, 254, 259, 511, 514, 768, 769, 770 };
	int depth = depths[mc_choose(mc_pick(8, 16))];
	int pat = mc_choose(6);
	uint8_t f = mc_flip() ? 1 : 0;
	int lvsel = mc_choose(5);
	int lv = lvsel == 0 ? 0 : lvsel == 1 ? depth - 1 : lvsel == 2 ? depth - 256 : lvsel == 3 ? depth - 257 : depth / 2;
	if (lv < 0 || lv >= depth) mc_prune();
	int ea = mc_choose(3), eb = mc_choose(3);
	// Quick: fewer innermost values where the depth makes them expensive.
	static const int some[] = { 0, 8, 13, 11, 1, 14, 4, 9 };
	bool all = mc_thorough() || depth <= 3;
	int few = lvsel >= 2 ? 4 : 8;
	int x = all ? mc_choose(INNERS) : some[mc_choose(few)], y = all ? mc_choose(INNERS) : some[mc_choose(few)];
	if (!all && lvsel >= 2 && ea == eb && ea != 1) mc_prune();
	if (f && pat == 0) mc_prune();
	if (pat >= 4 && ((x >= 9 && x <= 11) || (y >= 9 && y <= 11))) mc_prune();	// no markers in keys
	rv* ia = inner(x); rv* ib = inner(y);
	set_flags(ia, f); set_flags(ib, f);
	rv* a = chain(depth, pat, f, ia, lv, ea); rv* b = chain(depth, pat, f, ib, lv, eb);
	if (pat < 4) check_pair(a, b);
	else {	// such keys exist only as bytes
		check_wire(a, b, rv_cmp(a, b));
		mc_state(mc_hash(mc_hash(10, ga.data, ga.len), gb.data, gb.len));
	}
}

// The library's own answers on all triples.
static void sc_triples(void)
{
	rv_reset();
	rv_gen_opt o = { RV_SCALARS, false, true, 1 };
	rv* r[3]; as_val* v[3];
	for (int i = 0; i < 3; i++) { int b = mc_pick(1, 2) == 2 && i == 1 ? 2 : 1; r[i] = rv_gen(&b, &o); v[i] = rv_build(r[i]); }
	mc_steps(3);
	int ab = sign(as_val_cmp(v[0], v[1]), "values", r[0], r[1]);
	int bc = sign(as_val_cmp(v[1], v[2]), "values", r[1], r[2]);
	int ac = sign(as_val_cmp(v[0], v[2]), "values", r[0], r[2]);
	if (ab <= 0 && bc <= 0) MC_CHECK(ac <= 0 && (ac < 0) == (ab < 0 || bc < 0), "transitivity", "%s %s %s %s %s but the first is %s to the last",
		rv_text(r[0]), word(ab), rv_text(r[1]), word(bc), rv_text(r[2]), word(ac));
	for (int i = 0; i < 3; i++) as_val_destroy(v[i]);
}

// Extension items and list metadata order by type, then contents.
static void sc_ext(void)
{
	uint8_t x[2][24];
	size_t n[2];
	int t[2], l[2], d[2];
	int place = mc_choose(3);
	for (int s = 0; s < 2; s++) {
		static const int types[] = { 0, 1, 3, 0x80, 0xfe };
		static const int lens[] = { 0, 1, 2, 3, 4, 8, 16 };
		t[s] = types[mc_choose(5)]; l[s] = lens[mc_choose(7)]; d[s] = mc_choose(3);
		if (l[s] == 0 && d[s]) mc_prune();
		rv_out = x[s]; rv_len = 0; rv_cap = sizeof x[s];
		if (place == 1) { rv_put(0x82); }
		if (place == 2) { rv_put(0x92); }
		int fx = l[s] == 1 ? 0xd4 : l[s] == 2 ? 0xd5 : l[s] == 4 ? 0xd6 : l[s] == 8 ? 0xd7 : l[s] == 16 ? 0xd8 : 0;
		if (fx) rv_put((uint8_t)fx); else { rv_put(0xc7); rv_put((uint8_t)l[s]); }
		rv_put((uint8_t)t[s]);
		for (int i = 0; i < l[s]; i++) rv_put((uint8_t)(i == l[s] - 1 ? d[s] * 100 : 7));
		if (place == 1) { rv_put(0xc0); rv_put(0x01); rv_put(0x02); }
		if (place == 2) rv_put(0x05);
		n[s] = rv_len;
	}
	int want = rv_sgn(t[0], t[1]);
	if (!want) {
		uint8_t p[2][16];
		for (int s = 0; s < 2; s++) for (int i = 0; i < l[s]; i++) p[s][i] = (uint8_t)(i == l[s] - 1 ? d[s] * 100 : 7);
		int m = l[0] < l[1] ? l[0] : l[1];
		int c = m ? memcmp(p[0], p[1], (size_t)m) : 0;
		want = c ? (c < 0 ? -1 : 1) : rv_sgn(l[0], l[1]);
	}
	uint8_t* a = guard_put(&ga, x[0], n[0]);
	uint8_t* b = guard_put(&gb, x[1], n[1]);
	as_unpacker ua = { .buffer = a, .offset = 0, .length = (uint32_t)n[0] }, ub = { .buffer = b, .offset = 0, .length = (uint32_t)n[1] };
	mc_step();
	msgpack_compare_t c = as_unpack_compare(&ua, &ub);
	mc_state(mc_hash(mc_hash(4, x[0], n[0]), x[1], n[1]));
	MC_CHECK((int)c - 1 == want, "ext-order", "%s compares as %d to %s, should be %s", w_hex(x[0], n[0]), c, w_hex(x[1], n[1]), word(want));
	MC_CHECK(ua.offset == n[0] && ub.offset == n[1], "cursor", "comparing %s with %s left the cursors at %u and %u", w_hex(x[0], n[0]), w_hex(x[1], n[1]), ua.offset, ub.offset);
}

const mc_scenario mc_scenarios[] = {
	{ "trees", sc_trees, 3, "all pairs of trees: 3 nodes over 22 scalars and markers, 4 nodes over 4 scalars and markers, 5 nodes over 2 scalars; 2 flags" },
	{ "ints", sc_ints, 1, "all pairs of 256 integers around powers of two" },
	{ "doubles", sc_doubles, 1, "all pairs of 16 doubles" },
	{ "texts", sc_texts, 2, "all pairs of 11 (13) lengths across the encoding widths, 5 places of difference, 4 byte values, 3 kinds, bare and wrapped" },
	{ "wide", sc_wide, 2, "lists and maps of 15..300 (65536) elements differing nowhere or in one of 3 places" },
	{ "far", sc_far, 2, "lists and maps of 1, 65535, 65536, 65537 elements, all pairs, last element same or not" },
	{ "depth", sc_depth, 3, "depths 1, 2, 255..258, 512, 513 (3, 254, 259, 511, 514, 768..770) x 6 patterns (nested in lists, map values, map keys) x 15x15 innermost values x 5 levels with 0..2 siblings on either side" },
	{ "triples", sc_triples, 2, "all triples of trees of up to 2 nodes" },
	{ "ext", sc_ext, 2, "all pairs of 105 extension items bare, as map metadata, as list metadata" },
	{ NULL } };
