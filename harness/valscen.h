// Value spaces shared by the serialization checks. The includer defines
// check_value().
#pragma once
#include "val.h"

static void check_value(const rv* r);

static int64_t vs_int(int w)
{
	// 0..388: 2^k - 1, 2^k, 2^k + 1 and the same below zero.
	int k = w / 6, m = w % 6;
	uint64_t p = k < 64 ? (1ULL << k) : 0;
	switch (m) {
	case 0: return (int64_t)(p - 1);
	case 1: return (int64_t)p;
	case 2: return (int64_t)(p + 1);
	case 3: return (int64_t)(0 - p);
	case 4: return (int64_t)(0 - p - 1);
	default: return (int64_t)(0 - p + 1);
	}
}

static const double vs_dbl[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 1e308, -1e308, 4.9e-324, -4.9e-324, 2.2250738585072014e-308,
	1.0 / 3, 16777217.0, 9007199254740993.0, 3.4028234663852886e38, 1e39, __builtin_inf(), -__builtin_inf(), 123456.789 };
#define VS_NDBL ((int)(sizeof vs_dbl / sizeof *vs_dbl))

// Put a value in every kind of place.
static rv* vs_wrap(rv* r, int how)
{
	rv* w;
	switch (how) {
	case 1: w = rv_seq(R_LIST, 2); w->c[0] = r; w->c[1] = rv_int(7); return w;
	case 2: w = rv_seq(R_MAP, 1); w->c[0] = rv_int(1); w->c[1] = r; return w;
	case 3:
		if (!rv_keyable(r)) mc_prune();
		w = rv_seq(R_MAP, 1); w->c[0] = r; w->c[1] = rv_str("v"); w->flags = 1; return w;
	case 4: w = rv_seq(R_LIST, 1); w->c[0] = vs_wrap(r, 2); return w;
	default: return r;
	}
}
#define VS_WRAPS 5

static void sc_scalars(void)
{
	rv_reset();
	int n = 65 * 6;
	int w = mc_choose(n + VS_NDBL + 3);
	rv* r = w < n ? rv_int(vs_int(w)) : w < n + VS_NDBL ? rv_dbl(vs_dbl[w - n]) :
		w == n + VS_NDBL ? rv_nil() : rv_bool(w == n + VS_NDBL + 1);
	check_value(vs_wrap(r, mc_choose(VS_WRAPS)));
}

// Every small integer exhaustively.
static void sc_ints(void)
{
	rv_reset();
	int hi = mc_choose(mc_pick(6, 12));
	static const int64_t base[] = { -128, 0, -32768, 65408, -65536, 2147483520LL, 4294967168LL, -2147483776LL, 8388608, -8388736, INT64_MIN, INT64_MAX - 255 };
	check_value(rv_int(base[hi] + mc_choose(256)));
}

static void sc_lengths(void)
{
	rv_reset();
	int kind = mc_choose(3);
	uint32_t len;
	if (mc_thorough()) len = (uint32_t)mc_choose(70000);
	else {
		int w = mc_choose(300 + 60 + 40);
		len = w < 300 ? (uint32_t)w : w < 360 ? (uint32_t)(8192 - 30 + w - 300) : (uint32_t)(65536 - 20 + w - 360);
	}
	rv* r = rv_fill(kind == 0 ? R_STR : kind == 1 ? R_GEO : R_BYTES, len, 4);
	check_value(vs_wrap(r, len < 300 ? mc_choose(VS_WRAPS) : 0));
}

static void sc_huge(void)
{
	rv_reset();
	static const uint32_t len[] = { 131072, 1 << 20, (1 << 24) - 1, 1 << 24 };
	int kind = mc_choose(3);
	check_value(rv_fill(kind == 0 ? R_STR : kind == 1 ? R_GEO : R_BYTES, len[mc_choose(mc_pick(2, 4))], 4));
}

static void sc_tags(void)
{
	rv_reset();
	int tag = mc_choose(256);
	// These two tags say "text" and "geo" on the wire: such blobs are those kinds.
	if (tag == RV_TAG_STRING || tag == RV_TAG_GEO) mc_prune();
	static const uint32_t len[] = { 0, 1, 2, 30, 31, 254, 255, 256 };
	check_value(vs_wrap(rv_fill(R_BYTES, len[mc_choose(8)], (uint8_t)tag), mc_choose(VS_WRAPS)));
}

static void sc_containers(void)
{
	rv_reset();
	int kind = mc_choose(5);	// list, map with four kinds of flags
	int w = mc_choose(mc_pick(40, 300) + 8);
	uint32_t n = w < 8 ? (uint32_t)(65536 - 4 + w) : (uint32_t)(w - 8);
	int ek = mc_choose(2);
	if (kind == 0) {
		rv* r = rv_seq(R_LIST, n);
		for (uint32_t i = 0; i < n; i++) r->c[i] = ek ? rv_int(i) : rv_nil();
		check_value(r);
		return;
	}
	static const uint8_t fl[] = { 0, 1, 3, 0x11 };
	rv* r = rv_seq(R_MAP, n);
	r->flags = fl[kind - 1];
	char b[16];
	for (uint32_t i = 0; i < n; i++) {
		snprintf(b, sizeof b, "%07u", i);
		r->c[2 * i] = ek ? rv_str(b) : rv_int((int64_t)i - 20);
		r->c[2 * i + 1] = rv_bool(i & 1);
	}
	check_value(r);
}

static void sc_trees(void)
{
	rv_reset();
	int which = mc_choose(2);
	int budget;
	rv_gen_opt o;
	if (which == 0) { budget = mc_pick(4, 5); o = (rv_gen_opt){ RV_SCALARS, false, false, 4 }; }
	else { budget = mc_pick(6, 7); o = (rv_gen_opt){ 3, false, false, 2 }; }
	check_value(rv_gen(&budget, &o));
}

// Chains of nested containers; every pattern of three alternating kinds.
static void sc_depth(void)
{
	rv_reset();
	int pat[3];
	for (int i = 0; i < 3; i++) pat[i] = mc_choose(4);
	int w = mc_choose(mc_pick(60, 1200));
	int depth = mc_thorough() ? w + 1 : w < 20 ? w + 1 : w < 40 ? 256 - 10 + (w - 20) : 512 - 10 + (w - 40);
	rv* r = rv_scalar(mc_choose(3));
	for (int i = 0; i < depth; i++) {
		rv* p;
		switch (pat[i % 3]) {
		case 0: p = rv_seq(R_LIST, 1); p->c[0] = r; break;
		case 1: p = rv_seq(R_LIST, 2); p->c[0] = r; p->c[1] = rv_int(i); break;
		case 2: p = rv_seq(R_MAP, 1); p->flags = i & 1; p->c[0] = rv_int(i); p->c[1] = r; break;
		default:
			p = rv_seq(R_MAP, 2);
			p->flags = 1;
			p->c[0] = rv_int(i); p->c[1] = rv_str("x");
			p->c[2] = rv_str("k"); p->c[3] = r;
			break;
		}
		r = p;
	}
	check_value(r);
}

// Every item placed across the boundaries of the output buffers.
static void sc_boundaries(void)
{
	rv_reset();
	int item = mc_choose(14), back = mc_choose(16), second = mc_choose(3);
	rv* it;
	switch (item) {
	case 0: it = rv_nil(); break;
	case 1: it = rv_bool(true); break;
	case 2: it = rv_int(5); break;
	case 3: it = rv_int(200); break;
	case 4: it = rv_int(300); break;
	case 5: it = rv_int(70000); break;
	case 6: it = rv_int(1LL << 40); break;
	case 7: it = rv_dbl(1.5); break;
	case 8: it = rv_fill(R_STR, 3, 0); break;
	case 9: it = rv_fill(R_BYTES, 40, 4); break;
	case 10: it = rv_fill(R_STR, 300, 0); break;
	case 11: it = rv_fill(R_BYTES, 70000, 4); break;
	case 12: it = rv_seq(R_LIST, 17); for (int i = 0; i < 17; i++) it->c[i] = rv_int(i * 100); break;
	default: it = rv_seq(R_MAP, 17); it->flags = 1; for (int i = 0; i < 17; i++) { it->c[2 * i] = rv_int(i); it->c[2 * i + 1] = rv_str("x"); } break;
	}
	rv* l = rv_seq(R_LIST, second ? 4 : 2);
	// List header (1) + string header (3) + tag (1) + text: the item starts 'back' bytes before the end of 8192.
	l->c[0] = rv_fill(R_STR, 8192 - 5 - (uint32_t)back, 0);
	l->c[1] = it;
	if (second) {
		l->c[2] = rv_fill(R_BYTES, second == 1 ? 8192 - 4 - (uint32_t)back : 8100 + (uint32_t)back * 10, 4);
		l->c[3] = it;
	}
	check_value(l);
}

// Marks that stand for any value and for the greatest one.
static void sc_marks(void)
{
	rv_reset();
	int budget = mc_pick(5, 6);
	check_value(rv_gen(&budget, &(rv_gen_opt){ 2, true, true, 2 }));
}
// Pairs, which are lists of two once written.
static void sc_inpairs(void)
{
	rv_reset();
	int budget = mc_pick(6, 7);
	check_value(rv_gen(&budget, &(rv_gen_opt){ 3, false, false, 1, true }));
}

#define VS_WIRE_SCENARIOS \
	{ "inpairs", sc_inpairs, 3, "all trees of up to 7 (8) nodes of pairs, lists and maps over 3 scalars" }
#define VS_SCENARIOS \
	{ "marks", sc_marks, 3, "all trees of up to 6 (7) nodes over 2 scalars and the two marks" }, \
	{ "scalars", sc_scalars, 1, "2^k and neighbours, both signs, k=0..64; 18 doubles; 5 placements" }, \
	{ "ints", sc_ints, 1, "all integers in 256-wide windows around every width" }, \
	{ "lengths", sc_lengths, 2, "text/geo/blob lengths across 32, 256, 8192, 65536 (thorough: all up to 70000)" }, \
	{ "huge", sc_huge, 1, "128 KB .. 16 MB items" }, \
	{ "tags", sc_tags, 1, "256 blob tags x 8 lengths x 5 placements" }, \
	{ "containers", sc_containers, 2, "list/map sizes 0..40 (thorough 300) and 65532..65539; 4 map flags" }, \
	{ "trees", sc_trees, 3, "all trees of up to 5 (6) nodes over 22 scalars and up to 7 (8) nodes over 3 scalars" }, \
	{ "depth", sc_depth, 3, "64 nesting patterns, depths 1..20, 246..265, 502..521 (thorough 1..1200)" }, \
	{ "boundaries", sc_boundaries, 2, "14 items x 16 positions before the end of an output buffer, also the second one" }
