// C17: byte buffers.
#include "mc.h"
#include <aerospike/as_bytes.h>
#include <alloca.h>
#include <citrusleaf/alloc.h>
#include <stdlib.h>
#include <string.h>

#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)
#define MAXC 4096

static as_bytes* b;
static uint8_t val[MAXC];
static uint8_t known[MAXC];	// the byte's value is determined by the history
static uint32_t size, cap;
static uint32_t vmax;	// variable length integers were written up to here
static uint8_t stamp;

static uint64_t hash_state(void)
{
	uint64_t h = mc_hash_u64(size, cap);
	for (uint32_t i = 0; i < cap && i < 64; i++) h = mc_hash_u64(h, known[i] ? val[i] : 999);
	return h;
}
static void look(void)
{
	MC_CHECK(as_bytes_size(b) == size, "size", "size %u, expected %u", as_bytes_size(b), size);
	MC_CHECK(as_bytes_capacity(b) == cap, "capacity", "capacity %u, expected %u", as_bytes_capacity(b), cap);
	uint32_t sz = 777;
	uint8_t* p = as_bytes_tobytes(b, &sz);
	MC_CHECK(sz == size && p == as_bytes_get(b) && p == as_bytes_getorelse(b, &stamp), "tobytes", "raw access is inconsistent");
	for (uint32_t i = 0; i < cap; i++) if (known[i]) MC_CHECK(p[i] == val[i], "content", "byte %u of %u is %02x, expected %02x", i, size, p[i], val[i]);
	mc_state(hash_state());
}
static void put(uint32_t at, const void* s, uint32_t n)
{
	memcpy(val + at, s, n);
	memset(known + at, 1, n);
	if (at + n > size) size = at + n;
}
static bool fits(uint32_t at, uint64_t n, uint32_t limit) { return (uint64_t)at + n <= limit; }

// Positions around zero, the size, the capacity and the integer limit.
static bool lean;	// fewer positions, lengths and values, for longer histories
static uint32_t pick_at(void)
{
	if (lean) {
		switch (mc_choose(4)) {
		case 0: return 1;
		case 1: return size;
		case 2: if (cap < 2) mc_prune(); return cap - 2;
		default: return UINT32_MAX - 1;
		}
	}
	switch (mc_choose(10)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return size;
	case 3: if (!size) mc_prune(); return size - 1;
	case 4: return cap;
	case 5: if (cap < 2) mc_prune(); return cap - 2;
	case 6: return cap + 1;
	case 7: return UINT32_MAX;
	case 8: return UINT32_MAX - 1;
	default: return UINT32_MAX - 7;
	}
}
static uint32_t pick_len(void)
{
	if (lean) {
		switch (mc_choose(3)) {
		case 0: return 2;
		case 1: return cap;
		default: return UINT32_MAX - 2;
		}
	}
	switch (mc_choose(7)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return 3;
	case 3: return size;
	case 4: return cap;
	case 5: return UINT32_MAX;
	default: return UINT32_MAX - 2;
	}
}

static void var_ref(uint32_t v, uint8_t* out, uint32_t* n)
{
	*n = 0;
	while (v >= 0x80) { out[(*n)++] = (uint8_t)(v | 0x80); v >>= 7; }
	out[(*n)++] = (uint8_t)v;
}

static void op(void)
{
	static uint8_t src[64];
	int o = mc_choose(9);
	stamp = (uint8_t)(stamp * 5 + 17);
	for (int i = 0; i < 64; i++) src[i] = (uint8_t)(stamp + i * 11);
	mc_step();
	switch (o) {
	case 0: {
		uint32_t at = pick_at(), n = pick_len();
		bool ok = fits(at, n, cap);
		if (ok && n > 64) mc_prune();
		SAY("set %u+%u (size %u capacity %u)", at, n, size, cap);
		bool r = as_bytes_set(b, at, src, n);
		MC_CHECK(r == ok, "set", "set of %u at %u in capacity %u returned %d", n, at, cap, r);
		if (ok) put(at, src, n);
		break;
	}
	case 1: {
		uint32_t n = pick_len();
		bool ok = fits(size, n, cap);
		if (ok && n > 64) mc_prune();
		SAY("append %u", n);
		bool r = as_bytes_append(b, src, n);
		MC_CHECK(r == ok, "append", "append of %u to %u in capacity %u returned %d", n, size, cap, r);
		if (ok) put(size, src, n);
		break;
	}
	case 2: {
		int k = mc_choose(5);
		uint32_t at = pick_at();
		static const uint32_t w[] = { 1, 2, 4, 8, 8 };
		int64_t i64; int32_t i32; int16_t i16; double d; uint8_t u8;
		memcpy(&i64, src, 8); memcpy(&i32, src, 4); memcpy(&i16, src, 2); u8 = src[0];
		d = 1.5 + stamp;
		uint8_t raw[8];
		memcpy(raw, src, 8);
		if (k == 4) memcpy(raw, &d, 8);
		bool app = mc_flip();
		if (app && at != (lean ? 1 : 0)) mc_prune();
		if (app) at = size;
		bool ok = fits(at, w[k], cap), r = false;
		SAY("%s of %u bytes at %u", app ? "typed append" : "typed set", w[k], at);
		if (app) switch (k) {
			case 0: r = as_bytes_append_byte(b, u8); break;
			case 1: r = as_bytes_append_int16(b, i16); break;
			case 2: r = as_bytes_append_int32(b, i32); break;
			case 3: r = as_bytes_append_int64(b, i64); break;
			case 4: r = as_bytes_append_double(b, d); break;
		}
		else switch (k) {
			case 0: r = as_bytes_set_byte(b, at, u8); break;
			case 1: r = as_bytes_set_int16(b, at, i16); break;
			case 2: r = as_bytes_set_int32(b, at, i32); break;
			case 3: r = as_bytes_set_int64(b, at, i64); break;
			case 4: r = as_bytes_set_double(b, at, d); break;
		}
		MC_CHECK(r == ok, "typed-set", "typed write of %u at %u in capacity %u returned %d", w[k], at, cap, r);
		if (ok) put(at, raw, w[k]);
		break;
	}
	case 3: {
		uint32_t at = pick_at(), n = pick_len();
		bool ok = fits(at, n, size);
		if (ok && n > 64) mc_prune();
		uint8_t out[80];
		memset(out, 0xE7, sizeof out);
		SAY("copy %u+%u", at, n);
		uint32_t r = as_bytes_copy(b, at, out, n);
		MC_CHECK(r == (ok ? n : 0), "copy", "copy of %u at %u in size %u returned %u", n, at, size, r);
		for (uint32_t i = 0; i < 80; i++) {
			if (ok && i < n) { if (known[at + i]) MC_CHECK(out[i] == val[at + i], "copy-content", "copied byte %u is wrong", i); }
			else MC_CHECK(out[i] == 0xE7, "copy-overrun", "copy wrote outside the %u bytes", n);
		}
		break;
	}
	case 4: {
		int k = mc_choose(5);
		uint32_t at = pick_at();
		static const uint32_t w[] = { 1, 2, 4, 8, 8 };
		bool ok = fits(at, w[k], size);
		union { uint8_t raw[16]; int64_t i64; int32_t i32; int16_t i16; double d; } u;
		memset(&u, 0xE7, sizeof u);
		uint32_t r = 0;
		SAY("typed get of %u at %u", w[k], at);
		switch (k) {
		case 0: r = as_bytes_get_byte(b, at, u.raw); break;
		case 1: r = as_bytes_get_int16(b, at, &u.i16); break;
		case 2: r = as_bytes_get_int32(b, at, &u.i32); break;
		case 3: r = as_bytes_get_int64(b, at, &u.i64); break;
		case 4: r = as_bytes_get_double(b, at, &u.d); break;
		}
		MC_CHECK(r == (ok ? w[k] : 0), "typed-get", "typed read of %u at %u in size %u returned %u", w[k], at, size, r);
		for (uint32_t i = 0; i < 16; i++) {
			if (ok && i < w[k]) { if (known[at + i]) MC_CHECK(u.raw[i] == val[at + i], "typed-get-content", "typed read gave a wrong byte"); }
			else MC_CHECK(u.raw[i] == 0xE7, "typed-get-overrun", "typed read wrote outside the value");
		}
		break;
	}
	case 5: {
		static const uint32_t vs[] = { 0, 127, 128, 16383, 16384, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, UINT32_MAX };
		uint32_t at = pick_at(), v = vs[lean ? mc_choose(3) * 2 : mc_choose(10)], n;
		uint8_t ref[8];
		var_ref(v, ref, &n);
		bool ok = fits(at, n, cap);
		SAY("set variable integer %u at %u", v, at);
		uint32_t r = as_bytes_set_var_int(b, at, v);
		MC_CHECK(r == (ok ? n : 0), "var-set", "variable integer %u at %u in capacity %u returned %u, expected %u", v, at, cap, r, ok ? n : 0);
		if (ok) {
			// The size is not touched by this operation.
			uint32_t s = size;
			put(at, ref, n);
			size = s;
			uint32_t back = 5;
			r = as_bytes_get_var_int(b, at, &back);
			MC_CHECK(r == n && back == v, "var-get", "variable integer %u read back as %u (%u bytes)", v, back, r);
		}
		break;
	}
	case 6: {
		uint32_t n = pick_len();
		bool ok = n <= size;
		SAY("truncate by %u", n);
		bool r = as_bytes_truncate(b, n);
		MC_CHECK(r == ok, "truncate", "truncate by %u of %u returned %d", n, size, r);
		if (ok) size -= n;
		break;
	}
	case 7: {
		static const uint32_t up[] = { 0, 1, 2, 9 };
		int k = mc_choose(6);
		uint32_t want = k == 0 ? 0 : k == 1 ? (cap ? cap - 1 : 0) : cap + up[k - 2];
		bool grow = mc_flip();
		bool ok = want <= cap || grow;
		SAY("ensure %u %d", want, grow);
		bool r = as_bytes_ensure(b, want, grow);
		MC_CHECK(r == ok, "ensure", "ensure of %u at capacity %u returned %d", want, cap, r);
		if (ok && want > cap) {
			// Only the content moves.
			memset(known + size, 0, MAXC - size);
			cap = want;
		}
		break;
	}
	case 8: {
		as_bytes_type t = mc_flip() ? AS_BYTES_JAVA : AS_BYTES_HLL;
		as_bytes_set_type(b, t);
		MC_CHECK(as_bytes_get_type(b) == t, "type", "type not kept");
		break;
	}
	}
	look();
}

static as_bytes bs;
static uint8_t* own;
static void run(int kind, uint32_t c, int depth)
{
	memset(known, 0, sizeof known);
	memset(&bs, 0xA5, sizeof bs);
	stamp = 1;
	size = 0; cap = c; own = NULL; vmax = 0;
	b = &bs;
	static const uint8_t init[16] = { 0x80, 0xff, 0x7f, 0x80, 0x80, 0x80, 0x80, 0x80, 1, 2, 3, 4, 5, 6, 7, 8 };
	switch (kind) {
	case 0: as_bytes_init(b, c); break;
	case 1: b = as_bytes_new(c); break;
	case 2: as_bytes_inita(b, c); break;
	case 3: own = malloc(c ? c : 1); memcpy(own, init, c); as_bytes_init_wrap(b, own, c, false); put(0, init, c); break;
	case 4: { uint8_t* h = cf_malloc(c ? c : 1); memcpy(h, init, c); b = as_bytes_new_wrap(h, c, true); put(0, init, c); break; }
	}
	MC_CHECK(as_bytes_get_type(b) == AS_BYTES_BLOB, "type", "fresh buffer is not a blob");
	look();
	while (depth--) op();
	as_bytes_destroy(b);
	free(own);
}
static void sc_seq(void)
{
	int kind = mc_choose(5);
	uint32_t c = (uint32_t)mc_choose(mc_pick(5, 10));
	if (c == 4) c = 9;
	lean = false;
	run(kind, c, 2);
}
static void sc_deep(void)
{
	static const uint32_t cs[] = { 5, 0, 8 };
	int kind = mc_choose(5);
	lean = true;
	run(kind, cs[mc_choose(mc_pick(2, 3))], mc_pick(3, 4));
}

// Variable length integers: every short byte pattern read at every position.
static void sc_var(void)
{
	static const uint8_t al[] = { 0x00, 0x7f, 0x80, 0xff };
	int n = mc_choose(mc_pick(8, 9));
	uint8_t* raw = malloc(n ? (size_t)n : 1);
	for (int i = 0; i < n; i++) raw[i] = al[mc_choose(4)];
	as_bytes x;
	as_bytes_init_wrap(&x, raw, (uint32_t)n, false);
	for (int at = 0; at <= n; at++) {
		uint64_t v = 0;
		uint32_t used = 0;
		bool end = false;
		for (int i = at; i < n && !end; i++) { v |= (uint64_t)(raw[i] & 0x7f) << (7 * (used > 8 ? 8 : used)); used++; end = !(raw[i] & 0x80); }
		uint32_t got = 4711;
		mc_step();
		uint32_t r = as_bytes_get_var_int(&x, (uint32_t)at, &got);
		if (!end) MC_CHECK(r == 0, "var-truncated", "unfinished variable integer at %d of %d read as %u bytes", at, n, r);
		else if (used <= 5 && v <= UINT32_MAX) MC_CHECK(r == used && got == v, "var-value", "variable integer at %d of %d read as %u (%u bytes), is %llu (%u bytes)", at, n, got, r, (unsigned long long)v, used);
		// An over-long or too large one is either refused or consumed; its value is not specified.
		else MC_CHECK(r == 0 || r == used, "var-long", "over-long variable integer consumed %u of %u bytes", r, used);
	}
	mc_state(mc_hash(3, raw, (size_t)n));
	as_bytes_destroy(&x);
	free(raw);
}

const mc_scenario mc_scenarios[] = {
	{ "seq", sc_seq, 3, "5 storage kinds x capacity 0..3, 9 (0..9) x all pairs of operations with positions and lengths around 0, size, capacity and 2^32" },
	{ "deep", sc_deep, 4, "5 storage kinds x capacity 0, 5 (8) x all sequences of 3 (4) operations with fewer arguments" },
	{ "var", sc_var, 2, "all byte strings of up to 7 (8) of 00, 7f, 80, ff read as variable integer at every position" },
	{ NULL } };
