// C06: predicted sizes equal the bytes written; a caller's buffer of any
// capacity is never overrun nor replaced.
#include "valscen.h"
#include <citrusleaf/alloc.h>

static uint8_t* expect;
#define EXPECT_CAP (40u << 20)

static void check_value(const rv* r)
{
	if (!expect) expect = mc_raw_malloc(EXPECT_CAP);
	size_t n = rv_encode(r, expect, EXPECT_CAP);
	mc_log("value %s: %zu bytes", rv_text(r), n);
	mc_state(mc_hash(1, expect, n));
	as_val* v = rv_build(r);
	as_serializer* ser = as_msgpack_new();
	mc_step();
	uint32_t sz = as_serializer_serialize_getsize(ser, v);
	MC_CHECK(sz == n, "predicted", "size of %s predicted as %u, encoding has %zu", rv_text(r), sz, n);
	uint8_t* buf = malloc(n);
	mc_step();
	int32_t w = as_serializer_serialize_presized(ser, v, buf);
	MC_CHECK(w >= 0 && (size_t)w == n, "written", "%s: wrote %d bytes, predicted %zu", rv_text(r), w, n);
	MC_CHECK(memcmp(buf, expect, n) == 0, "presized-bytes", "%s: wrong bytes in the presized buffer", rv_text(r));
	free(buf);
	// Measuring with the packing interface itself, from a non-zero position.
	as_packer pk;
	memset(&pk, 0, sizeof pk);
	pk.offset = 3;
	mc_step();
	int rc = as_pack_val(&pk, v);
	MC_CHECK(rc == 0 && pk.offset == n + 3 && !pk.buffer && !pk.head, "measure", "%s: measured %u bytes, encoding has %zu", rv_text(r), pk.offset - 3, n);
	// And the size read back from the bytes.
	uint8_t* in = malloc(n);
	memcpy(in, expect, n);
	as_unpacker up = { .buffer = in, .offset = 0, .length = (uint32_t)n };
	mc_step();
	int64_t m = as_unpack_size(&up);
	MC_CHECK(m == (int64_t)n && up.offset == n, "item-size", "%s: size of the item in the bytes is %lld (cursor %u), really %zu", rv_text(r), (long long)m, up.offset, n);
	free(in);
	as_val_destroy(v);
	as_serializer_destroy(ser);
}

// ---- item level ------------------------------------------------------------------
enum { I_NIL, I_BOOL, I_INF, I_WILD, I_U64, I_I64, I_FLOAT, I_DOUBLE, I_BYTES, I_STR, I_STRHDR, I_BIN, I_BINHDR, I_LIST, I_MAP, I_EXT, I_BUFEXT, I_APPEND, I_N };
static const char* iname[] = { "nil", "bool", "inf", "wildcard", "uint64", "int64", "float", "double", "bytes", "str", "str header", "bin",
	"bin header", "list header", "map header", "ext header", "ext header (buffer)", "append" };

static const uint8_t* payload;
static uint8_t ref[80000];
static size_t refn;

typedef struct { int item; int64_t i; double d; uint32_t n; uint8_t t; } item;

static void ref_bin_head(uint32_t n) { rv_enc_head(n, 0, 0, 0xc4, 0xc5, 0xc6); }

static void ref_item(const item* x)
{
	rv_out = ref; rv_len = 0; rv_cap = sizeof ref;
	switch (x->item) {
	case I_NIL: rv_put(0xc0); break;
	case I_BOOL: rv_put(x->i ? 0xc3 : 0xc2); break;
	case I_INF: rv_put(0xd4); rv_put(0xff); rv_put(1); break;
	case I_WILD: rv_put(0xd4); rv_put(0xff); rv_put(0); break;
	case I_U64:
		if (x->i < 0) { rv_put(0xcf); rv_be((uint64_t)x->i, 8); }
		else rv_enc_int(x->i);
		break;
	case I_I64: rv_enc_int(x->i); break;
	case I_FLOAT: { float f = (float)x->d; uint32_t u; memcpy(&u, &f, 4); rv_put(0xca); rv_be(u, 4); break; }
	case I_DOUBLE: { uint64_t u; memcpy(&u, &x->d, 8); rv_put(0xcb); rv_be(u, 8); break; }
	case I_BYTES: rv_enc_head(x->n + 1, 0xa0, 31, 0xd9, 0xda, 0xdb); rv_put(4); rv_putn(payload, x->n); break;
	case I_STR: rv_enc_head(x->n, 0xa0, 31, 0xd9, 0xda, 0xdb); rv_putn(payload, x->n); break;
	case I_STRHDR: rv_enc_head(x->n, 0xa0, 31, 0xd9, 0xda, 0xdb); break;
	case I_BIN: case I_BINHDR:
		if (x->n <= 0xff) { rv_put(0xc4); rv_be(x->n, 1); }
		else if (x->n <= 0xffff) { rv_put(0xc5); rv_be(x->n, 2); }
		else { rv_put(0xc6); rv_be(x->n, 4); }
		if (x->item == I_BIN) rv_putn(payload, x->n);
		break;
	case I_LIST: rv_enc_head(x->n, 0x90, 15, 0, 0xdc, 0xdd); break;
	case I_MAP: rv_enc_head(x->n, 0x80, 15, 0, 0xde, 0xdf); break;
	case I_EXT: case I_BUFEXT:
		switch (x->n) {
		case 1: rv_put(0xd4); break;
		case 2: rv_put(0xd5); break;
		case 4: rv_put(0xd6); break;
		case 8: rv_put(0xd7); break;
		case 16: rv_put(0xd8); break;
		default:
			if (x->n <= 0xff) { rv_put(0xc7); rv_be(x->n, 1); }
			else if (x->n <= 0xffff) { rv_put(0xc8); rv_be(x->n, 2); }
			else { rv_put(0xc9); rv_be(x->n, 4); }
		}
		rv_put(x->t);
		break;
	case I_APPEND: rv_putn(payload, x->n); break;
	}
	refn = rv_len;
}

static int pack_item(as_packer* pk, const item* x)
{
	switch (x->item) {
	case I_NIL: return as_pack_nil(pk);
	case I_BOOL: return as_pack_bool(pk, x->i != 0);
	case I_INF: return as_pack_cmp_inf(pk);
	case I_WILD: return as_pack_cmp_wildcard(pk);
	case I_U64: return as_pack_uint64(pk, (uint64_t)x->i);
	case I_I64: return as_pack_int64(pk, x->i);
	case I_FLOAT: return as_pack_float(pk, (float)x->d);
	case I_DOUBLE: return as_pack_double(pk, x->d);
	case I_BYTES: return as_pack_bytes(pk, payload, x->n);
	case I_STR: return as_pack_str(pk, payload, x->n);
	case I_STRHDR: return as_pack_str(pk, NULL, x->n);
	case I_BIN: return as_pack_bin(pk, payload, x->n);
	case I_BINHDR: return as_pack_bin(pk, NULL, x->n);
	case I_LIST: return as_pack_list_header(pk, x->n);
	case I_MAP: return as_pack_map_header(pk, x->n);
	case I_EXT: return as_pack_ext_header(pk, x->n, x->t);
	case I_APPEND: return as_pack_append(pk, payload, x->n);
	}
	return -99;
}

// The size function that goes with the item, or -1.
static int64_t size_item(const item* x)
{
	switch (x->item) {
	case I_NIL: return as_pack_nil_size();
	case I_BOOL: return as_pack_bool_size();
	case I_INF: return as_pack_cmp_inf_size();
	case I_WILD: return as_pack_cmp_wildcard_size();
	case I_U64: return as_pack_uint64_size((uint64_t)x->i);
	case I_I64: return as_pack_int64_size(x->i);
	case I_FLOAT: return as_pack_float_size();
	case I_DOUBLE: return as_pack_double_size();
	case I_STR: return as_pack_str_size(x->n);
	case I_STRHDR: return (int64_t)as_pack_str_size(x->n) - x->n;
	case I_BIN: return as_pack_bin_size(x->n);
	case I_BINHDR: return (int64_t)as_pack_bin_size(x->n) - x->n;
	case I_LIST: return as_pack_list_header_get_size(x->n);
	case I_MAP: return as_pack_map_header_get_size(x->n);
	case I_EXT: case I_BUFEXT: return as_pack_ext_header_get_size(x->n);
	}
	return -1;
}

static void one_capacity(const item* x, uint32_t cap, uint32_t start)
{
	// malloc'ed to the byte, so that the sanitizer sees the first byte outside.
	uint8_t* buf = malloc(cap ? cap : 1);
	memset(buf, 0xee, cap ? cap : 1);
	bool fits = refn <= cap - start;
	mc_step();
	if (x->item == I_BUFEXT) {
		int rc = as_pack_buf_ext_header(buf, cap, x->n, x->t);
		MC_CHECK((rc == 0) == fits, "fit", "%s of %u into %u bytes: returned %d, needs %zu", iname[x->item], x->n, cap, rc, refn);
		MC_CHECK(!fits || memcmp(buf, ref, refn) == 0, "bytes", "%s of %u: wrong bytes", iname[x->item], x->n);
	}
	else {
		as_packer pk;
		memset(&pk, 0, sizeof pk);
		pk.buffer = buf;
		pk.capacity = cap;
		pk.offset = start;
		int rc = pack_item(&pk, x);
		MC_CHECK(pk.buffer == buf && !pk.head && !pk.tail && pk.capacity == cap, "buffer-switched",
			"%s of %u/%lld into %u bytes at %u: the packer left the caller's buffer", iname[x->item], x->n, (long long)x->i, cap, start);
		MC_CHECK((rc == 0) == fits, "fit", "%s of %u/%lld into %u bytes at %u: returned %d, needs %zu", iname[x->item], x->n, (long long)x->i, cap, start, rc, refn);
		if (fits) {
			MC_CHECK(pk.offset == start + refn, "offset", "%s: cursor at %u after %zu bytes from %u", iname[x->item], pk.offset, refn, start);
			MC_CHECK(memcmp(buf + start, ref, refn) == 0, "bytes", "%s of %u/%lld: wrong bytes", iname[x->item], x->n, (long long)x->i);
		}
		else MC_CHECK(pk.offset <= cap, "offset-past", "%s: cursor at %u past the %u byte buffer after a failure", iname[x->item], pk.offset, cap);
		for (uint32_t i = 0; i < start; i++) MC_CHECK(buf[i] == 0xee, "before", "%s: wrote before its position", iname[x->item]);
		for (uint32_t i = start + (uint32_t)refn; fits && i < cap; i++) MC_CHECK(buf[i] == 0xee, "after", "%s: wrote after its end", iname[x->item]);
	}
	free(buf);
}

static void check_item(const item* x)
{
	ref_item(x);
	mc_log("item %s n=%u i=%lld: %zu bytes", iname[x->item], x->n, (long long)x->i, refn);
	mc_state(mc_hash_u64(mc_hash_u64(mc_hash_u64((uint64_t)x->item, x->n), (uint64_t)x->i), x->t));
	int64_t s = size_item(x);
	MC_CHECK(s < 0 || (uint64_t)s == refn, "predicted-item", "%s of %u/%lld: size predicted %lld, needs %zu", iname[x->item], x->n, (long long)x->i, (long long)s, refn);
	if (x->item != I_BUFEXT) {
		as_packer pk;
		memset(&pk, 0, sizeof pk);
		mc_step();
		int rc = pack_item(&pk, x);
		MC_CHECK(rc == 0 && pk.offset == refn && !pk.buffer, "measure-item", "%s of %u: measured %u, needs %zu", iname[x->item], x->n, pk.offset, refn);
	}
	// Every capacity around what is needed, every small capacity.
	uint32_t lo = 0, hi = (uint32_t)refn + 3;
	for (uint32_t start = 0; start <= 3; start += 3) {
		if (x->item == I_BUFEXT && start) continue;
		for (uint32_t c = lo; c <= hi; c++) {
			if (refn > 400 && c > 20 && c + 20 < refn) continue;
			one_capacity(x, c + start, start);
			mc_case();
		}
	}
}

static void sc_items(void)
{
	static uint8_t pay[70000];
	for (int i = 0; i < 70000; i++) pay[i] = (uint8_t)(i * 11 + 1);
	payload = pay;
	item x = { .item = mc_choose(I_N) };
	switch (x.item) {
	case I_BOOL: x.i = mc_choose(2); break;
	case I_U64: case I_I64: x.i = vs_int(mc_choose(65 * 6)); break;
	case I_FLOAT: case I_DOUBLE: x.d = vs_dbl[mc_choose(VS_NDBL)]; if (x.item == I_FLOAT && (x.d > 3.5e38 || x.d < -3.5e38)) x.d = 0.25; break;
	case I_BYTES: case I_STR: case I_BIN: case I_APPEND: {
		int w = mc_choose(270 + 20);
		x.n = w < 270 ? (uint32_t)w : (uint32_t)(65536 - 10 + w - 270);
		break;
	}
	case I_STRHDR: case I_BINHDR: case I_LIST: case I_MAP: case I_EXT: case I_BUFEXT: {
		int w = mc_choose(300 + 12);
		static const uint32_t big[] = { 65534, 65535, 65536, 65537, 131072, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffff9u, 0xfffffffau, 1 << 24, 70000 };
		x.n = w < 300 ? (uint32_t)w : big[w - 300];
		if (x.item == I_EXT || x.item == I_BUFEXT) { static const uint8_t t[] = { 0, 1, 0x80, 0xff }; x.t = t[mc_choose(4)]; }
		break;
	}
	}
	check_item(&x);
}

// A length that wraps the position must be refused, not copied.
static void sc_wrap(void)
{
	static uint8_t pay[16];
	payload = pay;
	static const uint32_t lens[] = { 0xffffffffu, 0xfffffffeu, 0xfffffff8u, 0xfffffff0u, 0x80000000u, 0x7fffffffu };
	uint32_t n = lens[mc_choose(6)];
	uint32_t cap = (uint32_t)mc_range(1, 24), start = (uint32_t)mc_choose(24);
	if (start > cap) mc_prune();
	int which = mc_choose(4);
	uint8_t* buf = malloc(cap);
	as_packer pk;
	memset(&pk, 0, sizeof pk);
	pk.buffer = buf;
	pk.capacity = cap;
	pk.offset = start;
	mc_log("append of %#x bytes at %u of %u, kind %d", n, start, cap, which);
	mc_state(mc_hash_u64(mc_hash_u64(mc_hash_u64(n, cap), start), (uint64_t)which));
	mc_step();
	if (which == 2 && n == 0xffffffffu) mc_prune();	// one more than that cannot be expressed
	int rc = which == 0 ? as_pack_append(&pk, payload, n) : which == 1 ? as_pack_str(&pk, payload, n) :
		which == 2 ? as_pack_bytes(&pk, payload, n) : as_pack_bin(&pk, payload, n);
	MC_CHECK(rc != 0, "wrap", "%u bytes reported as packed into %u bytes at %u", n, cap, start);
	MC_CHECK(pk.buffer == buf && !pk.head, "buffer-switched", "the packer left the caller's buffer");
	free(buf);
}

// Several items packed one after another into one buffer of every capacity.
static void sc_sequence(void)
{
	static uint8_t pay[64];
	memset(pay, 'q', sizeof pay);
	payload = pay;
	static const item kinds[] = { { I_I64, 5 }, { I_I64, 200 }, { I_I64, -70000 }, { I_DOUBLE, 0, 1.5 }, { I_STR, 0, 0, 3 }, { I_BIN, 0, 0, 2 },
		{ I_BYTES, 0, 0, 33 }, { I_LIST, 0, 0, 16 }, { I_EXT, 0, 0, 0, 1 }, { I_WILD }, { I_NIL } };
	int len = mc_pick(3, 4);
	item seq[4];
	size_t need = 0;
	for (int i = 0; i < len; i++) { seq[i] = kinds[mc_choose(11)]; ref_item(&seq[i]); need += refn; }
	for (uint32_t cap = 1; cap <= need + 1; cap++) {
		uint8_t* buf = malloc(cap);
		as_packer pk;
		memset(&pk, 0, sizeof pk);
		pk.buffer = buf;
		pk.capacity = cap;
		uint32_t at = 0;
		for (int i = 0; i < len; i++) {
			ref_item(&seq[i]);
			bool fits = at + refn <= cap;
			mc_step();
			int rc = pack_item(&pk, &seq[i]);
			MC_CHECK((rc == 0) == fits, "fit", "item %d (%s) at %u of %u: returned %d, needs %zu", i, iname[seq[i].item], at, cap, rc, refn);
			MC_CHECK(pk.buffer == buf && !pk.head, "buffer-switched", "item %d (%s): the packer left the caller's buffer", i, iname[seq[i].item]);
			if (!fits) break;
			MC_CHECK(memcmp(buf + at, ref, refn) == 0, "bytes", "item %d (%s): wrong bytes", i, iname[seq[i].item]);
			at += (uint32_t)refn;
			MC_CHECK(pk.offset == at, "offset", "cursor %u, expected %u", pk.offset, at);
		}
		mc_case();
		mc_state(mc_hash_u64(mc_hash(7, seq, sizeof(item) * (size_t)len), cap));
		free(buf);
	}
}

const mc_scenario mc_scenarios[] = {
	{ "items", sc_items, 2, "18 item kinds x boundary parameters x all capacities 0..need+3 (lengths over 400: 20 at each end) x 2 positions" },
	{ "wrap", sc_wrap, 2, "lengths near 2^31 and 2^32 at every position of 1..24 byte buffers" },
	{ "sequence", sc_sequence, 2, "all sequences of 3 (4) items of 11 kinds x all capacities" },
	VS_SCENARIOS,
	VS_WIRE_SCENARIOS,
	{ NULL } };
