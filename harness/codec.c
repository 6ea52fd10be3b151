// C18: base64 and hex text.
#define _GNU_SOURCE
#include "mc.h"
#include "alias.h"
#include <aerospike/as_bytes.h>
#include <citrusleaf/cf_b64.h>
#include <stdlib.h>
#include <string.h>

#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)
static const char* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// Exactly sized heap copies: any access outside traps.
static void* exact(const void* p, size_t n) { uint8_t* r = malloc(n ? n : 1); if (n) memcpy(r, p, n); return r; }

static size_t b64_ref(const uint8_t* b, size_t n, char* out)
{
	size_t j = 0;
	for (size_t i = 0; i < n; i += 3) {
		size_t k = n - i < 3 ? n - i : 3;
		uint32_t w = (uint32_t)b[i] << 16 | (k > 1 ? (uint32_t)b[i + 1] << 8 : 0) | (k > 2 ? b[i + 2] : 0);
		out[j++] = AL[w >> 18];
		out[j++] = AL[(w >> 12) & 63];
		out[j++] = k > 1 ? AL[(w >> 6) & 63] : '=';
		out[j++] = k > 2 ? AL[w & 63] : '=';
	}
	return j;
}

static void roundtrip(const uint8_t* src, uint32_t n)
{
	char want[2048];
	size_t wl = b64_ref(src, n, want);
	uint8_t* in = exact(src, n);
	mc_step();
	uint32_t el = cf_b64_encoded_len(n);
	MC_CHECK(el == wl, "b64-len", "predicted length %u for %u bytes, is %zu", el, n, wl);
	char* text = malloc(el ? el : 1);
	cf_b64_encode(in, n, text);
	MC_CHECK(memcmp(text, want, wl) == 0, "b64-encode", "encoding of %u bytes is %.*s, expected %.*s", n, (int)wl, text, (int)wl, want);
	uint32_t bs = cf_b64_decoded_buf_size(el), os = 777;
	MC_CHECK(bs >= n && bs <= n + 2, "b64-bufsize", "decode buffer of %u for %u bytes", bs, n);
	for (int how = 0; how < 5; how++) {
		os = 777;
		if (how < 3) {
			uint8_t* out = malloc(bs ? bs : 1);
			bool ok = true;
			if (how == 0) cf_b64_decode(text, el, out, &os);
			else if (how == 1) { cf_b64_decode(text, el, out, NULL); os = n; }
			else ok = cf_b64_validate_and_decode(text, el, out, &os);
			if (how == 2) MC_CHECK(ok == (n > 0), "b64-validate", "own encoding of %u bytes %s", n, ok ? "accepted" : "refused");
			if (ok) MC_CHECK(os == n && memcmp(out, src, n) == 0, "b64-decode", "decoding %.*s gives %u bytes, expected %u", (int)el, text, os, n);
			free(out);
		}
		else {
			uint8_t* io = exact(text, el);
			bool ok = true;
			if (how == 3) cf_b64_decode_in_place(io, el, &os);
			else ok = cf_b64_validate_and_decode_in_place(io, el, &os);
			if (how == 4) MC_CHECK(ok == (n > 0), "b64-validate", "own encoding of %u bytes %s in place", n, ok ? "accepted" : "refused");
			if (ok) MC_CHECK(os == n && memcmp(io, src, n) == 0, "b64-in-place", "decoding %.*s in place gives %u bytes, expected %u", (int)el, text, os, n);
			free(io);
		}
		mc_step();
	}
	free(text); free(in);
	mc_state(mc_hash(n, src, n));
}

static void sc_b64_short(void)
{
	uint8_t b[8];
	int n = mc_choose(mc_pick(3, 4));
	for (int i = 0; i < n; i++) b[i] = (uint8_t)mc_choose(256);
	roundtrip(b, (uint32_t)n);
}
static void sc_b64_bytes(void)
{
	static const uint8_t e[] = { 0x00, 0x3f, 0x40, 0x80, 0xc0, 0xff };
	uint8_t b[8];
	int n = mc_choose(mc_pick(7, 9));
	for (int i = 0; i < n; i++) b[i] = e[mc_choose(6)];
	roundtrip(b, (uint32_t)n);
}
static void sc_b64_long(void)
{
	uint8_t b[1024];
	int n = mc_choose(mc_pick(300, 1000)), s = mc_choose(4);
	for (int i = 0; i < n; i++) b[i] = (uint8_t)(s == 0 ? 0 : s == 1 ? 0xff : s == 2 ? i * 37 + 11 : i * 201 + n);
	roundtrip(b, (uint32_t)n);
}

static bool b64_valid(const uint8_t* t, uint32_t n)
{
	if (n == 0 || n % 4) return false;
	for (uint32_t i = 0; i < n; i++) {
		bool a = t[i] && strchr(AL, t[i]);
		if (a) continue;
		if (t[i] != '=') return false;
		if (i == n - 1) continue;
		if (i == n - 2 && t[n - 1] == '=') continue;
		return false;
	}
	return true;
}
static void accept_exactly(const uint8_t* t, uint32_t n)
{
	bool want = b64_valid(t, n);
	uint8_t ref[1024];
	uint32_t rl = 0;
	if (want) {
		uint32_t w = 0;
		for (uint32_t i = 0; i < n; i++) {
			w = w << 6 | (t[i] == '=' ? 0 : (uint32_t)(strchr(AL, t[i]) - AL));
			if (i % 4 == 3) { ref[rl++] = (uint8_t)(w >> 16); ref[rl++] = (uint8_t)(w >> 8); ref[rl++] = (uint8_t)w; w = 0; }
		}
		rl -= (t[n - 1] == '=') + (t[n - 2] == '=');
	}
	char* in = exact(t, n);
	// Room for what a text of this length can decode to, no more.
	uint32_t bs = n / 4 * 3, os = 777;
	uint8_t* out = malloc(bs ? bs : 1);
	mc_step();
	bool ok = cf_b64_validate_and_decode(in, n, out, &os);
	MC_CHECK(ok == want, ok ? "b64-accepted" : "b64-refused", "text %.*s of %u %s", (int)n, t, n, ok ? "accepted" : "refused");
	if (ok) MC_CHECK(os == rl && memcmp(out, ref, rl) == 0, "b64-value", "text %.*s decoded wrongly", (int)n, t);
	mc_step();
	os = 777;
	ok = cf_b64_validate_and_decode_in_place((uint8_t*)in, n, &os);
	MC_CHECK(ok == want, ok ? "b64-accepted-in-place" : "b64-refused-in-place", "text %.*s of %u %s in place", (int)n, t, n, ok ? "accepted" : "refused");
	if (ok) MC_CHECK(os == rl && memcmp(in, ref, rl) == 0, "b64-value-in-place", "text %.*s decoded wrongly in place", (int)n, t);
	else MC_CHECK(n == 0 || memcmp(in, t, n) == 0, "b64-refused-changed", "refused text was changed");
	free(in); free(out);
	mc_state(mc_hash(40 + n, t, n));
}
// Every byte value at every position of a text with every padding.
static void sc_b64_any(void)
{
	uint8_t t[16];
	uint32_t n = 4 * (1 + (uint32_t)mc_choose(3));
	memcpy(t, "QUJDREVGR0hJ", 12);
	int pad = mc_choose(3);
	for (int i = 0; i < pad; i++) t[n - 1 - (uint32_t)i] = '=';
	uint32_t at = (uint32_t)mc_choose((int)n);
	t[at] = (uint8_t)mc_choose(256);
	if (mc_thorough()) { uint32_t at2 = (uint32_t)mc_choose((int)n); if (at2 <= at) mc_prune(); t[at2] = (uint8_t)mc_choose(256); }
	accept_exactly(t, n);
}
static void sc_b64_texts(void)
{
	static const char al[] = { 'A', '=', '/', '-', 'z', 0, (char)0xC1 };
	uint8_t t[16];
	uint32_t n = (uint32_t)mc_choose(mc_pick(8, 10));
	for (uint32_t i = 0; i < n; i++) t[i] = (uint8_t)al[mc_choose(n > 7 ? 4 : mc_pick(5, 7))];
	accept_exactly(t, n);
}
static void sc_b64_null(void)
{
	uint32_t os = 1;
	uint8_t out[4];
	mc_step();
	MC_CHECK(!cf_b64_validate_and_decode(NULL, mc_choose(2) * 4, out, &os), "b64-null", "missing text accepted");
	mc_state(1);
}

// ---- hex ------------------------------------------------------------------------
static const char* HX = "0123456789ABCDEF";
static void sc_hex(void)
{
	static const uint8_t e[] = { 0x00, 0x9a, 0xff, 0x0f, 0xf0 };
	uint8_t b[8];
	uint32_t n = (uint32_t)mc_choose(5);
	for (uint32_t i = 0; i < n; i++) b[i] = n == 1 ? (uint8_t)mc_choose(256) : e[mc_choose(5)];
	uint32_t room = (uint32_t)mc_choose(14);
	bool prefix = mc_flip();
	uint8_t* in = exact(b, n);
	char* s = malloc(room ? room : 1);
	memset(s, '#', room ? room : 1);
	char want[32];
	uint32_t wl = 0;
	if (prefix) { want[wl++] = '0'; want[wl++] = 'x'; }
	for (uint32_t i = 0; i < n; i++) { want[wl++] = HX[b[i] >> 4]; want[wl++] = HX[b[i] & 15]; }
	want[wl] = 0;
	SAY("%s as hex into %u", want, room);
	mc_step();
	bool ok = prefix ? as_bytes_to_string_with_prefix(in, n, s, room) : as_bytes_to_string(in, n, s, room), fits = wl + 1 <= room;
	MC_CHECK(ok == fits, "hex-result", "hex text of %u characters into %u said %s", wl, room, ok ? "complete" : "truncated");
	if (ok) MC_CHECK(strcmp(s, want) == 0, "hex-text", "hex text is %s, expected %s", s, want);
	else if (room) MC_CHECK(memchr(s, 0, room) != NULL, "hex-unterminated", "truncated hex text is not terminated");
	else MC_CHECK(s[0] == '#', "hex-overrun", "hex text written into a buffer of size 0");
	if (ok) {
		for (uint32_t r2 = 0; r2 <= n + 1; r2++) {
			uint8_t* back = malloc(r2 ? r2 : 1);
			char* t = exact(s, wl + 1);
			mc_step();
			int c = as_bytes_from_string(back, r2, t);
			MC_CHECK(c == (r2 >= n ? (int)n : -1), "hex-back", "reading %s back into %u gives %d", s, r2, c);
			if (c >= 0) MC_CHECK(memcmp(back, b, n) == 0, "hex-back-value", "reading %s back gives other bytes", s);
			free(back); free(t);
		}
	}
	mc_state(mc_hash(room * 2 + prefix, b, n));
	free(in); free(s);
}
// The largest lengths must be recognised as not fitting.
static void sc_hex_huge(void)
{
	static const uint32_t ns[] = { 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x7ffffffe };
	uint32_t n = ns[mc_choose(6)], room = (uint32_t)mc_choose(8);
	char* s = malloc(room ? room : 1);
	uint8_t src[8] = { 0 };
	mc_step();
	bool ok = mc_flip() ? as_bytes_to_string(src, n, s, room) : as_bytes_to_string_with_prefix(src, n, s, room);
	MC_CHECK(!ok, "hex-huge", "%u bytes fit into %u characters", n, room);
	free(s);
	mc_state(n + room);
}
static int hexval(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void from_text(const uint8_t* t)
{
	const uint8_t* p = t;
	if (p[0] == '0' && p[1] == 'x') p += 2;
	size_t n = strlen((const char*)p);
	bool valid = n % 2 == 0;
	uint8_t ref[32];
	for (size_t i = 0; i < n; i++) {
		int h = hexval(p[i]);
		if (h < 0) valid = false;
		if (i % 2) ref[i / 2] = (uint8_t)(ref[i / 2] << 4 | (h & 15)); else ref[i / 2] = (uint8_t)(h & 15);
	}
	for (uint32_t room = 0; room <= 4; room++) {
		uint8_t* out = malloc(room ? room : 1);
		char* s = exact(t, strlen((const char*)t) + 1);
		int want = valid && n / 2 <= room ? (int)(n / 2) : -1;
		mc_step();
		int c = as_bytes_from_string(out, room, s);
		MC_CHECK(c == want, c >= 0 ? "hex-accepted" : "hex-refused", "hex text %s into %u gives %d, expected %d", t, room, c, want);
		if (c > 0) MC_CHECK(memcmp(out, ref, (size_t)c) == 0, "hex-value", "hex text %s read wrongly", t);
		free(out); free(s);
	}
	mc_state(mc_hash(9, t, strlen((const char*)t)));
}
static void sc_hex_any(void)
{
	uint8_t t[16];
	int n = mc_choose(7);
	memcpy(t, "1aFb09", 6);
	if (mc_flip() && n >= 2) memcpy(t, "0x", 2);
	t[n] = 0;
	if (n) {
		int at = mc_choose(n);
		t[at] = (uint8_t)mc_range(1, 255);
		if (mc_flip()) { int at2 = mc_choose(n); t[at2] = (uint8_t)mc_range(1, 255); }
	}
	from_text(t);
}
static void sc_hex_texts(void)
{
	static const char al[] = { '0', 'x', 'F', 'g', 'a', 'X', '@' };
	uint8_t t[16];
	int n = mc_choose(mc_pick(8, 9));
	for (int i = 0; i < n; i++) t[i] = (uint8_t)al[mc_choose(mc_pick(5, 7))];
	t[n] = 0;
	from_text(t);
}


// Texts of more than 2^32 hex digits.
#define BLOCK ((size_t)64 << 20)
static void sc_hex_far(void)
{
	static char* text;
	static const size_t total = ((size_t)1 << 32) + BLOCK;
	if (!text) {
		text = alias_map(BLOCK, total);
		memset(text, 'a', BLOCK);
	}
	static const uint64_t lengths[] = { 0x7FFFFFFE, 0x80000000, 0x80000002, 0xFFFFFFFE, 0x100000000, 0x100000001, 0x100000002, 0x100000008 };
	uint64_t n = lengths[mc_choose(8)];
	uint32_t room = (uint32_t)mc_choose(6);
	char* end = text + total - 1;
	char* last = mmap((char*)((uintptr_t)end & ~(uintptr_t)4095), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	if (last == MAP_FAILED) mc_error("cannot map the end");
	memset(last, 'a', 4096);
	*end = 0;
	uint8_t* out = exact("......", room);
	mc_step();
	int rc = as_bytes_from_string(out, room, end - n);
	mc_log("%llu digits into %u -> %d", (unsigned long long)n, room, rc);
	MC_CHECK(rc == -1, "hex-far", "%llu hex digits into %u bytes gave %d", (unsigned long long)n, room, rc);
	free(out);
	mc_state(mc_hash_u64(n, room));
}

// Base64 of more than 2^31 characters.
static void sc_b64_far(void)
{
	static const uint32_t sizes[] = { 0x60000001, 0x60000002, 0x60000003, 0x5FFFFFFD, 0x5FFFFFFE, 0x5FFFFFFF, 0x60000000, 0xBFFFFFFB, 0xBFFFFFFC, 0xBFFFFFFD };
	uint32_t n = sizes[mc_choose(mc_pick(3, 10))];
	size_t ib = (size_t)3 << 20, ob = (size_t)4 << 20;
	uint8_t* in = alias_map(ib, (size_t)n + 8);
	char* out = alias_map(ob, (size_t)0x100000000);
	for (size_t i = 0; i < ib; i++) in[i] = (uint8_t)(i * 7 + (i >> 8) * 13 + (i >> 16));
	char* want = mc_raw_malloc(ob + 8);
	b64_ref(in, ib, want);
	mc_step();
	uint32_t len = cf_b64_encoded_len(n);
	MC_CHECK(len == ((uint64_t)n + 2) / 3 * 4, "far-len", "%u bytes would take %u characters", n, len);
	cf_b64_encode(in, n, out);
	char tail[8];
	size_t tl = b64_ref(in + n / 3 * 3, n % 3, tail);
	MC_CHECK(memcmp(out + len - tl, tail, tl) == 0, "far-encode", "%u bytes end in other characters", n);
	// The rest repeats, so it is all in one block but for the end.
	memcpy(out + len - tl, want + (len - tl) % ob, tl);
	MC_CHECK(memcmp(out, want, ob) == 0, "far-encode", "%u bytes have another text", n);
	free(want);
	alias_unmap(in, ib, (size_t)n + 8);
	alias_unmap(out, ob, (size_t)0x100000000);
	mc_state(n);
}

const mc_scenario mc_scenarios[] = {
	{ "b64_short", sc_b64_short, 2, "all byte strings of up to 2 (3) bytes" },
	{ "b64_bytes", sc_b64_bytes, 2, "all byte strings of up to 6 (8) boundary bytes" },
	{ "b64_long", sc_b64_long, 1, "4 patterns of every length 0..299 (999)" },
	{ "b64_any", sc_b64_any, 3, "every byte value at every position (every pair of positions) of texts of 4, 8, 12 with 0..2 padding characters" },
	{ "b64_texts", sc_b64_texts, 2, "all texts of up to 7 (9) characters over valid, padding and invalid ones" },
	{ "b64_null", sc_b64_null, 1, "missing text" },
	{ "hex", sc_hex, 2, "all byte strings of up to 4 boundary bytes (all single bytes) x output sizes 0..13 x prefix" },
	{ "hex_huge", sc_hex_huge, 1, "lengths around 2^31 and 2^32 into 0..7 characters" },
	{ "hex_any", sc_hex_any, 3, "every byte value at every one or two positions of hex texts of 0..6" },
	{ "hex_texts", sc_hex_texts, 2, "all texts of up to 7 (8) characters over digits, prefix and invalid ones" },
	{ "hex_far", sc_hex_far, 1, "hex texts of 2^31 .. 2^32+8 digits into 0..5 bytes" },
	{ "b64_far", sc_b64_far, 1, "3 (10) sizes around 2^31 (2^32) characters, over memory in which a block repeats" },
	{ NULL } };
