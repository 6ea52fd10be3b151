// C16: string builder, bounded copy, base name.
#define _GNU_SOURCE
#include "mc.h"
#include "alias.h"
#include <aerospike/as_string.h>
#include <aerospike/as_string_builder.h>
#include <alloca.h>
#include <inttypes.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define SAY(...) do { if (mc_verbose()) mc_log(__VA_ARGS__); } while (0)

static as_string_builder sb;
static char want[4096];
static size_t wl;
static bool resize;
static uint32_t cap;
static bool truncated;	// an append failed: only a prefix of its text may be there
static char pend[2048];

static void look(bool ok, const char* text, const char* what)
{
	SAY("%s \"%.40s\" -> %d (%u)", what, text, ok, sb.length);
	size_t tl = strlen(text);
	// data, length and capacity are documented public fields.
	MC_CHECK(sb.length < sb.capacity && memchr(sb.data, 0, sb.capacity) != NULL, "unterminated", "no terminator inside the buffer after %s", what);
	size_t got = strlen(sb.data);
	MC_CHECK(got == sb.length, "length", "%s: length %u but text of %zu", what, sb.length, got);
	if (resize) MC_CHECK(ok, "refused", "%s refused although the buffer may grow", what);
	bool fits = wl + tl + 1 <= cap;
	if (!resize) MC_CHECK(sb.capacity == cap, "capacity", "fixed buffer changed capacity");
	if (!resize && !ok) MC_CHECK(!fits, "refused-fit", "%s of %zu refused at %zu of %u", what, tl, wl, cap);
	if (ok) {
		MC_CHECK(resize || fits, "accepted", "%s accepted beyond the buffer", what);
		memcpy(want + wl, text, tl + 1);
		wl += tl;
		MC_CHECK(got == wl && memcmp(sb.data, want, wl) == 0, "content", "%s: \"%.60s\", expected \"%.60s\"", what, sb.data, want);
	}
	else {
		MC_CHECK(got >= wl && memcmp(sb.data, want, wl) == 0, "earlier", "failed %s damaged earlier text: \"%.60s\"", what, sb.data);
		MC_CHECK(got - wl <= tl && memcmp(sb.data + wl, text, got - wl) == 0, "partial", "failed %s left \"%.60s\"", what, sb.data + wl);
		memcpy(want, sb.data, got + 1);
		wl = got;
	}
	mc_state(mc_hash(cap * 2 + resize, want, wl));
}

static const char* text_of(int len)
{
	static char t[1024];
	for (int i = 0; i < len; i++) t[i] = (char)('a' + (i + len) % 26);
	t[len] = 0;
	return t;
}

static void append_text(int len) { const char* t = text_of(len); mc_step(); look(as_string_builder_append(&sb, t), t, "text"); }
static void append_bytes(uint32_t n)
{
	uint8_t* b = malloc(n ? n : 1);
	char t[2048], *p = t;
	*p++ = '[';
	for (uint32_t i = 0; i < n; i++) { b[i] = (uint8_t)(i * 0x4d + 0x0f + n); p += sprintf(p, "%s%02X", i ? " " : "", b[i]); }
	*p++ = ']';
	*p = 0;
	mc_step();
	bool ok = as_string_builder_append_bytes(&sb, b, n);
	free(b);
	look(ok, t, "bytes");
}
static void op(void)
{
	char t[64];
	bool ok;
	int o = mc_choose(12);
	switch (o) {
	case 0: append_text(mc_choose(6)); break;
	case 1: { static const char cs[] = { 'x', '\x80', ' ' }; char c = cs[mc_choose(mc_pick(1, 3))]; t[0] = c; t[1] = 0; mc_step(); ok = as_string_builder_append_char(&sb, c); look(ok, t, "char"); break; }
	case 2: mc_step(); ok = as_string_builder_append_newline(&sb); look(ok, "\n", "newline"); break;
	case 3: append_bytes((uint32_t)mc_choose(4)); break;
	case 4: { static const int v[] = { 0, -1, INT_MAX, INT_MIN, 10 }; int x = v[mc_choose(5)]; sprintf(t, "%d", x); mc_step(); ok = as_string_builder_append_int(&sb, x); look(ok, t, "int"); break; }
	case 5: { static const uint32_t v[] = { 7, UINT32_MAX, 0x80000000u }; uint32_t x = v[mc_choose(3)]; sprintf(t, "%u", x); mc_step(); ok = as_string_builder_append_uint(&sb, x); look(ok, t, "uint"); break; }
	case 6: { static const int64_t v[] = { 0, INT64_MIN, INT64_MAX, 1LL << 32 }; int64_t x = v[mc_choose(4)]; sprintf(t, "%" PRId64, x); mc_step(); ok = as_string_builder_append_int64(&sb, x); look(ok, t, "int64"); break; }
	case 7: { static const uint64_t v[] = { 1, UINT64_MAX, 1ULL << 63 }; uint64_t x = v[mc_choose(3)]; sprintf(t, "%" PRIu64, x); mc_step(); ok = as_string_builder_append_uint64(&sb, x); look(ok, t, "uint64"); break; }
	case 8: mc_step(); as_string_builder_reset(&sb); wl = 0; want[0] = 0; look(true, "", "reset"); break;
	case 9: append_text(15 + mc_choose(3)); break;
	case 10: append_bytes(7 + (uint32_t)mc_choose(2)); break;
	case 11: append_text(63); break;
	}
}
static void run(int depth, int kind)
{
	char* ext = NULL;
	wl = 0;
	want[0] = 0;
	memset(&sb, 0xA5, sizeof sb);
	resize = kind == 4 ? false : kind & 1;
	if (kind < 2) as_string_builder_init(&sb, cap, resize);
	else if (kind < 4) { as_string_builder_inita(&sb, cap, resize); }
	else { ext = malloc(cap); as_string_builder_assign(&sb, cap, ext); }
	if (cap == 0) { MC_CHECK(sb.data && sb.data[0] == 0 && sb.length == 0, "init", "not an empty text after initialisation"); if (!resize) cap = sb.capacity; }
	while (depth--) op();
	as_string_builder_destroy(&sb);
	if (ext) free(ext);
}
static void sc_build(void)
{
	int kind = mc_choose(5);
	// Without storage there is no room for the terminator: caller-provided buffers start at 1.
	cap = (uint32_t)mc_choose(mc_pick(9, 12)) + (kind >= 2);
	run(mc_pick(3, 4), kind);
}
static void sc_sizes(void)
{
	int kind = mc_choose(5);
	cap = (uint32_t)mc_choose(70) + (kind >= 2);
	run(mc_pick(2, 2), kind);
}
// Every length of one text and of one byte array against every capacity.
static void sc_fit(void)
{
	int kind = mc_choose(5);
	cap = (uint32_t)mc_choose(mc_pick(40, 80)) + 1;
	int before = mc_choose(3), len = mc_choose(mc_pick(50, 90));
	bool bytes = mc_flip();
	wl = 0; want[0] = 0;
	char* ext = NULL;
	resize = kind == 4 ? false : kind & 1;
	if (kind < 2) as_string_builder_init(&sb, cap, resize);
	else if (kind < 4) { as_string_builder_inita(&sb, cap, resize); }
	else { ext = malloc(cap); as_string_builder_assign(&sb, cap, ext); }
	append_text(before);
	if (bytes) append_bytes((uint32_t)len); else append_text(len);
	append_text(2);
	as_string_builder_destroy(&sb);
	if (ext) free(ext);
}

// ---- bounded copy -------------------------------------------------------------
static void sc_copy(void)
{
	int size = mc_choose(mc_pick(14, 40)), len = mc_choose(mc_pick(16, 44)) - 1;
	char* t = malloc(size ? (size_t)size : 1);
	memset(t, '#', size ? (size_t)size : 1);
	char* s = NULL;
	if (len >= 0) { s = malloc((size_t)len + 1); memcpy(s, text_of(len), (size_t)len + 1); }
	else len = 0;
	SAY("copy %d into %d", len, size);
	mc_step();
	bool cut = as_strncpy(t, s, size);
	bool fits = len + 1 <= size;
	if (size == 0) MC_CHECK(t[0] == '#', "copy-overrun", "copy wrote into a buffer of size 0");
	MC_CHECK(cut == !fits, "copy-result", "copy of %d into %d said %s", len, size, cut ? "truncated" : "complete");
	if (size) {
		int k = fits ? len : size - 1;
		MC_CHECK(memcmp(t, s ? s : "", (size_t)k) == 0 && t[k] == 0, "copy-content", "copy of %d into %d has the wrong content", len, size);
		for (int i = k + 1; i < size; i++) MC_CHECK(t[i] == '#', "copy-pad", "copy wrote behind the terminator");
	}
	free(t); free(s);
	mc_state(mc_hash_u64(16, (uint64_t)size * 1000 + (uint64_t)len));
}

// ---- base name ------------------------------------------------------------------
// Both '/' and '\\' separate, on every platform.
static bool sep(char c) { return c == '/' || c == '\\'; }
static void base_ref(const char* p, char* out)
{
	size_t n = strlen(p);
	if (!n) { strcpy(out, "."); return; }
	while (n && sep(p[n - 1])) n--;
	if (!n) { strcpy(out, "/"); return; }
	size_t b = n;
	while (b && !sep(p[b - 1])) b--;
	memcpy(out, p + b, n - b);
	out[n - b] = 0;
}
static void sc_base(void)
{
	static const char al[] = { '/', 'a', '.', '\\', '\x80' };
	int len = mc_choose(mc_pick(8, 10));
	char* p = malloc((size_t)len + 1);
	for (int i = 0; i < len; i++) p[i] = al[mc_choose(mc_pick(4, 5))];
	p[len] = 0;
	char keep[32], ref[32];
	strcpy(keep, p);
	base_ref(p, ref);
	as_string s;
	memset(&s, 0xA5, sizeof s);
	mc_step();
	const char* r = as_basename(&s, p);
	SAY("base name of %s is %s", p, r);
	MC_CHECK(strcmp(keep, p) == 0, "base-input", "the path was modified");
	MC_CHECK(r && strcmp(r, ref) == 0, "base", "base name of %s is %s, expected %s", p, r, ref);
	MC_CHECK(as_string_get(&s) == r && as_string_len(&s) == strlen(ref), "base-value", "the string value of %s differs from the result", p);
	mc_state(mc_hash(17, p, (size_t)len));
	as_string_destroy(&s);
	free(p);
	if (len == 0) {
		mc_step();
		r = as_basename(&s, NULL);
		MC_CHECK(r && strcmp(r, ".") == 0, "base-null", "base name of a missing path is %s", r);
		as_string_destroy(&s);
	}
}
// Long last components.
static void sc_base_long(void)
{
	int a = mc_choose(mc_pick(40, 80)), b = mc_choose(mc_pick(48, 300)), t = mc_choose(4);
	if (!mc_thorough() && b >= 40) b += 252 - 40;
	char* p = malloc((size_t)(a + b + t + 1));
	memset(p, '/', (size_t)(a + b + t));
	if (a > 1) memset(p, 'd', (size_t)a - 1);
	for (int i = 0; i < b; i++) p[a + i] = (char)('a' + i % 26);
	p[a + b + t] = 0;
	char ref[512];
	base_ref(p, ref);
	as_string s;
	mc_step();
	const char* r = as_basename(&s, p);
	MC_CHECK(r && strcmp(r, ref) == 0 && as_string_len(&s) == strlen(ref), "base", "base name of %s is %s, expected %s", p, r, ref);
	as_string_destroy(&s);
	free(p);
	mc_state(mc_hash_u64(18, (uint64_t)(a * 1000 + b) * 4 + (uint64_t)t));
}


// Texts and byte arrays so long that the room for them does not fit 32 bits.  The
// memory for them does not exist either, so that the append is refused.
#define BLOCK ((size_t)64 << 20)
static void sc_far(void)
{
	bool bytes = mc_flip();
	int kind = mc_choose(2);	// heap, stack
	int before = mc_choose(4);
	static const uint32_t sizes[] = { 0x55555553, 0x55555554, 0x55555555, 0x55555556, 0x60000000, 0x80000000, 0xAAAAAAAA, 0xAAAAAAAB, 0xFFFFFFFF };
	static const uint64_t lengths[] = { 0xFFFFFFF0, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x100000001, 0x100000009 };
	static char* text;
	static const size_t total = ((size_t)1 << 32) + BLOCK;
	if (!text) {
		text = alias_map(BLOCK, total);
		memset(text, 'x', BLOCK);
	}
	if (kind == 0) as_string_builder_init(&sb, 8, true);
	else { as_string_builder_inita(&sb, 16, true); }
	for (int i = 0; i < before; i++) as_string_builder_append_char(&sb, 'a');
	bool ok;
	uint64_t n;
	mc_step();
	if (bytes) {
		n = sizes[mc_choose(9)];
		ok = as_string_builder_append_bytes(&sb, (uint8_t*)text, (uint32_t)n);
	}
	else {
		n = lengths[mc_choose(mc_pick(7, 7))];
		// Only one repetition ends, the one where the text ends.
		char* end = text + total - 1;
		char* last = mmap((char*)((uintptr_t)end & ~(uintptr_t)4095), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
		if (last == MAP_FAILED) mc_error("cannot map the end");
		memset(last, 'x', 4096);
		*end = 0;
		ok = as_string_builder_append(&sb, end - n);
	}
	mc_log("%s of %llu after %d characters -> %d", bytes ? "bytes" : "text", (unsigned long long)n, before, ok);
	MC_CHECK(!ok, "far", "%s of %llu was appended without the memory for it", bytes ? "bytes" : "text", (unsigned long long)n);
	MC_CHECK(sb.length < sb.capacity && sb.capacity <= 16 && sb.data[sb.length] == 0, "far", "not terminated inside the buffer");
	MC_CHECK(sb.length >= (uint32_t)before, "far", "earlier text is lost");
	for (int i = 0; i < before; i++) MC_CHECK(sb.data[i] == 'a', "far", "earlier text is changed");
	as_string_builder_destroy(&sb);
	mc_state(mc_hash_u64(n, (uint64_t)(bytes * 8 + kind * 4 + before)));
}

const mc_scenario mc_scenarios[] = {
	{ "build", sc_build, 3, "5 kinds of builder x capacity 0..8 (11) x all sequences of 3 (4) appends out of 36" },
	{ "sizes", sc_sizes, 3, "5 kinds of builder x capacity 0..69 x all pairs of appends" },
	{ "fit", sc_fit, 3, "5 kinds x capacity 1..40 (80) x one text or byte array of every length 0..49 (89) after 0..2 characters" },
	{ "copy", sc_copy, 1, "buffer sizes 0..13 (39) x lengths 0..14 (42) and a missing source" },
	{ "base", sc_base, 2, "all paths of up to 7 (9) characters over '/', a, '.', '\\' (and 0x80)" },
	{ "base_long", sc_base_long, 1, "directory parts of 0..39 (79) and names of 0..39 and 252..259 (0..299) characters with 0..3 trailing slashes" },
	{ "far", sc_far, 4, "texts and byte arrays whose room is around 2^32, after 0..3 characters, in memory of 64 MB" },
	{ NULL } };
