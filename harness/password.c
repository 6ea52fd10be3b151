// C24: password hashing against the system's bcrypt, and taking over passwords.
#include "mc.h"
#include <aerospike/as_password.h>
#include <aerospike/as_random.h>
#include <crypt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>

// A terminal of our own: the real one is not ours to change.
static struct termios tty;
int __wrap_tcgetattr(int fd, struct termios* t) { (void)fd; *t = tty; return 0; }
int __wrap_tcsetattr(int fd, int a, const struct termios* t) { (void)fd; (void)a; tty = *t; return 0; }
// What is typed; reading it with the echo on would show it.
static struct { const char* text; size_t len, at; bool shown; } keys;
static ssize_t keys_read(void* c, char* buf, size_t n)
{
	(void)c;
	if (tty.c_lflag & ECHO) keys.shown = true;
	if (n > keys.len - keys.at) n = keys.len - keys.at;
	memcpy(buf, keys.text + keys.at, n);
	keys.at += n;
	return (ssize_t)n;
}

static const char itoa64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static int digit(char c) { const char* p = c ? strchr(itoa64, c) : NULL; return p ? (int)(p - itoa64) : -1; }

// A setting this library has to accept; 0 if it has to be refused, -1 if it may be either.
static int well_formed(const char* s, int len, int* cost)
{
	if (len < 29 || s[0] != '$' || s[1] != '2' || s[3] != '$' || s[6] != '$') return 0;
	if (s[2] < 'a' || s[2] > 'z') return 0;
	if (s[4] < '0' || s[4] > '9' || s[5] < '0' || s[5] > '9') return 0;
	*cost = (s[4] - '0') * 10 + s[5] - '0';
	if (*cost < 4 || *cost > 31) return 0;
	for (int i = 0; i < 22; i++) if (digit(s[7 + i]) < 0) return 0;
	if (s[2] == 'a' || s[2] == 'x' || s[2] == 'y') return 1;
	return s[2] == 'b' ? -1 : 0;
}
static const char* reference(const char* pw, const char* setting)
{
	static struct crypt_data* d;
	if (!d) d = mc_raw_malloc(sizeof *d);
	memset(d, 0, sizeof *d);
	const char* r = crypt_r(pw, setting, d);
	if (!r || strlen(r) != 60) mc_error("the reference bcrypt does not handle '%s'", setting);
	return r;
}
// Buffers of the exact sizes, so that every overrun is seen.
static char* exact(const char* s, size_t n) { char* p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static bool hash(const char* pw, size_t pn, const char* set, size_t sn, char out[AS_PASSWORD_HASH_SIZE])
{
	char *p = exact(pw, pn), *s = exact(set, sn), *o = malloc(AS_PASSWORD_HASH_SIZE);
	memset(o, 0x33, AS_PASSWORD_HASH_SIZE);
	bool ok = as_password_gen_hash(p, s, o);
	MC_CHECK(!memcmp(p, pw, pn) && !memcmp(s, set, sn), "modified", "an input was changed");
	memcpy(out, o, AS_PASSWORD_HASH_SIZE);
	free(p); free(s); free(o);
	mc_step();
	return ok;
}
static void compare(const char* pw, size_t pn, const char* set, size_t sn)
{
	char o[AS_PASSWORD_HASH_SIZE], o2[AS_PASSWORD_HASH_SIZE];
	int cost, wf = well_formed(set, (int)sn, &cost);
	if (wf && cost > 7) mc_prune();		// takes too long
	bool ok = hash(pw, pn, set, sn, o);
	if (wf == 0 || !ok) {
		MC_CHECK(wf != 1, "rejected", "the well-formed setting '%.*s' is refused", (int)sn, set);
		MC_CHECK(!ok, "accepted", "the malformed setting '%.*s' is accepted", (int)sn, set);
		MC_CHECK(memchr(o, 0, AS_PASSWORD_HASH_SIZE) && strlen(o) < 60, "usable", "a refused setting leaves something that looks like a hash");
		mc_state(mc_hash(1, o, 8));
		return;
	}
	MC_CHECK(memchr(o, 0, AS_PASSWORD_HASH_SIZE) && strlen(o) == 60, "size", "the hash does not have 60 characters");
	char *p = exact(pw, pn), *s = exact(set, sn);
	const char* r = reference(p, s);
	MC_CHECK(!strcmp(r, o), "hash", "the hash with '%s' is %s, bcrypt gives %s", s, o, r);
	if (mc_fresh()) {
		MC_CHECK(hash(pw, pn, set, sn, o2) && as_password_verify(o, o2), "deterministic", "hashing twice gives two hashes");
		// A hash is itself a setting.
		MC_CHECK(hash(pw, pn, o, 60, o2) && as_password_verify(o, o2), "as-setting", "the hash does not verify its password");
	}
	free(p); free(s);
	mc_state(mc_hash(2, o, 60));
}
static const char* const sets[] = { "$2a$04$abcdefghijklmnopqrstuu", "$2y$04$......................", "$2x$04$9999999999999999999999", "$2a$05$./AZaz09./AZaz09./AZaz",
	"$2y$04$7EqJtq98hPqEX7fNZaFWoO" };

static void sc_pass(void)
{
	static const uint8_t ab[] = { 'a', 0x80, 0xff, 1, 'Z', 0x7f, 0xa3, ' ' };
	char pw[8];
	size_t n = (size_t)mc_choose(mc_pick(4, 5));
	for (size_t i = 0; i < n; i++) pw[i] = (char)ab[mc_choose(8)];
	const char* s = sets[mc_choose(mc_pick(3, 5))];
	compare(pw, n, s, strlen(s));
}
// Bytes above 127 at every place of a word: where old implementations went wrong.
static void sc_high(void)
{
	static const uint8_t ab[] = { 0xff, 'x', 0xa3, 0x80 };
	char pw[16];
	int n = 4 + mc_choose(mc_pick(3, 8)), v = mc_choose(256);
	for (int i = 0; i < n; i++) pw[i] = i < 4 ? (char)ab[v >> (2 * i) & 3] : (char)(0xa0 + i);
	const char* s = sets[mc_choose(3)];
	compare(pw, (size_t)n, s, strlen(s));
}
static void sc_length(void)
{
	char pw[90];
	int n = mc_choose(mc_pick(81, 90));
	for (int i = 0; i < n; i++) pw[i] = (char)(33 + i);
	compare(pw, (size_t)n, sets[0], 29);
	compare(pw, (size_t)n, sets[1], 29);
}
// A password that differs in one byte verifies only past the limit of 72.
static void sc_differ(void)
{
	char a[90], b[90], ha[AS_PASSWORD_HASH_SIZE], hb[AS_PASSWORD_HASH_SIZE];
	int n = mc_choose(2) ? 80 : 73, k = mc_choose(n), bit = mc_choose(8);
	for (int i = 0; i < n; i++) a[i] = b[i] = (char)(0x41 + i % 50);
	b[k] = (char)(b[k] ^ (bit == 0 ? 0x80 : 1 << (bit - 1)));
	MC_CHECK(hash(a, (size_t)n, sets[0], 29, ha) && hash(b, (size_t)n, sets[0], 29, hb), "rejected", "a well-formed setting is refused");
	bool same = as_password_verify(ha, hb);
	MC_CHECK(same == (k >= 72), "verify", "passwords that differ in byte %d %s", k, same ? "have one hash" : "have two hashes");
	mc_state(mc_hash(3, hb, 60));
}
static void sc_corrupt(void)
{
	char s[30];
	memcpy(s, sets[mc_choose(mc_pick(2, 4))], 30);
	int at = mc_choose(29), c = mc_choose(256);
	s[at] = (char)c;
	compare("pass", 4, s, c ? 29 : (size_t)at);
}
static void sc_short(void)
{
	int len = mc_choose(30);
	const char* s = sets[mc_choose(5)];
	char longer[64];
	compare("pass", 4, s, (size_t)len);
	// What follows the salt is not looked at.
	memcpy(longer, s, 29);
	memset(longer + 29, '$', 31);
	compare("pass", 4, longer, 29 + (size_t)len);
}
// Costs outside the range, written every way two characters allow.
static void sc_cost(void)
{
	char s[30];
	memcpy(s, sets[0], 30);
	s[4] = (char)('0' - 1 + mc_choose(12));
	s[5] = (char)('0' - 1 + mc_choose(12));
	compare("x", 1, s, 29);
}
static void sc_salt(void)
{
	static const uint64_t pat[] = { 0, 1, UINT64_MAX, 0x8000000000000000ull, 0x0123456789abcdefull };
	as_random* r = as_random_instance();
	as_random copy;
	int k = mc_choose(mc_pick(2000, 20000));
	r->seed0 = k < 25 ? pat[k / 5] : (uint64_t)k * 0x9e3779b97f4a7c15ull;
	r->seed1 = k < 25 ? pat[k % 5] : (uint64_t)k * 0xc2b2ae3d27d4eb4full;
	r->initialized = true;
	copy = *r;
	uint8_t want[16], got[18];
	as_random_next_bytes(&copy, want, 16);
	char* salt = malloc(AS_PASSWORD_HASH_SIZE);
	memset(salt, 0x33, AS_PASSWORD_HASH_SIZE);
	MC_CHECK(as_password_gen_salt(salt), "salt", "no salt was generated");
	int cost;
	MC_CHECK(memchr(salt, 0, AS_PASSWORD_HASH_SIZE) && strlen(salt) == 29 && well_formed(salt, 29, &cost) == 1, "salt-form", "the generated salt '%.40s' is not well-formed", salt);
	uint32_t bits = 0;
	int have = 0, n = 0;
	for (int i = 0; i < 22; i++) {
		bits = bits << 6 | (uint32_t)digit(salt[7 + i]);
		have += 6;
		if (have >= 8) { have -= 8; got[n++] = (uint8_t)(bits >> have); }
	}
	MC_CHECK(!memcmp(got, want, 16), "salt-bytes", "the salt '%s' does not decode to the random bytes it was made from", salt);
	mc_state(mc_hash(4, salt, 29));
	mc_step();
	free(salt);
}
static void sc_verify(void)
{
	char a[AS_PASSWORD_HASH_SIZE], b[AS_PASSWORD_HASH_SIZE];
	for (int i = 0; i < AS_PASSWORD_HASH_SIZE; i++) a[i] = b[i] = (char)(40 + i);
	int k = mc_choose(AS_PASSWORD_HASH_SIZE), bit = mc_choose(9);
	if (bit) b[k] = (char)(b[k] ^ 1 << (bit - 1));
	MC_CHECK(as_password_verify(a, b) == (bit == 0 || k >= 60), "verify", "hashes that differ at %d compare wrongly", k);
	mc_state((uint64_t)(k * 9 + bit));
	mc_step();
}
static void sc_constant(void)
{
	static const char* const pws[] = { "", "admin", "p\xff\xa3", "0123456789012345678901234567890123456789012345678901234567890123456789" };
	const char* p = pws[mc_choose(4)];
	int how = mc_choose(4);
	char o[AS_PASSWORD_HASH_SIZE], cut[AS_PASSWORD_HASH_SIZE];
	bool ok;
	snprintf(cut, sizeof cut, "%s", p);
	if (how == 3 && !*p) mc_prune();	// would ask
	if (how == 0) ok = as_password_gen_constant_hash(p, o);
	else if (how == 1) ok = as_password_get_constant_hash(p, o);
	else if (how == 2) { ok = as_password_get_constant_hash(NULL, o); p = ""; }
	else { ok = as_password_prompt_hash(p, o); p = cut; }
	MC_CHECK(ok && strlen(o) == 60, "constant", "the constant hash is refused");
	MC_CHECK(!strcmp(o, reference(p, "$2a$10$7EqJtq98hPqEX7fNZaFWoO")), "constant", "the constant hash is not bcrypt with the fixed salt");
	mc_state(mc_hash(5, o, 60));
	mc_step();
}
// Nothing given: what is typed is hashed, up to the room there is for it.
static void sc_ask(void)
{
	static const int lens[] = { 0, 1, 8, 62, 63, 64, 71, 72, 100 };
	int n = lens[mc_choose(9)], with_end = mc_choose(2), given = mc_choose(2);
	char text[128], want[AS_PASSWORD_HASH_SIZE], o[AS_PASSWORD_HASH_SIZE];
	for (int i = 0; i < n; i++) text[i] = (char)('A' + i % 50);
	text[n] = 0;
	snprintf(want, sizeof want, "%s", text);
	if (with_end) text[n] = '\n';
	keys.text = text; keys.len = (size_t)(n + with_end); keys.at = 0; keys.shown = false;
	memset(&tty, 0, sizeof tty);
	tty.c_lflag = ECHO | ICANON | ISIG;
	FILE *in = fopencookie(NULL, "r", (cookie_io_functions_t){ .read = keys_read }), *out = fopen("/dev/null", "w"), *i0 = stdin, *o0 = stdout;
	if (!in || !out) mc_error("no stream");
	stdin = in; stdout = out;
	bool ok = as_password_prompt_hash(given ? "" : NULL, o);
	stdin = i0; stdout = o0;
	fclose(in); fclose(out);
	MC_CHECK(!keys.shown, "echo", "the password is shown while it is typed");
	MC_CHECK(tty.c_lflag & ECHO, "echo-restored", "the terminal is left without echo");
	MC_CHECK(ok && strlen(o) == 60, "constant", "the hash of a typed password is refused");
	MC_CHECK(!strcmp(o, reference(want, "$2a$10$7EqJtq98hPqEX7fNZaFWoO")), "constant", "a typed password of %d is hashed as another", n);
	mc_state(mc_hash(6, o, 60));
	mc_step();
}
// A password that is given, or typed when none is.
static void sc_acquire(void)
{
	static const char ab[] = { 'a', '\n', 'b', 0 };
	int size = 1 + mc_choose(mc_pick(5, 6)), n = mc_choose(mc_pick(5, 7));
	bool typed = mc_choose(2);
	char text[9], want[9];
	int m = 0;
	for (int i = 0; i < n; i++) { text[i] = ab[mc_choose(typed ? 4 : 3)]; if (!typed && text[i] == '\n') text[i] = 'c'; }
	text[n] = 0;
	char* t = malloc((size_t)size);
	memset(t, 0x33, (size_t)size);
	if (typed) {
		// Up to the line end, the end of input or the room there is.
		for (m = 0; m < n && m < size - 1 && text[m] != '\n'; m++) want[m] = text[m];
		want[m] = 0;
		keys.text = text; keys.len = (size_t)n; keys.at = 0; keys.shown = false;
		memset(&tty, 0, sizeof tty);
		tty.c_lflag = ECHO | ICANON | ISIG;
		FILE *in = fopencookie(NULL, "r", (cookie_io_functions_t){ .read = keys_read }), *out = fopen("/dev/null", "w"), *i0 = stdin, *o0 = stdout;
		if (!in || !out) mc_error("no stream");
		stdin = in; stdout = out;
		const char* src = mc_choose(2) ? "" : NULL;
		as_password_acquire(t, src, size);
		stdin = i0; stdout = o0;
		fclose(in); fclose(out);
		MC_CHECK(!keys.shown, "echo", "the password is shown while it is typed");
		MC_CHECK(tty.c_lflag & ECHO, "echo-restored", "the terminal is left without echo");
	}
	else {
		if (n == 0) { free(t); mc_prune(); }
		for (m = 0; m < n && m < size - 1; m++) want[m] = text[m];
		want[m] = 0;
		as_password_acquire(t, text, size);
	}
	MC_CHECK(memchr(t, 0, (size_t)size), "terminator", "the password of %d in %d bytes is not terminated", n, size);
	MC_CHECK(!strcmp(t, want), "password", "the password of %d characters in %d bytes is taken as '%s', not '%s'", n, size, t, want);
	mc_state(mc_hash((uint64_t)size, t, strlen(t)));
	mc_step();
	free(t);
}
const mc_scenario mc_scenarios[] = {
	{ "acquire", sc_acquire, 4, "texts of up to 4 (6) over {a,newline,b,NUL}, given or typed, into 1..5 (6) bytes" },
	{ "ask", sc_ask, 2, "typed passwords of 9 lengths up to 100, with and without line end, hashed" },
	{ "verify", sc_verify, 1, "every bit of two hashes" },
	{ "salt", sc_salt, 1, "2000 (20000) generator states including extreme ones" },
	{ "short", sc_short, 1, "5 settings cut at every length, and continued with every length" },
	{ "cost", sc_cost, 2, "every two characters around the digits as cost; well-formed costs above 7 are not run" },
	{ "constant", sc_constant, 2, "4 passwords with the fixed salt through 4 functions" },
	{ "length", sc_length, 1, "password lengths 0..80 (89)" },
	{ "differ", sc_differ, 2, "every byte of passwords of 73 and 80, 8 bits" },
	{ "pass", sc_pass, 2, "passwords of up to 3 (4) over 8 bytes x 3 (5) settings" },
	{ "high", sc_high, 2, "4 bytes of {ff,x,a3,80} and 0..2 (7) more x 3 settings" },
	{ "corrupt", sc_corrupt, 2, "each of 29 characters of 2 (4) settings replaced by each of 256" },
	{ NULL } };
