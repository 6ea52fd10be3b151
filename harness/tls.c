// C20: certificate names against host names.
#include "mc.h"
#include <aerospike/ssl_util.h>
#include <arpa/inet.h>
#include <ctype.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef enum { K_CN, K_DNS, K_CN_BMP, K_EMAIL, K_URI, K_IP, K_ORG, K_CN_PRINTABLE, K_CN_LATIN } kind_t;
static const char* const kn[] = { "CN", "DNS", "CN(BMP)", "email", "URI", "IP", "O", "CN(printable)", "CN(T61)" };
typedef struct { kind_t kind; int len; char s[320]; } name_t;

static const char* show(const name_t* n)
{
	static char b[4][700];
	static int k;
	char* p = b[k++ & 3];
	char* r = p;
	p += sprintf(p, "%s '", kn[n->kind]);
	for (int i = 0; i < n->len && i < 150; i++) p += n->s[i] > 31 && n->s[i] < 127 ? sprintf(p, "%c", n->s[i]) : sprintf(p, "\\x%02x", (uint8_t)n->s[i]);
	sprintf(p, "'");
	return r;
}

static X509* cert(const name_t* names, int n)
{
	X509* x = X509_new();
	X509_NAME* subj = X509_get_subject_name(x);
	GENERAL_NAMES* gens = NULL;
	for (int i = 0; i < n; i++) {
		const name_t* m = &names[i];
		if (m->kind == K_CN || m->kind == K_CN_BMP || m->kind == K_ORG || m->kind == K_CN_PRINTABLE || m->kind == K_CN_LATIN) {
			uint8_t bmp[700];
			const uint8_t* d = (const uint8_t*)m->s;
			int len = m->len, type = m->kind == K_CN_PRINTABLE ? V_ASN1_PRINTABLESTRING : m->kind == K_CN_LATIN ? V_ASN1_T61STRING : V_ASN1_UTF8STRING;
			if (m->kind == K_CN_BMP) {
				for (int k = 0; k < len; k++) { bmp[2 * k] = 0; bmp[2 * k + 1] = d[k]; }
				d = bmp; len *= 2; type = V_ASN1_BMPSTRING;
			}
			X509_NAME_ENTRY* e = X509_NAME_ENTRY_new();
			X509_NAME_ENTRY_set_object(e, OBJ_nid2obj(m->kind == K_ORG ? NID_organizationName : NID_commonName));
			ASN1_STRING* v = X509_NAME_ENTRY_get_data(e);
			ASN1_STRING_set(v, d, len);
			((struct asn1_string_st*)v)->type = type;
			if (!X509_NAME_add_entry(subj, e, -1, 0)) mc_error("cannot add a name");
			X509_NAME_ENTRY_free(e);
		}
		else {
			GENERAL_NAME* g = GENERAL_NAME_new();
			ASN1_STRING* v = m->kind == K_IP ? ASN1_OCTET_STRING_new() : ASN1_IA5STRING_new();
			ASN1_STRING_set(v, m->s, m->len);
			GENERAL_NAME_set0_value(g, m->kind == K_DNS ? GEN_DNS : m->kind == K_EMAIL ? GEN_EMAIL : m->kind == K_URI ? GEN_URI : GEN_IPADD, v);
			if (!gens) gens = sk_GENERAL_NAME_new_null();
			sk_GENERAL_NAME_push(gens, g);
		}
	}
	if (gens) {
		if (X509_add1_ext_i2d(x, NID_subject_alt_name, gens, 0, X509V3_ADD_DEFAULT) != 1) mc_error("cannot add alternative names");
		sk_GENERAL_NAME_pop_free(gens, GENERAL_NAME_free);
	}
	return x;
}

// ---- the rule ----------------------------------------------------------------
static bool same(const char* a, int an, const char* b, int bn, bool nocase)
{
	if (an != bn) return false;
	for (int i = 0; i < an; i++) {
		char x = a[i], y = b[i];
		if (nocase) { if (x >= 'A' && x <= 'Z') x = (char)(x + 32); if (y >= 'A' && y <= 'Z') y = (char)(y + 32); }
		if (x != y) return false;
	}
	return true;
}
static bool rule_name(const name_t* n, const char* host, int hl, bool wild)
{
	if (n->kind != K_CN && n->kind != K_DNS && n->kind != K_CN_BMP && n->kind != K_CN_PRINTABLE && n->kind != K_CN_LATIN) return false;
	if (n->len == 0 || memchr(n->s, 0, (size_t)n->len)) return false;
	if (same(n->s, n->len, host, hl, true)) return true;
	if (!wild || n->len < 2 || n->s[0] != '*' || n->s[1] != '.') return false;
	int label = 0;
	while (label < hl && host[label] != '.') label++;
	return label > 0 && label < hl && same(n->s + 1, n->len - 1, host + label, hl - label, true);
}
static bool rule_san(const name_t* n, const char* host, int hl)
{
	if (n->kind == K_IP) {
		uint8_t a[16];
		if (n->len == 4) return inet_pton(AF_INET, host, a) == 1 && !memcmp(a, n->s, 4);
		if (n->len == 16) return inet_pton(AF_INET6, host, a) == 1 && !memcmp(a, n->s, 16);
		return false;
	}
	return n->kind == K_DNS && !memchr(n->s, 0, (size_t)n->len) && same(n->s, n->len, host, hl, false);
}
static void ask(X509* x, const name_t* names, int n, const char* host)
{
	int hl = (int)strlen(host);
	bool want[3] = { false, false, false };
	for (int i = 0; i < n; i++) {
		want[0] |= rule_name(&names[i], host, hl, false);
		want[1] |= rule_name(&names[i], host, hl, true);
		want[2] |= rule_san(&names[i], host, hl);
	}
	for (int k = 0; k < 3; k++) {
		if (k == 2 && hl == 0) break;	// no host name to look for
		bool got = k < 2 ? as_tls_match_name(x, host, k == 1) : as_tls_match_san(x, host);
		mc_case();
		if (got != want[k]) {
			const char* last = n ? show(&names[n - 1]) : "nothing";
			const char* first = n > 1 ? show(&names[0]) : "";
			mc_violation(got ? "accepts" : "rejects", "%s for host '%s' %s by a certificate with %d name(s): %s %s",
				k == 0 ? "plain check" : k == 1 ? "wildcard check" : "alternative name check", host, got ? "accepted" : "rejected", n, first, last);
		}
	}
	mc_step();
}

// Every name against every host.
static char hosts[5000][8];
static int nhosts, host_len = -1;
static void make_hosts(int max)
{
	static const char ab[] = "aAb.*";
	if (host_len == max) return;
	host_len = max;
	nhosts = 0;
	for (int len = 0; len <= max; len++) {
		int total = 1;
		for (int i = 0; i < len; i++) total *= 5;
		for (int v = 0; v < total; v++, nhosts++) {
			int w = v;
			for (int i = 0; i < len; i++, w /= 5) hosts[nhosts][i] = ab[w % 5];
			hosts[nhosts][len] = 0;
		}
	}
}
static void sc_single(void)
{
	static const char ab[] = { 'a', 'A', 'b', '.', '*', 0 };
	static const kind_t kinds[] = { K_CN, K_DNS, K_CN_BMP };
	make_hosts(mc_pick(4, 5));
	name_t n = { kinds[mc_choose(mc_pick(2, 3))], 0, "" };
	n.len = mc_choose(mc_pick(5, 6));
	for (int i = 0; i < n.len; i++) n.s[i] = ab[mc_choose(6)];
	X509* x = cert(&n, 1);
	for (int i = 0; i < nhosts; i++) ask(x, &n, 1, hosts[i]);
	mc_state(mc_hash(n.kind, n.s, (size_t)n.len));
	X509_free(x);
}
// Several names of several kinds; only some count.
static void sc_multi(void)
{
	static const struct { const char* s; int len; } ns[] = { { "h.com", 5 }, { "*.com", 5 }, { "h.com\0x", 7 }, { "", 0 }, { "\0h.com", 6 }, { "H.COM", 5 } };
	static const char* const hs[] = { "h.com", "H.com", "g.com", ".com", "com", "x.h.com", "*.com", "", "h.co", "h.comm" };
	static const kind_t kinds[] = { K_CN, K_DNS, K_EMAIL, K_URI, K_ORG, K_CN_BMP, K_CN_PRINTABLE, K_CN_LATIN };
	int n = mc_choose(mc_pick(3, 4));
	name_t names[4];
	for (int i = 0; i < n; i++) {
		names[i].kind = kinds[mc_choose(8)];
		int k = mc_choose(6);
		names[i].len = ns[k].len;
		memcpy(names[i].s, ns[k].s, (size_t)ns[k].len);
	}
	X509* x = cert(names, n);
	for (size_t i = 0; i < sizeof hs / sizeof *hs; i++) ask(x, names, n, hs[i]);
	uint64_t h = (uint64_t)n;
	for (int i = 0; i < n; i++) h = mc_hash(h * 8 + names[i].kind, names[i].s, (size_t)names[i].len);
	mc_state(h);
	X509_free(x);
}
// Many names, one of them right.
static void sc_many(void)
{
	static name_t names[70];
	int n = mc_choose(mc_pick(36, 68)), at = mc_choose(n + 1), kind = mc_choose(3);
	for (int i = 0; i < n; i++) {
		names[i].kind = kind == 0 ? K_CN : kind == 1 ? K_DNS : i % 2 ? K_DNS : K_CN;
		names[i].len = sprintf(names[i].s, i == at ? "right.example" : "wrong%d.example", i);
	}
	X509* x = cert(names, n);
	ask(x, names, n, "right.example");
	ask(x, names, n, "wrong0.example");
	ask(x, names, n, "wrong.example");
	mc_state((uint64_t)(n * 1000 + at * 3 + kind));
	X509_free(x);
}
// Long names, nearly equal.
static void sc_long(void)
{
	name_t n = { mc_choose(2) ? K_DNS : K_CN, 1 + mc_choose(300), "" };
	bool wild = mc_choose(2);
	char h[400];
	for (int i = 0; i < n.len; i++) n.s[i] = i % 8 == 7 ? '.' : (char)('a' + i % 26);
	if (wild && n.len > 2) { n.s[0] = '*'; n.s[1] = '.'; }
	X509* x = cert(&n, 1);
	for (int k = 0; k < 7; k++) {
		memcpy(h, n.s, (size_t)n.len);
		h[n.len] = 0;
		if (wild && n.len > 2 && k != 6) h[0] = 'w';
		if (k == 1) h[n.len - 1] ^= 1;
		if (k == 2) { h[n.len] = 'z'; h[n.len + 1] = 0; }
		if (k == 3) h[n.len - 1] = 0;
		if (k == 4) for (int i = 0; i < n.len; i++) h[i] = (char)toupper((uint8_t)h[i]);
		if (k == 5) { memmove(h + 1, h, (size_t)n.len + 1); h[0] = '.'; }
		ask(x, &n, 1, h);
	}
	mc_state((uint64_t)(n.len * 4 + wild * 2 + (n.kind == K_DNS)));
	X509_free(x);
}
static void sc_ip(void)
{
	static const char* const texts[] = { "10.0.0.1", "255.255.255.255", "0.0.0.0", "010.0.0.1", "10.0.0.1 ", "10.0.0", "10.1", "10.0.0.10", "::1", "::", "0:0:0:0:0:0:0:1",
		"::ffff:10.0.0.1", "fe80::a:b", "FE80::A:B", "fe80:0:0:0:0:0:a:b", "2001:db8::1", "2001:0db8:0000:0000:0000:0000:0000:0001", "2001:db8::1%eth0", "1::2::3", "host", "", "2001:db8:1:2:3:4:5:6", "2001:db8:1:2:3:4:5:7" };
	enum { N = sizeof texts / sizeof *texts };
	name_t names[2];
	int n = 1 + mc_choose(2);
	for (int i = 0; i < n; i++) {
		int k = mc_choose(N + 3);
		memset(names[i].s, 0, 32);
		names[i].kind = K_IP;
		if (k < N && inet_pton(AF_INET, texts[k], names[i].s) == 1) names[i].len = 4;
		else if (k < N && inet_pton(AF_INET6, texts[k], names[i].s) == 1) names[i].len = 16;
		else if (k < N) { names[i].kind = K_DNS; names[i].len = (int)strlen(texts[k]); memcpy(names[i].s, texts[k], (size_t)names[i].len); }
		else { names[i].len = mc_choose(20); memset(names[i].s, k == N ? 0 : k == N + 1 ? 0xff : '1', (size_t)names[i].len); }
	}
	X509* x = cert(names, n);
	for (int i = 0; i < N; i++) ask(x, names, n, texts[i]);
	uint64_t h = (uint64_t)n;
	for (int i = 0; i < n; i++) h = mc_hash(h * 8 + names[i].kind, names[i].s, (size_t)names[i].len);
	mc_state(h);
	X509_free(x);
}
static void sc_none(void)
{
	bool wild = mc_choose(2);
	if (mc_choose(2)) MC_CHECK(!as_tls_match_name(NULL, "a", wild), "accepts", "no certificate at all is accepted");
	else if (mc_choose(2)) MC_CHECK(!as_tls_match_san(NULL, "a"), "accepts", "no certificate at all is accepted");
	else {
		X509* x = X509_new();
		ask(x, NULL, 0, "a");
		ask(x, NULL, 0, "");
		X509_free(x);
	}
	mc_state(wild);
	mc_step();
}
// Short of memory the answer may be no, but never a wrong yes.
static void sc_shortage(void)
{
	int n = mc_choose(4), right = mc_choose(n + 2);
	n = (int[]){ 1, 2, 17, 33 }[n];
	right = right == 0 ? -1 : (int[]){ 0, 1, 16, 32 }[right - 1] % n;
	bool alt = mc_choose(2), wild = mc_choose(2);
	name_t names[40];
	for (int i = 0; i < n; i++) {
		names[i] = (name_t){ alt ? K_DNS : K_CN, 0, "" };
		names[i].len = i == right ? sprintf(names[i].s, "h.com") : sprintf(names[i].s, "n%d.com", i);
	}
	X509* x = cert(names, n);
	mc_alloc_explore(mc_pick(1, 2));
	mc_alloc_enter();
	bool got = as_tls_match_name(x, "h.com", wild);
	mc_alloc_leave();
	mc_log("%d names, right one %d: %d", n, right, got);
	MC_CHECK(!got || right >= 0, "accepts", "a name not in the certificate is accepted when memory is short");
	MC_CHECK(got || right < 0 || mc_alloc_failed, "rejects", "a name in the certificate is rejected");
	MC_CHECK(as_tls_match_name(x, "h.com", wild) == (right >= 0), "rejects", "the answer is wrong once memory is back");
	X509_free(x);
	mc_state((uint64_t)(n * 100 + right + 1));
	mc_step();
}
const mc_scenario mc_scenarios[] = {
	{ "none", sc_none, 1, "no certificate and a certificate without names" },
	{ "multi", sc_multi, 2, "0..2 (3) names of 6 x 8 kinds x 10 hosts" },
	{ "many", sc_many, 2, "0..35 (67) names, the right one at every position, common or alternative" },
	{ "long", sc_long, 2, "names of 1..300 characters x 7 hosts around each, with and without a leading wildcard" },
	{ "ip", sc_ip, 2, "1..2 alternative names of 25 (IPv4, IPv6, other lengths 0..19, DNS) x 23 texts" },
	{ "single", sc_single, 3, "every name up to 4 (5) over {a,A,b,.,*,NUL}, common or alternative (or 16-bit common), x every host up to 4 (5)" },
	{ "shortage", sc_shortage, 3, "1, 2, 17 and 33 names, the right one at every such position or missing x every allocation failing alone (two of them), with the others or from then on" },
	{ NULL } };
