// C31: listing directories, in a scratch directory of this run.
#include "mc.h"
#include <aerospike/as_std.h>
#include <aerospike/as_dir.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#define NAMES 9
static char long_name[256];
static const char* name(int i)
{
	static const char* const n[] = { "a", ".hidden", "with space", "-", "\xc3\xa9\xff", "...", "sub", "link" };
	if (!long_name[0]) memset(long_name, 'n', 255);
	return i < NAMES - 1 ? n[i] : long_name;
}
static char root[256];
static const char* path(const char* d, const char* f)
{
	static char p[4][1024];
	static int k;
	k = (k + 1) % 4;
	snprintf(p[k], sizeof p[k], "%s/%s%s%s", root, d, f ? "/" : "", f ? f : "");
	return p[k];
}
static void touch(const char* p)
{
	int fd = open(p, O_WRONLY | O_CREAT, 0600);
	if (fd < 0) mc_error("cannot create %s", p);
	close(fd);
}
static void make(const char* d, int mask, int many)
{
	if (mkdir(path(d, NULL), 0700)) mc_error("cannot create %s", path(d, NULL));
	for (int i = 0; i < NAMES; i++) {
		if (!(mask >> i & 1)) continue;
		const char* p = path(d, name(i));
		if (i == 6) { if (mkdir(p, 0700)) mc_error("cannot create %s", p); }
		else if (i == 7) { if (symlink("nowhere", p)) mc_error("cannot create %s", p); }
		else touch(p);
	}
	for (int i = 0; i < many; i++) { char f[120]; snprintf(f, sizeof f, "file-%04d-%0*d", i, i % 100 + 1, i); touch(path(d, f)); }
}
static void drop(const char* d, int mask, int many)
{
	for (int i = 0; i < NAMES; i++) if (mask >> i & 1) { if (i == 6) rmdir(path(d, name(i))); else unlink(path(d, name(i))); }
	for (int i = 0; i < many; i++) { char f[120]; snprintf(f, sizeof f, "file-%04d-%0*d", i, i % 100 + 1, i); unlink(path(d, f)); }
	rmdir(path(d, NULL));
}
static void begin(void)
{
	static int n;
	const char* s = getenv("MC_SCRATCH");
	if (!s) s = "/tmp";
	snprintf(root, sizeof root, "%s/dir-%d-%d", s, (int)getpid(), n++);
	if (mkdir(root, 0700)) mc_error("cannot create %s", root);
}
static int next_fd(void) { int fd = dup(0); if (fd < 0) fd = open("/dev/null", O_RDONLY); close(fd); return fd; }

// One listing and what it has shown so far.
typedef struct { as_dir dir; int open, mask, many, ended; int seen, dots; uint8_t files[2000]; } listing;
static void start(listing* l, int mask, int many) { memset(l, 0, sizeof *l); memset(&l->dir, 0x5a, sizeof l->dir); l->mask = mask; l->many = many; }
static void step(listing* l)
{
	const char* e = as_dir_read(&l->dir);
	mc_step();
	if (!e) {
		MC_CHECK(l->seen == l->mask && l->dots == 3, "missing", "the listing ends after names %x (dots %d) of %x", l->seen, l->dots, l->mask);
		for (int i = 0; i < l->many; i++) MC_CHECK(l->files[i], "missing", "the listing ends without file %d", i);
		l->ended = 1;
		return;
	}
	MC_CHECK(!l->ended, "after-end", "'%s' is listed after the end", e);
	if (!strcmp(e, ".") || !strcmp(e, "..")) {
		int b = e[1] ? 2 : 1;
		MC_CHECK(!(l->dots & b), "twice", "'%s' is listed twice", e);
		l->dots |= b;
		return;
	}
	for (int i = 0; i < NAMES; i++) {
		if (strcmp(e, name(i))) continue;
		MC_CHECK(l->mask >> i & 1, "foreign", "'%s' is not in this directory", e);
		MC_CHECK(!(l->seen >> i & 1), "twice", "'%s' is listed twice", e);
		l->seen |= 1 << i;
		return;
	}
	int i = -1;
	char f[120];
	if (sscanf(e, "file-%4d-", &i) == 1 && i >= 0 && i < l->many) {
		snprintf(f, sizeof f, "file-%04d-%0*d", i, i % 100 + 1, i);
		MC_CHECK(!strcmp(e, f), "name", "'%s' is listed for '%s'", e, f);
		MC_CHECK(!l->files[i], "twice", "'%s' is listed twice", e);
		l->files[i] = 1;
		return;
	}
	mc_violation("foreign", "'%s' is not in this directory", e);
}
static void whole(const char* d, int mask, int many)
{
	static listing l;
	start(&l, mask, many);
	int fd = next_fd();
	MC_CHECK(as_dir_exists(path(d, NULL)), "exists", "an existing directory is reported missing");
	MC_CHECK(next_fd() == fd, "handle", "asking whether a directory exists keeps a descriptor");
	MC_CHECK(as_dir_open(&l.dir, path(d, NULL)), "open", "an existing directory cannot be opened");
	for (int i = 0; !l.ended; i++) {
		if (i > 20 + many) mc_violation("endless", "the listing does not end");
		step(&l);
	}
	step(&l);
	as_dir_close(&l.dir);
	MC_CHECK(next_fd() == fd, "handle", "a closed listing keeps its descriptor");
}
static void sc_contents(void)
{
	begin();
	int mask = mc_choose(1 << NAMES);
	make("d", mask, 0);
	whole("d", mask, 0);
	// What is not a directory.
	for (int i = 0; i < NAMES; i++) {
		const char* p = path("d", name(i));
		bool want = (mask >> i & 1) && i == 6;
		int fd = next_fd();
		as_dir x;
		MC_CHECK(as_dir_exists(p) == want, "exists", "'%s' is %s a directory", name(i), want ? "not taken for" : "taken for");
		bool opened = as_dir_open(&x, p);
		MC_CHECK(opened == want, "open", "opening '%s' %s", name(i), opened ? "succeeds" : "fails");
		if (opened) as_dir_close(&x);
		MC_CHECK(next_fd() == fd, "handle", "a descriptor is kept");
		mc_step();
	}
	drop("d", mask, 0);
	rmdir(root);
	mc_state((uint64_t)mask);
}
static void sc_many(void)
{
	static const int counts[] = { 1, 100, 511, 512, 513, 1000, 1999 };
	begin();
	int n = counts[mc_choose(7)];
	make("d", 1, n);
	whole("d", 1, n);
	drop("d", 1, n);
	rmdir(root);
	mc_state((uint64_t)n);
}
// Two directories open at a time.
static void sc_two(void)
{
	static listing l[2];
	static const int masks[] = { 0, 1, 0x42, 0x7 };
	static const char* const names[] = { "p", "q", "r", "s" };
	static pid_t made;
	static char where[256];
	if (made != getpid()) {
		// Once per process; removed with the run's scratch directory.
		begin();
		strcpy(where, root);
		for (int i = 0; i < 4; i++) make(names[i], masks[i], 0);
		made = getpid();
	}
	strcpy(root, where);
	int m[2] = { mc_choose(4), mc_choose(4) }, fd = next_fd(), n = mc_pick(10, 13);
	start(&l[0], masks[m[0]], 0); start(&l[1], masks[m[1]], 0);
	for (int i = 0; i < n; i++) {
		int k = mc_choose(2);
		if (!l[k].open) {
			start(&l[k], masks[m[k]], 0);
			MC_CHECK(as_dir_open(&l[k].dir, path(names[m[k]], NULL)), "open", "an existing directory cannot be opened");
			l[k].open = 1;
		}
		else if (l[k].ended || mc_choose(2)) { as_dir_close(&l[k].dir); l[k].open = 0; }
		else step(&l[k]);
		mc_step();
	}
	mc_state(mc_hash(1, (int[]){ l[0].seen, l[1].seen, l[0].open, l[1].open, l[0].ended, l[1].ended, m[0], m[1] }, 8 * sizeof(int)));
	for (int k = 0; k < 2; k++) if (l[k].open) as_dir_close(&l[k].dir);
	MC_CHECK(next_fd() == fd, "handle", "closed listings keep descriptors");
}
// No descriptor left for the n-th open.
static void sc_limit(void)
{
	begin();
	make("d", 5, 0);
	struct rlimit old, cut;
	int fd = next_fd(), room = mc_choose(4), ask = mc_choose(3), how = mc_choose(2);
	getrlimit(RLIMIT_NOFILE, &old);
	cut = old;
	cut.rlim_cur = (rlim_t)(fd + room);
	as_dir d[3];
	bool got[3] = { false };
	setrlimit(RLIMIT_NOFILE, &cut);
	bool e = how ? as_dir_exists(path("d", NULL)) : room > 0;
	for (int i = 0; i <= ask; i++) got[i] = as_dir_open(&d[i], path("d", NULL));
	setrlimit(RLIMIT_NOFILE, &old);
	MC_CHECK(e || !room, "exists", "existence with %d descriptors left is reported as %d", room, e);
	for (int i = 0; i <= ask; i++) {
		MC_CHECK(got[i] == (i < room), "open", "open %d with %d descriptors left %s", i, room, got[i] ? "succeeds" : "fails");
		if (got[i]) as_dir_close(&d[i]);
	}
	MC_CHECK(next_fd() == fd, "handle", "descriptors are kept");
	drop("d", 5, 0);
	rmdir(root);
	mc_step();
	mc_state((uint64_t)(room * 8 + ask * 2 + how));
}
const mc_scenario mc_scenarios[] = {
	{ "contents", sc_contents, 1, "every subset of 9 names (hidden, long, odd bytes, a directory, a dangling link)" },
	{ "many", sc_many, 1, "7 sizes up to 1999 files" },
	{ "two", sc_two, 4, "any two of 4 directories (or one twice), all sequences of 10 (13) opens, reads and closes" },
	{ "limit", sc_limit, 1, "0..3 descriptors left for 1..3 opens" },
	{ NULL } };
