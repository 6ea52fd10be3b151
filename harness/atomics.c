// C28: atomic operations, spin lock and single-writer lock under every interleaving.
#include "mcthr.h"
#include <aerospike/as_atomic.h>
#include <stdio.h>
#include <stdlib.h>
#include "lin.h"
MC_QUIET_BEGIN
enum { LOAD, LOAD_ACQ, STORE, STORE_RLS, CAS, FAS, FAA, AAF, AAF_RLS, ADD, INCR, INCR_RLS, DECR, DECR_RLS, SETMAX, N_OPS };
static const char* const op_names[] = { "load", "load-acquire", "store", "store-release", "compare-and-set", "fetch-and-set", "fetch-and-add",
	"add-and-fetch", "add-and-fetch-release", "add", "increment", "increment-release", "decrement", "decrement-release", "set-maximum" };
#define OPS8(T, ct) \
	case LOAD: return (int64_t)as_load_##T(p); \
	case LOAD_ACQ: return (int64_t)as_load_##T##_acq(p); \
	case STORE: as_store_##T(p, (ct)x); return 0; \
	case STORE_RLS: as_store_##T##_rls(p, (ct)x); return 0; \
	case CAS: return as_cas_##T(p, (ct)x, (ct)y);
#define OPS16(T, ct, st) \
	case FAS: return (int64_t)as_fas_##T(p, (ct)x); \
	case FAA: return (int64_t)as_faa_##T(p, (st)x); \
	case AAF: return (int64_t)as_aaf_##T(p, (st)x); \
	case AAF_RLS: return (int64_t)as_aaf_##T##_rls(p, (st)x); \
	case ADD: as_add_##T(p, (st)x); return 0; \
	case INCR: as_incr_##T(p); return 0; \
	case INCR_RLS: as_incr_##T##_rls(p); return 0; \
	case DECR: as_decr_##T(p); return 0; \
	case DECR_RLS: as_decr_##T##_rls(p); return 0;
#define MAXIMUM(T, ct) case SETMAX: return as_setmax_##T(p, (ct)x);
#define TYPE(T, ct, ops) \
	static int64_t do_##T(void* a, int op, int64_t x, int64_t y) { ct* p = a; (void)y; switch (op) { ops } mc_error("no such operation"); } \
	static int64_t cv_##T(int64_t x) { return (int64_t)(ct)x; }
TYPE(uint64, uint64_t, OPS8(uint64, uint64_t) OPS16(uint64, uint64_t, int64_t) MAXIMUM(uint64, uint64_t))
TYPE(int64, int64_t, OPS8(int64, int64_t) OPS16(int64, int64_t, int64_t))
TYPE(uint32, uint32_t, OPS8(uint32, uint32_t) OPS16(uint32, uint32_t, int32_t) MAXIMUM(uint32, uint32_t))
TYPE(int32, int32_t, OPS8(int32, int32_t) OPS16(int32, int32_t, int32_t))
TYPE(uint16, uint16_t, OPS8(uint16, uint16_t) OPS16(uint16, uint16_t, int16_t))
TYPE(int16, int16_t, OPS8(int16, int16_t) OPS16(int16, int16_t, int16_t))
TYPE(uint8, uint8_t, OPS8(uint8, uint8_t))
TYPE(int8, int8_t, OPS8(int8, int8_t))
static int64_t do_ptr(void* a, int op, int64_t x, int64_t y)
{
	void** p = a;
	(void)y;
	switch (op) {
	case LOAD: return (int64_t)(intptr_t)as_load_ptr(p);
	case LOAD_ACQ: return (int64_t)(intptr_t)as_load_ptr_acq(p);
	case STORE: as_store_ptr(p, (void*)(intptr_t)x); return 0;
	case STORE_RLS: as_store_ptr_rls(p, (void*)(intptr_t)x); return 0;
	case FAS: return (int64_t)(intptr_t)as_fas_ptr(p, (void*)(intptr_t)x);
	case CAS: return as_cas_ptr(p, (void*)(intptr_t)x, (void*)(intptr_t)y);
	}
	mc_error("no such operation");
}
static int64_t cv_ptr(int64_t x) { return x; }
static double to_double(int64_t x) { double d; memcpy(&d, &x, 8); return d; }
static int64_t of_double(double d) { int64_t x; memcpy(&x, &d, 8); return x; }
static int64_t do_double(void* a, int op, int64_t x, int64_t y)
{
	double* p = a;
	switch (op) {
	case LOAD: return of_double(as_load_double(p));
	case STORE: as_store_double(p, to_double(x)); return 0;
	case FAS: return of_double(as_fas_double(p, to_double(x)));
	case CAS: return as_cas_double(p, to_double(x), to_double(y));
	}
	mc_error("no such operation");
}
static float to_float(int64_t x) { float f; uint32_t u = (uint32_t)x; memcpy(&f, &u, 4); return f; }
static int64_t of_float(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static int64_t do_float(void* a, int op, int64_t x, int64_t y)
{
	float* p = a;
	switch (op) {
	case LOAD: return of_float(as_load_float(p));
	case STORE: as_store_float(p, to_float(x)); return 0;
	case FAS: return of_float(as_fas_float(p, to_float(x)));
	case CAS: return as_cas_float(p, to_float(x), to_float(y));
	}
	mc_error("no such operation");
}
static int64_t do_bool(void* a, int op, int64_t x, int64_t y)
{
	bool* p = a;
	(void)y;
	switch (op) {
	case LOAD: return as_load_bool(p);
	case LOAD_ACQ: return as_load_bool_acq(p);
	case STORE: as_store_bool(p, x & 1); return 0;
	case STORE_RLS: as_store_bool_rls(p, x & 1); return 0;
	}
	mc_error("no such operation");
}
static int64_t cv_bool(int64_t x) { return x & 1; }
static const struct type {
	const char* name;
	int size;
	uint32_t ops;
	int64_t (*run)(void*, int, int64_t, int64_t);
	int64_t (*conv)(int64_t);
} types[] = {
#define ALL8 (1u << FAS) - 1
#define ALL16 (1u << SETMAX) - 1
	{ "uint64", 8, (1u << N_OPS) - 1, do_uint64, cv_uint64 },
	{ "uint32", 4, (1u << N_OPS) - 1, do_uint32, cv_uint32 },
	{ "int64", 8, ALL16, do_int64, cv_int64 },
	{ "int32", 4, ALL16, do_int32, cv_int32 },
	{ "uint16", 2, ALL16, do_uint16, cv_uint16 },
	{ "int16", 2, ALL16, do_int16, cv_int16 },
	{ "uint8", 1, ALL8, do_uint8, cv_uint8 },
	{ "int8", 1, ALL8, do_int8, cv_int8 },
	{ "pointer", 8, ALL8 + (1u << FAS), do_ptr, cv_ptr },
	{ "double", 8, 1u << LOAD | 1u << STORE | 1u << FAS | 1u << CAS, do_double, cv_ptr },
	{ "float", 4, 1u << LOAD | 1u << STORE | 1u << FAS | 1u << CAS, do_float, cv_uint32 },
	{ "bool", 1, 1u << LOAD | 1u << LOAD_ACQ | 1u << STORE | 1u << STORE_RLS, do_bool, cv_bool },
};
#define N_TYPES ((int)(sizeof types / sizeof *types))
static const struct type* ty;

// What the operation does to the value, and its result.
static int64_t model(const struct type* t, int64_t* v, int op, int64_t x, int64_t y)
{
	int64_t old = *v;
#define SUM(d) t->conv((int64_t)((uint64_t)old + (uint64_t)(d)))
	switch (op) {
	case LOAD: case LOAD_ACQ: return old;
	case STORE: case STORE_RLS: *v = t->conv(x); return 0;
	case CAS: if (old != t->conv(x)) return 0; *v = t->conv(y); return 1;
	case FAS: *v = t->conv(x); return old;
	case FAA: *v = SUM(x); return old;
	case AAF: case AAF_RLS: return *v = SUM(x);
	case ADD: *v = SUM(x); return 0;
	case INCR: case INCR_RLS: *v = SUM(1); return 0;
	case DECR: case DECR_RLS: *v = SUM(-1); return 0;
	default: if ((uint64_t)t->conv(x) <= (uint64_t)old) return 0; *v = t->conv(x); return 1;
	}
}
static int64_t value_of(const struct type* t, const void* p)
{
	uint64_t v = 0;
	memcpy(&v, p, (size_t)t->size);
	return t->conv((int64_t)v);
}
static int64_t edge(const struct type* t, int i)
{
	int bits = t->size * 8;
	static const int d[] = { 0, 1, -1, 2, -2 };
	if (i < 5) return t->conv(d[i]);
	i -= 5;
	if (i < 3) return t->conv((int64_t)((1ull << (bits - 1)) + (uint64_t)(i - 1)));	// sign boundary
	i -= 3;
	// Where the next narrower width ends.
	return bits == 8 ? t->conv(77 + i) : t->conv((int64_t)((1ull << (bits / 2 - i / 3)) + (uint64_t)(i % 3 - 1)));
}
#define N_EDGE 14
// One thread: what each operation returns and leaves, and that it touches nothing else.
static void sc_values(void)
{
	const struct type* t = &types[mc_choose(N_TYPES)];
	int op = mc_choose(N_OPS);
	if (!(t->ops >> op & 1)) mc_prune();
	int64_t start = edge(t, mc_choose(N_EDGE));
	bool unary = op == LOAD || op == LOAD_ACQ || (op >= INCR && op <= DECR_RLS);
	int64_t x = unary ? 0 : edge(t, mc_choose(N_EDGE)), y = op == CAS ? edge(t, mc_choose(N_EDGE)) : 0;
	int pos = mc_choose(8 / t->size);	// place in a word
	uint64_t* block = malloc(24);
	memset(block, 0xa5, 24);
	uint8_t* p = (uint8_t*)&block[1] + pos * t->size;
	memcpy(p, &start, (size_t)t->size);
	uint8_t before[24];
	memcpy(before, block, 24);
	int64_t v = start, want = model(t, &v, op, x, y);
	int64_t got = t->run(p, op, x, y);
	mc_step();
	MC_CHECK(got == want, "result", "%s of %s with %lld, %lld on %lld returns %lld, not %lld", op_names[op], t->name, (long long)x, (long long)y, (long long)start, (long long)got, (long long)want);
	MC_CHECK(value_of(t, p) == v, "value", "%s of %s with %lld, %lld on %lld leaves %lld, not %lld", op_names[op], t->name, (long long)x, (long long)y, (long long)start, (long long)value_of(t, p), (long long)v);
	memcpy(before + 8 + pos * t->size, p, (size_t)t->size);
	MC_CHECK(memcmp(before, block, 24) == 0, "neighbour", "%s of %s changes memory beside its target", op_names[op], t->name);
	mc_case();
	free(block);
}

// Several threads on one variable: some order of the operations explains every result.
static void* target;
static lin_op ops[LIN_MAX];
static int n_ops;
static void worker(void* a)
{
	int me = (int)(intptr_t)a;
	for (int i = 0; i < n_ops; i++) if (ops[i].thread == me) {
		lin_op* o = &ops[i];
		o->call = mc_seq();
		mc_log("T%d %s %lld %lld", mc_self(), op_names[o->kind], (long long)o->arg, (long long)o->arg2);
		o->res = ty->run(target, o->kind, o->arg, o->arg2);
		o->ret = mc_seq();
	}
}
static int64_t get64(const lin_seq* s) { return (int64_t)((uint64_t)(uint32_t)s->v[0] | (uint64_t)(uint32_t)s->v[1] << 32); }
static void set64(lin_seq* s, int64_t v) { s->n = 2; s->v[0] = (int)(uint32_t)v; s->v[1] = (int)((uint64_t)v >> 32); }
static bool apply(lin_seq* s, const lin_op* o)
{
	int64_t v = get64(s), r = model(ty, &v, o->kind, o->arg, o->arg2);
	set64(s, v);
	return r == o->res;
}
static const struct { int op, x, y; } menu[] = { { FAA, 1 }, { INCR_RLS }, { DECR }, { FAS, 7 }, { CAS, 3, 9 }, { CAS, 7, 3 }, { STORE_RLS, 4 },
	{ LOAD }, { SETMAX, 5 }, { SETMAX, 8 }, { AAF, -3 }, { AAF_RLS, 5 }, { ADD, 2 }, { INCR }, { DECR_RLS }, { STORE, 3 }, { LOAD_ACQ } };
#define N_MENU ((int)(sizeof menu / sizeof *menu))
static void sc_mix(void)
{
	int ti = mc_choose(N_TYPES);
	ty = &types[ti];
	int shape = mc_choose(2);	// three threads with one operation, or two with two
	int n = shape == 0 ? 3 : 4, prev = 0;
	uint64_t tag = (uint64_t)ti;
	n_ops = n;
	for (int i = 0; i < n; i++) {
		// Threads with one operation are alike; so are two with the same pair.
		int m = shape == 0 ? prev + mc_choose(N_MENU - prev) : mc_choose(mc_pick(10, N_MENU));
		if (!(ty->ops >> menu[m].op & 1)) mc_prune();
		if (shape == 0) prev = m;
		ops[i] = (lin_op){ .thread = shape == 0 ? i : i / 2, .kind = menu[m].op, .arg = menu[m].x, .arg2 = menu[m].y };
		tag = tag * 20 + (uint64_t)m;
	}
	target = malloc(8);
	int from = mc_choose(2);
	int64_t start = ty->conv(from ? 3 : -1);	// -1: the largest value of unsigned types
	memset(target, 0, 8);
	memcpy(target, &start, (size_t)ty->size);
	for (int i = 0; i < (shape == 0 ? 3 : 2); i++) mc_spawn(worker, (void*)(intptr_t)i, "worker");
	mc_sched_tag(tag * 2 + (uint64_t)from);
	mc_sched_bound(-1);
	mc_join_all();
	lin_seq s, e;
	memset(&s, 0, sizeof s);
	set64(&s, start);
	e = s;
	set64(&e, value_of(ty, target));
	if (!lin_search(ops, n_ops, 0, &s, apply, &e)) {
		char b[500]; size_t k = 0;
		for (int i = 0; i < n_ops; i++) k += (size_t)snprintf(b + k, sizeof b - k, " T%d:%s(%lld,%lld)=%lld", ops[i].thread, op_names[ops[i].kind], (long long)ops[i].arg, (long long)ops[i].arg2, (long long)ops[i].res);
		mc_violation("atomicity", "no order of%s explains the results from %lld to %lld (%s)", b, (long long)start, (long long)get64(&e), ty->name);
	}
	mc_state(mc_hash_u64(tag, (uint64_t)get64(&e)));
	free(target);
}

// Whoever sees a published value sees what was written before it was published.
static int* payload;
MC_QUIET_END
__attribute__((noinline)) static void put(int i, int v) { payload[i] = v; }
__attribute__((noinline)) static int get(int i) { return payload[i]; }
__attribute__((noinline)) static void fence_publish(uint32_t* p) { as_fence_rls(); as_store_uint32(p, 1); }
__attribute__((noinline)) static bool fence_seen(uint32_t* p) { bool b = as_load_uint32(p) == 1; as_fence_acq(); return b; }
__attribute__((noinline)) static void seq_publish(uint32_t* p) { as_fence_seq(); as_store_uint32(p, 1); }
__attribute__((noinline)) static bool seq_seen(uint32_t* p) { bool b = as_load_uint32(p) == 1; as_fence_seq(); return b; }
__attribute__((noinline)) static void spin_init(as_spinlock* l, int how) { as_spinlock a = AS_SPINLOCK_INIT; if (how) as_spinlock_init(l); else *l = a; }
__attribute__((noinline)) static void sw_init(as_swlock* l, int how) { as_swlock a = AS_SWLOCK_INIT; if (how) as_swlock_init(l); else *l = a; }
MC_QUIET_BEGIN
static int pub_op, pub_fence;
static void publisher(void* a)
{
	(void)a;
	put(0, 41);
	if (pub_fence == 1) fence_publish(target);
	else if (pub_fence == 2) seq_publish(target);
	else ty->run(target, pub_op, 1, 0);
}
static void observer(void* a)
{
	(void)a;
	bool seen = pub_fence == 1 ? fence_seen(target) : pub_fence == 2 ? seq_seen(target) : ty->run(target, LOAD_ACQ, 0, 0) != 0;
	if (seen) MC_CHECK(get(0) == 41, "stale", "a published value is seen without what was written before it");
}
static void sc_publish(void)
{
	static const int how[] = { STORE_RLS, INCR_RLS, DECR_RLS, AAF_RLS };
	int k = mc_choose(6), ti = k < 4 ? mc_choose(N_TYPES) : 1, observers = 1 + mc_choose(2);
	ty = &types[ti];
	pub_fence = k < 4 ? 0 : k - 3;
	pub_op = how[k < 4 ? k : 0];
	if (!(ty->ops >> pub_op & 1)) mc_prune();
	target = calloc(1, 8);
	payload = calloc(4, sizeof(int));
	mc_spawn(publisher, NULL, "publisher");
	for (int i = 0; i < observers; i++) mc_spawn(observer, NULL, "observer");
	mc_sched_tag((uint64_t)(k * 64 + ti * 4 + observers));
	mc_sched_bound(-1);
	mc_join_all();
	mc_state((uint64_t)(k * 64 + ti * 4 + observers));
	free(target);
	free(payload);
}

// The arguments are expressions like those of a function.
static void sc_arguments(void)
{
	int k = mc_choose(19);
	uint32_t n = 256;
	uint64_t words[4] = { 11, 22, 33, 44 };
	bool flags[3] = { false, true, false };
	double d[2] = { 1.5, 2.5 };
	float f[2] = { 1.5f, 2.5f };
	void* slot = &words[1];
	uint64_t* at = words;
	// Names an implementation may use itself.
	double v = 3.5, ov = 1.5, nv = 4.5, x = 5.5;
	bool yes = false;
	mc_step();
	switch (k) {
	case 0: as_store_bool(&flags[0], n == 256); yes = flags[0]; break;
	case 1: as_store_bool_rls(&flags[0], n == 256); yes = flags[0]; break;
	case 2: as_store_bool(&flags[0], n & 256); yes = flags[0]; break;
	case 3: as_store_bool_rls(&flags[0], n & 256); yes = flags[0]; break;
	case 4: as_store_bool(flags + 2, n); yes = flags[2] && !flags[0]; break;
	case 5: yes = as_load_bool(flags + 1) && !as_load_bool(flags + 2); break;
	case 6: yes = as_load_bool_acq(flags + 1) && !as_load_bool_acq(flags + 2); break;
	case 7: as_store_double(d + 1, v); yes = d[1] == 3.5 && d[0] == 1.5; break;
	case 8: { float v = 3.5f; as_store_float(f + 1, v); yes = f[1] == 3.5f && f[0] == 1.5f; break; }
	case 9: yes = as_fas_double(&d[0], nv) == 1.5 && d[0] == 4.5; break;
	case 10: { float nv = 4.5f; yes = as_fas_float(&f[0], nv) == 1.5f && f[0] == 4.5f; break; }
	case 11: yes = as_cas_double(&d[0], ov, nv) && d[0] == 4.5; break;
	case 12: yes = as_cas_double(&d[0], x - 4, nv + ov) && d[0] == 6; break;
	case 13: { float ov = 1.5f, nv = 4.5f; yes = as_cas_float(&f[0], ov, nv) && f[0] == 4.5f; break; }
	case 14: { double* v = d; yes = as_load_double(v) == 1.5 && as_load_double(v + 1) == 2.5; break; }
	case 15: { float* v = f; yes = as_load_float(v) == 1.5f && as_load_float(v + 1) == 2.5f; break; }
	case 16: yes = as_fas_ptr(&slot, at + 2) == &words[1] && slot == &words[2]; break;
	case 17: yes = as_cas_ptr(&slot, at + 1, at + 3) && slot == &words[3]; break;
	case 18: yes = !as_cas_ptr(&slot, at + 2, at + 3) && slot == &words[1]; break;
	}
	MC_CHECK(yes, "argument", "an atomic operation takes an argument for another (case %d)", k);
	mc_state((uint64_t)k);
}
static as_spinlock* spin;
static as_swlock* sw;
static int inside_w, inside_r, rounds;
static void spinner(void* a)
{
	int me = (int)(intptr_t)a;
	for (int r = 0; r < rounds; r++) {
		as_spinlock_lock(spin);
		MC_CHECK(inside_w++ == 0, "exclusion", "two threads hold the spin lock");
		mc_log("T%d holds the lock", mc_self());
		int v = get(0);
		mc_point();
		put(0, v + 1 + me * 100);
		MC_CHECK(inside_w-- == 1, "exclusion", "two threads hold the spin lock");
		as_spinlock_unlock(spin);
	}
}
static void sc_spin(void)
{
	int how = mc_choose(2), threads = 2 + mc_choose(2), want = 0;
	rounds = 1 + mc_choose(mc_pick(2, 3));
	spin = malloc(sizeof *spin);
	memset(spin, 0x5a, sizeof *spin);
	spin_init(spin, how);
	payload = calloc(4, sizeof(int));
	inside_w = 0;
	for (int i = 0; i < threads; i++) { mc_spawn(spinner, (void*)(intptr_t)i, "locker"); want += rounds * (1 + i * 100); }
	mc_sched_tag((uint64_t)(how * 100 + threads * 10 + rounds));
	mc_sched_bound(threads == 2 && rounds == 1 ? -1 : threads == 2 ? mc_pick(4, 6) : mc_pick(3, 4));
	mc_join_all();
	MC_CHECK(get(0) == want, "lost-update", "updates under the spin lock are lost: %d, not %d", get(0), want);
	// Free again: taking it does not wait.
	as_spinlock_lock(spin);
	as_spinlock_unlock(spin);
	as_spinlock_destroy(spin);
	mc_state((uint64_t)(how * 100 + threads * 10 + rounds));
	free(spin);
	free(payload);
}

static int w_rounds, r_rounds, overlap_seen;
static void sw_writer(void* a)
{
	(void)a;
	for (int r = 0; r < w_rounds; r++) {
		as_swlock_write_lock(sw);
		MC_CHECK(inside_r == 0, "exclusion", "the writer holds the lock together with a reader");
		inside_w++;
		mc_log("T%d writes", mc_self());
		put(0, r + 1);
		mc_point();
		put(1, r + 1);
		MC_CHECK(inside_r == 0, "exclusion", "the writer holds the lock together with a reader");
		inside_w--;
		as_swlock_write_unlock(sw);
	}
}
static void sw_reader(void* a)
{
	(void)a;
	int last = 0;
	for (int r = 0; r < r_rounds; r++) {
		as_swlock_read_lock(sw);
		MC_CHECK(inside_w == 0, "exclusion", "a reader holds the lock together with the writer");
		if (++inside_r == 2) overlap_seen = 1;
		mc_log("T%d reads", mc_self());
		int x = get(0);
		mc_point();
		int y = get(1);
		MC_CHECK(x == y, "torn", "a reader sees %d and %d, written together", x, y);
		MC_CHECK(x >= last, "stale", "a reader sees %d after %d", x, last);
		last = x;
		MC_CHECK(inside_w == 0, "exclusion", "a reader holds the lock together with the writer");
		inside_r--;
		as_swlock_read_unlock(sw);
	}
}
static void sc_single_writer(void)
{
	int how = mc_choose(2), readers = 1 + mc_choose(2);
	w_rounds = 1 + mc_choose(mc_pick(2, 3));
	r_rounds = 1 + mc_choose(mc_pick(2, 3));
	sw = malloc(sizeof *sw);
	memset(sw, 0x5a, sizeof *sw);
	sw_init(sw, how);
	payload = calloc(4, sizeof(int));
	inside_w = inside_r = overlap_seen = 0;
	mc_spawn(sw_writer, NULL, "writer");
	for (int i = 0; i < readers; i++) mc_spawn(sw_reader, NULL, "reader");
	mc_sched_tag((uint64_t)(how * 1000 + readers * 100 + w_rounds * 10 + r_rounds));
	mc_sched_bound(readers == 1 && w_rounds + r_rounds == 2 ? -1 : readers == 1 ? mc_pick(4, 6) : mc_pick(3, 4));
	mc_join_all();
	MC_CHECK(get(0) == w_rounds && get(1) == w_rounds, "lost-update", "the writer's last values are not there");
	// Readers do not exclude each other; afterwards it is free for writing.
	mc_log("afterwards: two readers, then the writer");
	as_swlock_read_lock(sw);
	as_swlock_read_lock(sw);
	as_swlock_read_unlock(sw);
	as_swlock_read_unlock(sw);
	as_swlock_write_lock(sw);
	as_swlock_write_unlock(sw);
	as_swlock_read_lock(sw);
	as_swlock_read_unlock(sw);
	as_swlock_destroy(sw);
	mc_state(mc_hash_u64((uint64_t)(how * 1000 + readers * 100 + w_rounds * 10 + r_rounds), (uint64_t)overlap_seen));
	free(sw);
	free(payload);
}
const mc_scenario mc_scenarios[] = {
	{ "values", sc_values, 3, "12 types x 15 operations x 14 start values x 14 (x 14) operands x every place in a word" },
	{ "mix", sc_mix, 4, "12 types x 17 operations: 3 threads with 1 and 2 threads with 2 (of 10 in the quick tier), from 2 start values, all interleavings" },
	{ "arguments", sc_arguments, 1, "19 uses with arguments that are sums, comparisons and variables of various names" },
	{ "publish", sc_publish, 3, "store, increment, decrement, add with release and two fences x every type, 1..2 observers, all interleavings" },
	{ "spin", sc_spin, 3, "2..3 threads x 1..2 (3) rounds, all interleavings for 2 threads in one round, preemption bound 4 (6) for 2 and 3 (4) for 3" },
	{ "single-writer", sc_single_writer, 4, "1 writer, 1..2 readers x 1..2 (3) rounds each, all interleavings in one round, preemption bound 4 (6) with 1 reader and 3 (4) with 2" },
	{ NULL } };
MC_QUIET_END
