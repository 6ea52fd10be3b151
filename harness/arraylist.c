// C01: array lists against a plain sequence.
#include "mc.h"

#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_geojson.h>
#include <alloca.h>
#include <stdio.h>
#include <string.h>

#define MAXN 128

enum { NIL, INT, DBL, STR, BYT, LST, MAP, N_KINDS };

typedef struct {
	int kind;
	int tok;
	as_val* ptr;	// identity, when the caller made the value
} elem;

typedef struct {
	elem e[MAXN];
	int n;
	long cap;	// only meaningful while block == 0
	int block;
} model;

typedef struct {
	as_arraylist* l;
	model m;
	bool abstract;	// call through the as_list interface
} inst;

static int tok;		// next token
static int flav;	// flavour rotation

static const char* kind_name[] = {"nil", "int", "dbl", "str", "byt", "lst", "map"};

static as_val*
make_val(int kind, int t)
{
	char b[16];
	switch (kind) {
	case INT: return (as_val*)as_integer_new(t);
	case DBL: return (as_val*)as_double_new(t + 0.5);
	case STR: snprintf(b, sizeof b, "s%d", t); return (as_val*)as_string_new_strdup(b);
	case BYT: { as_bytes* y = as_bytes_new(4); as_bytes_set_int32(y, 0, t); return (as_val*)y; }
	case LST: { as_arraylist* l = as_arraylist_new(1, 1); as_arraylist_append_int64(l, t); return (as_val*)l; }
	case MAP: { as_orderedmap* m = as_orderedmap_new(2); as_orderedmap_set(m, (as_val*)as_integer_new(t), (as_val*)as_integer_new(t)); return (as_val*)m; }
	default: return NULL;
	}
}

static void
check_elem(const char* how, const as_val* v, const elem* e, int i)
{
	MC_CHECK(v != NULL, "list-element", "%s: element %d is NULL, expected %s %d", how, i, kind_name[e->kind], e->tok);
	if (e->ptr) {
		MC_CHECK(v == e->ptr, "list-element", "%s: element %d is not the stored value (%s %d)", how, i, kind_name[e->kind], e->tok);
	}
	bool ok = false;
	char b[16];
	switch (e->kind) {
	case NIL: ok = as_val_type(v) == AS_NIL; break;
	case INT: ok = as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == e->tok; break;
	case DBL: ok = as_val_type(v) == AS_DOUBLE && as_double_get((as_double*)v) == e->tok + 0.5; break;
	case STR: snprintf(b, sizeof b, "s%d", e->tok);
		ok = as_val_type(v) == AS_STRING && strcmp(as_string_get((as_string*)v), b) == 0; break;
	case BYT: { int32_t x = 0; ok = as_val_type(v) == AS_BYTES && as_bytes_get_int32((as_bytes*)v, 0, &x) == 4 && x == e->tok; break; }
	case LST: ok = as_val_type(v) == AS_LIST && as_list_size((as_list*)v) == 1 && as_list_get_int64((as_list*)v, 0) == e->tok; break;
	case MAP: ok = as_val_type(v) == AS_MAP && as_map_size((as_map*)v) == 1; break;
	}
	MC_CHECK(ok, "list-element", "%s: element %d is not %s %d", how, i, kind_name[e->kind], e->tok);
}

typedef struct { const model* m; int off; int n; int stop; const char* how; } walk;

static bool
walk_cb(as_val* v, void* u)
{
	walk* w = u;
	MC_CHECK(w->n + w->off < w->m->n, "list-foreach", "foreach visits more than %d elements", w->m->n);
	check_elem(w->how, v, &w->m->e[w->n + w->off], w->n);
	w->n++;
	return w->n != w->stop;
}

// Compares a list with m->e[from..to).
static void
check_content(const char* how, const as_arraylist* l, const model* m, int from, int to)
{
	int n = to - from;
	MC_CHECK((int)as_arraylist_size(l) == n, "list-size", "%s: size %u, expected %d", how, as_arraylist_size(l), n);
	MC_CHECK((int)as_list_size((as_list*)l) == n, "list-size", "%s: abstract size", how);
	for (int i = 0; i < n; i++) {
		check_elem(how, as_arraylist_get(l, i), &m->e[from + i], i);
	}
	MC_CHECK(as_arraylist_get(l, n) == NULL && as_arraylist_get(l, UINT32_MAX) == NULL, "list-get", "%s: get past the end is not NULL", how);
}

// Appends to a list derived from m->e[from..), which may grow as the original may.
static void
grown(const char* how, as_arraylist* l, const model* m, int from)
{
	model dm = {.n = 0, .block = m->block};
	for (int i = from; i < m->n; i++) dm.e[dm.n++] = m->e[i];
	for (int i = 0; i < 2; i++) {
		dm.e[dm.n++] = (elem){.kind = INT, .tok = 777};
		MC_CHECK(as_arraylist_append_int64(l, 777) == AS_ARRAYLIST_OK, "list-take-drop", "append to a derived list: %s", how);
	}
	check_content(how, l, &dm, 0, dm.n);
}

static void
observe(inst* in)
{
	as_arraylist* l = in->l;
	model* m = &in->m;
	as_list* al = (as_list*)l;
	check_content("get", l, m, 0, m->n);
	if (!mc_fresh()) return;

	uint64_t h = mc_hash_u64(m->block, m->cap);
	for (int i = 0; i < m->n; i++) { h = mc_hash_u64(h, m->e[i].kind * 1000 + m->e[i].tok); }
	mc_state(h);

	// Typed reads at every index, both routes.
	for (int i = 0; i <= m->n; i++) {
		elem none = {.kind = -1};
		const elem* e = i < m->n ? &m->e[i] : &none;
		char b[16];
		snprintf(b, sizeof b, "s%d", e->tok);
		as_val* v = as_arraylist_get(l, i);
		int64_t i1 = as_arraylist_get_int64(l, i), i2 = as_list_get_int64(al, i);
		double d1 = as_arraylist_get_double(l, i), d2 = as_list_get_double(al, i);
		char* s1 = as_arraylist_get_str(l, i), *s2 = as_list_get_str(al, i);
		MC_CHECK(as_list_get(al, i) == v, "list-get", "abstract get(%d)", i);
		MC_CHECK(i1 == i2 && i1 == (e->kind == INT ? e->tok : 0), "list-typed-get", "get_int64(%d) = %lld/%lld", i, (long long)i1, (long long)i2);
		MC_CHECK(d1 == d2 && d1 == (e->kind == DBL ? e->tok + 0.5 : 0), "list-typed-get", "get_double(%d) = %g/%g", i, d1, d2);
		MC_CHECK(s1 == s2 && (e->kind == STR ? s1 && !strcmp(s1, b) : s1 == NULL), "list-typed-get", "get_str(%d)", i);
#define CONV(f, k) do { void* p1 = as_arraylist_get_##f(l, i); void* p2 = as_list_get_##f(al, i); \
		MC_CHECK(p1 == p2 && p1 == (e->kind == k ? (void*)v : NULL), "list-typed-get", "get_" #f "(%d)", i); } while (0)
		CONV(integer, INT); CONV(as_double, DBL); CONV(string, STR); CONV(bytes, BYT); CONV(list, LST); CONV(map, MAP);
#undef CONV
	}
	// foreach, stopping at each possible element.
	for (int stop = 1; stop <= m->n + 1; stop++) {
		walk w = {.m = m, .stop = stop, .how = "foreach"};
		bool r = as_arraylist_foreach(l, walk_cb, &w);
		int want = stop <= m->n ? stop : m->n;
		MC_CHECK(w.n == want && r == (stop > m->n), "list-foreach", "foreach stopping at %d: visited %d, returned %d", stop, w.n, r);
		walk w2 = {.m = m, .stop = stop, .how = "foreach"};
		bool r2 = as_list_foreach(al, walk_cb, &w2);
		MC_CHECK(w2.n == want && r2 == r, "list-foreach", "abstract foreach stopping at %d", stop);
	}
	// Iterators.
	as_arraylist_iterator it;
	as_arraylist_iterator_init(&it, l);
	as_arraylist_iterator* hit = as_arraylist_iterator_new(l);
	as_list_iterator ait;
	as_list_iterator_init(&ait, al);
	as_list_iterator* ahit = as_list_iterator_new(al);
	for (int i = 0; i < m->n; i++) {
		MC_CHECK(as_arraylist_iterator_has_next(&it) && as_arraylist_iterator_has_next(hit) &&
			as_iterator_has_next((as_iterator*)&ait) && as_iterator_has_next((as_iterator*)ahit), "list-iterator", "has_next at %d", i);
		check_elem("iterator", as_arraylist_iterator_next(&it), &m->e[i], i);
		check_elem("heap iterator", as_arraylist_iterator_next(hit), &m->e[i], i);
		check_elem("abstract iterator", as_iterator_next((as_iterator*)&ait), &m->e[i], i);
		check_elem("abstract heap iterator", as_iterator_next((as_iterator*)ahit), &m->e[i], i);
	}
	MC_CHECK(!as_arraylist_iterator_has_next(&it) && !as_iterator_has_next((as_iterator*)ahit) &&
		as_arraylist_iterator_next(&it) == NULL && as_iterator_next((as_iterator*)ahit) == NULL &&
		as_iterator_next((as_iterator*)&ait) == NULL && as_arraylist_iterator_next(hit) == NULL, "list-iterator", "iterator goes past the end");
	as_arraylist_iterator_destroy(&it);
	as_arraylist_iterator_destroy(hit);
	as_iterator_destroy((as_iterator*)&ait);
	as_iterator_destroy((as_iterator*)ahit);
	// Derived lists.
	as_val* hd = in->abstract ? as_list_head(al) : as_arraylist_head(l);
	if (m->n == 0) MC_CHECK(hd == NULL, "list-head", "head of an empty list is not NULL");
	else check_elem("head", hd, &m->e[0], 0);
	as_arraylist* t = in->abstract ? (as_arraylist*)as_list_tail(al) : as_arraylist_tail(l);
	if (m->n == 0) MC_CHECK(t == NULL || as_arraylist_size(t) == 0, "list-tail", "tail of an empty list");
	else { MC_CHECK(t != NULL, "list-tail", "tail is NULL"); check_content("tail", t, m, 1, m->n); }
	if (t && m->n > 0 && m->block > 0) grown("tail", t, m, 1);
	if (t) as_arraylist_destroy(t);
	for (int n = 0; n <= m->n + 2; n++) {
		uint32_t k = n == m->n + 2 ? UINT32_MAX : (uint32_t)n;
		int c = n < m->n ? n : m->n;
		as_arraylist* x = in->abstract ? (as_arraylist*)as_list_take(al, k) : as_arraylist_take(l, k);
		as_arraylist* y = in->abstract ? (as_arraylist*)as_list_drop(al, k) : as_arraylist_drop(l, k);
		MC_CHECK(x && y, "list-take-drop", "take/drop(%u) is NULL", k);
		check_content("take", x, m, 0, c);
		check_content("drop", y, m, c, m->n);
		// A derived list is independent of the original.
		if (m->block > 0 && n <= m->n) {
			model dm = {.n = 0, .block = m->block};
			for (int i = 0; i < c; i++) dm.e[dm.n++] = m->e[i];
			dm.e[dm.n++] = (elem){.kind = INT, .tok = 777};
			MC_CHECK(as_arraylist_append_int64(x, 777) == AS_ARRAYLIST_OK, "list-take-drop", "append to a taken list");
			check_content("taken list", x, &dm, 0, dm.n);
			if (dm.n > 1) {
				MC_CHECK(as_arraylist_remove(x, 0) == AS_ARRAYLIST_OK, "list-take-drop", "remove from a taken list");
				check_content("taken list", x, &dm, 1, dm.n);
			}
			grown("drop", y, m, c);
			as_arraylist_trim(y, 0);
		}
		as_arraylist_destroy(x);
		as_arraylist_destroy(y);
		check_content("after deriving", l, m, 0, m->n);
	}
}

// ---- model of the mutating operations ---------------------------------------

// Grows to hold 'needed' slots; false when the list may not grow.
static bool
m_room(model* m, long needed)
{
	if (needed <= m->cap) return true;
	if (m->block == 0) return false;
	m->cap = needed;	// exact growth is not observable once growth is allowed
	return true;
}

enum { F_SET, F_INSERT, F_APPEND, F_PREPEND };

static int
call_put(inst* in, int op, uint32_t ix, int kind, int t, int route, as_val** made)
{
	// route 0: generic value; route 1: by native type; route 2: typed object.
	as_arraylist* l = in->l;
	as_list* al = (as_list*)l;
	bool ab = in->abstract;
	char b[16];
	snprintf(b, sizeof b, "s%d", t);
	*made = NULL;
	if (route == 1 && kind == INT) {
		switch (op) {
		case F_SET: return ab ? as_list_set_int64(al, ix, t) : as_arraylist_set_int64(l, ix, t);
		case F_INSERT: return ab ? as_list_insert_int64(al, ix, t) : as_arraylist_insert_int64(l, ix, t);
		case F_APPEND: return ab ? as_list_append_int64(al, t) : as_arraylist_append_int64(l, t);
		default: return ab ? as_list_prepend_int64(al, t) : as_arraylist_prepend_int64(l, t);
		}
	}
	if (route == 1 && kind == DBL) {
		double d = t + 0.5;
		switch (op) {
		case F_SET: return ab ? as_list_set_double(al, ix, d) : as_arraylist_set_double(l, ix, d);
		case F_INSERT: return ab ? as_list_insert_double(al, ix, d) : as_arraylist_insert_double(l, ix, d);
		case F_APPEND: return ab ? as_list_append_double(al, d) : as_arraylist_append_double(l, d);
		default: return ab ? as_list_prepend_double(al, d) : as_arraylist_prepend_double(l, d);
		}
	}
	if (route == 1 && kind == STR) {
		switch (op) {
		case F_SET: return ab ? as_list_set_str(al, ix, b) : as_arraylist_set_str(l, ix, b);
		case F_INSERT: return ab ? as_list_insert_str(al, ix, b) : as_arraylist_insert_str(l, ix, b);
		case F_APPEND: return ab ? as_list_append_str(al, b) : as_arraylist_append_str(l, b);
		default: return ab ? as_list_prepend_str(al, b) : as_arraylist_prepend_str(l, b);
		}
	}
	as_val* v = make_val(kind, t);
	*made = v;
	if (route == 2) {
#define OBJ(k, f, T) if (kind == k) { switch (op) { \
		case F_SET: return ab ? as_list_set_##f(al, ix, (T*)v) : as_arraylist_set_##f(l, ix, (T*)v); \
		case F_INSERT: return ab ? as_list_insert_##f(al, ix, (T*)v) : as_arraylist_insert_##f(l, ix, (T*)v); \
		case F_APPEND: return ab ? as_list_append_##f(al, (T*)v) : as_arraylist_append_##f(l, (T*)v); \
		default: return ab ? as_list_prepend_##f(al, (T*)v) : as_arraylist_prepend_##f(l, (T*)v); } }
		OBJ(INT, integer, as_integer) OBJ(DBL, as_double, as_double) OBJ(STR, string, as_string)
		OBJ(BYT, bytes, as_bytes) OBJ(LST, list, as_list) OBJ(MAP, map, as_map)
#undef OBJ
	}
	switch (op) {
	case F_SET: return ab ? as_list_set(al, ix, v) : as_arraylist_set(l, ix, v);
	case F_INSERT: return ab ? as_list_insert(al, ix, v) : as_arraylist_insert(l, ix, v);
	case F_APPEND: return ab ? as_list_append(al, v) : as_arraylist_append(l, v);
	default: return ab ? as_list_prepend(al, v) : as_arraylist_prepend(l, v);
	}
}

static void
do_put(inst* in, int op, uint32_t ix, int kind, int route)
{
	static const char* opn[] = {"set", "insert", "append", "prepend"};
	model* m = &in->m;
	int t = tok++;
	as_val* made;
	if (op == F_APPEND) ix = m->n;
	if (op == F_PREPEND) ix = 0;
	mc_log("%s(%u, %s %d) route %d", opn[op], ix, kind_name[kind], t, route);
	mc_step();
	int rc = call_put(in, op, ix, kind, t, route, &made);
	// Model.
	bool ok;
	if (ix > 1000000) {
		ok = false;
		MC_CHECK(rc != AS_ARRAYLIST_OK, "list-huge-index", "%s at index %u reported success", opn[op], ix);
	}
	else {
		long needed = op == F_SET ? (long)ix + 1 : (ix > (uint32_t)m->n ? (long)ix + 1 : m->n + 1);
		ok = m_room(m, needed);
		MC_CHECK(rc == (ok ? AS_ARRAYLIST_OK : AS_ARRAYLIST_ERR_MAX), "list-return-code", "%s(%u) returned %d, expected %s", opn[op], ix, rc, ok ? "success" : "capacity error");
	}
	if (!ok) {
		if (made) as_val_destroy(made);
		return;
	}
	elem e = {.kind = kind, .tok = t, .ptr = made};
	if (ix >= (uint32_t)m->n) {
		while (m->n < (int)ix) m->e[m->n++] = (elem){.kind = NIL};
		m->e[m->n++] = e;
	}
	else if (op == F_SET) {
		m->e[ix] = e;
	}
	else {
		memmove(&m->e[ix + 1], &m->e[ix], (m->n - ix) * sizeof(elem));
		m->e[ix] = e;
		m->n++;
	}
	if (kind == NIL) m->e[ix].ptr = NULL;
}

static void
do_remove(inst* in, uint32_t ix)
{
	model* m = &in->m;
	mc_log("remove(%u)", ix);
	mc_step();
	int rc = in->abstract ? as_list_remove((as_list*)in->l, ix) : as_arraylist_remove(in->l, ix);
	bool ok = ix < (uint32_t)m->n;
	MC_CHECK(rc == (ok ? AS_ARRAYLIST_OK : AS_ARRAYLIST_ERR_INDEX), "list-return-code", "remove(%u) of %d returned %d", ix, m->n, rc);
	if (ok) {
		memmove(&m->e[ix], &m->e[ix + 1], (m->n - ix - 1) * sizeof(elem));
		m->n--;
	}
}

static void
do_trim(inst* in, uint32_t ix)
{
	model* m = &in->m;
	mc_log("trim(%u)", ix);
	mc_step();
	int rc = in->abstract ? as_list_trim((as_list*)in->l, ix) : as_arraylist_trim(in->l, ix);
	bool ok = ix < (uint32_t)m->n;
	MC_CHECK(rc == (ok ? AS_ARRAYLIST_OK : AS_ARRAYLIST_ERR_INDEX), "list-return-code", "trim(%u) of %d returned %d", ix, m->n, rc);
	if (ok) m->n = ix;
}

static void
do_concat(inst* in, int which)
{
	model* m = &in->m;
	as_arraylist* other = NULL;
	elem add[MAXN];
	int n = 0;
	mc_log(which < 0 ? "concat(itself)" : "concat(list of %d)", which);
	mc_step();
	if (which < 0) {
		other = in->l;
		n = m->n;
		memcpy(add, m->e, n * sizeof(elem));
	}
	else {
		other = as_arraylist_new(which, 1);
		for (int i = 0; i < which; i++) {
			int t = tok++;
			as_val* v = make_val(INT + i % 3, t);
			as_arraylist_append(other, v);
			add[n++] = (elem){.kind = INT + i % 3, .tok = t, .ptr = v};
		}
	}
	int rc = in->abstract ? as_list_concat((as_list*)in->l, (as_list*)other) : as_arraylist_concat(in->l, other);
	bool ok = m_room(m, m->n + n);
	MC_CHECK(rc == (ok ? AS_ARRAYLIST_OK : AS_ARRAYLIST_ERR_MAX), "list-return-code", "concat of %d to %d returned %d", n, m->n, rc);
	if (which >= 0) {
		MC_CHECK((int)as_arraylist_size(other) == n, "list-concat", "concat changed the appended list");
		as_arraylist_destroy(other);
	}
	if (ok) {
		memcpy(&m->e[m->n], add, n * sizeof(elem));
		m->n += n;
	}
}

static void
open_list(inst* in, as_arraylist* stack, int storage, int cap, int block)
{
	in->m.n = 0;
	in->m.block = block;
	in->m.cap = cap;
	mc_log("list: %s capacity %d block %d%s", storage == 0 ? "heap" : "stack", cap, block, in->abstract ? ", abstract interface" : "");
	if (storage == 0) in->l = as_arraylist_new(cap, block);
	else in->l = as_arraylist_init(stack, cap, block);
	MC_CHECK(in->l != NULL, "list-create", "cannot create a list");
}

static const int kinds_rot[] = {INT, STR, NIL, DBL, LST, BYT, INT, MAP};

static int
next_kind(void)
{
	return kinds_rot[flav % 8];
}

// One step of the narrow alphabet: every index from 0 to size+2.
static void
narrow_step(inst* in)
{
	model* m = &in->m;
	int n_put = m->n + 3;	// indexes 0..size+2
	int total = 2 * n_put + 2 + (m->n + 1) + (m->n + 1) + 3;
	int c = mc_choose(total);
	int kind = next_kind();
	int route = (flav++ / 8 + flav) % 3;
	if (c < n_put) do_put(in, F_SET, c, kind, route);
	else if ((c -= n_put) < n_put) do_put(in, F_INSERT, c, kind, route);
	else if ((c -= n_put) < 2) do_put(in, F_APPEND + c, 0, kind, route);
	else if ((c -= 2) <= m->n) do_remove(in, c);
	else if ((c -= m->n + 1) <= m->n) do_trim(in, c);
	else {
		c -= m->n + 1;
		do_concat(in, c == 2 ? -1 : c + 1);
	}
	if (m->n > 40) mc_prune();
}

static void
s_narrow(void)
{
	static const int caps[] = {0, 1, 2, 4};
	static const int blocks[] = {0, 1, 2, 5};
	inst in;
	as_arraylist st;
	in.abstract = mc_flip();
	int storage = mc_choose(2);
	int ci = mc_choose(4), bi = mc_choose(4);
	tok = 1;
	flav = ci * 4 + bi;
	open_list(&in, &st, storage, caps[ci], blocks[bi]);
	observe(&in);
	int depth = mc_pick(3, 4);
	for (int i = 0; i < depth; i++) {
		narrow_step(&in);
		observe(&in);
	}
	as_arraylist_destroy(in.l);
}

// Stack storage created by the macro: fixed capacity.
static void
s_inita(void)
{
	inst in;
	as_arraylist st;
	in.abstract = mc_flip();
	int n = mc_range(1, 4);
	tok = 1;
	flav = n;
	as_arraylist_inita(&st, n);
	memset(st.elements, 0xA5, sizeof(as_val*) * n);	// stack memory is not cleared
	in.l = &st;
	in.m = (model){.n = 0, .block = 0, .cap = n};
	mc_log("list: on the stack, capacity %d%s", n, in.abstract ? ", abstract interface" : "");
	observe(&in);
	int depth = mc_pick(4, 5);
	for (int i = 0; i < depth; i++) {
		narrow_step(&in);
		observe(&in);
	}
	as_arraylist_destroy(in.l);
}

// Every put operation x value kind x entry point x index, from lists of 0..4.
static void
s_wide(void)
{
	static const uint32_t big[] = {0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu};
	inst in;
	as_arraylist st;
	in.abstract = mc_flip();
	int storage = mc_choose(2);
	int cap = mc_choose(4), block = mc_choose(4);
	if (block == 3) block = 16;
	int pre = mc_choose(4);
	tok = 1;
	flav = 0;
	open_list(&in, &st, storage, cap, block);
	for (int i = 0; i < pre; i++) do_put(&in, F_APPEND, 0, kinds_rot[i], 0);
	int depth = mc_pick(1, 2);
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(4);
		uint32_t ix = 0;
		if (op <= F_INSERT) {
			int n = in.m.n;
			int k = mc_choose(n + 5 + 6);
			if (k < n + 5) ix = k;
			else ix = big[k - n - 5];
		}
		int kind = mc_choose(N_KINDS);
		int route = mc_choose(3);
		do_put(&in, op, ix, kind, route);
		observe(&in);
	}
	do_put(&in, F_APPEND, 0, INT, 1);
	observe(&in);
	as_arraylist_destroy(in.l);
}

// Longer histories with few alternatives: growth, shrink, regrowth.
static void
s_deep(void)
{
	inst in;
	as_arraylist st;
	in.abstract = false;
	int cap = mc_choose(3), block = mc_choose(3);
	tok = 1;
	flav = 0;
	open_list(&in, &st, 1, cap, block);
	int depth = mc_pick(7, 8);
	for (int i = 0; i < depth; i++) {
		int n = in.m.n;
		int kind = next_kind();
		int route = flav++ % 3;
		switch (mc_choose(6)) {
		case 0: do_put(&in, F_APPEND, 0, kind, route); break;
		case 1: do_put(&in, F_INSERT, n / 2, kind, route); break;
		case 2: do_put(&in, F_SET, n + 1, kind, route); break;
		case 3: do_remove(&in, n / 2); break;
		case 4: do_trim(&in, n / 2 + 1); break;
		case 5: do_concat(&in, -1); break;
		}
		if (in.m.n > 40) mc_prune();
		check_content("get", in.l, &in.m, 0, in.m.n);
	}
	observe(&in);
	as_arraylist_destroy(in.l);
}

// One long history per configuration: sizes up to a few hundred elements.
static void
s_long(void)
{
	int cap = mc_choose(5) * 7, block = 1 + mc_choose(5) * 13, op = mc_choose(4), back = mc_choose(3);
	as_arraylist* l = as_arraylist_new(cap, block);
	int N = mc_pick(400, 3000);
	int* ref = mc_raw_malloc(sizeof(int) * (N * 2 + 10));
	int n = 0;
	mc_log("list capacity %d block %d; %d puts of kind %d then removals of kind %d", cap, block, N, op, back);
	for (int i = 0; i < N; i++) {
		int ix;
		int rc;
		mc_step();
		switch (op) {
		case 0: ix = n; rc = as_arraylist_append_int64(l, i); break;
		case 1: ix = 0; rc = as_arraylist_prepend_int64(l, i); break;
		case 2: ix = (i * 7) % (n + 1); rc = as_arraylist_insert_int64(l, ix, i); break;
		default: ix = n; rc = as_arraylist_set_int64(l, n, i); break;
		}
		MC_CHECK(rc == 0, "list-return-code", "put %d returned %d", i, rc);
		memmove(&ref[ix + 1], &ref[ix], (n - ix) * sizeof(int));
		ref[ix] = i;
		n++;
		mc_case();
		if (i % 37 == 0 || i == N - 1) {
			MC_CHECK((int)as_arraylist_size(l) == n, "list-size", "size");
			for (int k = 0; k < n; k++) MC_CHECK(as_arraylist_get_int64(l, k) == ref[k], "list-element", "element %d after %d puts", k, i + 1);
		}
	}
	while (n > 0) {
		int ix = back == 0 ? n - 1 : back == 1 ? 0 : n / 2;
		mc_step();
		MC_CHECK(as_arraylist_remove(l, ix) == 0, "list-return-code", "remove");
		memmove(&ref[ix], &ref[ix + 1], (n - ix - 1) * sizeof(int));
		n--;
		if (n % 29 == 0) {
			for (int k = 0; k < n; k++) MC_CHECK(as_arraylist_get_int64(l, k) == ref[k], "list-element", "element %d after removals to %d", k, n);
		}
		mc_case();
	}
	mc_state(cap * 1000 + block * 10 + op + back * 100000);
	mc_raw_free(ref);
	as_arraylist_destroy(l);
}

const mc_scenario mc_scenarios[] = {
	{"narrow", s_narrow, 5, "all sequences of 3 (thorough 4) operations at every index 0..size+2 from 4 capacities x 4 block sizes x heap/stack x direct/abstract"},
	{"inita", s_inita, 3, "all sequences of 4 (5) operations on stack storage of 1..4 slots"},
	{"wide", s_wide, 5, "1 (2) put operation of every kind, entry point and index incl. 2^31 and 2^32-1, from lists of 0..3 elements, then append"},
	{"deep", s_deep, 4, "all sequences of 7 (8) of 6 size-changing operations"},
	{"long", s_long, 2, "histories of 400 (3000) puts and removals for every put kind, capacity and block size"},
	{0}
};
