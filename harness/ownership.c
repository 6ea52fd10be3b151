// C03: values are released exactly once, by their last owner.
#include "mc.h"

#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>

// ---- ghost ownership ----------------------------------------------------------

#define MAXO 96
#define MAXC 48

enum { INT_H, INT_S, DBL_H, DBL_S, BOOL_H, BOOL_S, BOOL_C, NIL_C, STR_DUP, STR_OWN, STR_NOWN, STR_S, STR_WLEN,
	BYT_NEW, BYT_OWN, BYT_NOWN, BYT_S, BYT_GROWN, GEO_DUP, GEO_OWN, GEO_NOWN, GEO_S, REC_H, REC_S, LIST_K, MAP_K, PAIR_K,
	WILD_C, INF_C, STR_SW, GEO_W, GEO_SW, BYT_SN, LIST_S, MAP_S, PAIR_S, N_KINDS };

static const char* kn[] = { "integer", "stack integer", "double", "stack double", "boolean", "stack boolean", "constant boolean", "nil",
	"duplicated string", "string owning its text", "string borrowing its text", "stack string owning its text", "string with length",
	"bytes", "bytes owning a buffer", "bytes borrowing a buffer", "stack bytes owning a buffer", "bytes grown from a borrowed buffer",
	"duplicated geojson", "geojson owning its text", "geojson borrowing its text", "stack geojson", "record", "stack record",
	"list", "map", "pair", "wildcard", "infinity", "stack string with length", "geojson with length", "stack geojson with length",
	"stack bytes", "stack list", "stack map", "stack pair" };

typedef struct {
	int kind;
	as_val* v;
	bool heap;		// the struct itself is a heap block
	bool constant;		// never released
	void* buf;		// owned buffer, if any
	int ref;
	int child[MAXC];
	int n;
	int id;
	bool dead;
	int rec_destroyed;	// runs of a record's destroy hook
} obj;

static obj O[MAXO];
static int nO;
static union { as_integer i; as_double d; as_boolean b; as_string s; as_bytes y; as_geojson g; as_rec r; as_arraylist l; as_orderedmap m; as_pair p; } stk[MAXO];
static char borrowed[MAXO][8];

static bool
rec_destroy(as_rec* r)
{
	((obj*)as_rec_source(r))->rec_destroyed++;
	return true;
}
static const as_rec_hooks rec_hooks = {.destroy = rec_destroy};

static int
mk(int kind)
{
	if (nO == MAXO) mc_prune();
	int id = nO++;
	obj* o = &O[id];
	memset(o, 0, sizeof *o);
	o->kind = kind;
	o->id = id;
	o->ref = 1;
	o->heap = true;
	char t[8];
	snprintf(t, sizeof t, "t%d", id);
	snprintf(borrowed[id], 8, "t%d", id);
	char* dup = NULL;
	switch (kind) {
	case STR_OWN: case STR_S: case GEO_OWN: case GEO_S: case STR_WLEN: case STR_SW: case GEO_W: case GEO_SW: dup = cf_strdup(t); o->buf = dup; break;
	case BYT_OWN: case BYT_S: dup = cf_malloc(8); strcpy(dup, t); o->buf = dup; break;
	}
	switch (kind) {
	case INT_H: o->v = (as_val*)as_integer_new(id); break;
	case INT_S: o->v = (as_val*)as_integer_init(&stk[id].i, id); o->heap = false; break;
	case DBL_H: o->v = (as_val*)as_double_new(id); break;
	case DBL_S: o->v = (as_val*)as_double_init(&stk[id].d, id); o->heap = false; break;
	case BOOL_H: o->v = (as_val*)as_boolean_new(true); break;
	case BOOL_S: o->v = (as_val*)as_boolean_init(&stk[id].b, true); o->heap = false; break;
	case BOOL_C: o->v = (as_val*)&as_true; o->heap = false; o->constant = true; break;
	case NIL_C: o->v = (as_val*)&as_nil; o->heap = false; o->constant = true; break;
	case WILD_C: o->v = (as_val*)&as_cmp_wildcard; o->heap = false; o->constant = true; break;
	case INF_C: o->v = (as_val*)&as_cmp_inf; o->heap = false; o->constant = true; break;
	case STR_DUP: o->v = (as_val*)as_string_new_strdup(t); break;
	case STR_OWN: o->v = (as_val*)as_string_new(dup, true); break;
	case STR_WLEN: o->v = (as_val*)as_string_new_wlen(dup, strlen(dup), true); break;
	case STR_NOWN: o->v = (as_val*)as_string_new(borrowed[id], false); break;
	case STR_S: o->v = (as_val*)as_string_init(&stk[id].s, dup, true); o->heap = false; break;
	case BYT_NEW: { as_bytes* b = as_bytes_new(8); as_bytes_set(b, 0, (uint8_t*)t, 8); o->v = (as_val*)b; o->buf = as_bytes_get(b); break; }
	case BYT_OWN: o->v = (as_val*)as_bytes_new_wrap((uint8_t*)dup, 8, true); break;
	case BYT_NOWN: o->v = (as_val*)as_bytes_new_wrap((uint8_t*)borrowed[id], 8, false); break;
	case BYT_S: o->v = (as_val*)as_bytes_init_wrap(&stk[id].y, (uint8_t*)dup, 8, true); o->heap = false; break;
	case BYT_GROWN: { as_bytes* b = as_bytes_new_wrap((uint8_t*)borrowed[id], 8, false); as_bytes_ensure(b, 20, true); o->v = (as_val*)b; o->buf = as_bytes_get(b); break; }
	case GEO_DUP: o->v = (as_val*)as_geojson_new_strdup(t); break;
	case GEO_OWN: o->v = (as_val*)as_geojson_new(dup, true); break;
	case GEO_NOWN: o->v = (as_val*)as_geojson_new(borrowed[id], false); break;
	case GEO_S: o->v = (as_val*)as_geojson_init(&stk[id].g, dup, true); o->heap = false; break;
	case REC_H: o->v = (as_val*)as_rec_new(o, &rec_hooks); break;
	case REC_S: o->v = (as_val*)as_rec_init(&stk[id].r, o, &rec_hooks); o->heap = false; break;
	case LIST_K: o->v = (as_val*)as_arraylist_new(0, 2); break;
	case STR_SW: o->v = (as_val*)as_string_init_wlen(&stk[id].s, dup, strlen(dup), true); o->heap = false; break;
	case GEO_W: o->v = (as_val*)as_geojson_new_wlen(dup, strlen(dup), true); break;
	case GEO_SW: o->v = (as_val*)as_geojson_init_wlen(&stk[id].g, dup, strlen(dup), true); o->heap = false; break;
	case BYT_SN: { as_bytes* b = as_bytes_init(&stk[id].y, 8); as_bytes_set(b, 0, (uint8_t*)t, 8); o->v = (as_val*)b; o->buf = as_bytes_get(b); o->heap = false; break; }
	case LIST_S: case MAP_S: {
		int a = mk(INT_H), b = mk(STR_OWN);
		o->v = kind == LIST_S ? (as_val*)as_arraylist_init(&stk[id].l, 1, 1) : (as_val*)as_orderedmap_init(&stk[id].m, 1);
		o->heap = false;
		if (kind == LIST_S) { as_arraylist_append(&stk[id].l, O[a].v); as_arraylist_append(&stk[id].l, O[b].v); }
		else as_orderedmap_set(&stk[id].m, O[a].v, O[b].v);
		o->child[o->n++] = a;
		o->child[o->n++] = b;
		break;
	}
	case MAP_K: o->v = (as_val*)as_orderedmap_new(0); break;
	case PAIR_K: case PAIR_S: {
		int a = mk(INT_H), b = mk(STR_DUP);
		o->v = kind == PAIR_K ? (as_val*)as_pair_new(O[a].v, O[b].v) : (as_val*)as_pair_init(&stk[id].p, O[a].v, O[b].v);
		o->heap = kind == PAIR_K;
		o->child[o->n++] = a;
		o->child[o->n++] = b;
		break;
	}
	}
	MC_CHECK(o->v != NULL, "own-create", "cannot create %s", kn[kind]);
	return id;
}

static void
dec(int id)
{
	obj* o = &O[id];
	if (--o->ref == 0) {
		for (int i = 0; i < o->n; i++) dec(o->child[i]);
		o->n = 0;
	}
}

static void add(int c, int id) { obj* o = &O[c]; if (o->n >= MAXC - 1) mc_prune(); o->child[o->n++] = id; }

// Compares reality with the ghost owners: alive values readable, dead ones gone.
static void
audit(void)
{
	for (int i = 0; i < nO; i++) {
		obj* o = &O[i];
		if (o->dead) continue;
		if (o->constant) continue;
		char t[8];
		snprintf(t, sizeof t, "t%d", o->id);
		if (o->ref > 0) {
			MC_CHECK(!o->heap || mc_alloc_is_live(o->v, NULL), "own-early-release", "%s #%d was released while %d owner(s) hold it", kn[o->kind], i, o->ref);
			MC_CHECK(!o->buf || mc_alloc_is_live(o->buf, NULL), "own-early-release", "the buffer of %s #%d was released while %d owner(s) hold it", kn[o->kind], i, o->ref);
			MC_CHECK(o->rec_destroyed == 0, "own-early-release", "record #%d was destroyed while owned", i);
			bool ok = true;
			switch (as_val_type(o->v)) {
			case AS_INTEGER: ok = as_integer_get((as_integer*)o->v) == o->id; break;
			case AS_DOUBLE: ok = as_double_get((as_double*)o->v) == o->id; break;
			case AS_BOOLEAN: ok = as_boolean_get((as_boolean*)o->v); break;
			case AS_STRING: ok = strcmp(as_string_get((as_string*)o->v), t) == 0; break;
			case AS_GEOJSON: ok = strcmp(as_geojson_get((as_geojson*)o->v), t) == 0; break;
			case AS_BYTES: ok = strcmp((char*)as_bytes_get((as_bytes*)o->v), t) == 0; break;
			case AS_LIST: ok = (int)as_list_size((as_list*)o->v) == o->n; break;
			case AS_MAP: ok = (int)as_map_size((as_map*)o->v) * 2 == o->n; break;
			case AS_PAIR: ok = as_pair_1((as_pair*)o->v) == O[o->child[0]].v && as_pair_2((as_pair*)o->v) == O[o->child[1]].v; break;
			default: break;
			}
			MC_CHECK(ok, "own-content", "%s #%d lost its content while owned", kn[o->kind], i);
		}
		else {
			o->dead = true;
			MC_CHECK(!o->heap || !mc_alloc_is_live(o->v, NULL), "own-not-released", "%s #%d is not released although nobody owns it", kn[o->kind], i);
			MC_CHECK(!o->buf || !mc_alloc_is_live(o->buf, NULL), "own-not-released", "the buffer of %s #%d is not released although nobody owns it", kn[o->kind], i);
			if (o->kind == REC_H || o->kind == REC_S) MC_CHECK(o->rec_destroyed == 1, "own-not-released", "record hook ran %d times", o->rec_destroyed);
		}
		MC_CHECK(strcmp(borrowed[i], t) == 0, "own-borrowed", "a borrowed buffer was modified");
	}
}

static void
destroy_typed(as_val* v, bool typed)
{
	if (!typed) { as_val_destroy(v); return; }
	switch (as_val_type(v)) {
	case AS_INTEGER: as_integer_destroy((as_integer*)v); break;
	case AS_DOUBLE: as_double_destroy((as_double*)v); break;
	case AS_BOOLEAN: as_boolean_destroy((as_boolean*)v); break;
	case AS_STRING: as_string_destroy((as_string*)v); break;
	case AS_BYTES: as_bytes_destroy((as_bytes*)v); break;
	case AS_GEOJSON: as_geojson_destroy((as_geojson*)v); break;
	case AS_LIST: as_list_destroy((as_list*)v); break;
	case AS_MAP: as_map_destroy((as_map*)v); break;
	case AS_PAIR: as_pair_destroy((as_pair*)v); break;
	case AS_REC: as_rec_destroy((as_rec*)v); break;
	default: as_val_destroy(v); break;
	}
}

// ---- scenario ---------------------------------------------------------------------

static int X, A, B, D, M, P;	// object ids; -1 when absent
static int hX;			// handles on X
static as_result* R;
static int Rref, Rv;
static bool nested;

static void
drop_obj(int id, bool typed)
{
	as_val* v = O[id].v;
	bool last = O[id].ref == 1;
	if (typed) destroy_typed(v, true);
	else {
		as_val* r = as_val_destroy(v);
		if (!O[id].constant) MC_CHECK((r == NULL) == last, "own-destroy-result", "destroying %s #%d with %d owners gave %s", kn[O[id].kind], id, O[id].ref, r ? "the value" : "NULL");
		else MC_CHECK(r == v, "own-destroy-result", "destroying a constant gave NULL");
	}
	dec(id);
}

// A reference to X to hand over: the last handle moves, otherwise a new one.
static int
grab(bool reserve)
{
	if (hX == 0) { X = mk(O[X].kind); hX = 1; }
	if (reserve) {
		as_val* r = as_val_reserve(O[X].v);
		MC_CHECK(r == O[X].v, "own-reserve", "reserve does not return the value");
		O[X].ref++;
	}
	else hX--;
	return X;
}

static void
list_op_remove(int l, int ix)
{
	as_list_remove((as_list*)O[l].v, ix);
	if (ix < O[l].n) {
		int c = O[l].child[ix];
		memmove(&O[l].child[ix], &O[l].child[ix + 1], (O[l].n - ix - 1) * sizeof(int));
		O[l].n--;
		dec(c);
	}
}

static void
list_copy(int l, as_val* nv, int from, int to)
{
	// nv is a new list sharing l's children from..to.
	if (D >= 0) { drop_obj(D, true); D = -1; }
	if (nO == MAXO) mc_prune();
	D = nO++;
	obj* o = &O[D];
	memset(o, 0, sizeof *o);
	o->kind = LIST_K; o->id = D; o->ref = 1; o->heap = true; o->v = nv;
	snprintf(borrowed[D], 8, "t%d", D);
	for (int i = from; i < to; i++) { int c = O[l].child[i]; O[c].ref++; add(D, c); }
}

static void
map_put(int m, int key, int val)
{
	// Replaces an equal key (keys here are distinct objects with fixed text).
	as_map_set((as_map*)O[m].v, O[key].v, O[val].v);
	for (int i = 0; i < O[m].n; i += 2) {
		int k = O[m].child[i];
		bool same = as_val_type(O[k].v) == as_val_type(O[key].v) && O[k].v == O[key].v;
		if (k == key || same) {
			int ok = O[m].child[i], ov = O[m].child[i + 1];
			O[m].child[i] = key;
			O[m].child[i + 1] = val;
			dec(ok);
			dec(ov);
			return;
		}
	}
	add(m, key);
	add(m, val);
}

static void
map_del(int m, int ix)	// entry number ix
{
	if (O[m].n <= ix * 2) return;
	int k = O[m].child[ix * 2], v = O[m].child[ix * 2 + 1];
	// Look up by a separate reference to the key, which must survive the removal.
	as_val_reserve(O[k].v);
	O[k].ref++;
	as_map_remove((as_map*)O[m].v, O[k].v);
	memmove(&O[m].child[ix * 2], &O[m].child[ix * 2 + 2], (O[m].n - ix * 2 - 2) * sizeof(int));
	O[m].n -= 2;
	dec(k);
	dec(v);
	drop_obj(k, false);
}

static int keyK;	// a fixed string key object shared as key (reserved each time)

static int
key_ref(void)
{
	as_val_reserve(O[keyK].v);
	O[keyK].ref++;
	return keyK;
}

static bool
keyable(int k)
{
	switch (k) {
	case INT_H: case INT_S: case STR_DUP: case STR_OWN: case STR_NOWN: case STR_S: case STR_WLEN:
	case BYT_NEW: case BYT_OWN: case BYT_NOWN: case BYT_S: case BYT_GROWN: return true;
	}
	return false;
}

static bool walk_cb(as_val* v, void* u) { as_val_type(v); return --*(int*)u > 0; }

#define N_OPS 26

static void
op(int c)
{
	mc_step();
	switch (c) {
	case 0: mc_log("reserve X"); if (hX >= 3) mc_prune(); grab(true); hX++; break;
	case 1: mc_log("destroy a handle of X"); if (hX == 0) mc_prune(); hX--; drop_obj(X, false); break;
	case 2: mc_log("destroy a handle of X by its own kind"); if (hX == 0) mc_prune(); hX--; drop_obj(X, true); break;
	case 3: case 4: { mc_log("append X to A (%s)", c == 3 ? "moved" : "shared"); int x = grab(c == 4); as_list_append((as_list*)O[A].v, O[x].v); add(A, x); break; }
	case 5: { mc_log("insert X in front of A (shared)"); int x = grab(true); as_list_insert((as_list*)O[A].v, 0, O[x].v);
		if (O[A].n >= MAXC - 1) mc_prune();
		memmove(&O[A].child[1], &O[A].child[0], O[A].n * sizeof(int)); O[A].child[0] = x; O[A].n++; break; }
	case 6: { mc_log("set A[0] to X (shared)"); int x = grab(true); as_list_set((as_list*)O[A].v, 0, O[x].v);
		if (O[A].n == 0) add(A, x); else { int old = O[A].child[0]; O[A].child[0] = x; dec(old); } break; }
	case 7: mc_log("remove A[0]"); list_op_remove(A, 0); break;
	case 8: { mc_log("trim A to 1"); int n = O[A].n; as_list_trim((as_list*)O[A].v, 1); for (int i = 1; i < n; i++) dec(O[A].child[i]); if (n > 1) O[A].n = 1; break; }
	case 9: mc_log("B.concat(A)"); as_list_concat((as_list*)O[B].v, (as_list*)O[A].v);
		for (int i = 0, n = O[A].n; i < n; i++) { int k = O[A].child[i]; O[k].ref++; add(B, k); } break;
	case 10: mc_log("D = A.take(1)"); list_copy(A, (as_val*)as_list_take((as_list*)O[A].v, 1), 0, O[A].n < 1 ? O[A].n : 1); break;
	case 11: mc_log("D = A.drop(1)"); list_copy(A, (as_val*)as_list_drop((as_list*)O[A].v, 1), O[A].n < 1 ? O[A].n : 1, O[A].n); break;
	case 12: { mc_log("D = A.tail"); as_val* t = (as_val*)as_list_tail((as_list*)O[A].v); if (t) list_copy(A, t, 1, O[A].n); break; }
	case 13: { mc_log("M[key] = X (shared)"); int x = grab(true); map_put(M, key_ref(), x); break; }
	case 14: { mc_log("M[X] = new integer (X moved as key)"); if (!keyable(O[X].kind)) mc_prune(); int x = grab(false); map_put(M, x, mk(INT_H)); break; }
	case 15: mc_log("remove an entry of M"); map_del(M, 0); break;
	case 16: { mc_log("clear M"); as_map_clear((as_map*)O[M].v); int n = O[M].n; O[M].n = 0; for (int i = 0; i < n; i++) dec(O[M].child[i]); break; }
	case 17: { mc_log("P = pair(X moved, X shared)"); if (P >= 0) { drop_obj(P, true); P = -1; break; }
		int a = grab(true), b = grab(true);
		if (nO == MAXO) mc_prune();
		P = nO++; obj* o = &O[P]; memset(o, 0, sizeof *o); o->kind = PAIR_K; o->id = P; o->ref = 1; o->heap = true;
		snprintf(borrowed[P], 8, "t%d", P);
		o->v = (as_val*)as_pair_new(O[a].v, O[b].v); add(P, a); add(P, b); break; }
	case 18: { mc_log("result takes X (%s)", R ? "replacing" : "new"); int x = grab(true);
		if (!R) { R = (X & 1) ? as_success_new(O[x].v) : as_failure_new(O[x].v); Rref = 1; }
		else { int old = Rv; if (Rref & 1) as_result_setsuccess(R, O[x].v); else as_result_setfailure(R, O[x].v); dec(old); }
		Rv = x;
		MC_CHECK(as_result_value(R) == O[x].v, "own-result", "result value");
		break; }
	case 19: mc_log("reserve the result"); if (!R) mc_prune(); as_result_reserve(R); Rref++; break;
	case 20: { mc_log("destroy the result"); if (!R) mc_prune(); void* r = R; as_result_destroy(R); if (--Rref == 0) { dec(Rv); R = NULL; MC_CHECK(!mc_alloc_is_live(r, NULL), "own-not-released", "result not released"); }
		else MC_CHECK(mc_alloc_is_live(r, NULL), "own-early-release", "result released while reserved"); break; }
	case 21: mc_log("append A to B (shared)"); if (nested) mc_prune(); nested = true; as_val_reserve(O[A].v); O[A].ref++; as_list_append((as_list*)O[B].v, O[A].v); add(B, A); break;
	case 22: mc_log("destroy A, start a new one"); drop_obj(A, true); A = mk(LIST_K); nested = false; break;
	case 23: mc_log("remove B[0]"); list_op_remove(B, 0); break;
	case 24: { mc_log("iterate A and M part way"); as_list_iterator* it = as_list_iterator_new((as_list*)O[A].v);
		if (as_iterator_has_next((as_iterator*)it)) as_iterator_next((as_iterator*)it);
		as_iterator_destroy((as_iterator*)it);
		as_map_iterator* mi = as_map_iterator_new((as_map*)O[M].v);
		if (as_iterator_has_next((as_iterator*)mi)) as_iterator_next((as_iterator*)mi);
		as_iterator_destroy((as_iterator*)mi);
		as_map_iterator ms; as_map_iterator_init(&ms, (as_map*)O[M].v); as_iterator_next((as_iterator*)&ms); as_iterator_destroy((as_iterator*)&ms);
		int n = 2; as_list_foreach((as_list*)O[B].v, walk_cb, &n);
		break; }
	case 25: { mc_log("put X into list inside M (shared)"); int x = grab(true); int l = mk(LIST_K); as_list_append((as_list*)O[l].v, O[x].v); add(l, x); map_put(M, key_ref(), l); break; }
	}
}

static uint64_t
ghost_hash(void)
{
	uint64_t h = mc_hash_u64(O[X].kind, hX);
	h = mc_hash_u64(h, R ? Rref * 100 + Rv : 0);
	for (int i = 0; i < nO; i++) {
		h = mc_hash_u64(h, O[i].ref);
		h = mc_hash(h, O[i].child, O[i].n * sizeof(int));
	}
	return h;
}

static void
run(int kind, int depth)
{
	nO = 0;
	R = NULL;
	Rref = 0;
	nested = false;
	X = mk(kind);
	hX = 1;
	A = mk(LIST_K);
	B = mk(LIST_K);
	M = mk(MAP_K);
	keyK = mk(STR_DUP);
	D = P = -1;
	mc_log("X is %s", kn[kind]);
	audit();
	for (int i = 0; i < depth; i++) {
		op(mc_choose(N_OPS));
		audit();
	}
	if (mc_fresh()) mc_state(ghost_hash());
	// Let everybody go; the order is a choice.
	int order = mc_choose(3);
	int seq[] = {0, 1, 2, 3, 4, 5, 6, 7};
	for (int i = 0; i < 8; i++) {
		switch (seq[order == 0 ? i : order == 1 ? 7 - i : (i * 3) % 8]) {
		case 0: while (hX) { hX--; drop_obj(X, hX & 1); audit(); } break;
		case 1: drop_obj(A, true); break;
		case 2: drop_obj(B, false); break;
		case 3: if (D >= 0) drop_obj(D, true); break;
		case 4: drop_obj(M, true); break;
		case 5: if (P >= 0) drop_obj(P, false); break;
		case 6: while (R && Rref) { as_result_destroy(R); if (--Rref == 0) { dec(Rv); R = NULL; } } break;
		case 7: drop_obj(keyK, true); break;
		}
		audit();
	}
	for (int i = 0; i < nO; i++) {
		if (!O[i].constant) MC_CHECK(O[i].ref == 0, "own-model", "model error: object %d kind %s still has %d owners", i, kn[O[i].kind], O[i].ref);
	}
}

static void
s_share(void)
{
	run(mc_choose(N_KINDS), mc_pick(3, 4));
}

static void
s_deep(void)
{
	static const int kinds[] = {BOOL_H, STR_OWN, LIST_K, REC_H};
	run(kinds[mc_choose(4)], mc_pick(4, 5));
}

// Stack results and records of every kind.
static void
s_result(void)
{
	int kind = mc_choose(N_KINDS);
	nO = 0;
	int x = mk(kind);
	as_result st;
	int how = mc_choose(6);
	mc_log("result creation %d with %s", how, kn[kind]);
	as_result* r = NULL;
	switch (how) {
	case 0: r = as_success_new(O[x].v); break;
	case 1: r = as_failure_new(O[x].v); break;
	case 2: r = as_success_init(&st, O[x].v); break;
	case 3: r = as_failure_init(&st, O[x].v); break;
	case 4: r = as_result_new(); break;
	case 5: memset(&st, 0xA5, sizeof st); r = as_result_init(&st); break;
	}
	int cur = how >= 4 ? -1 : x;
	int refs = 1;
	if (how >= 4) MC_CHECK(as_result_value(r) == NULL, "own-result", "new result has a value");
	bool success = how == 0 || how == 2;
	for (int i = 0; i < 4; i++) {
		mc_step();
		MC_CHECK(r->is_success == success, "own-result", "success flag");
		switch (mc_choose(4)) {
		case 0: as_result_reserve(r); refs++; break;
		case 1: if (refs > 1) { as_result_destroy(r); refs--; } break;
		case 2: case 3: {
			int n;
			if (cur == -1 && O[x].ref == 1) n = x; else n = mk(STR_OWN);
			if (i & 1) { as_result_setsuccess(r, O[n].v); success = true; } else { as_result_setfailure(r, O[n].v); success = false; }
			if (cur >= 0) dec(cur);
			cur = n;
			break; }
		}
		audit();
	}
	while (refs--) as_result_destroy(r);
	if (cur >= 0) dec(cur);
	if (O[x].ref && cur != x) drop_obj(x, true);
	audit();
	mc_state(kind * 8 + how);
}

// Values in an array, named by sums.
static void
s_array(void)
{
	int kind = mc_choose(4), at = mc_choose(3), way = mc_choose(5);
	as_integer in[3]; as_double db[3]; as_string st[3]; as_bytes by[3];
	for (int i = 0; i < 3; i++) {
		as_integer_init(in + i, 10 + i);
		as_double_init(db + i, 10 + i);
		char t[8];
		snprintf(t, sizeof t, "t%d", i);
		as_string_init(st + i, cf_strdup(t), true);
		as_bytes_init_wrap(by + i, (uint8_t*)cf_strdup(t), 3, true);
	}
#define EACH(f) (kind == 0 ? f(in + at) : kind == 1 ? f(db + at) : kind == 2 ? f(st + at) : f(by + at))
#define AT ((as_val*)(kind == 0 ? (void*)&in[at] : kind == 1 ? (void*)&db[at] : kind == 2 ? (void*)&st[at] : (void*)&by[at]))
	mc_step();
	char* a, * b;
	as_pair* p;
	bool ok = true;
	switch (way) {
	case 0: ok = EACH(as_val_type) == as_val_type(AT); break;
	case 1: a = EACH(as_val_tostring); b = as_val_tostring(AT); ok = a && b && strcmp(a, b) == 0; cf_free(a); cf_free(b); break;
	case 2: ok = EACH(as_val_hashcode) == as_val_hashcode(AT); break;
	case 3: ok = EACH(as_val_reserve) == AT; as_val_destroy(AT); break;
	case 4: p = pair_new(in + at, st + at); ok = as_pair_1(p) == (as_val*)&in[at] && as_pair_2(p) == (as_val*)&st[at]; as_val_reserve(&in[at]); as_val_reserve(&st[at]); as_pair_destroy(p); break;
	}
	MC_CHECK(ok, "own-argument", "a value in an array is taken for another (way %d, kind %d)", way, kind);
	for (at = 2; at >= 0; at--) {
		for (kind = 0; kind < 4; kind++) EACH(as_val_destroy);
		for (int i = 0; i < at; i++) MC_CHECK(as_integer_get(&in[i]) == 10 + i && as_string_get(&st[i])[1] == '0' + i && by[i].value[1] == '0' + i, "own-content", "a value in an array is released for another");
	}
	mc_state((uint64_t)(kind * 100 + way));
#undef EACH
#undef AT
}

const mc_scenario mc_scenarios[] = {
	{"share", s_share, 2, "all sequences of 3 (thorough 4) of 26 sharing operations on a value of each of 36 kinds, then release of all owners in 3 orders"},
	{"deep", s_deep, 3, "the same with sequences of 4 (5) for 4 kinds"},
	{"array", s_array, 1, "4 kinds of values in arrays of 3, named by a sum in 5 uses, then all released"},
	{"result", s_result, 2, "all sequences of 4 result operations for 6 ways to create a result and 36 kinds"},
	{0}
};
