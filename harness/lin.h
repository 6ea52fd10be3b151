// Search for a sequential order of concurrent operations that explains their
// results and respects real time.
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <string.h>

#define LIN_MAX 16
typedef struct {
	int thread, kind;
	int64_t arg, arg2;
	uint64_t call, ret;	// ret == 0: has not returned
	int64_t res, out;	// result code and value
} lin_op;

typedef struct { int n; int grown; int v[40]; } lin_seq;

// Applies the operation to the model; false if its result is impossible there.
typedef bool (*lin_apply)(lin_seq* s, const lin_op* o);

static bool
lin_search(const lin_op* ops, int n, uint32_t done, const lin_seq* s, lin_apply ap, const lin_seq* end)
{
	bool all = true;
	uint64_t first_ret = UINT64_MAX;
	for (int i = 0; i < n; i++) if (!(done >> i & 1)) {
		if (ops[i].ret) all = false;
		if (ops[i].ret && ops[i].ret < first_ret) first_ret = ops[i].ret;
	}
	if (all && (!end || (end->n == s->n && memcmp(end->v, s->v, sizeof(int) * (size_t)s->n) == 0))) return true;
	for (int i = 0; i < n; i++) {
		if (done >> i & 1 || !ops[i].ret) continue;
		if (ops[i].call > first_ret) continue;	// something else returned before this began
		lin_seq t = *s;
		if (!ap(&t, &ops[i])) continue;
		if (lin_search(ops, n, done | 1u << i, &t, ap, end)) return true;
	}
	return false;
}

static void seq_ins(lin_seq* s, int at, int v)
{
	memmove(&s->v[at + 1], &s->v[at], sizeof(int) * (size_t)(s->n - at));
	s->v[at] = v;
	s->n++;
}
static int seq_del(lin_seq* s, int at)
{
	int v = s->v[at];
	memmove(&s->v[at], &s->v[at + 1], sizeof(int) * (size_t)(s->n - at - 1));
	s->n--;
	return v;
}
static int seq_find(const lin_seq* s, int v) { for (int i = 0; i < s->n; i++) if (s->v[i] == v) return i; return -1; }
