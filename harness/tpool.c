// C12: thread pool under every interleaving, with failing thread creation.
#include "mcthr.h"
#include <aerospike/as_thread_pool.h>
#include <stdlib.h>
#include <string.h>
MC_QUIET_BEGIN
static as_thread_pool* pool;
static int runs[8], ended[8], finis, accepted[8];
static int fini_set, workers, started;
static int chain;	// task that queues another

static void task(void* p)
{
	int i = (int)(intptr_t)p;
	mc_log("T%d runs task %d", mc_self(), i);
	runs[i]++;
	if (i == chain && !accepted[7]) {
		int rc = as_thread_pool_queue_task(pool, task, (void*)(intptr_t)7);
		accepted[7] = rc == 0;
	}
	mc_point();
	ended[i]++;
}
static void fini(void) { mc_log("T%d finalizes", mc_self()); finis++; }

static void offer(int i)
{
	int rc = as_thread_pool_queue_task(pool, task, (void*)(intptr_t)i);
	MC_CHECK(rc == (started ? 0 : -1), "offer", "offering a task to a pool with %d workers gives %d", started, rc);
	accepted[i] = rc == 0;
}
static void offers(void* p) { offer((int)(intptr_t)p); }
static void destroyer(void* p)
{
	(void)p;
	MC_CHECK(as_thread_pool_destroy(pool) == 0, "destroy", "concurrent shutdown failed");
}

static void begin(int nworkers, unsigned fail)
{
	memset(runs, 0, sizeof runs); memset(ended, 0, sizeof ended); memset(accepted, 0, sizeof accepted);
	finis = 0;
	chain = -1;
	workers = nworkers;
	pool = malloc(sizeof *pool);
	memset(pool, 0xA7, sizeof *pool);
	fail &= (1u << nworkers) - 1;
	started = nworkers - __builtin_popcount(fail);
	mc_log("pool of %d, creation failures %x", nworkers, fail);
	mc_fault_mask(MC_F_CREATE, fail);
	int rc = as_thread_pool_init(pool, (uint32_t)nworkers);
	mc_fault_mask(MC_F_CREATE, 0);
	MC_CHECK(fail ? rc == -3 : rc == 0, "init", "starting %d of %d workers reported as %d", started, nworkers, rc);
	fini_set = mc_choose(2);
	if (fini_set) pool->fini_fn = fini;
	mc_sched_tag((uint64_t)(nworkers * 100 + (int)fail * 4 + fini_set));
}
static void finish(void)
{
	for (int k = 0; k < 2; k++) {
		mc_log("T%d shuts down", mc_self());
		int rc = as_thread_pool_destroy(pool);
		MC_CHECK(rc == 0, "destroy", "shutdown number %d gives %d", k + 1, rc);
		for (int i = 0; i < 8; i++) {
			MC_CHECK(runs[i] == (accepted[i] ? 1 : 0) || (i == 7 && chain >= 0), "runs", "task %d ran %d times, accepted %d", i, runs[i], accepted[i]);
			MC_CHECK(runs[i] == ended[i], "unfinished", "task %d has not finished when shutdown returns", i);
		}
		MC_CHECK(finis == (fini_set ? started : 0), "finalize", "%d finalizations for %d workers", finis, started);
		MC_CHECK(mc_threads_unjoined() == 0, "threads", "%d worker(s) left when shutdown returns", mc_threads_unjoined());
	}
	MC_CHECK(as_thread_pool_queue_task(pool, task, 0) == -1, "offer-late", "a task is accepted after shutdown");
	free(pool);
	MC_CHECK(mc_alloc_live == 0, "leak", "%d block(s) left after shutdown", (int)mc_alloc_live);
}
static void note(void)
{
	uint64_t h = 1;
	h = mc_hash(h, runs, sizeof runs);
	mc_state(mc_hash_u64(h, (uint64_t)(workers * 100 + started * 10 + finis)));
}
static void sc_run(void)
{
	int w = mc_choose(mc_pick(3, 4)), n = mc_choose(mc_pick(3, 4));
	begin(w, 0);
	mc_sched_bound(w >= 2 ? mc_pick(2, 3) : mc_pick(3, -1));
	for (int i = 0; i < n; i++) offer(i);
	finish();
	note();
}
static void sc_fail(void)
{
	int w = 1 + mc_choose(3), n = mc_choose(mc_pick(2, 3));
	begin(w, (unsigned)mc_choose(1 << w));
	mc_sched_bound(mc_pick(1, 2));
	for (int i = 0; i < n; i++) offer(i);
	finish();
	note();
}
// Tasks offered by other threads while the workers run.
static void sc_offers(void)
{
	int w = 1 + mc_choose(2), n = 2;
	begin(w, 0);
	for (int i = 0; i < n; i++) mc_spawn(offers, (void*)(intptr_t)i, "offers");
	mc_sched_bound(mc_pick(1, 3));
	mc_join_all();
	finish();
	note();
}
// A task that offers another task before shutdown starts.
static void sc_chain(void)
{
	int w = 1 + mc_choose(2);
	begin(w, 0);
	chain = 0;
	mc_sched_bound(mc_pick(2, 3));
	offer(0);
	mc_quiet_wait();
	MC_CHECK(accepted[7] == 1 && runs[7] == 1 && ended[7] == 1, "chain", "a task offered by a task did not run");
	finish();
	note();
}
// Two threads shut the same pool down.
static void sc_twice(void)
{
	int w = 1 + mc_choose(2), n = mc_choose(2);
	begin(w, 0);
	for (int i = 0; i < n; i++) offer(i);
	int a = mc_spawn(destroyer, NULL, "destroyer");
	mc_sched_bound(mc_pick(2, 3));
	destroyer(NULL);
	mc_join(a);
	finish();
	note();
}
const mc_scenario mc_scenarios[] = {
	{ "run", sc_run, 3, "0..2 (3) workers x 0..2 (3) tasks x finalization, preemption bound 2 (3; one worker 3, then none)" },
	{ "fail", sc_fail, 3, "1..3 workers x every subset of creations failing x 0..1 (2) tasks, preemption bound 1 (2)" },
	{ "offers", sc_offers, 3, "1..2 workers, two threads offering tasks, preemption bound 1 (3)" },
	{ "chain", sc_chain, 3, "1..2 workers, a task that offers a task, preemption bound 2 (3)" },
	{ "twice", sc_twice, 3, "1..2 workers x 0..1 tasks, two threads shutting down, preemption bound 2 (3)" },
	{ NULL } };
MC_QUIET_END
