// C26: completion monitor under every interleaving.
#include "mcthr.h"
#include <aerospike/as_monitor.h>
#include <stdlib.h>
MC_QUIET_BEGIN
static as_monitor* m;
static int* payload;		// plain memory written before notifying
static int notified;		// since the last start
static int notifiers, rounds;
MC_QUIET_END
__attribute__((noinline)) static void put(int i) { payload[i] = 77 + i; }
__attribute__((noinline)) static int get(int i) { return payload[i]; }
MC_QUIET_BEGIN
static void notifier(void* p)
{
	int i = (int)(intptr_t)p;
	put(i);
	mc_point();
	notified++;
	mc_log("T%d notifies", mc_self());
	as_monitor_notify(m);
}
static bool only(void) { return notifiers == 1; }
static void go(bool extra_wait)
{
	notifiers = 1 + mc_choose(2);
	rounds = 1 + mc_choose(mc_pick(2, 3));
	int spurious = mc_choose(3), before = mc_choose(2);
	int bound = rounds == 1 ? -1 : notifiers == 1 ? mc_pick(4, -1) : mc_pick(2, 3);
	m = malloc(sizeof *m);
	payload = calloc(4, sizeof(int));
	as_monitor_init(m);
	for (int r = 0; r < rounds; r++) {
		notified = 0;
		as_monitor_begin(m);
		for (int i = 0; i < notifiers; i++) mc_spawn(notifier, (void*)(intptr_t)i, "notifier");
		mc_sched_tag((uint64_t)(r * 1000 + rounds * 100 + notifiers * 10 + spurious * 2 + before));
		mc_sched_bound(bound);
		mc_sched_spurious(spurious);
		if (before) mc_point();
		mc_log("T0 waits");
		as_monitor_wait(m);
		MC_CHECK(notified > 0, "early", "waiting returned in round %d before any notification", r);
		// With one notifier its effects must be visible without joining it.
		if (only()) MC_CHECK(get(0) == 77, "stale", "an effect made before notifying is not visible");
		if (extra_wait) as_monitor_wait(m);	// still notified: returns at once
		mc_sched_spurious(0);
		mc_join_all();
		mc_state((uint64_t)(r * 100 + notifiers * 10 + spurious));
	}
	as_monitor_destroy(m);
	free(m);
	free(payload);
}
static void sc_wait(void) { go(false); }
static void sc_again(void) { go(true); }
// The waiter owns the monitor and is done with it when the wait returns.
static void sc_destroy(void)
{
	int spurious = mc_choose(3), before = mc_choose(2);
	m = malloc(sizeof *m);
	payload = calloc(4, sizeof(int));
	notified = 0;
	as_monitor_init(m);
	as_monitor_begin(m);
	mc_spawn(notifier, NULL, "notifier");
	mc_sched_tag((uint64_t)(50000 + spurious * 2 + before));
	mc_sched_bound(-1);
	mc_sched_spurious(spurious);
	if (before) mc_point();
	as_monitor_wait(m);
	MC_CHECK(notified > 0, "early", "waiting returned before any notification");
	as_monitor_destroy(m);
	free(m);
	mc_sched_spurious(0);
	mc_join_all();
	free(payload);
}
const mc_scenario mc_scenarios[] = {
	{ "wait", sc_wait, 3, "1..2 notifiers x 1..2 (3) rounds x 0..2 spurious wake-ups, all interleavings in one round, preemption bound per round 4 (none) for one notifier and 2 (3) for two in several" },
	{ "again", sc_again, 3, "the same, waiting a second time in each round" },
	{ "destroy", sc_destroy, 3, "one notifier, the waiter destroys the monitor at once, 0..2 spurious wake-ups, all interleavings" },
	{ NULL } };
MC_QUIET_END
