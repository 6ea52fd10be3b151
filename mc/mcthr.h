// Controlled scheduler for drivers with threads: see sched.c.
#pragma once
#include "mc.h"

// Code of the driver that must not be seen by the scheduler (bookkeeping).
#define MC_QUIET_BEGIN _Pragma("clang attribute push(__attribute__((no_sanitize(\"thread\"))), apply_to = function)")
#define MC_QUIET_END _Pragma("clang attribute pop")

void mc_sched_bound(int preemptions);	// per path; < 0: no bound
void mc_sched_spurious(int n);		// spurious wake-ups that may happen per path
void mc_sched_steps(int limit);		// more steps than this: no progress
// Starts a thread that runs fn(arg); it runs when others are blocked or at a
// scheduling choice.
int mc_spawn(void (*fn)(void*), void* arg, const char* name);
void mc_join(int t);
void mc_join_all(void);			// waits for all threads made by mc_spawn
// Waits until every other thread has ended or is blocked for good; returns how many are.
int mc_quiet_wait(void);
bool mc_thread_done(int t);
int mc_self(void);
void mc_sched_tag(uint64_t program);	// what the threads are about to run, for counting states
int mc_threads_alive(void);		// threads that have not ended, without the caller
int mc_threads_unjoined(void);		// ended or not, made by pthread_create and neither joined nor detached
uint64_t mc_seq(void);			// advances with every call
int64_t mc_clock_ns(void);		// virtual time
void mc_clock_set(int64_t ns);
void mc_point(void);			// explicit scheduling point

// Faults: the n-th call from now fails (0 = next), < 0 = none.
enum { MC_F_CREATE, MC_F_MUTEX_INIT, MC_F_COND_INIT, MC_F_N };
void mc_fault(int kind, int nth);
void mc_fault_mask(int kind, unsigned mask);	// bit i: the i-th call from now fails
int mc_faults_hit(void);
