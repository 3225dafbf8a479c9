// Cooperative scheduler over real threads: exactly one simulated thread runs at a time; the seeded
// scheduler decides who, at every synchronisation operation and (instrumented) memory access.
#pragma once
#include <cstdint>
#include <functional>

namespace sim
{
struct SchedOpts
{
	uint64_t seed = 1;
	double p_sync = 0.3;      // switch probability at synchronisation points
	double p_acc = 0.01;      // switch probability at memory accesses
	double p_spur = 0;        // spurious wake-up probability per synchronisation point
	int pct = 0;              // >0: priority schedule with that many change points
	long pct_span = 2000;     // steps over which change points are spread
	long unfair_steps = 20000; // after this many steps scheduling becomes fair
	long fair_steps = 400000;  // liveness bound: steps allowed under fair scheduling
	bool access_points = true;
	bool races = true;
};
void sched_start (const SchedOpts& o);  // current thread becomes thread 0
void sched_stop ();
bool sched_active ();
int sched_self ();
void sched_yield_point (const char* what);  // stub-level switch point
void sched_fair (bool on);                  // faults off, round robin
void sched_block_until (const char* what, const std::function<bool()>& ready); // stub-level wait
void sched_wait_idle ();                    // until every other thread is blocked or done
void sched_no_preempt (int delta);          // +1/-1: oracle sections
int sched_threads_alive ();                 // other than the caller
long sched_steps ();
bool sched_choice (const char* what, double p); // seeded fault decision, recorded like a scheduling decision
long sched_pick (const char* what, long n);     // seeded choice, recorded
void sched_bounded (const char* what, long steps); // liveness: from now on under fair scheduling, at most this many steps until sched_bounded_end
void sched_bounded_end ();
double sched_now ();                        // simulated seconds
const char* sched_blocked_report ();
extern int g_deadlock_is_violation;
}
