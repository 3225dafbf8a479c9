#pragma once
#include "core.h"
#include "heap.h"
#include "simsched.h"
void gen_sched (sim::Rng& r, sim::Plan& p);
void begin_sched (const sim::Plan& p, bool races);
void sched_drain (bool on);
bool sched_is_draining ();
void feed_gen (sim::Rng& r, sim::Plan& p, bool liveness);
void feed_exec (const sim::Plan& p, bool liveness, bool races);
void worker_gen (sim::Rng& r, sim::Plan& p);
void worker_exec (const sim::Plan& p, bool races);
void rec_gen (sim::Rng& r, sim::Plan& p, int mode);
void rec_exec (const sim::Plan& p, int mode, bool races);
