// C04: stop requests on worker threads
#include "t_common.h"
#include "ti_wrap.h"
#include <map>
#include <vector>
#include <thread>

using namespace sim;

namespace
{
enum Kind { WAITER, POLLER, FINISHER, WAIT_AFTER, POLL_THEN_WAIT, CHECKER, NKIND };
// leaves by itself, stopped or not
bool finite (int kind) { return kind == FINISHER || kind == CHECKER; }
struct Job
{
	int id;
	int kind;
	int work;                 // steps of work
	bool started = false;
	volatile bool stop_requested = false; // set before the request is issued
	bool stop_returned = false;           // set after the request returned
	bool saw_stop = false;
	bool finished = false;    // body left normally
	bool ended = false;       // body left in any way
};
struct Handle { wrap::worker* w = nullptr; int job = -1; bool joined = false; };
std::vector<Job*>* jobs;
std::vector<Handle>* hs;

// the body below runs inside the code under test's thread wrapper
struct EndMark { Job* j; ~EndMark () { j->ended = true; log("worker %d left", j->id); } };

void saw (Job* j)
{
	j->saw_stop = true;
	log("worker %d observed a stop", j->id);
	if (!j->stop_requested) violate("stop:phantom", "worker %d observed a stop that nobody requested", j->id);
}

void body (void* a)
{
	Job* j = (Job*) a;
	EndMark e{j};
	j->started = true;
	for (int i = 0; i < j->work; i++) sched_yield_point("work");
	switch (j->kind)
	{
		case WAIT_AFTER:
		case WAITER:
			wrap::w_stop_wait();
			saw(j);
			break;
		case POLL_THEN_WAIT:
		case POLLER:
			for (long n = 0;; n++)
			{
				try { wrap::w_stop_throw(); }
				catch (...) { saw(j); throw; }
				sched_yield_point("poll");
				if (j->kind == POLL_THEN_WAIT && n > j->work) { wrap::w_stop_wait(); saw(j); break; }
				if (!j->stop_returned) { sched_block_until("poller pause", [j] { return j->stop_requested || sched_is_draining(); }); }
				if (sched_is_draining() && !j->stop_requested) break; // nobody is going to stop this one
			}
			break;
		case CHECKER: // does its work in steps, checking for a stop before each
			for (int i = 0; i < 2 + 2 * j->work; i++)
			{
				try { wrap::w_stop_throw(); }
				catch (...) { saw(j); throw; }
				sched_yield_point("step");
			}
			break;
		default: break;
	}
	j->finished = true;
}

void do_stop (Handle& h)
{
	if (h.job >= 0)
	{
		Job* j = (*jobs)[h.job];
		j->stop_requested = true;
		log("stop worker %d%s", j->id, j->ended ? " (already finished)" : j->started ? "" : " (not yet started)");
		if (j->ended) count("probe.stop-after-finish");
		else if (!j->started) count("probe.stop-before-start");
		else count("probe.stop-while-running");
	}
	else count("probe.stop-on-empty-handle");
	wrap::worker_stop(h.w);
	if (h.job >= 0) (*jobs)[h.job]->stop_returned = true;
}
void must_end (Job* j, const char* what)
{
	if (j->ended) return;
	sched_bounded(what, 60000);
	sched_block_until("stopped worker", [j] { return j->ended; });
	sched_bounded_end();
}
}

void worker_gen (Rng& r, Plan& p)
{
	gen_sched(r, p);
	long n = r.range(3, 16);
	for (long i = 0; i < n; i++)
	{
		double x = r.unit();
		if (x < 0.28) p.ops.push_back(make_op("new", {r.range(0, NKIND - 1), r.range(0, 8)}));
		else if (x < 0.33) p.ops.push_back("default");
		else if (x < 0.60) p.ops.push_back(make_op("stop", {r.range(0, 5)}));
		else if (x < 0.67) p.ops.push_back(make_op("movector", {r.range(0, 5)}));
		else if (x < 0.74) p.ops.push_back(make_op("moveassign", {r.range(0, 5), r.range(0, 5)}));
		else if (x < 0.80) p.ops.push_back(make_op("detach", {r.range(0, 5)}));
		else if (x < 0.87) p.ops.push_back(make_op("join", {r.range(0, 5)}));
		else if (x < 0.90) p.ops.push_back(make_op("drop", {r.range(0, 5)}));
		else if (x < 0.93) p.ops.push_back("settle");
		else if (x < 0.96) p.ops.push_back("self");
		else p.ops.push_back(make_op("yield", {r.range(1, 12)}));
	}
}

void worker_exec (const Plan& p, bool races)
{
	begin_sched(p, races);
	jobs = new std::vector<Job*>();
	hs = new std::vector<Handle>();
	auto H = [&](long i) -> Handle* { return hs->empty() ? nullptr : &(*hs)[i % hs->size()]; };
	int stops = 0;
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		if (o.name == "new" && jobs->size() < 8)
		{
			Job* j = new Job();
			j->id = (int) jobs->size();
			j->kind = (int) (o.arg(0) % NKIND);
			j->work = (int) o.arg(1);
			jobs->push_back(j);
			Handle h;
			h.job = j->id;
			h.w = wrap::worker_new(body, j);
			hs->push_back(h);
		}
		else if (o.name == "default" && hs->size() < 12)
		{
			// poison what an uninitialised member would pick up
			Handle h;
			h.w = wrap::worker_new_default();
			hs->push_back(h);
			count("probe.never-started-handle");
		}
		else if (o.name == "stop") { if (Handle* h = H(o.arg(0))) { do_stop(*h); stops++; } }
		else if (o.name == "movector" && hs->size() < 12)
		{
			Handle* h = H(o.arg(0));
			if (!h) continue;
			Handle n;
			n.job = h->job;
			n.joined = h->joined;
			n.w = wrap::worker_move_construct(h->w);
			h->job = -1;
			count("probe.moved-handle");
			hs->push_back(n);
		}
		else if (o.name == "moveassign")
		{
			Handle* to = H(o.arg(0));
			Handle* from = H(o.arg(1));
			if (!to || to == from) continue;
			if (wrap::worker_joinable(to->w)) continue; // std::thread semantics: target must be idle
			wrap::worker_move_assign(to->w, from->w);
			to->job = from->job;
			from->job = -1;
			count("probe.moved-handle");
		}
		else if (o.name == "detach")
		{
			Handle* h = H(o.arg(0));
			if (h && wrap::worker_joinable(h->w)) { wrap::worker_detach(h->w); count("probe.detached"); }
		}
		else if (o.name == "join")
		{
			Handle* h = H(o.arg(0));
			if (h && wrap::worker_joinable(h->w))
			{
				Job* j = (*jobs)[h->job];
				if (!finite(j->kind) && !j->stop_requested) do_stop(*h);
				must_end(j, "the stopped worker's end");
				wrap::worker_join(h->w);
				sched_fair(false);
			}
		}
		else if (o.name == "drop")
		{
			if (hs->empty()) continue;
			size_t i = o.arg(0) % hs->size();
			Handle h = (*hs)[i];
			if (wrap::worker_joinable(h.w))
			{
				Job* j = (*jobs)[h.job];
				if (!finite(j->kind) && !j->stop_requested) do_stop(h);
				// the destructor waits for a worker that ends by itself
				if (!finite(j->kind)) must_end(j, "the stopped worker's end");
				else if (!j->ended) { sched_fair(true); count("probe.dropped-while-working"); }
				wrap::worker_delete(h.w);
				if (!j->ended) violate("stop:left", "the handle of worker %d was destroyed while it was still working", j->id);
			}
			else wrap::worker_delete(h.w);
			hs->erase(hs->begin() + i);
			sched_fair(false);
		}
		else if (o.name == "self")
		{
			// the thread controlling the workers is stopped by nobody
			try { wrap::w_stop_throw(); }
			catch (...) { violate("stop:phantom", "the controlling thread observed a stop that nobody requested"); }
		}
		else if (o.name == "settle") sched_wait_idle();
		else if (o.name == "yield") for (long i = 0; i < o.arg(0); i++) sched_yield_point("main");
	}
	// a worker nobody stopped is still at work
	sched_wait_idle();
	for (Job* j : *jobs)
		if (!j->stop_requested && !finite(j->kind) && j->ended) violate("stop:phantom", "worker %d ended although nobody stopped it", j->id);
	// every requested stop took effect
	sched_fair(true);
	for (Job* j : *jobs) if (j->stop_requested) must_end(j, "the stopped worker's end");
	sched_fair(true);
	for (auto& h : *hs)
	{
		if (h.job >= 0 && !(*jobs)[h.job]->stop_requested && !finite((*jobs)[h.job]->kind)) { do_stop(h); must_end((*jobs)[h.job], "the stopped worker's end"); }
		wrap::worker_delete(h.w);
	}
	sched_drain(true);
	sched_wait_idle();
	if (jobs->size() > 0 && stops > 0) nontrivial();
	sched_stop();
}

static Reg r4({"C04",
	"a run is non-trivial when at least one worker was started and at least one stop requested; distinct = distinct event-log hash (requests, observations, exits and context switches in order)",
	"real: thread/stop_flag, thread/stoppable_thread (instrumented); simulated: thread scheduler, mutexes, condition variables, futexes, thread-local storage lifetime",
	6000, 300000, worker_gen, [](const Plan& p) { worker_exec(p, false); },
	"fault.spurious-wakeup,context-switch,probe.stop-after-finish,probe.stop-before-start",
	"sequentially consistent memory; a handle is used by one thread at a time", 8000});
