#include "simsched.h"
#include "core.h"
#include "heap.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>

#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim
{

static const int MAXT = 64;
typedef uint32_t clk_t_;
struct VC
{
	clk_t_ c[MAXT];
	VC () { memset(c, 0, sizeof c); }
	void join (const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum TState { T_RUN, T_MUTEX, T_COND, T_JOIN, T_FUTEX, T_SLEEP, T_STUB, T_IDLE, T_DONE };

struct Th
{
	int id;
	TState st;
	int go;          // futex word
	const void* wobj;
	bool timed;
	double deadline;
	bool timedout;
	bool signalled;
	bool detached, joined;
	void* ret;
	void* (*fn) (void*);
	void* arg;
	pthread_t real;
	VC vc;
	int in_rt;
	long prio;
	const std::function<bool()>* ready;
	const char* what;
	char* stack;
	size_t stack_size;
	std::vector<std::pair<void (*) (void*), void*> >* atexits;
	long last_run;
};

static bool active = false;
static Th* T[MAXT];
static int nth = 0;
static int cur = 0;
static SchedOpts opt;
static Rng rng(1);
static uint64_t step = 0;
static bool fair = false;
static long quantum = 0;
static double now = 1700000000.0;
static long acc_skip = 0;
static size_t replay_pos = 0;
static std::map<uint64_t,int>* replay_map = nullptr;
static std::vector<long>* pct_points = nullptr;
static long fair_used = 0;
static const char* bound_what = nullptr;
static long bound_left = 0;
static char blocked_buf[1500];
static __thread Th* self_tls = nullptr;

struct Mx { int owner = -1; int count = 0; VC vc; int kind = 0; };
struct Cv { std::vector<int> waiters; };
struct Rw { int writer = -1; std::vector<int> readers; VC vc; VC rvc; };
static std::map<const void*, Mx>* mxs;
static std::map<const void*, Cv>* cvs;
static std::map<const void*, Rw>* rws;
static std::map<const void*, VC>* syncvc; // atomics

struct RtScope
{
	Th* t;
	RtScope () : t(self_tls) { if (t) t->in_rt++; }
	~RtScope () { if (t) t->in_rt--; }
};

bool sched_active () { return active; }
int sched_self () { return cur; }
long sched_steps () { return (long) step; }
double sched_now () { return now; }

static long raw_futex (int* a, int op, int v) { 
	long r;
	register long r10 __asm__("r10") = 0;
	register long r8 __asm__("r8") = 0;
	register long r9 __asm__("r9") = 0;
	__asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}

static void park (Th* t)
{
	while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void unpark (Th* t)
{
	__atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
	raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

static bool runnable (int i) { return T[i]->st == T_RUN; }

static const char* stname (TState s)
{
	switch (s)
	{
		case T_RUN: return "runnable";
		case T_MUTEX: return "waiting for a mutex";
		case T_COND: return "waiting on a condition variable";
		case T_JOIN: return "joining a thread";
		case T_FUTEX: return "waiting on a future";
		case T_SLEEP: return "sleeping";
		case T_STUB: return "waiting in the simulated network";
		case T_IDLE: return "waiting for quiescence";
		default: return "done";
	}
}
const char* sched_blocked_report ()
{
	size_t k = 0;
	blocked_buf[0] = 0;
	for (int i = 0; i < nth; i++)
		if (T[i]->st != T_DONE && k + 100 < sizeof blocked_buf)
			k += snprintf(blocked_buf + k, sizeof blocked_buf - k, "%sthread %d %s%s%s", k ? "; " : "", i, stname(T[i]->st), T[i]->st == T_STUB && T[i]->what ? ": " : "", T[i]->st == T_STUB && T[i]->what ? T[i]->what : "");
	return blocked_buf;
}

// make stub waiters whose condition came true runnable
static void poll_stub ()
{
	for (int i = 0; i < nth; i++)
		if (T[i]->st == T_STUB && (*T[i]->ready)()) { T[i]->st = T_RUN; }
}

static void count_liveness ()
{
	if (fair)
	{
		fair_used++;
		if (bound_what && --bound_left <= 0)
			violate("liveness", "%s did not happen within its step bound under fair scheduling: %s", bound_what, sched_blocked_report());
		if (fair_used > opt.fair_steps)
			violate("liveness", "no completion within %ld steps of fair scheduling: %s", opt.fair_steps, sched_blocked_report());
	}
}

// choose the next thread to run; must_leave: current cannot continue. Returns thread id.
static int pick_default (bool must_leave)
{
	if (!must_leave && runnable(cur)) return cur;
	for (int k = 1; k <= nth; k++)
	{
		int i = (cur + k) % nth;
		if (runnable(i)) return i;
	}
	return -1;
}

static void wake_cond (int t, bool signalled)
{
	Th* w = T[t];
	Cv& c = (*cvs)[w->wobj];
	for (size_t i = 0; i < c.waiters.size(); i++) if (c.waiters[i] == t) { c.waiters.erase(c.waiters.begin() + i); break; }
	w->signalled = signalled;
	w->st = T_RUN;
}

static int ensure_some ()
{
	// nobody runnable: advance clock to the earliest deadline, else idle waiter, else deadlock
	for (;;)
	{
		poll_stub();
		int n = pick_default(true);
		if (n >= 0) return n;
		int best = -1;
		for (int i = 0; i < nth; i++)
			if (T[i]->timed && T[i]->st != T_DONE && T[i]->st != T_RUN && (best < 0 || T[i]->deadline < T[best]->deadline)) best = i;
		int idle = -1;
		for (int i = 0; i < nth; i++) if (T[i]->st == T_IDLE) { idle = i; break; }
		// timers of a service that polls do not count as work: idle waiters go first only if nothing is timed
		if (best >= 0)
		{
			Th* t = T[best];
			if (t->deadline > now) { sim_time(t->deadline - now); now = t->deadline; }
			t->timedout = true;
			t->timed = false;
			if (t->st == T_COND) wake_cond(best, false);
			t->st = T_RUN;
			count("timer-fired");
			count_liveness();
			step++;
			if (!fair && (long) step > opt.unfair_steps) fair = true;
			if (idle >= 0 && T[idle]->prio == -12345 && --T[idle]->last_run < 0) { T[idle]->st = T_RUN; }
			continue;
		}
		if (idle >= 0) { T[idle]->st = T_RUN; return idle; }
		violate("deadlock", "no thread can run: %s", sched_blocked_report());
	}
}

static void switch_to (int n)
{
	if (n == cur) return;
	Th* me = T[cur];
	Th* to = T[n];
	cur = n;
	log_hash(0x5C00 + n);
	count("context-switch");
	unpark(to);
	if (me->st != T_DONE) park(me);
}

// the one place where scheduling decisions are taken
static void decide (bool must_leave, bool access)
{
	step++;
	count_liveness();
	if (!fair && (long) step > opt.unfair_steps) { fair = true; quantum = 0; count("probe.fair-phase-by-step-cap"); }
	poll_stub();
	int def = pick_default(must_leave);
	if (def < 0) def = ensure_some();
	int choice = def;
	if (fair)
	{
		if (!must_leave && runnable(cur))
		{
			if (++quantum >= 40)
			{
				quantum = 0;
				int n = pick_default(true);
				if (n >= 0) choice = n;
			}
		}
		else quantum = 0;
		switch_to(choice);
		return;
	}
	if (plan().explicit_sched)
	{
		auto it = replay_map->find(step);
		if (it != replay_map->end())
		{
			int c = it->second;
			if (c >= 1000 && c < 2000)
			{
				int t = c - 1000;
				if (t < nth && T[t]->st == T_COND) { count("fault.spurious-wakeup"); wake_cond(t, true); }
			}
			else if (c < nth && runnable(c)) choice = c;
		}
		switch_to(choice);
		return;
	}
	// spurious wake-up of a condition waiter
	if (!access && opt.p_spur > 0 && rng.chance(opt.p_spur))
	{
		int cand[MAXT], n = 0;
		for (int i = 0; i < nth; i++) if (T[i]->st == T_COND) cand[n++] = i;
		if (n)
		{
			int t = cand[rng.below(n)];
			count("fault.spurious-wakeup");
			record_sched(step, 1000 + t);
			wake_cond(t, true);
			switch_to(def);
			return;
		}
	}
	int cand[MAXT], n = 0;
	for (int i = 0; i < nth; i++) if (runnable(i)) cand[n++] = i;
	if (opt.pct > 0)
	{
		for (size_t i = 0; i < pct_points->size(); i++)
			if ((*pct_points)[i] == (long) step) T[cur]->prio = -(long) i - 1;
		int b = cand[0];
		for (int i = 1; i < n; i++) if (T[cand[i]]->prio > T[b]->prio) b = cand[i];
		choice = b;
	}
	else
	{
		if (must_leave || !runnable(cur)) choice = cand[rng.below(n)];
		else if (n > 1 && rng.chance(access ? 1.0 : opt.p_sync))
		{
			choice = cand[rng.below(n)];
		}
	}
	if (choice != def) record_sched(step, choice);
	switch_to(choice);
}

static void sync_point ()
{
	if (!active) return;
	decide(false, false);
}

void sched_yield_point (const char*) { if (active && self_tls && self_tls->in_rt == 0) { RtScope s; sync_point(); } }

void sched_no_preempt (int d) { if (self_tls) self_tls->in_rt += d; }

bool sched_choice (const char* what, double p)
{
	if (!active || fair) return false;
	RtScope s;
	step++;
	if (plan().explicit_sched)
	{
		auto it = replay_map->find(step);
		bool r = it != replay_map->end() && it->second == 3000;
		if (r) count(what);
		return r;
	}
	bool r = rng.chance(p);
	if (r) { record_sched(step, 3000); count(what); }
	return r;
}
long sched_pick (const char*, long n)
{
	if (!active || fair || n <= 1) return 0;
	RtScope s;
	step++;
	if (plan().explicit_sched)
	{
		auto it = replay_map->find(step);
		return it != replay_map->end() && it->second >= 4000 && it->second < 4000 + n ? it->second - 4000 : 0;
	}
	long r = rng.below(n);
	if (r) record_sched(step, 4000 + (int) r);
	return r;
}

void sched_block_until (const char* what, const std::function<bool()>& ready)
{
	if (!active) harness_error("block outside simulation: %s", what);
	RtScope s;
	sync_point();
	while (!ready())
	{
		Th* t = T[cur];
		t->ready = &ready;
		t->what = what;
		t->st = T_STUB;
		decide(true, false);
	}
}

void sched_wait_idle ()
{
	RtScope s;
	Th* t = T[cur];
	t->st = T_IDLE;
	t->prio = -12345;
	t->last_run = 40; // timer firings tolerated before a polling system counts as idle
	decide(true, false);
	t->prio = 0;
}

int sched_threads_alive ()
{
	int n = 0;
	for (int i = 0; i < nth; i++) if (i != cur && T[i]->st != T_DONE) n++;
	return n;
}
void sched_fair (bool on) { fair = on; quantum = 0; }
void sched_bounded (const char* what, long steps)
{
	fair = true;
	bound_what = what;
	bound_left = steps;
}
void sched_bounded_end () { bound_what = nullptr; }

static Th* new_thread ()
{
	if (nth >= MAXT) harness_error("too many simulated threads");
	Th* t = new Th();
	t->id = nth;
	t->st = T_RUN;
	t->go = 0;
	t->in_rt = 0;
	t->prio = (long) (rng.next() >> 8) & 0xffffff;
	t->vc.c[t->id] = 1;
	t->ready = nullptr;
	t->what = nullptr;
	t->atexits = new std::vector<std::pair<void (*) (void*), void*> >();
	T[nth++] = t;
	return t;
}

void race_reset ();

void sched_start (const SchedOpts& o)
{
	opt = o;
	rng.reseed(o.seed);
	mxs = new std::map<const void*, Mx>();
	cvs = new std::map<const void*, Cv>();
	rws = new std::map<const void*, Rw>();
	syncvc = new std::map<const void*, VC>();
	replay_map = new std::map<uint64_t,int>();
	for (auto& p : plan().sched) (*replay_map)[p.first] = p.second;
	pct_points = new std::vector<long>();
	for (int i = 0; i < o.pct; i++) pct_points->push_back(1 + rng.below(o.pct_span));
	Th* t = new_thread();
	t->real = pthread_self();
	self_tls = t;
	cur = 0;
	step = 0;
	fair = false;
	fair_used = 0;
	acc_skip = o.p_acc > 0 ? (long) rng.below((uint64_t) (2.0 / o.p_acc)) : 1L << 60;
	race_reset();
	active = true;
}
void sched_stop () { active = false; }

}

using namespace sim;

extern "C" void sim_active_off () { active = false; }

// ---------------------------------------------------------------------------------------------
// race detection and use-after-free through the compiler's thread-sanitizer instrumentation
// ---------------------------------------------------------------------------------------------
namespace sim
{
struct Acc { uint8_t tid; uint8_t mask; uint8_t write; uint8_t atomic; clk_t_ clk; void* pc; };
struct Cell { uintptr_t g; uint8_t n; Acc a[6]; };
static Cell* cells = nullptr;
static size_t ncell = 1 << 18, usedcell = 0;

void race_reset ()
{
	if (!cells) cells = (Cell*) mmap(nullptr, ncell * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static Cell* cell_of (uintptr_t g)
{
	size_t i = (g * 0x9E3779B97F4A7C15ull) >> 46;
	i &= ncell - 1;
	for (;;)
	{
		if (cells[i].g == g) return &cells[i];
		if (cells[i].g == 0)
		{
			if (++usedcell > ncell * 3 / 4) harness_error("race shadow full");
			cells[i].g = g;
			return &cells[i];
		}
		i = (i + 1) & (ncell - 1);
	}
}

static std::string pcname (void* pc)
{
	Dl_info inf;
	char b[400];
	if (pc && dladdr(pc, &inf) && inf.dli_sname)
	{
		int st;
		char* d = abi::__cxa_demangle(inf.dli_sname, nullptr, nullptr, &st);
		snprintf(b, sizeof b, "%.300s", d ? d : inf.dli_sname);
		free(d);
	}
	else if (pc && dladdr(pc, &inf)) snprintf(b, sizeof b, "+0x%lx", (unsigned long) ((char*) pc - (char*) inf.dli_fbase));
	else snprintf(b, sizeof b, "%p", pc);
	return b;
}

static void uaf (const void* p, bool write, void* pc, const char* kind)
{
	active = false;
	violate(kind, "%s of %s memory in %s by thread %d", write ? "write" : "read", kind + 13, pcname(pc).c_str(), cur);
}

struct DeadRange { uintptr_t a, b; };
static DeadRange dead_ranges[MAXT];
static int ndead = 0;

static void check_one (uintptr_t g, uint8_t mask, bool write, bool atomic, void* pc)
{
	Th* t = T[cur];
	Cell* c = cell_of(g);
	int slot = -1;
	for (int i = 0; i < c->n; i++)
	{
		Acc& a = c->a[i];
		if (a.tid == t->id)
		{
			if (a.write == (uint8_t) write && a.atomic == (uint8_t) atomic && a.mask == mask) slot = i;
			continue;
		}
		if (!(a.mask & mask)) continue;
		if (!a.write && !write) continue;
		if (a.atomic && atomic) continue;
		if (a.clk <= t->vc.c[a.tid]) continue; // happened before
		if (opt.races)
		{
			active = false;
			violate("data-race", "unsynchronised accesses to the same location: %s%s by thread %d in %s, %s%s by thread %d in %s",
				a.atomic ? "atomic " : "", a.write ? "write" : "read", a.tid, pcname(a.pc).c_str(),
				atomic ? "atomic " : "", write ? "write" : "read", t->id, pcname(pc).c_str());
		}
	}
	Acc n;
	n.tid = t->id;
	n.mask = mask;
	n.write = write;
	n.atomic = atomic;
	n.clk = t->vc.c[t->id];
	n.pc = pc;
	if (slot >= 0) { c->a[slot] = n; return; }
	// drop entries ordered before this one when it is a write covering them
	if (write)
	{
		int k = 0;
		for (int i = 0; i < c->n; i++)
		{
			Acc& a = c->a[i];
			bool hb = a.tid == t->id || a.clk <= t->vc.c[a.tid];
			if (hb && (a.mask & ~mask) == 0 && !(atomic && !a.atomic)) continue;
			c->a[k++] = a;
		}
		c->n = k;
	}
	if (c->n < 6) c->a[c->n++] = n;
	else { memmove(c->a, c->a + 1, sizeof(Acc) * 5); c->a[5] = n; }
}

static void access (const void* p, size_t n, bool write, bool atomic, void* pc)
{
	Th* t = self_tls;
	if (!active || !t || t->in_rt) return;
	t->in_rt++;
	if (!atomic && opt.access_points && !fair)
	{
		if (plan().explicit_sched) decide(false, true);
		else if (opt.pct > 0) decide(false, true);
		else if (acc_skip-- <= 0)
		{
			acc_skip = (long) rng.below((uint64_t) (2.0 / opt.p_acc)) + 1;
			decide(false, true);
		}
		else step++;
	}
	uintptr_t a = (uintptr_t) p, e = a + n;
	unsigned char hs = sim_heap_state(p);
	if (hs != 1) uaf(p, write, pc, hs == 2 ? "memory-error:freed" : "memory-error:out-of-bounds");
	for (int i = 0; i < ndead; i++) if (a >= dead_ranges[i].a && a < dead_ranges[i].b) uaf(p, write, pc, "memory-error:ended-thread's");
	while (a < e)
	{
		uintptr_t g = a & ~(uintptr_t) 7;
		uintptr_t ge = g + 8 < e ? g + 8 : e;
		uint8_t mask = (uint8_t) (((1u << (ge - a)) - 1) << (a - g));
		check_one(g, mask, write, atomic, pc);
		a = ge;
	}
	t->in_rt--;
}
}

extern "C" void sim_on_free (void* p, size_t n)
{
	Th* t = self_tls;
	if (!active || !t) return;
	if (t->in_rt) return;
	t->in_rt++;
	// freeing conflicts with every unordered access
	uintptr_t a = (uintptr_t) p, e = a + n;
	for (uintptr_t g = a & ~(uintptr_t) 7; g < e; g += 8)
	{
		size_t i = (g * 0x9E3779B97F4A7C15ull) >> 46;
		i &= ncell - 1;
		while (cells[i].g && cells[i].g != g) i = (i + 1) & (ncell - 1);
		if (cells[i].g == g) check_one(g, 0xff, true, false, __builtin_return_address(0));
	}
	auto it = mxs->lower_bound(p);
	while (it != mxs->end() && (uintptr_t) it->first < e)
	{
		if (it->second.owner >= 0) violate("memory-error:locked-mutex-freed", "memory holding a locked mutex was freed");
		it = mxs->erase(it);
	}
	auto ic = cvs->lower_bound(p);
	while (ic != cvs->end() && (uintptr_t) ic->first < e)
	{
		if (!ic->second.waiters.empty()) violate("memory-error:awaited-condition-freed", "memory holding an awaited condition variable was freed");
		ic = cvs->erase(ic);
	}
	t->in_rt--;
}

#define PC __builtin_return_address(0)
extern "C"
{
void __tsan_init () {}
void __tsan_func_entry (void*) {}
void __tsan_func_exit () {}
void __tsan_read1 (void* p) { access(p, 1, false, false, PC); }
void __tsan_read2 (void* p) { access(p, 2, false, false, PC); }
void __tsan_read4 (void* p) { access(p, 4, false, false, PC); }
void __tsan_read8 (void* p) { access(p, 8, false, false, PC); }
void __tsan_read16 (void* p) { access(p, 16, false, false, PC); }
void __tsan_write1 (void* p) { access(p, 1, true, false, PC); }
void __tsan_write2 (void* p) { access(p, 2, true, false, PC); }
void __tsan_write4 (void* p) { access(p, 4, true, false, PC); }
void __tsan_write8 (void* p) { access(p, 8, true, false, PC); }
void __tsan_write16 (void* p) { access(p, 16, true, false, PC); }
void __tsan_unaligned_read2 (void* p) { access(p, 2, false, false, PC); }
void __tsan_unaligned_read4 (void* p) { access(p, 4, false, false, PC); }
void __tsan_unaligned_read8 (void* p) { access(p, 8, false, false, PC); }
void __tsan_unaligned_read16 (void* p) { access(p, 16, false, false, PC); }
void __tsan_unaligned_write2 (void* p) { access(p, 2, true, false, PC); }
void __tsan_unaligned_write4 (void* p) { access(p, 4, true, false, PC); }
void __tsan_unaligned_write8 (void* p) { access(p, 8, true, false, PC); }
void __tsan_unaligned_write16 (void* p) { access(p, 16, true, false, PC); }
void __tsan_volatile_read1 (void* p) { access(p, 1, false, false, PC); }
void __tsan_volatile_read2 (void* p) { access(p, 2, false, false, PC); }
void __tsan_volatile_read4 (void* p) { access(p, 4, false, false, PC); }
void __tsan_volatile_read8 (void* p) { access(p, 8, false, false, PC); }
void __tsan_volatile_read16 (void* p) { access(p, 16, false, false, PC); }
void __tsan_volatile_write1 (void* p) { access(p, 1, true, false, PC); }
void __tsan_volatile_write2 (void* p) { access(p, 2, true, false, PC); }
void __tsan_volatile_write4 (void* p) { access(p, 4, true, false, PC); }
void __tsan_volatile_write8 (void* p) { access(p, 8, true, false, PC); }
void __tsan_volatile_write16 (void* p) { access(p, 16, true, false, PC); }
void __tsan_read_range (void* p, unsigned long n) { if (n) access(p, n, false, false, PC); }
void __tsan_write_range (void* p, unsigned long n) { if (n) access(p, n, true, false, PC); }
void __tsan_vptr_update (void** p, void* v) { if (*p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read (void** p) { access(p, 8, false, false, PC); }
}

// atomics: sequentially consistent execution (one thread at a time); happens-before per memory order
namespace sim
{
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static void atomic_pre (const void* p, size_t n, int mo, bool store, bool load, void* pc)
{
	Th* t = self_tls;
	if (!active || !t || t->in_rt) return;
	{
		RtScope s;
		sync_point();
	}
	access(p, n, store, true, pc);
	RtScope s;
	if (load && (mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST || mo == MO_CONSUME))
	{
		auto it = syncvc->find(p);
		if (it != syncvc->end()) t->vc.join(it->second);
	}
	if (store && (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST))
	{
		VC& v = (*syncvc)[p];
		if (!load) v = t->vc; // a plain store starts a new release sequence
		else v.join(t->vc);
		t->vc.c[t->id]++;
	}
	else if (store && !load) syncvc->erase(p); // relaxed store: nothing to acquire
}
}
#define ATOMICS(N, TY) \
extern "C" TY __tsan_atomic##N##_load (const volatile TY* a, int mo) { atomic_pre((const void*) a, N / 8, mo, false, true, PC); return *a; } \
extern "C" void __tsan_atomic##N##_store (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, false, PC); *a = v; } \
extern "C" TY __tsan_atomic##N##_exchange (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = v; return o; } \
extern "C" TY __tsan_atomic##N##_fetch_add (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = o + v; return o; } \
extern "C" TY __tsan_atomic##N##_fetch_sub (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = o - v; return o; } \
extern "C" TY __tsan_atomic##N##_fetch_and (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = o & v; return o; } \
extern "C" TY __tsan_atomic##N##_fetch_or (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = o | v; return o; } \
extern "C" TY __tsan_atomic##N##_fetch_xor (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = o ^ v; return o; } \
extern "C" TY __tsan_atomic##N##_fetch_nand (volatile TY* a, TY v, int mo) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; *a = ~(o & v); return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong (volatile TY* a, TY* c, TY v, int mo, int) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak (volatile TY* a, TY* c, TY v, int mo, int) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" TY __tsan_atomic##N##_compare_exchange_val (volatile TY* a, TY c, TY v, int mo, int) { atomic_pre((const void*) a, N / 8, mo, true, true, PC); TY o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence (int) {}
extern "C" void __tsan_atomic_signal_fence (int) {}

// ---------------------------------------------------------------------------------------------
// pthread interposition
// ---------------------------------------------------------------------------------------------
template <typename F> static F real (const char* name)
{
	void* p = dlsym(RTLD_NEXT, name);
	if (!p) { fprintf(stderr, "no real %s\n", name); _exit(95); }
	return (F) p;
}
#define IN_SIM (active && self_tls)

static void mx_acquire (const void* m, bool hb = true)
{
	for (;;)
	{
		Mx& x = (*mxs)[m];
		if (x.owner < 0) { x.owner = cur; x.count = 1; if (hb) T[cur]->vc.join(x.vc); return; }
		if (x.owner == cur)
		{
			if (x.kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; return; }
			violate("deadlock", "thread %d locks a mutex it already holds", cur);
		}
		T[cur]->st = T_MUTEX;
		T[cur]->wobj = m;
		count("probe.mutex-contended");
		decide(true, false);
	}
}
static void mx_release (const void* m)
{
	Mx& x = (*mxs)[m];
	if (x.owner != cur) violate("lock-misuse", "thread %d unlocks a mutex held by %d", cur, x.owner);
	if (--x.count > 0) return;
	x.owner = -1;
	x.vc = T[cur]->vc;
	T[cur]->vc.c[cur]++;
	for (int i = 0; i < nth; i++) if (T[i]->st == T_MUTEX && T[i]->wobj == m) T[i]->st = T_RUN;
}
static int mtype (pthread_mutex_t* m) { return m->__data.__kind & 3; }

extern "C"
{
int pthread_mutex_lock (pthread_mutex_t* m)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
	if (self_tls->in_rt == 0)
	{
		unsigned char hs = sim_heap_state(m);
		if (hs == 2) uaf(m, true, PC, "memory-error:freed");
	}
	RtScope s;
	sync_point();
	(*mxs)[m].kind = mtype(m);
	mx_acquire(m);
	return 0;
}
int pthread_mutex_trylock (pthread_mutex_t* m)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
	RtScope s;
	sync_point();
	Mx& x = (*mxs)[m];
	x.kind = mtype(m);
	if (x.owner >= 0 && !(x.owner == cur && x.kind == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
	mx_acquire(m);
	return 0;
}
int pthread_mutex_timedlock (pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock (pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock (pthread_mutex_t* m)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
	RtScope s;
	mx_release(m);
	sync_point();
	return 0;
}
int pthread_mutex_destroy (pthread_mutex_t* m)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_mutex_t*)>("pthread_mutex_destroy"); return f(m); }
	RtScope s;
	mxs->erase(m);
	return 0;
}

static int cond_wait_impl (pthread_cond_t* c, pthread_mutex_t* m, bool timed, double deadline)
{
	if (self_tls->in_rt == 0)
	{
		unsigned char hs = sim_heap_state(c);
		if (hs == 2) uaf(c, true, PC, "memory-error:freed");
	}
	RtScope s;
	sync_point();
	Th* t = T[cur];
	mx_release(m);
	t->st = T_COND;
	t->wobj = c;
	t->signalled = false;
	t->timedout = false;
	t->timed = timed;
	t->deadline = deadline;
	(*cvs)[c].waiters.push_back(cur);
	count("probe.cond-wait");
	decide(true, false);
	t->timed = false;
	bool to = t->timedout && !t->signalled;
	mx_acquire(m);
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait (pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
	return cond_wait_impl(c, m, false, 0);
}
int pthread_cond_timedwait (pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return f(c, m, ts); }
	return cond_wait_impl(c, m, true, ts->tv_sec + ts->tv_nsec * 1e-9);
}
int pthread_cond_clockwait (pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return f(c, m, CLOCK_MONOTONIC, ts); }
	return cond_wait_impl(c, m, true, ts->tv_sec + ts->tv_nsec * 1e-9);
}
int pthread_cond_signal (pthread_cond_t* c)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
	if (self_tls->in_rt == 0)
	{
		unsigned char hs = sim_heap_state(c);
		if (hs == 2) uaf(c, true, PC, "memory-error:freed");
		for (int i = 0; i < ndead; i++) if ((uintptr_t) c >= dead_ranges[i].a && (uintptr_t) c < dead_ranges[i].b) uaf(c, true, PC, "memory-error:ended-thread's");
	}
	RtScope s;
	sync_point();
	auto it = cvs->find(c);
	if (it != cvs->end() && !it->second.waiters.empty())
	{
		size_t n = it->second.waiters.size();
		if (n > 1) count("probe.signal-with-several-waiters");
		size_t k = (size_t) sched_pick("signal", (long) n);
		wake_cond(it->second.waiters[k], true);
	}
	else count("probe.signal-without-waiter");
	return 0;
}
int pthread_cond_broadcast (pthread_cond_t* c)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
	if (self_tls->in_rt == 0)
	{
		unsigned char hs = sim_heap_state(c);
		if (hs == 2) uaf(c, true, PC, "memory-error:freed");
		for (int i = 0; i < ndead; i++) if ((uintptr_t) c >= dead_ranges[i].a && (uintptr_t) c < dead_ranges[i].b) uaf(c, true, PC, "memory-error:ended-thread's");
	}
	RtScope s;
	sync_point();
	auto it = cvs->find(c);
	if (it != cvs->end()) while (!it->second.waiters.empty()) wake_cond(it->second.waiters[0], true);
	return 0;
}
int pthread_cond_destroy (pthread_cond_t* c)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_cond_t*)>("pthread_cond_destroy"); return f(c); }
	RtScope s;
	auto it = cvs->find(c);
	if (it != cvs->end())
	{
		if (!it->second.waiters.empty()) violate("memory-error:awaited-condition-destroyed", "a condition variable was destroyed while thread %d waits on it", it->second.waiters[0]);
		cvs->erase(it);
	}
	return 0;
}

// read-write locks
int pthread_rwlock_rdlock (pthread_rwlock_t* l)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(l); }
	RtScope s;
	sync_point();
	for (;;)
	{
		Rw& r = (*rws)[l];
		if (r.writer < 0) { r.readers.push_back(cur); T[cur]->vc.join(r.vc); return 0; }
		T[cur]->st = T_MUTEX;
		T[cur]->wobj = l;
		decide(true, false);
	}
}
int pthread_rwlock_wrlock (pthread_rwlock_t* l)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(l); }
	RtScope s;
	sync_point();
	for (;;)
	{
		Rw& r = (*rws)[l];
		if (r.writer < 0 && r.readers.empty()) { r.writer = cur; T[cur]->vc.join(r.vc); T[cur]->vc.join(r.rvc); return 0; }
		T[cur]->st = T_MUTEX;
		T[cur]->wobj = l;
		decide(true, false);
	}
}
int pthread_rwlock_tryrdlock (pthread_rwlock_t* l)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return f(l); }
	{ RtScope s; if ((*rws)[l].writer >= 0) return EBUSY; }
	return pthread_rwlock_rdlock(l);
}
int pthread_rwlock_trywrlock (pthread_rwlock_t* l)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return f(l); }
	{ RtScope s; Rw& r = (*rws)[l]; if (r.writer >= 0 || !r.readers.empty()) return EBUSY; }
	return pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock (pthread_rwlock_t* l)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(l); }
	RtScope s;
	Rw& r = (*rws)[l];
	if (r.writer == cur) { r.writer = -1; r.vc = T[cur]->vc; }
	else
	{
		for (size_t i = 0; i < r.readers.size(); i++) if (r.readers[i] == cur) { r.readers.erase(r.readers.begin() + i); break; }
		r.rvc.join(T[cur]->vc);
	}
	T[cur]->vc.c[cur]++;
	for (int i = 0; i < nth; i++) if (T[i]->st == T_MUTEX && T[i]->wobj == l) T[i]->st = T_RUN;
	sync_point();
	return 0;
}

// threads
static void run_atexits (Th* t)
{
	while (!t->atexits->empty())
	{
		auto p = t->atexits->back();
		t->atexits->pop_back();
		p.first(p.second);
	}
}

static void* thread_main (void* a)
{
	Th* t = (Th*) a;
	park(t);
	self_tls = t;
	void* r = nullptr;
	try
	{
		r = t->fn(t->arg);
	}
	catch (const abi::__forced_unwind&) { throw; }
	run_atexits(t);
	t->in_rt++;
	t->ret = r;
	// thread-local storage and stack are gone from here on
	dead_ranges[ndead].a = (uintptr_t) t->stack;
	dead_ranges[ndead].b = (uintptr_t) t->stack + t->stack_size;
	ndead++;
	t->st = T_DONE;
	t->vc.c[t->id]++;
	for (int i = 0; i < nth; i++) if (T[i]->st == T_JOIN && T[i]->wobj == t) T[i]->st = T_RUN;
	log_hash(0xD0E0 + t->id);
	decide(true, false);
	return r;
}

int pthread_create (pthread_t* out, const pthread_attr_t* attr, void* (*fn) (void*), void* arg)
{
	static auto f = real<int (*) (pthread_t*, const pthread_attr_t*, void* (*) (void*), void*)>("pthread_create");
	if (!IN_SIM) return f(out, attr, fn, arg);
	RtScope s;
	Th* t = new_thread();
	t->fn = fn;
	t->arg = arg;
	t->vc.join(T[cur]->vc);
	t->vc.c[t->id] = 1;
	T[cur]->vc.c[cur]++;
	t->stack_size = 512 << 10;
	t->stack = (char*) mmap((void*) (0x300000000000ull + (uintptr_t) t->id * (1 << 20)), t->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
	if (t->stack == MAP_FAILED) harness_error("no stack");
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, t->stack, t->stack_size);
	int rc = f(&t->real, &at, thread_main, t);
	if (rc) harness_error("pthread_create failed: %d", rc);
	*out = t->real;
	if (attr)
	{
		int d = 0;
		pthread_attr_getdetachstate(attr, &d);
		t->detached = d == PTHREAD_CREATE_DETACHED;
	}
	count("threads");
	sync_point();
	return 0;
}
static Th* find_thread (pthread_t p)
{
	for (int i = 0; i < nth; i++) if (T[i]->real == p) return T[i];
	return nullptr;
}
int pthread_join (pthread_t p, void** ret)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_t, void**)>("pthread_join"); return f(p, ret); }
	RtScope s;
	sync_point();
	Th* t = find_thread(p);
	if (!t) return ESRCH;
	if (t == T[cur]) return EDEADLK;
	if (t->detached || t->joined) violate("thread-misuse", "join of a detached or already joined thread");
	while (t->st != T_DONE)
	{
		T[cur]->st = T_JOIN;
		T[cur]->wobj = t;
		decide(true, false);
	}
	t->joined = true;
	T[cur]->vc.join(t->vc);
	if (ret) *ret = t->ret;
	return 0;
}
int pthread_detach (pthread_t p)
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_t)>("pthread_detach"); return f(p); }
	RtScope s;
	sync_point();
	Th* t = find_thread(p);
	if (!t) return ESRCH;
	t->detached = true;
	return 0;
}

int pthread_once (pthread_once_t* o, void (*fn) (void))
{
	if (!IN_SIM) { static auto f = real<int (*) (pthread_once_t*, void (*) (void))>("pthread_once"); return f(o, fn); }
	volatile int* w = (volatile int*) o;
	for (;;)
	{
		{
			RtScope s;
			sync_point();
			while (*w == 1)
			{
				std::function<bool()> r = [w] { return *w != 1; };
				T[cur]->ready = &r;
				T[cur]->what = "once";
				T[cur]->st = T_STUB;
				decide(true, false);
			}
			if (*w == 2)
			{
				auto it = syncvc->find(o);
				if (it != syncvc->end()) T[cur]->vc.join(it->second);
				return 0;
			}
			*w = 1;
		}
		try { fn(); }
		catch (...) { *w = 0; throw; }
		RtScope s;
		(*syncvc)[o] = T[cur]->vc;
		T[cur]->vc.c[cur]++;
		*w = 2;
		return 0;
	}
}

// function-local statics
int __cxa_guard_acquire (long long int* g)
{
	volatile unsigned char* b = (volatile unsigned char*) g;
	if (b[0]) { if (IN_SIM && !self_tls->in_rt) { RtScope s; auto it = syncvc->find(g); if (it != syncvc->end()) T[cur]->vc.join(it->second); } return 0; }
	if (!IN_SIM) { b[1] = 1; return 1; }
	RtScope s;
	while (b[1])
	{
		std::function<bool()> r = [b] { return !b[1]; };
		T[cur]->ready = &r;
		T[cur]->what = "static initialisation";
		T[cur]->st = T_STUB;
		decide(true, false);
	}
	if (b[0]) { auto it = syncvc->find(g); if (it != syncvc->end()) T[cur]->vc.join(it->second); return 0; }
	b[1] = 1;
	return 1;
}
void __cxa_guard_release (long long int* g)
{
	volatile unsigned char* b = (volatile unsigned char*) g;
	b[0] = 1;
	b[1] = 0;
	if (IN_SIM)
	{
		RtScope s;
		(*syncvc)[g] = T[cur]->vc;
		T[cur]->vc.c[cur]++;
	}
}
void __cxa_guard_abort (long long int* g) { ((volatile unsigned char*) g)[1] = 0; }

int __cxa_thread_atexit (void (*dtor) (void*), void* obj, void* dso)
{
	if (IN_SIM)
	{
		RtScope s;
		T[cur]->atexits->push_back({dtor, obj});
		return 0;
	}
	static auto f = real<int (*) (void (*) (void*), void*, void*)>("__cxa_thread_atexit_impl");
	return f(dtor, obj, dso);
}

// futexes used by std::future, and other raw calls
long syscall (long nr, ...)
{
	va_list ap;
	va_start(ap, nr);
	long a[6];
	for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
	va_end(ap);
	if (IN_SIM && nr == SYS_futex)
	{
		int op = (int) a[1] & 127;
		int* addr = (int*) a[0];
		RtScope s;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
		{
			sync_point();
			if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int) a[2]) { errno = EAGAIN; return -1; }
			T[cur]->st = T_FUTEX;
			T[cur]->wobj = addr;
			if (a[3])
			{
				struct timespec* ts = (struct timespec*) a[3];
				T[cur]->timed = true;
				T[cur]->timedout = false;
				T[cur]->deadline = ts->tv_sec + ts->tv_nsec * 1e-9 + (op == FUTEX_WAIT ? now : 0);
			}
			decide(true, false);
			bool to = T[cur]->timed == false && a[3] && T[cur]->timedout;
			T[cur]->timed = false;
			if (to) { errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
		{
			long n = 0;
			for (int i = 0; i < nth && n < a[2]; i++)
				if (T[i]->st == T_FUTEX && T[i]->wobj == addr) { T[i]->st = T_RUN; T[i]->timed = false; n++; }
			sync_point();
			return n;
		}
	}
	long r;
	register long r10 __asm__("r10") = a[3];
	register long r8 __asm__("r8") = a[4];
	register long r9 __asm__("r9") = a[5];
	__asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
	return r;
}

// clock
static void sim_sleep (double d)
{
	RtScope s;
	Th* t = T[cur];
	t->st = T_SLEEP;
	t->timed = true;
	t->deadline = now + d;
	decide(true, false);
	t->timed = false;
}
int clock_gettime (clockid_t c, struct timespec* ts)
{
	if (!IN_SIM)
	{
		long r;
		__asm__ volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"((long) c), "S"(ts) : "rcx", "r11", "memory");
		return (int) r;
	}
	ts->tv_sec = (time_t) now;
	ts->tv_nsec = (long) ((now - (double) ts->tv_sec) * 1e9);
	return 0;
}
int gettimeofday (struct timeval* tv, void*)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time (time_t* t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int nanosleep (const struct timespec* a, struct timespec*)
{
	if (IN_SIM) { sim_sleep(a->tv_sec + a->tv_nsec * 1e-9); return 0; }
	return (int) syscall(SYS_nanosleep, a, nullptr);
}
int clock_nanosleep (clockid_t c, int flags, const struct timespec* a, struct timespec* rem)
{
	if (IN_SIM) { double d = a->tv_sec + a->tv_nsec * 1e-9; sim_sleep(flags ? d - now : d); return 0; }
	long r = syscall(SYS_clock_nanosleep, (long) c, (long) flags, a, rem);
	return r < 0 ? errno : 0;
}
int usleep (useconds_t u) { struct timespec ts = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned sleep (unsigned n) { struct timespec ts = {(time_t) n, 0}; nanosleep(&ts, nullptr); return 0; }
int sched_yield (void) { if (IN_SIM) { RtScope s; sync_point(); } return 0; }
}
