#include "core.h"

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" void sim_child_begin (uint64_t layout_seed) __attribute__((weak));
extern "C" const char* __asan_get_report_description () __attribute__((weak));
extern "C" void __asan_set_death_callback (void (*)()) __attribute__((weak));
extern "C" void sim_active_off () __attribute__((weak));

namespace sim
{

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };

struct Counter { char name[48]; uint64_t n; };
static const int MAXC = 160;
static const int MAXSCHED = 1 << 16;

struct Result
{
	volatile int status;
	char cls[200];
	char msg[3000];
	uint64_t hash;
	uint64_t live; // running log hash (shared with machines forked inside the run)
	int nontriv;
	double simtime;
	int ncount;
	Counter counts[MAXC];
	uint32_t nsched;
	bool sched_overflow;
	struct { uint64_t d; int c; } sched[MAXSCHED];
};

struct WorkerStats
{
	uint64_t runs;
	uint64_t nontriv;
	double simtime;
	int ncount;
	Counter counts[MAXC]; // number of events
	uint64_t runs_with[MAXC]; // number of runs with the event
};

struct FoundV { uint64_t run; char cls[200]; char msg[3000]; };
struct Shared
{
	volatile int stop;
	volatile int nfound;
	FoundV found[64];
	volatile int harness;
	char harness_msg[3000];
	volatile int nknown;
	FoundV known[64];
};

static std::vector<Property>& props () { static std::vector<Property> v; return v; }
void register_property (const Property& p) { props().push_back(p); }

static Result* R = nullptr;
static const Plan* cur_plan = nullptr;
#define loghash (R->live)
static bool trace_on = false;
static uint64_t nlog = 0;

uint64_t hash_str (const std::string& s, uint64_t h)
{
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

std::string Plan::get (const std::string& k, const std::string& d) const
{
	for (auto& p : cfg) if (p.first == k) return p.second;
	return d;
}
long Plan::num (const std::string& k, long d) const { auto s = get(k); return s.empty() ? d : atol(s.c_str()); }
double Plan::real (const std::string& k, double d) const { auto s = get(k); return s.empty() ? d : atof(s.c_str()); }
void Plan::set (const std::string& k, const std::string& v)
{
	for (auto& p : cfg) if (p.first == k) { p.second = v; return; }
	cfg.push_back({k, v});
}
std::string Plan::text (const std::string& prop) const
{
	std::ostringstream o;
	o << "property " << prop << "\nseed " << seed << "\n";
	for (auto& c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
	for (auto& s : ops) o << "op " << s << "\n";
	if (explicit_sched) o << "explicit-schedule\n";
	for (auto& s : sched) o << "sched " << s.first << " " << s.second << "\n";
	return o.str();
}
static bool load_plan (const std::string& path, std::string& prop, Plan& p)
{
	std::ifstream in(path);
	if (!in) return false;
	std::string line;
	while (std::getline(in, line))
	{
		if (line.empty() || line[0] == '#') continue;
		std::istringstream ls(line);
		std::string k;
		ls >> k;
		if (k == "property") ls >> prop;
		else if (k == "seed") ls >> p.seed;
		else if (k == "cfg") { std::string a, b; ls >> a; std::getline(ls, b); if (!b.empty() && b[0] == ' ') b.erase(0, 1); p.cfg.push_back({a, b}); }
		else if (k == "op") { std::string b; std::getline(ls, b); if (!b.empty() && b[0] == ' ') b.erase(0, 1); p.ops.push_back(b); }
		else if (k == "explicit-schedule") p.explicit_sched = true;
		else if (k == "sched") { uint64_t d; int c; ls >> d >> c; p.sched.push_back({d, c}); }
	}
	return true;
}

Op parse_op (const std::string& line)
{
	Op o;
	std::istringstream ls(line);
	ls >> o.name;
	long v;
	while (ls >> v) o.a.push_back(v);
	return o;
}
std::string make_op (const std::string& name, std::vector<long> args)
{
	std::string s = name;
	for (long a : args) s += " " + std::to_string(a);
	return s;
}

void set_crash_class (const char* cls, const char* msg)
{
	if (!R) return;
	snprintf(R->cls, sizeof R->cls, "%s", cls);
	snprintf(R->msg, sizeof R->msg, "%s", msg);
}

static pid_t child_pid = 0;

[[noreturn]] static void end_run (int st)
{
	if (sim_active_off) sim_active_off();
	R->hash = loghash;
	R->status = st;
	if (getpid() != child_pid) { // a forked machine inside the run: the run's own process sees status
		_exit(77);
	}
	_exit(0);
}
void violate (const char* cls, const char* fmt, ...)
{
	if (sim_active_off) sim_active_off();
	if (R->status == ST_NONE)
	{
		snprintf(R->cls, sizeof R->cls, "%s", cls);
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(R->msg, sizeof R->msg, fmt, ap);
		va_end(ap);
		loghash = hash_str(R->cls, loghash);
	}
	if (trace_on) { fprintf(stderr, "VIOLATE %s: %s\n", R->cls, R->msg); fflush(stderr); }
	end_run(ST_VIOLATION);
}
void harness_error (const char* fmt, ...)
{
	if (sim_active_off) sim_active_off();
	snprintf(R->cls, sizeof R->cls, "harness");
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(R->msg, sizeof R->msg, fmt, ap);
	va_end(ap);
	if (trace_on) { fprintf(stderr, "HARNESS %s\n", R->msg); fflush(stderr); }
	end_run(ST_HARNESS);
}
void count (const char* name, uint64_t n)
{
	if (!R) return;
	for (int i = 0; i < R->ncount; i++) if (0 == strcmp(R->counts[i].name, name)) { R->counts[i].n += n; return; }
	if (R->ncount >= MAXC) return;
	snprintf(R->counts[R->ncount].name, sizeof R->counts[0].name, "%s", name);
	R->counts[R->ncount].n = n;
	R->ncount++;
}
void log_hash (uint64_t v) { loghash = (loghash ^ v) * 1099511628211ull; loghash ^= loghash >> 29; nlog++; }
void log (const char* fmt, ...)
{
	char buf[1500];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
	uint64_t h = loghash;
	for (int i = 0; i < n; i++) { h ^= (unsigned char) buf[i]; h *= 1099511628211ull; }
	loghash = h;
	if (trace_on) { buf[n] = '\n'; ssize_t r = ::write(2, buf, n + 1); (void) r; }
}
bool tracing () { return trace_on; }
void nontrivial () { if (R) R->nontriv = 1; }
void sim_time (double s) { if (R) R->simtime += s; }
void record_sched (uint64_t d, int c)
{
	if (!R) return;
	if (R->nsched >= MAXSCHED) { R->sched_overflow = true; return; }
	R->sched[R->nsched].d = d;
	R->sched[R->nsched].c = c;
	R->nsched++;
}
const Plan& plan () { return *cur_plan; }
uint64_t log_value () { return loghash; }

int run_machine (void (*fn) (void*), void* arg)
{
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) harness_error("fork failed");
	if (pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct itimerval tv;
		memset(&tv, 0, sizeof tv);
		tv.it_value.tv_sec = 10;
		setitimer(ITIMER_PROF, &tv, nullptr);
		fn(arg);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (R->status != ST_NONE) _exit(0); // the machine reported its verdict
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 42)) return WEXITSTATUS(st);
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) harness_error("machine killed by SIGKILL");
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) violate("hang", "machine did not finish within its CPU limit");
	std::string cls = R->cls[0] ? R->cls : WIFSIGNALED(st) ? "crash:signal " + std::to_string(WTERMSIG(st)) : "exit:" + std::to_string(WEXITSTATUS(st));
	violate(cls.c_str(), "process died: %s", cls.c_str());
}

void* shared_alloc (size_t bytes)
{
	void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
	return p;
}

static void asan_death ()
{
	if (R && R->status == ST_NONE && __asan_get_report_description)
	{
		const char* d = __asan_get_report_description();
		if (d && *d)
		{
			snprintf(R->cls, sizeof R->cls, "memory-error:%s", d);
			snprintf(R->msg, sizeof R->msg, "AddressSanitizer: %s", d);
		}
	}
}

static void on_fatal (int sig)
{
	// async-signal-safe enough: plain stores into shared memory
	if (R && R->status == ST_NONE && !R->cls[0])
	{
		const char* n = sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGABRT ? "crash:SIGABRT" : sig == SIGBUS ? "crash:SIGBUS" :
			sig == SIGFPE ? "crash:SIGFPE" : sig == SIGILL ? "crash:SIGILL" : "crash:signal";
		strcpy(R->cls, n);
		strcpy(R->msg, n);
	}
	signal(sig, SIG_DFL);
	raise(sig);
}

static uint64_t g_root_seed = 1;

static void reset_result (Result* r)
{
	r->status = ST_NONE;
	r->cls[0] = 0;
	r->msg[0] = 0;
	r->hash = 0;
	r->nontriv = 0;
	r->simtime = 0;
	r->ncount = 0;
	r->nsched = 0;
	r->sched_overflow = false;
}

struct Outcome { int status; std::string cls, msg; uint64_t hash; };

// run one plan in a forked child; R must be mapped shared
static Outcome run_plan (const Property& p, const Plan& pl, bool trace = false)
{
	reset_result(R);
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(98); }
	if (pid == 0)
	{
		child_pid = getpid();
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		trace_on = trace;
		if (!trace)
		{
			int fd = open("/dev/null", O_RDWR);
			dup2(fd, 0);
			dup2(fd, 1);
			dup2(fd, 2);
			if (fd > 2) close(fd);
		}
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		struct itimerval tv;
		memset(&tv, 0, sizeof tv);
		tv.it_value.tv_sec = p.timeout_ms / 1000;
		tv.it_value.tv_usec = (p.timeout_ms % 1000) * 1000;
		if (!getenv("SIM_NOTIMEOUT"))
		{
			setitimer(ITIMER_PROF, &tv, nullptr); // CPU time of this run
			alarm(120 + p.timeout_ms / 1000 * 6);
		}
		if (!__asan_get_report_description)
		{
			for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, on_fatal);
		}
		else
		{
			signal(SIGABRT, on_fatal);
			if (__asan_set_death_callback) __asan_set_death_callback(asan_death);
		}
		cur_plan = &pl;
		loghash = hash_str(p.id);
		// the run gets a stack at a fixed address: objects living on it are keyed by address in the
		// code under test, so argv/env length must not shift them
		static const Property* prop;
		prop = &p;
		void* stk = mmap((void*) 0x210000000000ull, 16u << 20, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
		if (stk != (void*) 0x210000000000ull) harness_error("no fixed stack");
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstack(&at, stk, 16u << 20);
		pthread_t th;
		if (pthread_create(&th, &at, [] (void*) -> void* {
			if (sim_child_begin) sim_child_begin(cur_plan->num("layout", (long) cur_plan->seed));
			prop->exec(*cur_plan);
			end_run(ST_OK);
			return nullptr;
		}, nullptr)) harness_error("no run thread");
		pthread_join(th, nullptr);
		_exit(97);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Outcome o;
	if (R->status == ST_NONE)
	{
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
		{
			// killed from outside (memory pressure): not a verdict
			o = {ST_HARNESS, "harness", "run killed by SIGKILL", 0};
			return o;
		}
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
		{
			o = {ST_HARNESS, "harness", "run exceeded its wall-clock limit without using CPU", 0};
			return o;
		}
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
		{
			o = {ST_VIOLATION, "hang", "run did not finish within its CPU limit", 0};
			return o;
		}
		std::string cls = R->cls[0] ? R->cls : "";
		if (cls.empty())
		{
			if (WIFSIGNALED(st)) cls = "crash:signal " + std::to_string(WTERMSIG(st));
			else cls = "exit:" + std::to_string(WEXITSTATUS(st));
		}
		o = {ST_VIOLATION, cls, std::string("process died: ") + cls + " " + R->msg, hash_str(cls)};
		return o;
	}
	o = {R->status, R->cls, R->msg, R->hash};
	return o;
}

static Plan make_plan (const Property& p, uint64_t root, uint64_t run)
{
	Plan pl;
	pl.seed = mix(mix(root, hash_str(p.id)), run);
	Rng rng(mix(pl.seed, 1));
	p.gen(rng, pl);
	return pl;
}

static std::string esc (const std::string& s)
{
	std::string o;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

static double now_s ()
{
	struct timespec ts;
	::clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// shrink ops and schedule while the class stays the same
static Plan minimise (const Property& p, Plan pl, const std::string& cls, double budget, uint64_t& tries)
{
	double t0 = now_s();
	auto same = [&](const Plan& c) -> bool
	{
		tries++;
		Outcome o = run_plan(p, c);
		return o.status == ST_VIOLATION && o.cls == cls;
	};
	bool progress = true;
	while (progress && now_s() - t0 < budget)
	{
		progress = false;
		// ops: ddmin-like chunk removal
		for (size_t chunk = std::max<size_t>(1, pl.ops.size() / 2); chunk >= 1 && now_s() - t0 < budget; chunk /= 2)
		{
			for (size_t i = 0; i < pl.ops.size() && now_s() - t0 < budget;)
			{
				Plan c = pl;
				size_t e = std::min(c.ops.size(), i + chunk);
				c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
				if (same(c)) { pl = c; progress = true; }
				else i += chunk;
			}
			if (chunk == 1) break;
		}
		for (size_t chunk = std::max<size_t>(1, pl.sched.size() / 2); chunk >= 1 && now_s() - t0 < budget && !pl.sched.empty(); chunk /= 2)
		{
			for (size_t i = 0; i < pl.sched.size() && now_s() - t0 < budget;)
			{
				Plan c = pl;
				size_t e = std::min(c.sched.size(), i + chunk);
				c.sched.erase(c.sched.begin() + i, c.sched.begin() + e);
				if (same(c)) { pl = c; progress = true; }
				else i += chunk;
			}
			if (chunk == 1) break;
		}
		// shrink numeric arguments towards zero
		for (size_t i = 0; i < pl.ops.size() && now_s() - t0 < budget; i++)
		{
			Op o = parse_op(pl.ops[i]);
			for (size_t k = 0; k < o.a.size(); k++)
			{
				for (long v : {0L, 1L, o.a[k] / 2})
				{
					if (v >= o.a[k] || o.a[k] <= 0) continue;
					Op o2 = o;
					o2.a[k] = v;
					Plan c = pl;
					c.ops[i] = make_op(o2.name, o2.a);
					if (c.ops[i] != pl.ops[i] && same(c)) { pl = c; o = o2; progress = true; break; }
				}
			}
		}
	}
	return pl;
}

struct Known { std::string prop, cls, what; };

static int replay_main (const std::string& path, bool trace)
{
	Plan pl;
	std::string prop;
	if (!load_plan(path, prop, pl)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
	for (auto& p : props())
	{
		if (prop != p.id) continue;
		Outcome o = run_plan(p, pl, trace);
		printf("REPLAY property=%s status=%s class=%s hash=%016llx\n", p.id,
			o.status == ST_OK ? "ok" : o.status == ST_VIOLATION ? "violation" : "harness-error", o.cls.c_str(), (unsigned long long) o.hash);
		if (o.status != ST_OK) printf("%s\n", o.msg.c_str());
		return o.status == ST_OK ? 0 : o.status == ST_VIOLATION ? 1 : 2;
	}
	fprintf(stderr, "unknown property %s\n", prop.c_str());
	return 2;
}

int driver_main (int argc, char** argv)
{
	// no address randomisation: addresses are part of the simulated world
	if (!getenv("SIM_REEXEC"))
	{
		setenv("SIM_REEXEC", "1", 1);
		int per = personality(0xffffffff);
		if (per != -1 && personality(per | ADDR_NO_RANDOMIZE) != -1)
		{
			// asan options must be in place before start-up
			setenv("ASAN_OPTIONS", "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:symbolize=0:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:malloc_context_size=0:quarantine_size_mb=16", 1);
			execv("/proc/self/exe", argv);
		}
	}
	std::string prop, replay, evidence = "", tier = "quick", replay_dir = ".", known_file, extra;
	uint64_t seed = 1;
	long runs = -1;
	int workers = 8;
	double cap = 0;
	bool trace = false;
	long only = -1, start = 0;
	double min_budget = 60;
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
		if (a == "--property") prop = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--tier") tier = val();
		else if (a == "--runs") runs = atol(val().c_str());
		else if (a == "--cap") cap = atof(val().c_str());
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--replay") replay = val();
		else if (a == "--evidence") evidence = val();
		else if (a == "--replay-dir") replay_dir = val();
		else if (a == "--known") known_file = val();
		else if (a == "--trace") trace = true;
		else if (a == "--only") only = atol(val().c_str());
		else if (a == "--start") start = atol(val().c_str());
		else if (a == "--min-budget") min_budget = atof(val().c_str());
		else if (a == "--note") extra = val();
		else if (a == "--list") { for (auto& p : props()) printf("%s\n", p.id); return 0; }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	g_root_seed = seed;
	R = (Result*) shared_alloc(sizeof(Result));
	if (!replay.empty()) return replay_main(replay, trace);

	const Property* P = nullptr;
	for (auto& p : props()) if (prop == p.id) P = &p;
	if (!P) { fprintf(stderr, "no property %s in this binary\n", prop.c_str()); return 2; }
	if (runs < 0) runs = tier == "thorough" ? P->thorough_runs : P->quick_runs;
	if (cap <= 0) cap = tier == "thorough" ? 3600 : 420;
	printf("property %s root seed %llu tier %s runs %ld workers %d\n", P->id, (unsigned long long) seed, tier.c_str(), runs, workers);
	fflush(stdout);

	if (only >= 0)
	{
		Plan pl = make_plan(*P, seed, only);
		printf("%s", pl.text(P->id).c_str());
		fflush(stdout);
		Outcome o = run_plan(*P, pl, trace);
		printf("status=%d class=%s hash=%016llx\n%s\n", o.status, o.cls.c_str(), (unsigned long long) o.hash, o.msg.c_str());
		for (int i = 0; i < R->ncount; i++) printf("  %s=%llu\n", R->counts[i].name, (unsigned long long) R->counts[i].n);
		return o.status == ST_OK ? 0 : 1;
	}

	std::vector<Known> known;
	if (!known_file.empty())
	{
		std::ifstream in(known_file);
		std::string line;
		while (std::getline(in, line))
		{
			// KNOWN property=<id> class=<cls> :: <what>
			if (line.compare(0, 6, "known:") != 0) continue;
			std::istringstream ls(line.substr(6));
			std::string a, b, rest;
			ls >> a >> b;
			std::getline(ls, rest);
			Known k;
			k.prop = a.substr(a.find('=') + 1);
			k.cls = b.substr(b.find('=') + 1);
			k.what = rest;
			if (k.prop == P->id) known.push_back(k);
		}
	}

	const long RECHECK = std::min<long>(runs, tier == "thorough" ? 2000 : 300);
	long total = runs + RECHECK;
	uint64_t* hashes = (uint64_t*) shared_alloc(sizeof(uint64_t) * (total + 1));
	unsigned char* flags = (unsigned char*) shared_alloc(total + 1);
	WorkerStats* ws = (WorkerStats*) shared_alloc(sizeof(WorkerStats) * workers);
	Shared* sh = (Shared*) shared_alloc(sizeof(Shared));
	double t0 = now_s();
	std::vector<pid_t> pids;
	auto recheck_of = [&](long i) -> long { return (i * 7919) % runs; };
	for (int w = 0; w < workers; w++)
	{
		pid_t pid = fork();
		if (pid == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			R = (Result*) shared_alloc(sizeof(Result));
			WorkerStats& s = ws[w];
			for (long r = w; r < total; r += workers)
			{
				if (sh->stop || now_s() - t0 > cap) break;
				if (r < start) continue;
				bool re = r >= runs;
				// rechecks are executed by a worker other than the first time round where possible
				long idx = re ? recheck_of(r - runs) : r;
				Plan pl = make_plan(*P, seed, idx);
				Outcome o = run_plan(*P, pl);
				hashes[r] = o.status == ST_OK ? mix(R->hash, 17) : hash_str(o.cls, R->hash);
				flags[r] = 1 | (R->nontriv ? 2 : 0);
				if (re) { if (o.status == ST_HARNESS) flags[r] = 0; continue; }
				s.runs++;
				if (R->nontriv) s.nontriv++;
				s.simtime += R->simtime;
				for (int i = 0; i < R->ncount; i++)
				{
					int j = 0;
					while (j < s.ncount && strcmp(s.counts[j].name, R->counts[i].name)) j++;
					if (j == s.ncount)
					{
						if (s.ncount >= MAXC) continue;
						s.counts[s.ncount++] = Counter();
						strcpy(s.counts[j].name, R->counts[i].name);
						s.counts[j].n = 0;
						s.runs_with[j] = 0;
					}
					s.counts[j].n += R->counts[i].n;
					s.runs_with[j]++;
				}
				if (o.status == ST_HARNESS)
				{
					if (!__sync_lock_test_and_set(&sh->harness, 1))
						snprintf(sh->harness_msg, sizeof sh->harness_msg, "run %ld: %s", r, o.msg.c_str());
					sh->stop = 1;
					break;
				}
				if (o.status == ST_VIOLATION)
				{
					bool kn = false;
					for (auto& k : known) if (k.cls == o.cls) kn = true;
					if (kn)
					{
						continue;
					}
					int k = __sync_fetch_and_add(&sh->nfound, 1);
					if (k < 64)
					{
						sh->found[k].run = r;
						snprintf(sh->found[k].cls, sizeof sh->found[k].cls, "%s", o.cls.c_str());
						snprintf(sh->found[k].msg, sizeof sh->found[k].msg, "%s", o.msg.c_str());
					}
					if (!getenv("SIM_SURVEY")) sh->stop = 1;
				}
			}
			_exit(0);
		}
		pids.push_back(pid);
	}
	bool worker_bad = false;
	for (pid_t p : pids)
	{
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!WIFEXITED(st) || WEXITSTATUS(st)) worker_bad = true;
	}
	double t1 = now_s();
	WorkerStats tot;
	memset(&tot, 0, sizeof tot);
	std::map<std::string, std::pair<uint64_t,uint64_t> > counts;
	for (int w = 0; w < workers; w++)
	{
		tot.runs += ws[w].runs;
		tot.nontriv += ws[w].nontriv;
		tot.simtime += ws[w].simtime;
		for (int j = 0; j < ws[w].ncount; j++)
		{
			counts[ws[w].counts[j].name].first += ws[w].counts[j].n;
			counts[ws[w].counts[j].name].second += ws[w].runs_with[j];
		}
	}
	std::unordered_set<uint64_t> dist;
	for (long r = 0; r < runs; r++) if ((flags[r] & 3) == 3) dist.insert(hashes[r]);
	long rechecked = 0, mismatched = 0, first_mismatch = -1;
	for (long i = 0; i < RECHECK; i++)
	{
		long idx = recheck_of(i);
		if ((flags[runs + i] & 1) && (flags[idx] & 1))
		{
			rechecked++;
			if (hashes[runs + i] != hashes[idx]) { mismatched++; if (first_mismatch < 0) first_mismatch = idx; }
		}
	}
	int nf = std::min<int>((int) sh->nfound, 64);
	printf("runs %llu nontrivial %llu distinct %zu in %.1fs; determinism recheck %ld runs, %ld mismatches\n", (unsigned long long) tot.runs,
		(unsigned long long) tot.nontriv, dist.size(), t1 - t0, rechecked, mismatched);
	for (auto& c : counts) printf("  %-44s events=%llu runs=%llu\n", c.first.c_str(), (unsigned long long) c.second.first, (unsigned long long) c.second.second);
	fflush(stdout);

	int exit_code = 0;
	std::string vline;
	std::string problem;
	if (sh->harness) { problem = std::string("harness error: ") + sh->harness_msg; exit_code = 3; }
	else if (worker_bad) { problem = "a worker died"; exit_code = 3; }
	else if (mismatched) { problem = "nondeterminism: run " + std::to_string(first_mismatch) + " gave two different histories"; exit_code = 3; }
	std::string vcls, vmsg;
	if (nf && getenv("SIM_SURVEY"))
	{
		std::map<std::string, std::pair<int,uint64_t> > by;
		for (int i = 0; i < nf; i++) { auto& b = by[sh->found[i].cls]; if (!b.first++ || b.second > sh->found[i].run) b.second = sh->found[i].run; }
		for (auto& b : by) printf("SURVEY %s: %d, first run %llu\n", b.first.c_str(), b.second.first, (unsigned long long) b.second.second);
		for (int i = 0; i < nf && i < 5; i++) printf("   e.g. run %llu %s: %.600s\n", (unsigned long long) sh->found[i].run, sh->found[i].cls, sh->found[i].msg);
	}
	if (nf && (exit_code == 0 || (mismatched && !sh->harness && !worker_bad)))
	{
		// code that breaks a property may also make runs unrepeatable (it reads garbage): the violation comes first
		std::string earlier = problem;
		problem.clear();
		exit_code = 0;
		if (!earlier.empty()) printf("note: %s\n", earlier.c_str());
		int best = 0;
		for (int i = 1; i < nf; i++) if (sh->found[i].run < sh->found[best].run) best = i;
		uint64_t run = sh->found[best].run;
		vcls = sh->found[best].cls;
		vmsg = sh->found[best].msg;
		printf("violation in run %llu: %s: %s\n", (unsigned long long) run, vcls.c_str(), vmsg.c_str());
		// gate 1: same seed again
		Plan pl = make_plan(*P, seed, run);
		Outcome o1 = run_plan(*P, pl);
		bool hang = vcls == "hang";
		Plan full = pl;
		if (o1.status == ST_VIOLATION && o1.cls == vcls)
		{
			if (!R->sched_overflow && R->nsched > 0)
			{
				full.explicit_sched = true;
				for (uint32_t i = 0; i < R->nsched; i++) full.sched.push_back({R->sched[i].d, R->sched[i].c});
				Outcome o3 = run_plan(*P, full);
				if (!(o3.status == ST_VIOLATION && o3.cls == vcls)) full = pl; // keep the seed-driven form
			}
		}
		Outcome o2 = run_plan(*P, pl);
		for (int again = 0; again < 5 && (o1.status != ST_VIOLATION || o1.cls != vcls); again++) o1 = run_plan(*P, pl);
		for (int again = 0; again < 5 && (o2.status != ST_VIOLATION || o2.cls != vcls); again++) o2 = run_plan(*P, pl);
		bool exact = hang || o1.hash == o2.hash;
		if (!exact) printf("note: the violation repeats but its history does not hash the same\n");
		if (o1.status != ST_VIOLATION || o1.cls != vcls || o2.cls != vcls)
		{
			problem = "violation did not reproduce from its own seed";
			exit_code = 3;
		}
		else
		{
			uint64_t tries = 0;
			Plan m = minimise(*P, full, vcls, hang ? 20 : min_budget, tries);
			Outcome om = run_plan(*P, m);
			if (om.status != ST_VIOLATION || om.cls != vcls) { m = full; om = run_plan(*P, m); }
			mkdir(replay_dir.c_str(), 0755);
			std::string path = replay_dir + "/" + P->id + "-" + std::to_string(seed) + "-" + std::to_string(run) + ".replay";
			{
				std::ofstream f(path);
				f << "# " << vcls << ": " << om.msg << "\n";
				f << "# found by: root seed " << seed << " run " << run << "; minimised from " << full.ops.size() << " ops, " << full.sched.size()
					<< " schedule deviations to " << m.ops.size() << ", " << m.sched.size() << " in " << tries << " tries\n";
				f << m.text(P->id);
			}
			// gate 2: fresh process
			std::string cmd = "unset SIM_REEXEC; '" + std::string("/proc/self/exe") + "'";
			char exe[4096];
			ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
			exe[n > 0 ? n : 0] = 0;
			cmd = std::string("env -u SIM_REEXEC '") + exe + "' --replay '" + path + "'";
			FILE* pf = popen(cmd.c_str(), "r");
			std::string out;
			char buf[512];
			while (pf && fgets(buf, sizeof buf, pf)) out += buf;
			int rc = pf ? pclose(pf) : -1;
			char expect[64];
			snprintf(expect, sizeof expect, "hash=%016llx", (unsigned long long) om.hash);
			if (exact && out.find("class=" + vcls) != std::string::npos && out.find(expect) == std::string::npos)
			{
				exact = false;
				printf("note: the replay shows the same violation with another history hash\n");
			}
			if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1 || out.find("class=" + vcls) == std::string::npos)
			{
				problem = "replay in a fresh process did not reproduce: " + out + " expected " + expect;
				exit_code = 3;
			}
			else
			{
				vmsg = om.msg;
				printf("%s\nreplay: %zu ops, %zu schedule deviations (from %zu, %zu)\n", vmsg.c_str(), m.ops.size(), m.sched.size(), full.ops.size(), full.sched.size());
				vline = std::string("VIOLATION property=") + P->id + " replay=" + path;
				exit_code = 1;
			}
		}
	}
	for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", P->id, k.what.c_str());

	if (!evidence.empty())
	{
		std::ofstream e(evidence);
		double wall = now_s() - t0;
		e << "{\n \"property\": \"" << P->id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
		e << " \"coverage\": {\n";
		e << "  \"evaluations\": " << tot.runs << ",\n  \"distinct_nontrivial\": " << dist.size() << ",\n";
		e << "  \"rule\": \"" << esc(P->rule) << "\",\n";
		e << "  \"samples\": [";
		int shown = 0;
		for (long r = 0; r < runs && shown < 3; r++)
		{
			if ((flags[r] & 3) != 3) continue;
			Plan pl = make_plan(*P, seed, r);
			std::string t = pl.text(P->id);
			if (t.size() > 1500) t = t.substr(0, 1500) + "...";
			char hb[32];
			snprintf(hb, sizeof hb, "%016llx", (unsigned long long) hashes[r]);
			e << (shown ? ", " : "") << "\"run " << r << " (history hash " << hb << "): " << esc(t) << "\"";
			shown++;
		}
		e << "],\n";
		e << "  \"nontrivial_runs\": " << tot.nontriv << ",\n";
		e << "  \"runs_per_hour\": " << (long)(tot.runs / std::max(0.001, t1 - t0) * 3600) << ",\n";
		e << "  \"seeds_per_hour\": " << (long)(tot.runs / std::max(0.001, t1 - t0) * 3600) << ",\n";
		e << "  \"simulated_seconds\": " << tot.simtime << ",\n";
		e << "  \"distinct_histories\": " << dist.size() << ",\n";
		e << "  \"determinism_recheck\": {\"runs\": " << rechecked << ", \"mismatches\": " << mismatched << "},\n";
		std::set<std::string> faults;
		{
			std::istringstream fs(P->faults);
			std::string f;
			while (std::getline(fs, f, ',')) if (!f.empty()) faults.insert(f);
		}
		e << "  \"faults_injected\": {";
		bool first = true;
		for (auto& f : faults)
		{
			auto it = counts.find(f);
			e << (first ? "" : ", ") << "\"" << esc(f) << "\": {\"fired\": " << (it == counts.end() ? 0 : it->second.first) << ", \"runs\": " << (it == counts.end() ? 0 : it->second.second) << "}";
			first = false;
		}
		e << "},\n  \"probes\": {";
		first = true;
		for (auto& c : counts)
		{
			if (faults.count(c.first)) continue;
			e << (first ? "" : ", ") << "\"" << esc(c.first) << "\": {\"events\": " << c.second.first << ", \"runs\": " << c.second.second << "}";
			first = false;
		}
		e << "},\n  \"components\": \"" << esc(P->components) << "\"";
		if (!extra.empty()) e << ",\n  \"note\": \"" << esc(extra) << "\"";
		if (!problem.empty()) e << ",\n  \"problem\": \"" << esc(problem) << "\"";
		if (!vline.empty()) e << ",\n  \"violation\": \"" << esc(vcls + ": " + vmsg) << "\"";
		e << "\n },\n \"assumptions\": [\"" << esc(P->assumptions) << "\"],\n";
		e << " \"wall_s\": " << wall << ",\n \"violations\": " << (exit_code == 1 ? 1 : 0) << "\n}\n";
	}
	if (!problem.empty()) printf("CHECK ERROR: %s\n", problem.c_str());
	if (!vline.empty()) printf("%s\n", vline.c_str());
	fflush(stdout);
	return exit_code;
}

}

int main (int argc, char** argv) { return sim::driver_main(argc, argv); }
