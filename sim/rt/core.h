// Deterministic-simulation core shared by all checks: seeded PRNG, plans, run results, driver.
// One run = one forked child process = one pure function of its Plan.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace sim
{

struct Rng
{
	uint64_t s[2];
	explicit Rng (uint64_t seed = 1) { reseed(seed); }
	static uint64_t splitmix (uint64_t& x)
	{
		uint64_t z = (x += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	void reseed (uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); if (!s[0] && !s[1]) s[0] = 1; }
	uint64_t next ()
	{
		uint64_t a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
		return s[1] + b;
	}
	uint64_t below (uint64_t n) { return n ? next() % n : 0; }
	// inclusive
	int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t)(hi - lo + 1)); }
	bool chance (double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double unit () { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	template <typename V> auto& pick (V& v) { return v[below(v.size())]; }
};

inline uint64_t mix (uint64_t a, uint64_t b)
{
	uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
	return Rng::splitmix(x);
}
uint64_t hash_str (const std::string& s, uint64_t h = 1469598103934665603ull);

// A plan is everything a run depends on besides the code.
struct Plan
{
	uint64_t seed = 0;                       // root of every run-time choice not spelled out below
	std::vector<std::pair<std::string,std::string> > cfg;
	std::vector<std::string> ops;            // operations and faults, one per line
	bool explicit_sched = false;             // schedule given below instead of drawn from seed
	std::vector<std::pair<uint64_t,int> > sched; // (decision number, choice) deviations from default

	std::string get (const std::string& k, const std::string& d = "") const;
	long num (const std::string& k, long d = 0) const;
	double real (const std::string& k, double d = 0) const;
	void set (const std::string& k, const std::string& v);
	void set (const std::string& k, long v) { set(k, std::to_string(v)); }
	std::string text (const std::string& prop) const;
};

struct Op
{
	std::string name;
	std::vector<long> a;
	long arg (size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};
Op parse_op (const std::string& line);
std::string make_op (const std::string& name, std::vector<long> args);

// --- called from inside a run (child) ---
// report a violation and end the run at once
[[noreturn]] void violate (const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// the harness itself is at fault (not a verdict on the code)
[[noreturn]] void harness_error (const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// count an event (fault fired, probe reached, ...); name must be a literal
void count (const char* name, uint64_t n = 1);
// event log: only hashed (and kept as text when tracing)
void log (const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log_hash (uint64_t v);
// mark the run non-trivial by the property's rule
void nontrivial ();
void sim_time (double seconds);
void record_sched (uint64_t decision, int choice);
bool tracing ();
const Plan& plan ();
uint64_t log_value ();

// hook for crash classes (asan etc.): set before the process dies
void set_crash_class (const char* cls, const char* msg);

struct Property
{
	const char* id;
	const char* rule;          // evidence "rule"
	const char* components;    // real/stub text
	long quick_runs;
	long thorough_runs;
	void (*gen) (Rng&, Plan&);
	void (*exec) (const Plan&);
	const char* faults;        // comma separated counter names that are fault kinds
	const char* assumptions;
	int timeout_ms;            // real time before a run is declared hung
};
void register_property (const Property& p);
struct Reg { explicit Reg (const Property& p) { register_property(p); } };

int driver_main (int argc, char** argv);

// run a piece of a run in a forked process of its own (a "machine" that may crash);
// returns exit status like waitpid. Shared state must live in shared memory.
void* shared_alloc (size_t bytes);
// fork, run fn there; returns 0 (finished) or 42 (simulated crash via _exit(42)); any other death is a violation
int run_machine (void (*fn) (void*), void* arg);

}
