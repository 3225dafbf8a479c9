// C01, C02: the change feed; C05 reuses the scenario with race checking
#include "core.h"
#include "heap.h"
#include "simsched.h"
#include "ti_wrap.h"
#include "t_common.h"

#include <map>
#include <set>
#include <thread>
#include <vector>

using namespace sim;

namespace
{
struct Consumer
{
	int id;
	int slow = 0;
	std::map<std::string, long> last;
	std::set<long> got;
	long ngot = 0, gets = 0;
	bool joined = false, done = false;
	int pause = 0;
	bool stalled = false;
};
struct World
{
	wrap::feed* f = nullptr;
	std::map<long, std::string> published;    // seq -> key, recorded before the call
	std::map<std::string, long> newest;       // key -> seq, recorded after the call returned
	std::vector<Consumer> cons;
	std::vector<std::thread> th;
	volatile bool quit = false;
	long seq = 0;
};
World* W;

std::string key_name (long k) { return "key" + std::to_string(k); }

void consume (int c)
{
	Consumer& me = W->cons[c];
	wrap::cursor* cur = wrap::cursor_new();
	while (!W->quit)
	{
		std::string k;
		long s = 0;
		bool got = wrap::feed_get(W->f, cur, k, s);
		me.gets++;
		if (got)
		{
			log("consumer %d got %s#%ld", c, k.c_str(), s);
			auto p = W->published.find(s);
			if (p == W->published.end() || p->second != k) violate("feed:unpublished", "consumer %d was given a message that was never published: %s#%ld", c, k.c_str(), s);
			if (!me.got.insert(s).second) violate("feed:duplicate", "consumer %d was given %s#%ld twice", c, k.c_str(), s);
			auto l = me.last.find(k);
			if (l != me.last.end() && l->second > s) violate("feed:backwards", "consumer %d was given %s#%ld after %s#%ld", c, k.c_str(), s, k.c_str(), l->second);
			me.last[k] = s;
			me.ngot++;
			count("probe.messages-delivered");
		}
		for (int i = 0; i < me.slow; i++) sched_yield_point("slow consumer");
		if (me.pause > 0 && me.ngot == me.pause)
		{
			// a stalled reader: parked until the publisher has moved on
			count("fault.consumer-stall");
			me.pause = 0;
			long target = W->seq + 3;
			me.stalled = true;
			sched_block_until("stalled consumer", [target] { return W->seq >= target || W->quit || sched_is_draining(); });
			me.stalled = false;
		}
	}
	wrap::cursor_delete(cur);
	me.done = true;
}

void start_consumer (int c)
{
	if (c < 0 || c >= (int) W->cons.size() || W->cons[c].joined) return;
	W->cons[c].joined = true;
	W->th.emplace_back([c] { consume(c); });
}

std::string missing (const Consumer& c)
{
	for (auto& k : W->newest)
	{
		auto it = c.last.find(k.first);
		if (it == c.last.end() || it->second != k.second)
			return k.first + "#" + std::to_string(k.second) + (it == c.last.end() ? " (nothing for this key)" : " (has #" + std::to_string(it->second) + ")");
	}
	return "";
}

void publish (long k)
{
	long s = ++W->seq;
	W->published[s] = key_name(k);
	log("publish %s#%ld", key_name(k).c_str(), s);
	if (W->newest.count(key_name(k))) count("probe.republished");
	wrap::feed_add(W->f, key_name(k), s);
	W->newest[key_name(k)] = s;
}
}

void feed_gen (Rng& r, Plan& p, bool liveness)
{
	gen_sched(r, p);
	long nc = r.range(1, 4);
	long nk = r.range(1, 5);
	p.set("consumers", nc);
	for (long c = 0; c < nc; c++)
	{
		p.set("slow" + std::to_string(c), r.chance(0.4) ? r.range(1, 6) : 0);
		p.set("stall" + std::to_string(c), r.chance(0.35) ? r.range(1, 4) : 0);
	}
	std::vector<bool> joined(nc, false);
	long n = r.range(2, 24);
	for (long i = 0; i < n; i++)
	{
		double x = r.unit();
		if (x < 0.22) p.ops.push_back(make_op("join", {r.range(0, nc - 1)}));
		else if (x < 0.30) p.ops.push_back(make_op("yield", {r.range(1, 10)}));
		else if (x < 0.36) p.ops.push_back("settle");
		else if (x < 0.39) p.ops.push_back("escape");
		else p.ops.push_back(make_op("add", {r.range(0, nk - 1)}));
	}
}

// help: keep releasing waiters so that content is judged apart from wake-ups
void feed_exec (const Plan& p, bool liveness, bool races)
{
	begin_sched(p, races);
	W = new World();
	W->f = wrap::feed_new();
	W->cons.resize(p.num("consumers", 1));
	for (size_t i = 0; i < W->cons.size(); i++)
	{
		W->cons[i].id = (int) i;
		W->cons[i].slow = (int) p.num("slow" + std::to_string(i));
		W->cons[i].pause = (int) p.num("stall" + std::to_string(i));
	}
	auto served = [&](const char* when)
	{
		for (auto& c : W->cons)
		{
			if (!c.joined || c.stalled) continue;
			std::string m = missing(c);
			if (!m.empty()) violate(liveness ? "feed:starved" : "feed:missed", "%s consumer %d waits without having been given %s", when, c.id, m.c_str());
		}
	};
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		if (o.name == "add") publish(o.arg(0));
		else if (o.name == "join") start_consumer((int) o.arg(0));
		else if (o.name == "yield") for (long i = 0; i < o.arg(0); i++) sched_yield_point("publisher");
		else if (o.name == "escape") { wrap::feed_escape(W->f); count("probe.escape"); }
		else if (o.name == "settle")
		{
			sched_wait_idle();
			count("probe.settled");
			if (liveness) served("with everyone else blocked,");
		}
	}
	for (size_t i = 0; i < W->cons.size(); i++) start_consumer((int) i);
	// faults stop: readers are no longer stalled, scheduling is fair
	sched_drain(true);
	sched_fair(true);
	sched_wait_idle();
	if (liveness) served("after the last message");
	else
	{
		for (int i = 0; i < 400; i++)
		{
			long before = 0, after = 0;
			for (auto& c : W->cons) before += c.ngot;
			wrap::feed_escape(W->f);
			sched_wait_idle();
			for (auto& c : W->cons) after += c.ngot;
			bool all = true;
			for (auto& c : W->cons) if (!missing(c).empty()) all = false;
			if (before == after && (all || i > 20)) break;
		}
		served("after being released repeatedly");
	}
	if (liveness && W->cons.size() > 1) count("probe.several-waiters-at-end");
	// escaping releases every waiter
	W->quit = true;
	sched_fair(true);
	wrap::feed_escape(W->f);
	sched_wait_idle();
	for (int i = 0; i < 50 && !liveness; i++)
	{
		bool all = true;
		for (auto& c : W->cons) if (!c.done) all = false;
		if (all) break;
		wrap::feed_escape(W->f);
		sched_wait_idle();
	}
	for (auto& c : W->cons)
		if (!c.done)
		{
			if (liveness) violate("feed:not-released", "consumer %d is still waiting after waiting readers were forced out", c.id);
			else { count("probe.unreleased-reader"); nontrivial(); sched_stop(); return; }
		}
	for (auto& t : W->th) t.join();
	wrap::feed_delete(W->f);
	long tot = 0;
	for (auto& c : W->cons) tot += c.ngot;
	if (tot > 0 && W->seq > 1) nontrivial();
	sched_stop();
}

static Reg r1({"C01",
	"a run is non-trivial when at least two messages were published and at least one delivered; distinct = distinct event-log hash (publications, deliveries and context switches in order)",
	"real: thread/shareable_cache (template under test, instrumented); simulated: thread scheduler, mutexes, condition variables, clock",
	6000, 300000, [](Rng& r, Plan& p) { feed_gen(r, p, false); }, [](const Plan& p) { feed_exec(p, false, false); },
	"fault.spurious-wakeup,fault.consumer-stall,context-switch",
	"sequentially consistent memory; one publisher as documented in shareable_cache.hpp", 8000});
static Reg r2({"C02",
	"a run is non-trivial when at least two messages were published and at least one delivered; distinct = distinct event-log hash",
	"real: thread/shareable_cache (instrumented); simulated: thread scheduler, mutexes, condition variables, clock",
	6000, 300000, [](Rng& r, Plan& p) { feed_gen(r, p, true); }, [](const Plan& p) { feed_exec(p, true, false); },
	"fault.spurious-wakeup,fault.consumer-stall,context-switch",
	"bounded = every other thread blocked or finished under fair scheduling (quiescence), at most 400000 steps", 8000});
