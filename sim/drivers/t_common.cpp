#include "t_common.h"
using namespace sim;

static bool draining = false;
void sched_drain (bool on) { draining = on; }
bool sched_is_draining () { return draining; }

void gen_sched (Rng& r, Plan& p)
{
	// swarm: every run draws its own scheduling style
	long style = r.range(0, 5);
	p.set("policy", style);
	p.set("p_sync", std::to_string(style == 0 ? 0.05 : style == 1 ? 0.5 : r.unit() * 0.6));
	p.set("p_acc", std::to_string(style == 2 ? 0.0 : r.chance(0.5) ? 0.002 : 0.02));
	p.set("pct", style >= 4 ? r.range(1, 6) : 0);
	p.set("p_spur", std::to_string(r.chance(0.4) ? r.unit() * 0.05 : 0.0));
	p.set("pct_span", r.range(1, 4) * 400);
}
void begin_sched (const Plan& p, bool races)
{
	heap_shadow_on();
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.lanes = 2;
	h.gap = 2;
	h.reuse = 0;
	heap_start(h);
	SchedOpts o;
	o.seed = mix(p.seed, 5);
	o.p_sync = p.real("p_sync", 0.3);
	o.p_acc = p.real("p_acc", 0.01);
	o.p_spur = p.real("p_spur", 0);
	o.pct = (int) p.num("pct");
	o.pct_span = p.num("pct_span", 2000);
	o.races = races;
	sched_start(o);
}
