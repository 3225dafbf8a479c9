// C07 (reads are current), C09 (destruction), C11 (freezing): random graph histories over a seeded heap.
#include "graphworld.h"
using namespace sim;

static void heap_plan (Rng& r, Plan& p)
{
	p.set("reuse", std::to_string(r.chance(0.3) ? 0.0 : r.unit()));
	p.set("lanes", r.range(1, 6));
	p.set("gap", r.chance(0.5) ? 0 : r.range(1, 20));
}
static void begin (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.lanes = (int) p.num("lanes", 2);
	h.gap = (int) p.num("gap", 0);
	h.reuse = p.real("reuse", 0);
	heap_start(h);
	nnutils::seed_generator((size_t) (p.seed | 1));
}
struct Mix { double leaf, build, set, asg, read, shape, fail, der, clone, mv, del, delany, hold, freeze; };
static std::string gen1 (Rng& r, const Mix& m)
{
	long a = r.range(0, 40), b = r.range(0, 40), k = r.range(0, 79);
	double w[] = {m.leaf, m.build, m.set, m.asg, m.read, m.shape, m.fail, m.der, m.clone, m.mv, m.del, m.delany, m.hold, m.freeze}, t = 0;
	for (double x : w) t += x;
	double u = r.unit() * t;
	int c = 0;
	while (c < 13 && u >= w[c]) u -= w[c++];
	switch (c)
	{
		case 0: { double y = r.unit(); if (y < 0.7) return make_op("var", {k, (long) r.chance(0.85)}); if (y < 0.9) return make_op("ph", {k, (long) r.chance(0.6)}); return make_op("const", {k}); }
		case 1: { double y = r.unit(); long q = r.range(0, 11); if (y < 0.33) return make_op("un", {k, a, q}); if (y < 0.48) return make_op("sca", {k, a, b, q}); if (y < 0.87) return make_op("bin", {k, a, b, q}); if (y < 0.92) return make_op("again", {a, q}); if (y < 0.97) return make_op("axm", {a, b, q}); return make_op("gen", {k, a, b}); }
		case 2: return make_op("set", {a, r.chance(0.5) ? 0 : r.range(1, 5)});
		case 3: return make_op("asg", {a, b, k, (long) r.chance(0.2)});
		case 4: return make_op("read", {a, (long) r.chance(0.3)});
		case 5: return make_op("shape", {a});
		case 6: return r.chance(0.75) ? make_op("failread", {a, r.range(0, r.chance(0.5) ? 6 : 60), (long) r.chance(0.3), (long) r.chance(0.6)}) : make_op("failset", {a, r.range(0, 20)});
		case 7: { double y = r.unit(); return y < 0.5 ? make_op("der", {a, b}) : y < 0.8 ? make_op("derc", {a, b}) : make_op("derx", {a, b}); }
		case 8: return r.chance(0.7) ? make_op("clone", {a}) : make_op("twin", {a, b});
		case 9: { double y = r.unit(); return y < 0.5 ? make_op("mv", {a, b}) : y < 0.65 ? make_op("lmv", {a}) : y < 0.8 ? make_op("lma", {a, b}) : y < 0.88 ? make_op("lcp", {a, b}) : y < 0.96 ? make_op("cas", {a, b, k}) : make_op("twa", {a, b}); }
		case 10: return make_op("del", {a, b});
		case 11: return make_op("delany", {a + 41 * b});
		case 12: return r.chance(0.6) ? make_op("hold", {a}) : make_op("drop", {a});
		default: return r.chance(0.55) ? make_op("freeze", {a}) : make_op("thaw", {a, (long) r.chance(0.6)});
	}
}
static void gen_with (Rng& r, Plan& p, const Mix& m)
{
	heap_plan(r, p);
	long n = r.range(6, r.chance(0.3) ? 70 : 30);
	for (long i = 0; i < 3; i++) p.ops.push_back(make_op("var", {r.range(0, 6), (long) r.chance(0.85)}));
	for (long i = 0; i < n; i++) p.ops.push_back(gen1(r, m));
}
static void warm_up ()
{
	// the audience tables of the two shared constants only ever grow: let them grow now
	{
		std::vector<std::unique_ptr<GraphWorld::Held> > h;
		for (int i = 0; i < 600; i++)
		{
			h.emplace_back(new GraphWorld::Held(nnet::constant<double>::get_shared_zero()));
			h.emplace_back(new GraphWorld::Held(nnet::constant<double>::get_shared_one()));
		}
	}
	nnet::variable<double>* v = new nnet::variable<double>(nnet::tensorshape(gshape{2}), vec_init({1}), "w");
	v->initialize();
	gptr x(v), y = nnet::sin(x) + x;
	nnet::expose<double>(y.get());
	v->read_proto(GraphWorld::stored(gshape{2}, gvec{1, 2}));
	delete v;
}

static void exec_with (const Plan& p, bool every, bool leaks)
{
	begin(p);
	warm_up();
	uint64_t mark = heap_mark();
	Rng r(mix(p.seed, 5));
	bool threw;
	{
		GraphWorld g;
		g.use_fresh = !leaks;
		g.drop_leaf_husks = p.seed & 1;
		for (auto& s : p.ops)
		{
			Op o = parse_op(s);
			log("%s", s.c_str());
			if (!g.apply(o, r)) harness_error("unknown operation %s", s.c_str());
			g.spread_freeze();
			if (g.poisoned) break;
			if (every && (o.name == "del" || o.name == "delany")) g.read_all(false);
			size_t n = 0;
			for (size_t i = 0; i < g.ents.size(); i++) n += g.alive(i);
			log("%zu of %zu", n, g.ents.size());
		}
		// a frozen graph is still frozen here: lift it and read everything
		if (!g.poisoned) g.read_all(false);
		for (size_t i = 0; i < g.ents.size(); i++) if (g.alive(i) && g.ents[i].frozen && g.conn(g.ents[i].kind)) g.thaw(i);
		if (!g.poisoned) g.read_all(!leaks);
		size_t conns = 0;
		for (auto& e : g.ents) conns += e.kind == 'c';
		if (conns > 1) nontrivial();
		g.teardown(r);
		threw = g.any_threw;
	}
	if (leaks && !threw && heap_live_since(mark))
	{
		char buf[400];
		heap_dump_since(mark, buf, sizeof buf);
		violate("death:leak", "%zu blocks are still allocated after every node was destroyed: %s", heap_live_since(mark), buf);
	}
	if (leaks && !threw) count("probe.leak-checks");
}

//                        leaf build set asg read shp fail der  cln  mv   del  any  hold frz
static void gen7 (Rng& r, Plan& p) { gen_with(r, p, {.12, .38, .16, .05, .14, .02, .04, .07, .03, .04, .03, 0, .02, 0}); }
static void exec7 (const Plan& p) { exec_with(p, false, false); }
static void gen9 (Rng& r, Plan& p) { gen_with(r, p, {.14, .36, .10, .02, .06, .01, 0, .10, .04, .06, .10, .06, .06, .04}); }
static void exec9 (const Plan& p) { exec_with(p, true, true); }
static void gen11 (Rng& r, Plan& p) { gen_with(r, p, {.08, .30, .22, .04, .12, .03, .01, .03, .03, .04, .04, .01, .01, .14}); }
static void exec11 (const Plan& p) { exec_with(p, false, false); }

#define REALC "real: the whole tensor graph library (leaves, operators, constants, generators, gradients, connectors, observers) under AddressSanitizer; simulated: heap placement, address reuse and allocation failures, random generator seed"
static Reg r7({"C07",
	"a run is non-trivial when at least two operator nodes existed; distinct = distinct operation-and-population history hash",
	REALC, 12000, 400000, gen7, exec7,
	"fault.allocation-failed-during-read,fault.allocation-failed-during-assignment,probe.nodes-destroyed,probe.nodes-moved,probe.loads,probe.loads-of-another-shape",
	"values are compared within propagated rounding bounds; ill-conditioned values are compared only with the same expression built anew", 20000});
static Reg r9({"C09",
	"a run is non-trivial when at least two operator nodes existed; distinct = distinct operation-and-population history hash",
	REALC, 12000, 400000, gen9, exec9,
	"probe.nodes-destroyed,probe.nodes-moved,probe.freezes",
	"liveness of a node is read off the simulated heap, not off the library", 20000});
static Reg r11({"C11",
	"a run is non-trivial when at least two operator nodes existed; distinct = distinct operation-and-population history hash",
	REALC, 12000, 400000, gen11, exec11,
	"probe.freezes,probe.thaws,fault.allocation-failed-during-read,probe.nodes-destroyed,probe.loads",
	"a node joined to a frozen graph is judged from its first reading on", 20000});
