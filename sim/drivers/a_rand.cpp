// C12: one seeded program in several worlds (heap layout, clock, past), C13: fresh random values, C14: unique identifiers.
#include "zoo.h"
#include "sysgate.h"
#include "guistub.h"
#include "layers/conv_layer.hpp"
#include "layers/fc_layer.hpp"
#include "memory/tensor_io.hpp"
#include "utils/futils.hpp"
#include <unistd.h>
using namespace sim;

// ---------------------------------------------------------------- C12
struct Entry { uint32_t op, tag; uint64_t v; };
enum { CAP = 200000 };
struct Script { size_t n; size_t past; Entry e[CAP]; };

static const char* tagname (uint32_t t)
{
	static const char* const n[] = {"value", "derivative", "exception", "prediction", "action", "parameter", "cost", "saved parameter", "generator", "initial value", "error"};
	return n[t];
}
enum { T_VALUE, T_DERIV, T_EXC, T_PRED, T_ACT, T_PARAM, T_COST, T_SAVED, T_GEN, T_INIT, T_ERR };

struct Program
{
	Script* out;
	uint32_t opno = 0;
	gshape sh;
	std::vector<std::unique_ptr<zvar> > vars;
	struct Node { gptr p; explicit Node (gnode* n) : p(n) {} };
	std::vector<std::unique_ptr<Node> > same, other;
	std::vector<std::unique_ptr<Node> > gone;
	struct Kit
	{
		std::unique_ptr<Model> m;
		rocnnet::dqn_param dp;
		std::unique_ptr<nnet::placeholder<double> > in, lab;
		std::unique_ptr<zvar> chain;
		std::vector<rocnnet::update_cost_t> steps;
		size_t B = 1;
		~Kit () { for (auto& s : steps) { s.second.clear(); s.first = nullptr; } steps.clear(); }
	};
	std::vector<std::unique_ptr<Kit> > kits;

	void put (uint32_t tag, uint64_t v)
	{
		if (out->n >= CAP) return;
		out->e[out->n++] = {opno, tag, v};
	}
	void put (uint32_t tag, const gvec& v) { put(tag, v.size()); for (double d : v) put(tag, bits(d)); }
	zvar* var (long i) { return vars.empty() ? nullptr : vars[i % vars.size()].get(); }
	// a node of the common shape
	gnode* node (long i)
	{
		size_t n = vars.size() + same.size();
		if (!n) return nullptr;
		i %= (long) n;
		return i < (long) vars.size() ? static_cast<gnode*>(vars[i].get()) : same[i - vars.size()]->p.get();
	}
	void add (gptr p, bool keep)
	{
		if (!p.get()) return;
		// operations on equal or constant operands fold to scalars
		if (keep && p.get()->get_shape().as_list() != sh) keep = false;
		(keep ? same : other).emplace_back(new Node(p));
	}
	void show (gnode* p, uint32_t tag)
	{
		const nnet::tensor<double>* t = p->eval();
		if (!t || !t->is_alloc()) { put(tag, (uint64_t) 0x77); return; }
		for (size_t d : t->get_shape().as_list()) put(tag, d);
		put(tag, t->expose());
	}
	void read_params (Kit* k, uint32_t tag)
	{
		if (!k->m->init) return;
		if (!k->m->gd && !k->m->dq) { for (zvar* v : k->m->comp->get_variables()) show(v, tag); return; }
		remove("scratch.pbx");
		k->m->save("scratch.pbx", "S");
		for (int t = 0; t <= (k->m->dq ? 1 : 0); t++)
		{
			std::vector<std::unique_ptr<zvar> > v;
			std::vector<gnode*> nv;
			for (auto& s : k->m->a.shapes()) { (void) s; v.emplace_back(new zvar(nnet::tensorshape(gshape{}), "probe")); nv.push_back(v.back().get()); }
			nnet::read_inorder<double>(nv, t ? "target_S" : "S", "scratch.pbx");
			put(tag, nv.size());
			for (auto& x : v) show(x.get(), tag);
		}
		remove("scratch.pbx");
	}
	static gvec input (Rng& q, size_t n) { gvec x(n); for (double& d : x) d = q.unit() * 2 - 1; return x; }

	void apply (const Op& o)
	{
		Rng q(mix(o.arg(0), 31));
		const std::string& c = o.name;
		if (c == "seed") { nnutils::seed_generator((size_t) o.arg(0)); return; }
		if (c == "var")
		{
			if (vars.size() >= 6) return;
			double a = q.unit();
			std::unique_ptr<zvar> v;
			switch (o.arg(1) % 3)
			{
				case 0: v.reset(new zvar(nnet::tensorshape(sh), nnet::rand_uniform<double>(-a, 1), "u")); break;
				case 1: v.reset(new zvar(nnet::tensorshape(sh), nnet::rand_normal<double>(a, 0.5), "n")); break;
				default: v.reset(new zvar(nnet::tensorshape(sh), nnet::const_init<double>(a), "c"));
			}
			v->initialize();
			show(v.get(), T_INIT);
			vars.push_back(std::move(v));
		}
		else if (c == "ini") { if (zvar* v = var(o.arg(1))) { v->initialize(); show(v, T_INIT); } }
		else if (c == "un")
		{
			if (gnode* a = node(o.arg(1)))
			{
				gptr p = a;
				switch (o.arg(2) % 6)
				{
					case 0: add(nnet::sin(p), true); break;
					case 1: add(nnet::tanh(p), true); break;
					case 2: add(-p, true); break;
					case 3: add(nnet::sigmoid(p), true); break;
					case 4: add(nnet::clip_norm(p, 1.5), true); break;
					default: add(nnet::exp(nnet::clip_val(p, -2.0, 2.0)), true);
				}
			}
		}
		else if (c == "bin")
		{
			gnode* a = node(o.arg(1)), *b = node(o.arg(2));
			if (!a || !b) return;
			gptr p = a, r = b;
			switch (o.arg(3) % 5)
			{
				case 0: add(p + r, true); break;
				case 1: add(p - r, true); break;
				case 2: add(p * r, true); break;
				case 3: add(nnet::matmul(p, r, false, true), false); break;
				default: add(nnet::eq(p, r), true);
			}
		}
		else if (c == "smp")
		{
			gnode* a = node(o.arg(1));
			if (!a) return;
			switch (o.arg(2) % 5)
			{
				case 0: case 1: add(nnet::binomial_sample<double>(1 + q.below(40), nnet::sigmoid(gptr(a))), true); break;
				case 2: add(nnet::binomial_sample<double>(nnet::round(nnet::clip_val(gptr(a), 0.0, 3.0)) + 1.0, 0.25 + q.unit() / 2), true); break;
				case 3: add(nnet::binomial_sample<double>(nnet::round(nnet::clip_val(gptr(a), 0.0, 3.0)) + 1.0, nnet::sigmoid(gptr(a))), true); break;
				default:
				{
					gvec pv(gn(sh));
					for (double& d : pv) d = q.unit();
					add(nnet::binomial_sample<double>(20, gptr(nnet::constant<double>::get(pv, nnet::tensorshape(sh)))), false);
				}
			}
		}
		else if (c == "gen")
		{
			gnode* a = node(o.arg(1));
			if (!a) return;
			if (o.arg(2) & 1) add(nnet::generator<double>::get(a, nnet::rand_uniform<double>(-1, 1)), true);
			else add(nnet::generator<double>::get(a, nnet::rand_normal<double>(0, 1)), true);
		}
		else if (c == "cln")
		{
			if (same.empty()) return;
			gnode* a = same[o.arg(1) % same.size()]->p.get();
			add(a->clone(), true);
		}
		else if (c == "gsh")
		{
			// several generators follow one shape
			zvar v(nnet::tensorshape(gshape{2, 2}), nnet::const_init<double>(0), "shape");
			v.initialize();
			std::vector<std::unique_ptr<Node> > g;
			for (long k = 2 + o.arg(1) % 3; k--;) g.emplace_back(new Node(nnet::generator<double>::get(&v, nnet::rand_uniform<double>(-1, 1))));
			for (auto& n : g) show(n->p.get(), T_VALUE);
			v.initialize(nnet::tensorshape(gshape{2, 3}));
			for (auto& n : g) show(n->p.get(), T_VALUE);
		}
		else if (c == "red")
		{
			gnode* a = node(o.arg(1));
			if (!a) return;
			gptr p = a;
			switch (o.arg(2) % 4)
			{
				case 0: add(nnet::reduce_sum(p), false); break;
				case 1: add(nnet::reduce_mean(p), false); break;
				case 2: add(nnet::reduce_max(p), false); break;
				default: add(nnet::reduce_sum(p, std::experimental::optional<size_t>(0)), false);
			}
		}
		else if (c == "ev") { if (gnode* a = node(o.arg(1))) show(a, T_VALUE); }
		else if (c == "evx") { if (other.size()) show(other[o.arg(1) % other.size()]->p.get(), T_VALUE); }
		else if (c == "all") { for (auto& n : same) show(n->p.get(), T_VALUE); for (auto& n : other) show(n->p.get(), T_VALUE); }
		else if (c == "der")
		{
			gnode* a = node(o.arg(1));
			zvar* v = var(o.arg(2));
			if (!a || !v || a == v) return;
			gptr d = a->derive(v);
			if (d.get()) { show(d.get(), T_DERIV); if (o.arg(3) & 1) other.emplace_back(new Node(d)); }
		}
		else if (c == "asn")
		{
			zvar* v = var(o.arg(1));
			gnode* a = node(o.arg(2));
			if (!a || !v || a == v) return;
			(o.arg(3) & 1 ? v->assign(a) : v->assign_sub(a))(true);
			show(v, T_VALUE);
		}
		else if (c == "drop")
		{
			// nobody holds it any longer: it lives on only if something is built on it
			std::vector<std::unique_ptr<Node> >& s = o.arg(2) & 1 ? same : other;
			if (s.empty()) return;
			s.erase(s.begin() + o.arg(1) % s.size());
		}
		else if (c == "mk")
		{
			if (kits.size() >= 3) return;
			std::unique_ptr<Kit> k(new Kit);
			Arch a;
			a.kind = (int) (o.arg(1) % Z_N);
			a.nin = 1 + q.below(3);
			size_t lv = a.kind == Z_RBM || a.kind == Z_GDR ? 1 : 1 + q.below(3);
			for (size_t i = 0; i < lv; i++) { a.hid.push_back(1 + q.below(3)); a.fn.push_back(q.chance(0.2) ? 2 : (int) q.below(2)); }
			a.upd = (int) q.below(2);
			a.lr = 0.01 + q.unit() * 0.2;
			k->dp.train_interval_ = 1 + q.below(2);
			k->dp.store_interval_ = 1 + q.below(2);
			k->dp.max_exp_ = 2 + q.below(6);
			k->dp.mini_batch_size_ = 1 + q.below(k->dp.max_exp_);
			k->dp.target_update_rate_ = q.unit();
			k->dp.exploration_period_ = q.below(30);
			k->dp.rand_action_prob_ = q.unit();
			k->B = 1 + q.below(3);
			k->m.reset(new Model);
			k->m->build(a, "m" + std::to_string(kits.size()), k->dp);
			k->m->initialize();
			read_params(k.get(), T_INIT);
			kits.push_back(std::move(k));
		}
		else
		{
			if (kits.empty()) return;
			Kit* k = kits[o.arg(1) % kits.size()].get();
			Model* m = k->m.get();
			const Arch& a = m->a;
			if (c == "mini") { m->initialize(); read_params(k, T_INIT); }
			else if (c == "mpred") { if (!m->dq || true) put(T_PRED, m->predict(input(q, a.nin * (a.kind == Z_DQ || a.kind == Z_DBN ? 1 : k->B)))); }
			else if (c == "mact") { if (m->dq) for (int i = 0; i < 4; i++) { gvec x = input(q, a.nin); put(T_ACT, bits(m->dq->action(x))); } }
			else if (c == "msave")
			{
				// what another process would read back
				read_params(k, T_SAVED);
			}
			else if (c == "mtr")
			{
				long n = 1 + o.arg(2) % 4;
				if (m->gd)
				{
					while (n--) { gvec x = input(q, a.nin * k->B), y = input(q, a.hid.back() * k->B); m->gd->train(x, y); }
					auto* e = const_cast<nnet::iconnector<double>*>(m->gd->get_error());
					show(e, T_ERR);
				}
				else if (m->dq)
				{
					for (long i = 0; i < 2 * n; i++) { gvec s = input(q, a.nin), x = q.chance(0.2) ? gvec() : input(q, a.nin); m->dq->store(s, q.below(a.hid.back()), q.unit(), x); }
					while (n--) m->dq->train();
					put(T_ERR, m->dq->get_numtrained());
				}
				else if (a.kind == Z_RBM || a.kind == Z_DBN)
				{
					bool fresh = !k->in;
					if (fresh)
					{
						k->in.reset(new nnet::placeholder<double>(gshape{a.nin, k->B}, "tin"));
						k->lab.reset(new nnet::placeholder<double>(gshape{a.hid.back(), k->B}, "tout"));
					}
					gvec x = input(q, a.nin * k->B);
					for (double& d : x) d = d > 0;
					gvec y = input(q, a.hid.back() * k->B);
					*k->in = x;
					*k->lab = y;
					if (fresh)
					{
						if (a.kind == Z_RBM)
						{
							size_t cd = 1 + q.below(3);
							if (q.chance(0.4))
							{
								k->chain.reset(new zvar(nnet::tensorshape(gshape{a.hid[0], k->B}), nnet::const_init<double>(0), "chain"));
								k->chain->initialize();
							}
							k->steps.push_back(static_cast<rocnnet::rbm*>(m->comp)->train(k->in.get(), k->chain.get(), 0.1, cd));
						}
						else
						{
							auto* d = static_cast<rocnnet::db_net*>(m->comp);
							if (a.hid.size() > 1 && q.chance(0.6)) for (auto& s : d->pretraining_functions(*k->in, 0.1, 1 + q.below(2))) k->steps.push_back(s);
							k->steps.push_back(d->build_finetune_functions(*k->in, *k->lab, 0.1));
						}
					}
					while (n--)
						for (auto& s : k->steps)
						{
							s.first(true);
							if (s.second.get()) show(s.second.get(), T_COST);
							if (k->chain) show(k->chain.get(), T_PARAM);
						}
				}
				read_params(k, T_PARAM);
			}
			else if (c == "mcp")
			{
				if (kits.size() >= 4) return;
				std::unique_ptr<Kit> n(new Kit);
				n->dp = k->dp;
				n->B = k->B;
				n->m.reset(new Model);
				n->m->a = a;
				n->m->scope = "copy";
				n->m->init = m->init;
				if (m->gd) n->m->gd = new rocnnet::gd_net(*m->gd, "copy");
				else if (m->dq) n->m->dq = new rocnnet::dq_net(*m->dq, "copy");
				else n->m->comp = m->comp->clone("copy");
				kits.push_back(std::move(n));
			}
			else if (c == "mrm") kits.erase(kits.begin() + o.arg(1) % kits.size());
			else harness_error("unknown operation %s", c.c_str());
		}
	}
	void clear ()
	{
		kits.clear();
		other.clear();
		same.clear();
		vars.clear();
	}
};

struct Job { const Plan* p; Script* s; int world; };

static void past (Rng& q, long n, long gen)
{
	// what the process did before: none of it may matter once the generator is seeded
	for (long i = 0; i < n; i++)
		switch (q.below(7))
		{
			case 6: nnutils::seed_generator((size_t) (q.chance(0.6) ? gen : (long) q.below(3))); break;
			case 0: { zvar v(nnet::tensorshape(gshape{1 + q.below(5)}), nnet::rand_normal<double>(0, 1), "past"); v.initialize(); break; }
			case 1: { zvar v(nnet::tensorshape(gshape{1 + q.below(5)}), nnet::rand_uniform<double>(0, 1), "past"); v.initialize(); nnet::expose<double>(nnet::sin(gptr(&v))); break; }
			case 2: for (uint64_t k = q.below(5); k--;) rand(); break;
			case 3: nnutils::get_generator()(); break;
			case 4:
			{
				Model m;
				Arch a;
				a.kind = q.chance(0.5) ? Z_GD : Z_DQ;
				a.hid = {2};
				rocnnet::dqn_param dp;
				dp.mini_batch_size_ = 1;
				dp.store_interval_ = dp.train_interval_ = 1;
				m.build(a, "past", dp);
				m.initialize();
				gvec x{0.5, 0.25}, y{0, 1};
				if (m.gd) m.gd->train(x, y);
				else { m.dq->store(x, 1, 1, x); m.dq->train(); m.dq->action(x); }
				break;
			}
			default:
			{
				zvar v(nnet::tensorshape(gshape{3}), nnet::const_init<double>(0.5), "past");
				v.initialize();
				gptr s = nnet::binomial_sample<double>(5, gptr(&v));
				nnet::expose<double>(s);
			}
		}
}

static void world (void* arg)
{
	Job* j = (Job*) arg;
	const Plan& p = *j->p;
	std::string w = "w" + std::to_string(j->world) + "_";
	HeapOpts h;
	h.seed = mix(p.seed, 500 + p.num(w + "heap"));
	h.lanes = (int) p.num(w + "lanes", 1);
	h.gap = (int) p.num(w + "gap", 0);
	h.reuse = p.real(w + "reuse", 0);
	heap_start(h);
	clock_sim(true);
	clock_set(p.real(w + "clock", 1.5e9));
	clock_step(p.real(w + "tick", 0));
	fs_quiet(true);
	fs_open_disk();
	Rng q(mix(p.seed, 900 + j->world));
	if (p.num(w + "past")) past(q, p.num(w + "past"), p.num("gen", 1));
	nnutils::seed_generator((size_t) p.num("gen", 1));
	j->s->n = 0;
	Program g;
	g.out = j->s;
	g.sh = {(size_t) p.num("d0", 2), (size_t) p.num("d1", 2)};
	uint32_t no = 0;
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		g.opno = no++;
		try { g.apply(o); }
		catch (std::exception& e) { g.put(T_EXC, hash_str(typeid(e).name())); }
		g.put(T_GEN, (uint64_t) 0);
	}
	g.opno = no;
	std::default_random_engine e = nnutils::get_generator();
	g.put(T_GEN, e());
	g.clear();
	j->s->past = (size_t) clock_reads();
	fs_close_disk();
}

static void exec12 (const Plan& p)
{
	int n = (int) p.num("worlds", 3);
	std::vector<Script*> s;
	for (int i = 0; i < n; i++)
	{
		s.push_back((Script*) shared_alloc(sizeof(Script)));
		Job j = {&p, s.back(), i};
		if (run_machine(world, &j) == 42) violate("repro:died", "world %d ended early", i);
		if (p.num("w" + std::to_string(i) + "_past")) count("fault.different-past");
		if (p.real("w" + std::to_string(i) + "_tick") < 0) count("fault.clock-runs-backwards");
		if (p.real("w" + std::to_string(i) + "_tick") == 0) count("fault.clock-stands-still");
		if (p.real("w" + std::to_string(i) + "_tick") >= 1) count("fault.clock-jumps");
		if (p.real("w" + std::to_string(i) + "_reuse") > 0) count("fault.addresses-reused");
		count("fault.heap-layout");
		count("probe.clock-reads", s[i]->past);
	}
	Script* a = s[0];
	for (size_t k = 0; k < a->n; k++) { log_hash(a->e[k].v + a->e[k].tag); if (a->e[k].tag == T_EXC) { count("probe.refused-operations"); log("%s refused", p.ops[a->e[k].op].c_str()); } }
	count("probe.numbers-compared", a->n);
	if (a->n > 20) nontrivial();
	for (int i = 1; i < n; i++)
	{
		Script* b = s[i];
		for (size_t k = 0; k < a->n && k < b->n; k++)
		{
			if (a->e[k].op == b->e[k].op && a->e[k].tag == b->e[k].tag && a->e[k].v == b->e[k].v) continue;
			uint32_t op = std::min(a->e[k].op, b->e[k].op);
			std::string what = op < p.ops.size() ? p.ops[op] : "end";
			std::string cls = "repro:" + what.substr(0, what.find(' '));
			violate(cls.c_str(), "the %s of operation %u (%s) is %.17g in world 0 and %.17g in world %d, which differs in heap layout, clock and past only",
				tagname(a->e[k].tag), op, what.c_str(), unbits(a->e[k].v), unbits(b->e[k].v), i);
		}
		if (a->n != b->n) violate("repro:length", "the program produced %zu numbers in world 0 and %zu in world %d", a->n, b->n, i);
	}
}

static void gen12 (Rng& r, Plan& p)
{
	p.set("worlds", 3);
	static const long odd[] = {0, 0, 1, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296};
	long gen = r.chance(0.2) ? odd[r.below(8)] : (long) r.below(1000000);
	p.set("gen", gen);
	auto reseed = [&] { return make_op("seed", {r.chance(0.5) ? gen : (long) r.below(3)}); };
	p.set("d0", r.range(1, 3));
	p.set("d1", r.range(1, 3));
	static const double clocks[] = {0, 1, 1e9, 1.5e9, 4e9, 253402300799.0};
	static const double ticks[] = {0, 0, 1e-3, 1, 3600, -1, -1e-3};
	for (int i = 0; i < 3; i++)
	{
		std::string w = "w" + std::to_string(i) + "_";
		p.set(w + "heap", i ? (long) r.below(1000) : 0);
		p.set(w + "lanes", i ? r.range(1, 6) : 1);
		p.set(w + "gap", i ? (r.chance(0.5) ? r.range(1, 40) : 0) : 0);
		p.set(w + "reuse", std::to_string(i ? (r.chance(0.3) ? 0.0 : r.chance(0.5) ? 1.0 : r.unit()) : 0.0));
		p.set(w + "clock", std::to_string(i ? clocks[r.below(6)] : 1.5e9));
		p.set(w + "tick", std::to_string(i ? ticks[r.below(7)] : 1e-6));
		p.set(w + "past", i && r.chance(0.5) ? r.range(1, 12) : 0);
	}
	bool graph = r.chance(0.6), models = !graph || r.chance(0.3);
	auto S = [&] { return (long) r.below(1000000); };
	if (graph)
	{
		for (long i = r.range(1, 3); i--;) p.ops.push_back(make_op("var", {S(), r.range(0, 2)}));
		for (long i = r.range(4, 24); i--;)
		{
			double u = r.unit();
			if (r.chance(0.04)) p.ops.push_back(reseed());
			if (u < .08) p.ops.push_back(make_op("var", {S(), r.range(0, 2)}));
			else if (u < .20) p.ops.push_back(make_op("ini", {S(), r.range(0, 5)}));
			else if (u < .32) p.ops.push_back(make_op("un", {S(), r.range(0, 20), r.range(0, 5)}));
			else if (u < .44) p.ops.push_back(make_op("bin", {S(), r.range(0, 20), r.range(0, 20), r.range(0, 4)}));
			else if (u < .58) p.ops.push_back(make_op("smp", {S(), r.range(0, 20), r.range(0, 4)}));
			else if (u < .60) p.ops.push_back(make_op("cln", {S(), r.range(0, 20)}));
			else if (u < .61) p.ops.push_back(make_op("gsh", {S(), r.range(0, 20)}));
			else if (u < .64) p.ops.push_back(make_op("gen", {S(), r.range(0, 20), r.range(0, 1)}));
			else if (u < .68) p.ops.push_back(make_op("red", {S(), r.range(0, 20), r.range(0, 3)}));
			else if (u < .74) p.ops.push_back(make_op("ev", {S(), r.range(0, 20)}));
			else if (u < .77) p.ops.push_back(make_op("evx", {S(), r.range(0, 20)}));
			else if (u < .84) p.ops.push_back(make_op("all", {S()}));
			else if (u < .90) p.ops.push_back(make_op("der", {S(), r.range(0, 20), r.range(0, 5), r.range(0, 1)}));
			else if (u < .96) p.ops.push_back(make_op("asn", {S(), r.range(0, 5), r.range(0, 20), r.range(0, 1)}));
			else p.ops.push_back(make_op("drop", {S(), r.range(0, 20), r.range(0, 1)}));
		}
		p.ops.push_back(make_op("all", {S()}));
	}
	if (models)
	{
		static const long kinds[] = {Z_GD, Z_DQ, Z_RBM, Z_DBN, Z_GDR, Z_DQ, Z_MLP};
		for (long i = r.range(1, 2); i--;) p.ops.push_back(make_op("mk", {S(), kinds[r.below(7)]}));
		for (long i = r.range(2, 10); i--;)
		{
			double u = r.unit();
			if (r.chance(0.06)) p.ops.push_back(reseed());
			if (u < .45) p.ops.push_back(make_op("mtr", {S(), r.range(0, 3), r.range(0, 3)}));
			else if (u < .58) p.ops.push_back(make_op("mpred", {S(), r.range(0, 3)}));
			else if (u < .72) p.ops.push_back(make_op("mact", {S(), r.range(0, 3)}));
			else if (u < .80) p.ops.push_back(make_op("mini", {S(), r.range(0, 3)}));
			else if (u < .87) p.ops.push_back(make_op("msave", {S(), r.range(0, 3)}));
			else if (u < .93) p.ops.push_back(make_op("mcp", {S(), r.range(0, 3)}));
			else if (u < .96) p.ops.push_back(make_op("mrm", {S(), r.range(0, 3)}));
			else p.ops.push_back(make_op("mk", {S(), kinds[r.below(7)]}));
		}
		p.ops.push_back(make_op("msave", {S(), 0}));
	}
}

// ---------------------------------------------------------------- C13
struct Fresh
{
	struct Fill { std::string key; bool uni, norm; gvec v; const void* of = nullptr; gvec raw; };
	std::vector<Fill> fills;
	std::vector<std::unique_ptr<zvar> > vars;
	struct Src { int kind; double a, b; std::unique_ptr<nnet::initializer<double> > h; };
	std::vector<Src> srcs;
	std::vector<Src*> of;   // handler parameters behind a variable
	struct Hold { gptr p; gptr trig; Src* s; };
	std::vector<std::unique_ptr<zvar> > trigs;

	static double phi (double z) { return z; }
	void took (const Src* s, const gvec& v, const char* how)
	{
		if (s->kind == 2)
		{
			for (double d : v) if (d != s->a) violate("rand:constant", "a constant initialisation (%s) gave %.17g instead of %.17g", how, d, s->a);
			return;
		}
		Fill f;
		f.uni = s->kind == 0;
		f.norm = s->kind == 1;
		f.key = f.uni ? "uniform" : "normal";
		f.of = s;
		f.raw = v;
		for (double d : v)
		{
			if (!(std::fabs(d) < 1e300)) violate("rand:range", "a random initialisation (%s) gave %g", how, d);
			if (f.uni)
			{
				if (d < s->a || d > s->b) violate("rand:range", "a uniform initialisation (%s) between %g and %g gave %.17g", how, s->a, s->b, d);
				f.v.push_back((d - s->a) / (s->b - s->a));
			}
			else
			{
				double z = (d - s->a) / s->b;
				if (std::fabs(z) > 8) violate("rand:range", "a normal initialisation (%s) is %g standard deviations out", how, z);
				f.v.push_back(z);
			}
		}
		judge(f, how);
	}
	void judge (const Fill& f, const char* how)
	{
		for (double d : f.v) log_hash(bits(d));
		bool flat = f.v.size() >= 3;
		for (double d : f.v) flat = flat && d == f.v[0];
		if (flat) violate("rand:flat", "a random initialisation (%s) of %zu elements gave %.17g everywhere", how, f.v.size(), f.v[0]);
		for (size_t k = 0; k < fills.size(); k++)
		{
			const Fill& g = fills[k];
			if (f.of && f.of == g.of)
			{
				// a single number left over from an earlier fill begins or ends a later one
				for (size_t i : {(size_t) 0, f.raw.size() - 1})
					for (size_t j = 0; j < g.raw.size() && i < f.raw.size(); j++)
						if (f.raw[i] == g.raw[j]) violate("rand:repeated", "random initialisation %zu (%s) received %.17g at position %zu, which initialisation %zu received at position %zu", fills.size(), how, f.raw[i], i, k, j);
			}
			if (g.key != f.key) continue;
			size_t need = std::min<size_t>(2, std::min(f.v.size(), g.v.size()));
			if (need == 1 && (f.v.size() != 1 || g.v.size() != 1)) need = 1;
			for (size_t i = 0; i + need <= f.v.size(); i++)
				for (size_t j = 0; j + need <= g.v.size(); j++)
				{
					bool eq = true;
					for (size_t t = 0; t < need && eq; t++) eq = std::fabs(f.v[i + t] - g.v[j + t]) < 1e-12;
					if (eq && need) violate("rand:repeated", "random initialisation %zu (%s) received the values of initialisation %zu: %.17g from its position %zu on, at %zu there", fills.size(), how, k, f.v[i], i, j);
				}
			if (f.v.size() == g.v.size() && f.v.size() >= 64)
			{
				double ma = 0, mb = 0, sab = 0, saa = 0, sbb = 0;
				size_t n = f.v.size();
				for (size_t i = 0; i < n; i++) { ma += f.v[i]; mb += g.v[i]; }
				ma /= n; mb /= n;
				for (size_t i = 0; i < n; i++) { sab += (f.v[i] - ma) * (g.v[i] - mb); saa += (f.v[i] - ma) * (f.v[i] - ma); sbb += (g.v[i] - mb) * (g.v[i] - mb); }
				if (std::fabs(sab) > 0.85 * std::sqrt(saa * sbb)) violate("rand:correlated", "random initialisation %zu (%s) follows initialisation %zu with correlation %.3f", fills.size(), how, k, sab / std::sqrt(saa * sbb));
			}
		}
		fills.push_back(f);
		count("probe.fills");
		nontrivial();
	}
	// the seeded generator must have moved on
	template <typename F>
	void drawn (bool expect, const char* how, F f)
	{
		std::default_random_engine before = nnutils::get_generator();
		f();
		if (expect && before == nnutils::get_generator()) violate("rand:not-advanced", "%s did not advance the generator", how);
	}
	gvec vals (gnode* n)
	{
		const nnet::tensor<double>* t = n->eval();
		if (!t || !t->is_alloc()) violate("rand:missing", "an initialised tensor has no contents");
		return t->expose();
	}
	Src* src (Rng& q, int kind)
	{
		Src s;
		s.kind = kind;
		s.a = q.unit() * 4 - 2;
		s.b = kind == 0 ? s.a + 0.01 + q.unit() * (q.chance(0.2) ? 1000 : 3) : 0.01 + q.unit() * 3;
		if (kind == 0) s.h.reset(new nnet::rand_uniform<double>(s.a, s.b));
		else if (kind == 1) s.h.reset(new nnet::rand_normal<double>(s.a, s.b));
		else s.h.reset(new nnet::const_init<double>(s.a));
		keep.emplace_back(new Src(std::move(s)));
		return keep.back().get();
	}
	std::vector<std::unique_ptr<Src> > keep;
	std::vector<size_t> live;
	void model_params (const std::string& key, const std::vector<zvar*>& v, const char* how)
	{
		// weights are random; biases may be constants
		for (zvar* x : v)
		{
			gvec w = vals(x);
			bool flat = true;
			for (double d : w) flat = flat && d == w[0];
			gshape s = x->get_shape().as_list();
			if (s.size() < 2) continue;
			if (flat && w.size() >= 3) violate("rand:flat", "%s left all %zu weights at %.17g", how, w.size(), w[0]);
			if (w.size() < 2) continue;
			Fill f;
			f.uni = f.norm = false;
			f.key = key + std::to_string(s[0]) + "x" + std::to_string(s[1]);
			f.v = w;
			judge(f, how);
		}
	}
	void apply (const Op& o)
	{
		Rng q(mix(o.arg(0), 41));
		const std::string& c = o.name;
		if (c == "seed")
		{
			nnutils::seed_generator((size_t) o.arg(1));
			fills.clear(); // the same stream may start again
			count("fault.reseeded");
			return;
		}
		if (c == "var")
		{
			Src* s = keep.size() && q.chance(0.4) ? keep[q.below(keep.size())].get() : src(q, (int) (o.arg(1) % 5) == 4 ? 2 : (int) (o.arg(1) & 1));
			gshape sh = {1 + q.below(q.chance(0.2) ? 80 : 6)};
			if (q.chance(0.5)) sh.push_back(1 + q.below(6));
			if (q.chance(0.2)) s->h.reset(s->h->clone());
			else if (q.chance(0.1)) { nnet::initializer<double>* m = s->h->move(); s->h.reset(m); }
			std::unique_ptr<zvar> v(new zvar(nnet::tensorshape(sh), *s->h, "v"));
			if (vars.size() > 12) { vars.erase(vars.begin()); of.erase(of.begin()); }
			vars.push_back(std::move(v));
			of.push_back(s);
			zvar* x = vars.back().get();
			drawn(s->kind != 2, "initialising a variable", [&] { x->initialize(); });
			took(s, vals(x), "of a new variable");
			return;
		}
		if (c == "net" )
		{
			std::string sc = "net";
			static const int ks[] = {Z_MLP, Z_GD, Z_RBM, Z_DBN, Z_DQ};
			Model m;
			Arch a;
			a.kind = ks[o.arg(1) % 5];
			Rng sz(o.arg(2) % 3);
			a.nin = 2 + sz.below(3);
			a.hid = {2 + sz.below(3)};
			if (a.kind != Z_RBM && sz.chance(0.6)) a.hid.push_back(2 + sz.below(3));
			m.build(a, sc);
			drawn(true, "initialising a network", [&] { m.initialize(); });
			// networks of a kind draw from the same distributions
			std::string key = "net" + std::to_string(a.kind == Z_GD || a.kind == Z_DQ ? (int) Z_MLP : a.kind) + ":";
			model_params(key, m.vars(), "of a network");
			if (q.chance(0.4)) { drawn(true, "initialising a network", [&] { m.initialize(); }); model_params(key, m.vars(), "of a network again"); }
			if (m.dq && q.chance(0.5))
			{
				gvec x(a.nin, 0.5);
				drawn(true, "drawing actions", [&] { for (int i = 0; i < 8; i++) m.dq->action(x); });
			}
			return;
		}
		if (c == "conv")
		{
			rocnnet::conv_layer l({2, 2}, 1 + o.arg(1) % 2, 2, "conv");
			auto v = l.get_variables();
			drawn(true, "initialising a layer", [&] { for (zvar* x : v) x->initialize(); });
			model_params("conv", v, "of a convolution layer");
			return;
		}
		if (c == "fc")
		{
			rocnnet::fc_layer l({2, 2 + (size_t) o.arg(1) % 2, 2}, 3, "fc");
			auto v = l.get_variables();
			drawn(true, "initialising a layer", [&] { for (zvar* x : v) x->initialize(); });
			model_params("fc", v, "of a layer");
			return;
		}
		if (c == "gen")
		{
			Src* s = keep.size() && q.chance(0.4) ? keep[q.below(keep.size())].get() : src(q, (int) (o.arg(1) & 1));
			trigs.emplace_back(new zvar(nnet::tensorshape(gshape{2 + q.below(5), 1 + q.below(3)}), nnet::const_init<double>(0), "shape"));
			zvar* t = trigs.back().get();
			t->initialize();
			{
				gptr g;
				drawn(s->kind != 2, "creating a generator node", [&] { g = nnet::generator<double>::get(t, *s->h); });
				took(s, vals(g.get()), "of a generator node");
			}
			trigs.pop_back();
			return;
		}
		if (c == "gnp")
		{
			// a generator follows the shape of a node that has none at first and changes it later
			Src* s = src(q, (int) (o.arg(1) & 1));
			nnet::placeholder<double> p(nnet::tensorshape(gshape{0, 0}), "shape");
			std::vector<gptr> gs;
			auto give = [&]
			{
				static const size_t primes[] = {2, 3, 5, 7, 11};
				nnet::tensor<double> t(nnet::tensorshape(gshape{primes[q.below(5)], 2 + q.below(3)}));
				nnet::const_init<double> z(0);
				z(t);
				p = t;
			};
			if (q.chance(0.5)) give();
			std::vector<gshape> last;
			for (int i = 0; i < 5; i++)
			{
				if (gs.empty() || (gs.size() < 3 && q.chance(0.4)))
				{
					gnode* g = nullptr;
					if (gs.empty() || q.chance(0.4)) g = nnet::generator<double>::get(&p, *s->h);
					else g = static_cast<nnet::generator<double>*>(gs[q.below(gs.size())].get())->clone();
					bool copied = !gs.empty() && g->good_status();
					gs.push_back(gptr(g));
					last.push_back(g->get_shape().as_list());
					if (g->good_status() != p.good_status() && !copied) violate("rand:missing", "a generator %s although the node it takes its shape from %s", g->good_status() ? "has contents" : "has no contents", p.good_status() ? "has a shape" : "has none");
					if (g->good_status())
					{
						gvec v = vals(g);
						bool same = false;
						for (size_t k = 0; k + 1 < gs.size(); k++) same = same || vals(gs[k].get()) == v;
						// a copy may start with its original's numbers
						if (!same) took(s, v, "of a generator of a given shape");
					}
				}
				give();
				for (size_t k = 0; k < gs.size(); k++)
				{
					gshape now = gs[k]->get_shape().as_list();
					if (now == last[k]) continue;
					last[k] = now;
					took(s, vals(gs[k].get()), "of a generator that changed its shape");
				}
			}
			count("probe.generators-reshaped");
			gs.clear();
			return;
		}
		if (c == "rec")
		{
			// what a machine reconstructs depends on states sampled afresh
			rocnnet::rbm m(4, 40, "machine");
			for (zvar* x : m.get_variables()) drawn(x->get_shape().n_elems() == 160, "initialising a machine", [&] { x->initialize(); });
			bool hid = o.arg(1) & 1;
			nnet::placeholder<double> in(gshape{hid ? (size_t) 40 : 4, 6}, "in");
			gvec data((hid ? 40 : 4) * 6);
			for (double& d : data) d = 0.2 + 0.6 * q.unit();
			in = data;
			gptr out = hid ? m.reconstruct_hidden(&in) : m.reconstruct_visible(&in);
			gvec before;
			for (int i = 0; i < 3; i++)
			{
				gvec now;
				if (i) drawn(true, "reconstructing", [&] { in = data; now = vals(out.get()); });
				else now = vals(out.get());
				// few states are visible, so only the hidden ones never repeat
				if (!hid && i && now == before) violate("rand:repeated", "two reconstructions taken one after the other are the same");
				for (double d : now) if (!(d >= 0 && d <= 1)) violate("rand:range", "a reconstruction gave %g", d);
				before = now;
			}
			count("probe.reconstructions");
			nontrivial();
			return;
		}
		if (c == "smp")
		{
			// samples of a wide distribution taken one after the other
			zvar v(nnet::tensorshape(gshape{12}), nnet::const_init<double>(0.5), "p");
			v.initialize();
			zvar nv(nnet::tensorshape(gshape{12}), nnet::const_init<double>(4000), "n");
			nv.initialize();
			gvec last;
			gptr s;
			auto fresh = [&]
			{
				switch (o.arg(1) % 5)
				{
					case 0: s = nnet::binomial_sample<double>(4000, gptr(&v)); break;
					case 1: s = nnet::binomial_sample<double>(gptr(&nv), 0.5); break;
					case 2: s = nnet::binomial_sample<double>(gptr(&nv), gptr(&v)); break;
					case 3: s = nnet::binomial_sample<double>(4000, gptr(nnet::constant<double>::get(gvec(12, 0.5), nnet::tensorshape(gshape{12})))); break;
					default: s = nnet::binomial_sample<double>(gptr(nnet::constant<double>::get(gvec(12, 4000), nnet::tensorshape(gshape{12}))), 0.5);
				}
			};
			for (int i = 0; i < 3; i++)
			{
				gvec now;
				drawn(true, "sampling", [&] { if (i == 0 || o.arg(1) % 5 >= 3) fresh(); else { v.initialize(); nv.initialize(); } now = vals(s.get()); });
				if (now.size() != 12) violate("rand:sample-size", "a sample of 12 probabilities has %zu values", now.size());
				bool flat = true;
				for (double d : now)
				{
					if (!(d >= 0 && d <= 4000 && d == std::floor(d))) violate("rand:sample-range", "a binomial sample of 4000 trials is %.17g", d);
					if (d < 1500 || d > 2500) violate("rand:sample-range", "a binomial sample of 4000 even trials is %.17g", d);
					flat = flat && d == now[0];
					log_hash(bits(d));
				}
				if (flat) violate("rand:flat", "a sample gave %g everywhere", now[0]);
				if (now == last) violate("rand:repeated", "two samples taken one after the other are the same");
				last = now;
				if (o.arg(1) % 5 >= 3) s.clear();
			}
			count("probe.samples");
			nontrivial();
			return;
		}
		if (c == "twice")
		{
			// the seed decides
			// (0 and 1 stand for the same state of the standard engine)
			nnutils::seed_generator((size_t) o.arg(1));
			fills.clear();
			Src* s = src(q, (int) (o.arg(2) & 1));
			zvar a(nnet::tensorshape(gshape{7}), *s->h, "a"), b(nnet::tensorshape(gshape{7}), *s->h, "b");
			nnutils::seed_generator((size_t) o.arg(1));
			a.initialize();
			gvec x = vals(&a);
			if (o.arg(3) & 1) clock_set(clock_get() + 12345);
			nnutils::seed_generator((size_t) o.arg(1));
			b.initialize();
			if (bits(x) != bits(vals(&b))) violate("rand:not-seeded", "seeding with %ld twice led to different initial values", o.arg(1));
			nnutils::seed_generator((size_t) o.arg(1) + 1);
			b.initialize();
			if (bits(x) == bits(vals(&b))) violate("rand:not-seeded", "seeds %ld and %ld led to the same initial values", o.arg(1), o.arg(1) + 1);
			fills.clear();
			return;
		}
		if (c == "clk") { clock_set(clock_get() + (double) o.arg(1)); count("fault.clock-jumps"); return; }
		if (vars.empty()) return;
		size_t i = o.arg(1) % vars.size();
		if (c == "ini")
		{
			drawn(of[i]->kind != 2, "initialising a variable again", [&] { vars[i]->initialize(); });
			took(of[i], vals(vars[i].get()), "of the same variable again");
		}
		else if (c == "cp" || c == "mv")
		{
			std::unique_ptr<zvar> v(c == "cp" ? vars[i]->clone() : vars[i]->move());
			Src* s = of[i];
			if (c == "mv") { vars.erase(vars.begin() + i); of.erase(of.begin() + i); }
			vars.push_back(std::move(v));
			of.push_back(s);
			zvar* x = vars.back().get();
			drawn(s->kind != 2, "initialising a copied variable", [&] { x->initialize(); });
			took(s, vals(x), c == "cp" ? "of a copied variable" : "of a moved variable");
		}
		else harness_error("unknown operation %s", c.c_str());
	}
	void finish ()
	{
		for (int k = 0; k < 2; k++)
		{
			double n = 0, s = 0, ss = 0;
			for (auto& f : fills) if (k ? f.norm : f.uni) for (double d : f.v) { n++; s += d; ss += d * d; }
			if (n < 200) continue;
			double m = s / n, var = ss / n - m * m;
			count("probe.moments-checked");
			// eight standard errors
			if (k == 0 && (std::fabs(m - 0.5) > 8 * 0.2887 / std::sqrt(n) || std::fabs(var - 1 / 12.0) > 8 * 0.0745 / std::sqrt(n)))
				violate("rand:moments", "%g uniform values have mean %.4f and variance %.4f of their range", n, m, var);
			if (k == 1 && (std::fabs(m) > 8 / std::sqrt(n) || std::fabs(var - 1) > 8 * 1.415 / std::sqrt(n)))
				violate("rand:moments", "%g normal values have standardised mean %.4f and variance %.4f", n, m, var);
		}
	}
};

static void exec13 (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.reuse = p.real("reuse", 0.5);
	h.lanes = 2;
	heap_start(h);
	clock_sim(true);
	clock_set(p.real("clock", 1.5e9));
	clock_step(p.real("tick", 0));
	fs_open_disk();
	nnutils::seed_generator((size_t) p.num("gen", 1));
	{
		Fresh f;
		for (auto& s : p.ops) { log("%s", s.c_str()); f.apply(parse_op(s)); }
		f.finish();
	}
	fs_close_disk();
}
static void gen13 (Rng& r, Plan& p)
{
	p.set("gen", r.chance(0.1) ? 0 : (long) r.below(4000000000u));
	p.set("reuse", std::to_string(r.unit()));
	p.set("clock", std::to_string(r.chance(0.2) ? 0.0 : 1e9 + r.unit() * 1e9));
	p.set("tick", std::to_string(r.chance(0.5) ? 0.0 : r.chance(0.5) ? 1.0 : -1.0));
	auto S = [&] { return (long) r.below(1000000); };
	for (long i = r.range(3, 30); i--;)
	{
		double u = r.unit();
		if (u < .30) p.ops.push_back(make_op("var", {S(), r.range(0, 4)}));
		else if (u < .50) p.ops.push_back(make_op("ini", {S(), r.range(0, 12)}));
		else if (u < .58) p.ops.push_back(make_op("cp", {S(), r.range(0, 12)}));
		else if (u < .62) p.ops.push_back(make_op("mv", {S(), r.range(0, 12)}));
		else if (u < .72) p.ops.push_back(make_op("net", {S(), r.range(0, 4), r.range(0, 2)}));
		else if (u < .76) p.ops.push_back(make_op("conv", {S(), r.range(0, 1)}));
		else if (u < .79) p.ops.push_back(make_op("fc", {S(), r.range(0, 1)}));
		else if (u < .84) p.ops.push_back(make_op("gen", {S(), r.range(0, 1), r.range(0, 3)}));
		else if (u < .87) p.ops.push_back(make_op("gnp", {S(), r.range(0, 1)}));
		else if (u < .88) p.ops.push_back(make_op("rec", {S(), r.range(0, 1)}));
		else if (u < .93) p.ops.push_back(make_op("smp", {S(), r.range(0, 4)}));
		else if (u < .95) p.ops.push_back(make_op("seed", {S(), (long) r.below(5)}));
		else if (u < .97) p.ops.push_back(make_op("twice", {S(), 1 + (long) r.below(1000), r.range(0, 1), r.range(0, 1)}));
		else p.ops.push_back(make_op("clk", {S(), r.range(-100000, 100000)}));
	}
}

// ---------------------------------------------------------------- C14
struct Idents
{
	std::map<std::string, std::string> seen;   // identifier -> who has or had it
	struct Own { std::unique_ptr<zvar> v; std::unique_ptr<nnet::placeholder<double> > p; gptr c; std::string id; };
	std::vector<std::unique_ptr<Own> > own;
	std::set<std::pair<void*, uint64_t> > known;
	long serial = 0;

	void note (const std::string& id, const std::string& who)
	{
		if (id.empty()) violate("uid:empty", "%s has no identifier", who.c_str());
		log_hash(serial);
		auto r = seen.insert({id, who});
		if (!r.second) violate("uid:repeated", "%s has the identifier of %s", who.c_str(), r.first->second.c_str());
		serial++;
		count("probe.identifiers");
	}
	void node (gnode* n, const char* what)
	{
		void* blk = nullptr;
		uint64_t birth = heap_birth(n, blk);
		if (!birth || !known.insert({blk, birth}).second) return; // shared constants, and nodes already noted
		note(n->get_uid(), std::string(what) + " number " + std::to_string(serial));
		for (gnode* a : n->get_arguments()) if (a) node(a, "an operand");
	}
	gnode* at (long i)
	{
		if (own.empty()) return nullptr;
		Own* o = own[i % own.size()].get();
		return o->v ? static_cast<gnode*>(o->v.get()) : o->p ? static_cast<gnode*>(o->p.get()) : o->c.get();
	}
	Own* fresh () { own.emplace_back(new Own); return own.back().get(); }
	void done (const char* what)
	{
		Own* o = own.back().get();
		gnode* n = o->v ? static_cast<gnode*>(o->v.get()) : o->p ? static_cast<gnode*>(o->p.get()) : o->c.get();
		if (!n) { own.pop_back(); return; }
		node(n, what);
		o->id = n->get_uid();
	}
	void apply (const Op& o)
	{
		Rng q(mix(o.arg(0), 51));
		const std::string& c = o.name;
		nontrivial();
		if (c == "clk") { clock_set((double) o.arg(1)); count("fault.clock-set"); }
		else if (c == "tick") { clock_step((double) o.arg(1)); count(o.arg(1) < 0 ? "fault.clock-runs-backwards" : "fault.clock-rate"); }
		else if (c == "seed") { nnutils::seed_generator((size_t) o.arg(1)); count("fault.reseeded"); }
		else if (c == "raw")
		{
			const void* at = (const void*) (size_t) (0x1000 + 16 * (o.arg(1) % 3));
			for (long k = 1 + o.arg(2) % 5; k--;) note(nnutils::uuid(at), "direct request " + std::to_string(serial));
		}
		else if (c == "var") { Own* w = fresh(); w->v.reset(new zvar(nnet::tensorshape(gshape{2, 2}), nnet::const_init<double>(0.5), "v")); w->v->initialize(); done("variable"); }
		else if (c == "ph") { Own* w = fresh(); w->p.reset(new nnet::placeholder<double>(gshape{2, 2}, "p")); *w->p = gvec{1, 2, 3, 4}; done("placeholder"); }
		else if (c == "con") { gnode* a = at(o.arg(1)); if (!a) return; gptr k = nnet::constant<double>::get(gvec{1, 2, 3, 4}, nnet::tensorshape(gshape{2, 2})); Own* w = fresh(); w->c = gptr(a) + k; done("sum with a constant"); }
		else if (c == "un" || c == "bin" || c == "gen")
		{
			gnode* a = at(o.arg(1)), *b = at(o.arg(2));
			if (!a) return;
			Own* w = fresh();
			if (c == "un") w->c = q.chance(0.5) ? nnet::sigmoid(gptr(a)) : nnet::sin(gptr(a));
			else if (c == "gen") w->c = nnet::generator<double>::get(a, nnet::const_init<double>(1));
			else w->c = q.chance(0.3) ? nnet::matmul(gptr(a), gptr(b)) : gptr(a) * gptr(b);
			done(c == "gen" ? "generator" : "operation");
		}
		else if (c == "cp" || c == "mv")
		{
			if (own.empty()) return;
			Own* s = own[o.arg(1) % own.size()].get();
			if (own.size() > 40) return;
			Own* w = fresh();
			bool mv = c == "mv";
			if (s->v) w->v.reset(mv ? s->v->move() : s->v->clone());
			else if (s->p) w->p.reset(mv ? s->p->move() : s->p->clone());
			else if (!mv) w->c = s->c.get()->clone();
			else { own.pop_back(); return; }
			done(mv ? "moved node" : "copied node");
			if (mv) own.erase(own.begin() + o.arg(1) % (own.size() - 1)); // an empty shell is of no use
		}
		else if (c == "net")
		{
			Model m;
			Arch a;
			a.kind = o.arg(1) & 1 ? Z_RBM : Z_GD;
			a.hid = {2};
			m.build(a, "net");
			for (zvar* v : m.vars()) node(v, "parameter");
			if (m.gd) node(const_cast<nnet::iconnector<double>*>(m.gd->get_error()), "error node");
		}
		else if (c == "gui")
		{
			// subscribers are known to the recording server by their identifiers only
			alignas(tenncor_graph::gui_consumer) char place[sizeof(tenncor_graph::gui_consumer)];
			for (long k = 1 + o.arg(1) % 3; k--;)
			{
				gui_ids().clear();
				auto* g = new (place) tenncor_graph::gui_consumer(grpc::CreateChannel("x", grpc::InsecureChannelCredentials()));
				g->SubscribeNode();
				g->SubscribeEdge();
				g->EndSubscription();
				g->~gui_consumer();
				if (gui_ids().size() != 3 || gui_ids()[0] != gui_ids()[1] || gui_ids()[0] != gui_ids()[2]) violate("uid:client", "a subscriber does not keep one identifier");
				note(gui_ids()[0], "subscriber " + std::to_string(serial));
			}
		}
		else if (c == "jac") chain(o, q);
		else if (c == "rm")
		{
			if (own.empty()) return;
			size_t i = o.arg(1) % own.size();
			// what is built on it goes with it, and is let go by its own handle
			own.erase(own.begin() + i);
			count("probe.destroyed");
		}
		else harness_error("unknown operation %s", c.c_str());
		for (auto& w : own)
		{
			gnode* n = w->v ? static_cast<gnode*>(w->v.get()) : w->p ? static_cast<gnode*>(w->p.get()) : w->c.get();
			if (n && n->get_uid() != w->id) violate("uid:changed", "a node's identifier changed while it lived");
		}
		for (auto it = own.begin(); it != own.end();) if (!(*it)->v && !(*it)->p && !(*it)->c.get()) it = own.erase(it); else ++it;
	}
	// products of one product continue its chain in different ways: the continuations are different chains
	void branches (const Op& o, Rng& q)
	{
		zvar V(nnet::tensorshape(gshape{2, 2}), nnet::const_init<double>(0.5), "V");
		V.initialize();
		const size_t n = 2;
		nnet::placeholder<double> A(gshape{2, 2}, "A"), W0(gshape{2, 2}, "W0"), W1(gshape{2, 2}, "W1"), W2(gshape{2, 2}, "W2");
		nnet::placeholder<double>* W[] = {&W0, &W1, &W2};
		auto fill = [&] { gvec v(4); for (double& d : v) d = q.unit(); return v; };
		A = fill();
		for (auto* w : W) *w = fill();
		bool residual = o.arg(1) & 1, left = o.arg(1) & 2;
		gptr h = nnet::matmul(gptr(&A), gptr(&V));
		gptr sum;
		if (residual) sum = h;
		for (size_t i = residual; i < n; i++)
		{
			gptr b = left ? nnet::matmul(gptr(W[i]), h) : nnet::matmul(h, gptr(W[i]));
			if (sum.get()) sum = sum + b; else sum = b;
		}
		gptr total = nnet::reduce_sum(sum);
		gptr d = sum->derive(&V);
		gvec got = nnet::expose<double>(d), want(4);
		// the total is linear in V
		gvec base = nnet::expose<double>(&V);
		double t0 = nnet::expose<double>(total)[0];
		for (size_t i = 0; i < 4; i++)
		{
			gvec v = base;
			v[i] += 1;
			V.assign(nnet::constant<double>::get(v, nnet::tensorshape(gshape{2, 2})))(true);
			want[i] = nnet::expose<double>(total)[0] - t0;
		}
		count("probe.gradient-chain-branches");
		bool ok = got.size() == 4;
		for (size_t i = 0; i < 4 && ok; i++) ok = std::fabs(got[i] - want[i]) < 1e-9;
		if (!ok) violate("uid:gradient-chain", "the gradient of %zu branches of one product (%s%s) is {%g %g %g %g} (%zu values) instead of {%g %g %g %g}", n, left ? "left" : "right", residual ? ", residual" : "",
			got.size() > 0 ? got[0] : 0, got.size() > 1 ? got[1] : 0, got.size() > 2 ? got[2] : 0, got.size() > 3 ? got[3] : 0, got.size(), want[0], want[1], want[2], want[3]);
	}
	// gradient chains are told apart by identifiers: the chain of a product that is gone must not be taken for that of
	// one created at the same place, at the same time, with the same random tokens
	void chain (const Op& o, Rng& q)
	{
		if (o.arg(1) & 4) return branches(o, q);
		zvar W(nnet::tensorshape(gshape{2, 2}), nnet::const_init<double>(0.5), "W");
		W.initialize();
		nnet::placeholder<double> A(gshape{2, 2}, "A"), B(gshape{2, 2}, "B");
		gvec av(4), bv(4);
		for (double& d : av) d = q.unit();
		for (double& d : bv) d = q.unit();
		A = av;
		B = bv;
		double t = clock_get();
		gvec got;
		{
			auto again = [&] { if (o.arg(1) & 1) { nnutils::seed_generator(7); clock_set(t); } };
			again();
			gptr keep;
			{
				gptr first = nnet::matmul(gptr(&A), gptr(&W));
				if (o.arg(1) & 2) { keep = first.get()->clone(); first.clear(); }
				else keep = first;
			}
			again();
			gptr second = nnet::matmul(gptr(&B), gptr(&W));
			gptr sum = keep + second;
			gptr d = sum->derive(&W);
			got = nnet::expose<double>(d);
		}
		count("probe.gradient-chains");
		// d sum(A W + B W) / dW: W is <cols, rows>; every column of the gradient holds the column sums of A and B
		gvec want(4);
		for (size_t r = 0; r < 2; r++) for (size_t col = 0; col < 2; col++) { double s = 0; for (size_t k = 0; k < 2; k++) s += av[k * 2 + r] + bv[k * 2 + r]; want[r * 2 + col] = s; }
		bool ok = got.size() == 4;
		for (size_t i = 0; i < 4 && ok; i++) ok = std::fabs(got[i] - want[i]) < 1e-9;
		if (!ok) violate("uid:gradient-chain", "the gradient of A W + B W is {%g %g %g %g} (%zu values) instead of {%g %g %g %g}", got.size() > 0 ? got[0] : 0, got.size() > 1 ? got[1] : 0, got.size() > 2 ? got[2] : 0, got.size() > 3 ? got[3] : 0, got.size(), want[0], want[1], want[2], want[3]);
	}
};
static void exec14 (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.reuse = p.real("reuse", 1);
	h.lanes = (int) p.num("lanes", 1);
	heap_start(h);
	clock_sim(true);
	clock_set(p.real("clock", 1.5e9));
	clock_step(0);
	nnutils::seed_generator((size_t) p.num("gen", 1));
	{
		Idents w;
		for (auto& s : p.ops) { log("%s", s.c_str()); w.apply(parse_op(s)); }
		// users go before what they use
		while (w.own.size()) { Idents::Own* b = w.own.back().get(); if (b->c.get()) b->c.clear(); w.own.pop_back(); }
	}
	count("probe.clock-reads", (uint64_t) clock_reads());
}
static void gen14 (Rng& r, Plan& p)
{
	p.set("gen", (long) r.below(100));
	p.set("reuse", std::to_string(r.chance(0.7) ? 1.0 : r.unit()));
	p.set("lanes", r.range(1, 2));
	static const long clocks[] = {0, 1, 1500000000, 2147483647, 2147483648L, 4000000000L};
	p.set("clock", clocks[r.below(6)]);
	auto S = [&] { return (long) r.below(1000000); };
	double rs = r.chance(0.5) ? 0.3 : 0.08;
	long sd = (long) r.below(3);
	for (long i = r.range(5, 60); i--;)
	{
		if (r.chance(rs)) p.ops.push_back(make_op("seed", {0, r.chance(0.8) ? sd : (long) r.below(3)}));
		if (r.chance(rs / 2)) p.ops.push_back(r.chance(0.7) ? make_op("clk", {0, clocks[r.below(6)]}) : make_op("tick", {0, r.range(-2, 2)}));
		double u = r.unit();
		if (u < .16) p.ops.push_back(make_op("var", {S()}));
		else if (u < .22) p.ops.push_back(make_op("ph", {S()}));
		else if (u < .28) p.ops.push_back(make_op("con", {S(), r.range(0, 12)}));
		else if (u < .36) p.ops.push_back(make_op("un", {S(), r.range(0, 12), 0}));
		else if (u < .42) p.ops.push_back(make_op("bin", {S(), r.range(0, 12), r.range(0, 12)}));
		else if (u < .45) p.ops.push_back(make_op("gen", {S(), r.range(0, 12), 0}));
		else if (u < .52) p.ops.push_back(make_op("cp", {S(), r.range(0, 12)}));
		else if (u < .56) p.ops.push_back(make_op("mv", {S(), r.range(0, 12)}));
		else if (u < .60) p.ops.push_back(make_op("net", {S(), r.range(0, 1)}));
		else if (u < .66) p.ops.push_back(make_op("gui", {S(), r.range(0, 2)}));
		else if (u < .72) p.ops.push_back(make_op("raw", {S(), r.range(0, 2), r.range(0, 4)}));
		else if (u < .77) p.ops.push_back(make_op("jac", {S(), r.range(0, 7)}));
		else p.ops.push_back(make_op("rm", {S(), r.range(0, 12)}));
	}
}

#define REALR "real: graph, tensor, random, model and storage code, protobuf and libc, under AddressSanitizer; simulated: heap placement, clock, generator seeds; disk is a scratch directory without faults"
static Reg r12({"C12", "a run is non-trivial when its program produced more than 20 numbers; distinct = distinct transcript hash", REALR, 3200, 80000, gen12, exec12,
	"fault.heap-layout,fault.addresses-reused,fault.clock-stands-still,fault.clock-runs-backwards,fault.clock-jumps,fault.different-past",
	"each world is a process of its own; numbers are compared bit for bit; the program begins when the generator is seeded", 30000});
static Reg r13({"C13", "a run is non-trivial when it filled a tensor at random; distinct = distinct value history hash", REALR, 24000, 500000, gen13, exec13,
	"fault.reseeded,fault.clock-jumps", "two fills share a stream when two neighbouring standardised values agree within 1e-12; moments are judged at eight standard errors", 20000});
static Reg r14({"C14", "every run creates and destroys nodes; distinct = distinct operation-and-outcome history hash", "real: identifiers, graph, models and GUI client code under AddressSanitizer; simulated: heap placement with address reuse, clock, generator seeds; stub: gRPC transport (records the client identifier)", 24000, 500000, gen14, exec14,
	"fault.reseeded,fault.clock-set,fault.clock-runs-backwards,fault.clock-rate", "identifiers of gradient chains are not visible; their uniqueness is judged by the gradients", 20000});
