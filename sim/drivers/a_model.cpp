// C10 (training steps), C21 (experience replay), C22 (copies and moves of models): random histories of whole models.
#include "zoo.h"
#include "layerworld.h"
#include "sysgate.h"
#include "memory/tensor_io.hpp"
#include "utils/futils.hpp"
#include <numeric>
using namespace sim;

typedef std::vector<gvec> Params;

// plain-number reference of the dense networks
struct Ref
{
	const Arch& a;
	explicit Ref (const Arch& arch) : a(arch) {}
	bool is_rbm () const { return a.kind == Z_RBM || a.kind == Z_GDR; }
	size_t levels () const { return is_rbm() ? 1 : a.hid.size(); }
	// index of a level's weights
	size_t widx (size_t l) const { return a.kind == Z_DBN ? 3 * l : 2 * l; }
	int fn (size_t l) const { return is_rbm() ? 0 : a.kind == Z_DBN ? (l + 1 < a.hid.size() ? 0 : 3) : a.fn.empty() ? 0 : a.fn[l % a.fn.size()]; }
	struct Tape { std::vector<gvec> in, out; };
	gvec forward (const Params& p, const gvec& x, size_t B, Tape* t = nullptr) const
	{
		gvec cur = x;
		for (size_t l = 0; l < levels(); l++)
		{
			size_t ni = l ? a.hid[l - 1] : a.nin, no = a.hid[l];
			const gvec& W = p[widx(l)];
			const gvec& b = p[widx(l) + 1];
			gvec o(no * B);
			for (size_t k = 0; k < B; k++)
				for (size_t j = 0; j < no; j++)
				{
					double s = 0;
					for (size_t i = 0; i < ni; i++) s += cur[k * ni + i] * W[i * no + j];
					o[k * no + j] = s + b[j];
				}
			if (t) t->in.push_back(cur);
			switch (fn(l))
			{
				case 0: for (double& d : o) d = 1 / (1 + std::exp(-d)); break;
				case 1: for (double& d : o) d = std::tanh(d); break;
				case 2: break;
				default: { double s = 0; for (double& d : o) s += d = std::exp(d); for (double& d : o) d /= s; }
			}
			if (t) t->out.push_back(o);
			cur = o;
		}
		return cur;
	}
	// gradient of sum(dout * output); mag: sum of the magnitudes of what was added up
	Params backward (const Params& p, const Tape& t, gvec dout, size_t B, Params& mag) const
	{
		Params g(p.size());
		mag.assign(p.size(), gvec());
		for (size_t i = 0; i < p.size(); i++) { g[i].assign(p[i].size(), 0); mag[i] = g[i]; }
		for (size_t l = levels(); l-- > 0;)
		{
			size_t ni = l ? a.hid[l - 1] : a.nin, no = a.hid[l];
			const gvec& W = p[widx(l)];
			gvec d(no * B), di(ni * B, 0);
			for (size_t k = 0; k < no * B; k++)
			{
				double y = t.out[l][k];
				d[k] = dout[k] * (fn(l) == 0 ? y * (1 - y) : fn(l) == 1 ? 1 - y * y : 1);
			}
			for (size_t k = 0; k < B; k++)
				for (size_t j = 0; j < no; j++)
				{
					double e = d[k * no + j];
					g[widx(l) + 1][j] += e;
					mag[widx(l) + 1][j] += std::fabs(dout[k * no + j]);
					for (size_t i = 0; i < ni; i++)
					{
						g[widx(l)][i * no + j] += e * t.in[l][k * ni + i];
						mag[widx(l)][i * no + j] += std::fabs(dout[k * no + j]) * (1 + std::fabs(t.in[l][k * ni + i]));
						di[k * ni + i] += e * W[i * no + j];
					}
				}
			dout = di;
		}
		return g;
	}
};

struct Exp { gvec s; size_t a; double r; gvec n; };

struct Tuner
{
	std::unique_ptr<nnet::placeholder<double> > in, out;
	std::unique_ptr<zvar> chain;   // state of a persistent chain
	rocnnet::update_cost_t step;
	std::vector<rocnnet::update_cost_t> pre;   // training of single layers
	size_t B = 1;
	double lr = 0.1;
	~Tuner ()
	{
		step.second.clear();
		step.first = nullptr;
		for (auto& p : pre) { p.second.clear(); p.first = nullptr; }
	}
};

struct Net
{
	std::unique_ptr<Tuner> tune;
	std::unique_ptr<Model> m;
	Arch a;
	rocnnet::dqn_param dp;
	bool init = false;
	// per optimiser history the implementation may legally be in: momentum of every parameter
	std::vector<Params> mom;
	bool momknown = true;
	bool husk = false;
	Params cache;              // what its parameters were last seen to be
	Params tcache;
	gvec px, py;               // last prediction
	gvec ax;                   // last observation acted on
	bool haslast = false;      // a batch is in place
	// replay
	long stores = 0, trains = 0;
	size_t done = 0;
	size_t bt = 1, bp = 1;     // a placeholder keeps the batch size it is first given
	std::map<double,Exp> all;  // by reward
	size_t pool = 0;           // how many are kept
	bool poolknown = true;
	double newest = 0;         // reward of the one stored last
	std::set<double> lastpool; // when seen completely
	bool seenall = false;
	std::set<double> since;    // stored since then
	bool dropped = false;      // the memory has given something up
	std::map<double,double> missed, drawn; // log-probability of never, of always having been drawn lately
	// exploration
	long acts = 0;
	bool actsknown = true;
	struct Tally { double n = 0, want = 0, var = 0; long got = 0; };
	Tally off, lastact;        // not the best action; the action with the highest number
	long id = 0;
	bool isgd () const { return m->gd; }
	bool isdq () const { return m->dq; }
};

struct ModelWorld
{
	std::vector<std::unique_ptr<Net> > ns;
	Rng r;
	long serial = 0;
	LayerWorld lays;
	OptWorld opts;
	explicit ModelWorld (uint64_t seed) : r(seed) { fs_quiet(true); }

	Net* at (long i) { return ns.empty() ? nullptr : ns[i % ns.size()].get(); }
	static gvec num (const Param& p) { gvec v; for (uint64_t b : p.b) v.push_back(unbits(b)); return v; }

	// parameters, in the order they are saved in
	bool fetch (Net* n, Params& src, Params& tgt)
	{
		src.clear();
		tgt.clear();
		std::vector<gshape> sh = n->a.shapes();
		if (!n->isgd() && !n->isdq())
		{
			std::vector<zvar*> v = n->m->comp->get_variables();
			if (v.size() != sh.size()) violate("model:parameters", "model %ld has %zu parameters instead of %zu", n->id, v.size(), sh.size());
			for (size_t i = 0; i < v.size(); i++)
			{
				Param p;
				if (!take_param(v[i], p)) return false;
				if (p.s != sh[i]) violate("model:parameters", "parameter %zu of model %ld has shape %s", i, n->id, pstr(p).c_str());
				src.push_back(num(p));
			}
			return true;
		}
		remove("scratch.pbx");
		if (!n->m->save("scratch.pbx", "S")) violate("model:save", "model %ld could not be saved to a healthy disk", n->id);
		for (int t = 0; t <= (n->isdq() ? 1 : 0); t++)
		{
			std::vector<std::unique_ptr<zvar> > v;
			std::vector<gnode*> nv;
			for (size_t i = 0; i < sh.size(); i++) { v.emplace_back(new zvar(nnet::tensorshape(gshape{}), "probe")); nv.push_back(v.back().get()); }
			nnet::read_inorder<double>(nv, t ? "target_S" : "S", "scratch.pbx");
			if (nv.size() == sh.size()) return false; // not initialised
			if (nv.size()) violate("model:parameters", "model %ld saved only %zu of %zu parameters", n->id, sh.size() - nv.size(), sh.size());
			for (size_t i = 0; i < sh.size(); i++)
			{
				Param p;
				if (!take_param(v[i].get(), p) || p.s != sh[i]) violate("model:parameters", "parameter %zu of model %ld was saved with shape %s", i, n->id, pstr(p).c_str());
				(t ? tgt : src).push_back(num(p));
			}
		}
		remove("scratch.pbx");
		return true;
	}
	void install (Net* n, const Params& src, const Params& tgt)
	{
		std::vector<gshape> sh = n->a.shapes();
		remove("scratch2.pbx");
		for (int t = 0; t <= (n->isdq() ? 1 : 0); t++)
		{
			std::vector<std::unique_ptr<zvar> > v;
			std::vector<gnode*> nv;
			for (size_t i = 0; i < sh.size(); i++) { v.emplace_back(new zvar(nnet::tensorshape(sh[i]), "probe")); put_param(v.back().get(), (t ? tgt : src)[i]); nv.push_back(v.back().get()); }
			if (!nnet::write_inorder<double>(nv, t ? "target_L" : "L", "scratch2.pbx")) violate("model:save", "a healthy disk refused a save");
		}
		n->m->initialize("scratch2.pbx", "L");
		remove("scratch2.pbx");
		n->init = true;
		Params s, t;
		if (!fetch(n, s, t) || !same(s, src) || !same(t, tgt)) violate("model:load", "loading did not install the parameters of model %ld", n->id);
		n->cache = s;
		n->tcache = t;
		n->px.clear();
		reset_moms(n);
		if (n->haslast) n->haslast = false;
	}
	// loading and initialising may or may not restart the optimiser
	void reset_moms (Net* n)
	{
		n->mom.push_back(ones(n->a));
		if (n->mom.size() > 6) n->momknown = false;
	}
	static Params ones (const Arch& a) { Params p; for (auto& s : a.shapes()) p.push_back(gvec(gn(s), 1)); return p; }
	static bool same (const Params& a, const Params& b)
	{
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); i++) if (bits(a[i]) != bits(b[i])) return false;
		return true;
	}
	static bool near (double g, double w, double scale) { return g == w || std::fabs(g - w) <= 1e-9 * (1 + std::fabs(w) + scale); }
	static double top (const Params& p) { double m = 0; for (auto& v : p) for (double d : v) { if (!(std::fabs(d) < 1e300)) return 1e300; m = std::max(m, std::fabs(d)); } return m; }

	gvec input (Rng& q, size_t nin, size_t B) { gvec x(nin * B); for (double& d : x) d = q.chance(0.1) ? 0 : q.unit() * 2 - 1; return x; }

	size_t predict_width (Net* n, size_t B) { return n->isdq() ? 1 : B; }
	void predict (Net* n, Rng& q)
	{
		if (!n->init) return;
		size_t B = n->bp;
		gvec x = input(q, n->a.nin, B);
		if (q.chance(0.25) && n->px.size() == x.size()) x = n->px;
		gvec y;
		y = n->m->predict(x);
		judge_prediction(n, x, y, B);
		n->px = x;
		n->py = y;
	}
	void judge_prediction (Net* n, const gvec& x, const gvec& y, size_t B)
	{
		if (top(n->cache) > 40) return; // numerically meaningless
		gvec w = Ref(n->a).forward(n->cache, x, B);
		if (n->m->comp && (n->m->comp->get_ninput() != n->a.nin || n->m->comp->get_noutput() != (n->a.kind == Z_RBM || n->a.kind == Z_GDR ? n->a.hid[0] : n->a.hid.back())))
			violate("model:sizes", "model %ld says it takes %zu values and gives %zu instead of %zu and %zu", n->id, (size_t) n->m->comp->get_ninput(), (size_t) n->m->comp->get_noutput(), n->a.nin, n->a.kind == Z_RBM || n->a.kind == Z_GDR ? n->a.hid[0] : n->a.hid.back());
		if (y.size() != w.size()) violate("predict:size", "a prediction of model %ld has %zu values instead of %zu", n->id, y.size(), w.size());
		for (size_t i = 0; i < w.size(); i++)
			if (!near(y[i], w[i], top(n->cache)))
				violate("predict:stale", "model %ld predicts %.17g where its parameters give %.17g", n->id, y[i], w[i]);
		for (double d : y) log_hash(bits(d));
		count("probe.predictions");
	}
	// the other models must not have noticed
	void others (Net* but, const char* what)
	{
		for (auto& n : ns)
		{
			if (n.get() == but || n->husk || !n->init) continue;
			Params s, t;
			if (!fetch(n.get(), s, t)) violate("copy:shared", "%s model %ld: model %ld lost its parameters", what, but ? but->id : -1, n->id);
			if (!same(s, n->cache) || !same(t, n->tcache)) violate("copy:shared", "%s model %ld changed the parameters of model %ld", what, but ? but->id : -1, n->id);
			if (n->px.size())
			{
				gvec y = n->m->predict(n->px);
				if (bits(y) != bits(n->py)) violate("copy:shared", "%s model %ld changed the predictions of model %ld", what, but ? but->id : -1, n->id);
			}
		}
	}
	void refresh (Net* n)
	{
		Params s, t;
		if (!fetch(n, s, t)) violate("model:parameters", "model %ld has no parameters", n->id);
		n->cache = s;
		n->tcache = t;
		for (auto& v : s) for (double d : v) log_hash(bits(d));
		for (auto& v : t) for (double d : v) log_hash(bits(d));
	}
	// all parameters after a step must be old + step for one and the same optimiser history
	void judge_step (Net* n, const Params& before, const Params& after, const Params& grad, const Params& mag, bool partial, const char* what)
	{
		std::vector<Params> keep;
		std::string why;
		size_t ncand = n->a.upd ? n->mom.size() : 1;
		if (n->a.upd && !n->momknown) return;
		for (size_t c = 0; c < ncand; c++)
		{
			Params mom = n->a.upd ? n->mom[c] : Params();
			bool ok = true;
			for (size_t i = 0; i < before.size() && ok; i++)
				for (size_t k = 0; k < before[i].size() && ok; k++)
				{
					double g = grad[i][k], want, sc = n->a.lr * mag[i][k], extra = 0;
					if (n->a.upd)
					{
						double m2 = n->a.disc * mom[i][k] + (1 - n->a.disc) * g * g;
						want = before[i][k] - g * n->a.lr / (std::sqrt(m2) + std::numeric_limits<double>::epsilon());
						mom[i][k] = m2;
						if (m2 < 1e-6) sc *= 1e6;
						// a gradient is only known up to rounding, which the quotient magnifies; where rounding is all there is, only the step's bound is known
						double root = std::sqrt(m2);
						if (root < 1e-7 * (1 + mag[i][k])) extra = std::fabs(g * n->a.lr) / (root + std::numeric_limits<double>::epsilon()) + 1.1 * n->a.lr / std::sqrt(std::max(1e-12, 1 - n->a.disc));
						else extra = n->a.lr * 1e-12 * (1 + mag[i][k]) / root;
					}
					else want = before[i][k] - n->a.lr * g;
					if (!near(after[i][k], want, sc) && !(std::fabs(after[i][k] - want) <= extra) && !(partial && after[i][k] == before[i][k]))
					{
						ok = false;
						char b[200];
						snprintf(b, sizeof b, "parameter %zu[%zu] went from %.17g to %.17g instead of %.17g (gradient %.6g)", i, k, before[i][k], after[i][k], want, g);
						why = b;
					}
				}
			if (ok) keep.push_back(mom);
		}
		if (keep.empty()) violate("train:step", "%s of model %ld: %s", what, n->id, why.c_str());
		if (n->a.upd && !partial) n->mom = keep;
		if (partial) n->momknown = n->momknown && !n->a.upd;
	}
	void calm (Net* n)
	{
		if (top(n->cache) < 20) return;
		Params s = n->cache, t = n->tcache;
		Rng q(mix(plan().seed, 1000 + n->done));
		for (auto& v : s) for (double& d : v) d = q.unit() - 0.5;
		for (auto& v : t) for (double& d : v) d = q.unit() - 0.5;
		install(n, s, t);
	}
	void check_error (Net* n, const gvec& want, const char* what)
	{
		if (top(n->cache) > 40) return;
		auto* e = const_cast<nnet::iconnector<double>*>(n->isgd() ? n->m->gd->get_error() : n->m->dq->get_error());
		const nnet::tensor<double>* t = e->eval();
		if (!t || !t->is_alloc()) violate("error:missing", "%s: model %ld has no error value", what, n->id);
		gvec v = t->expose();
		if (v.size() != want.size()) violate("error:size", "%s: the error of model %ld has %zu values instead of %zu", what, n->id, v.size(), want.size());
		for (size_t i = 0; i < v.size(); i++) if (!near(v[i], want[i], top(n->cache) * top(n->cache) * 10)) violate("error:stale", "%s: the error of model %ld is %.17g instead of %.17g", what, n->id, v[i], want[i]);
	}
	gvec gd_error (Net* n, const gvec& x, const gvec& y, size_t B)
	{
		gvec o = Ref(n->a).forward(n->cache, x, B), e;
		for (size_t i = 0; i < o.size(); i++) e.push_back((y[i] - o[i]) * (y[i] - o[i]));
		return e;
	}
	gvec lx, ly;
	void train_gd (Net* n, Rng& q, long fail)
	{
		size_t B = n->bt;
		gvec x = input(q, n->a.nin, B), y = input(q, n->a.hid.back(), B);
		if (q.chance(0.15)) y = Ref(n->a).forward(n->cache, x, B); // nothing to learn
		Params before = n->cache;
		Ref ref(n->a);
		Ref::Tape t;
		gvec o = ref.forward(before, x, B, &t), d(o.size());
		for (size_t i = 0; i < o.size(); i++) d[i] = 2 * (o[i] - y[i]);
		Params mag, g = ref.backward(before, t, d, B, mag);
		bool threw = false;
		gvec x2 = x, y2 = y;
		if (fail >= 0) { if (fail & 1) malloc_fail_after(fail >> 1); else heap_fail_after(fail >> 1); }
		try { n->m->gd->train(x2, y2); }
		catch (std::exception& e) { threw = true; if (fail < 0) { malloc_fail_after(-1); heap_fail_after(-1); violate("train:refused", "training model %ld threw: %s", n->id, e.what()); } }
		malloc_fail_after(-1);
		heap_fail_after(-1);
		Params s, u;
		if (!fetch(n, s, u)) violate("model:parameters", "model %ld has no parameters after training", n->id);
		if (threw) count("fault.allocation-failure-in-training");
		judge_step(n, before, s, g, mag, threw, "training step");
		n->px.clear();
		n->cache = s;
		for (auto& v : s) for (double e : v) log_hash(bits(e));
		if (!threw) { if (q.chance(0.4)) check_error(n, gd_error(n, x, y, B), "after a training step"); n->done++; }
		count("probe.steps");
		nontrivial();
	}
	// ---- Q-learning
	void store (Net* n, Rng& q)
	{
		Exp e;
		e.s = input(q, n->a.nin, 1);
		e.a = q.below(n->a.hid.back());
		e.r = (double) (++serial) + q.unit() * 0.5 + 0.1;
		e.r /= 64;
		if (!q.chance(0.25)) e.n = input(q, n->a.nin, 1);
		n->m->dq->store(e.s, e.a, e.r, e.n);
		if (0 == n->stores % (long) n->dp.store_interval_)
		{
			n->all[e.r] = e;
			n->newest = e.r;
			n->since.insert(e.r);
			if (n->pool < n->dp.max_exp_) n->pool++;
			else n->dropped = true;
			n->missed[e.r] = n->drawn[e.r] = 0;
		}
		n->stores++;
		count("probe.stores");
	}
	static double clip (Params& g, size_t i)
	{
		double s = 0;
		for (double d : g[i]) s += d * d;
		s = std::sqrt(s);
		if (s > 5) for (double& d : g[i]) d = d * 5 / s;
		return s;
	}
	void train_dq (Net* n, Rng& q, long fail)
	{
		const rocnnet::dqn_param& dp = n->dp;
		bool due = 0 == n->trains % (long) dp.train_interval_;
		bool possible = n->pool >= dp.mini_batch_size_;
		size_t was = n->m->dq->get_numtrained();
		Params before = n->cache, tbefore = n->tcache;
		bool threw = false;
		if (fail >= 0) { if (fail & 1) malloc_fail_after(fail >> 1); else heap_fail_after(fail >> 1); }
		try { n->m->dq->train(); }
		catch (std::exception& e) { threw = true; if (fail < 0) { malloc_fail_after(-1); heap_fail_after(-1); violate("train:refused", "training agent %ld threw: %s", n->id, e.what()); } }
		malloc_fail_after(-1);
		heap_fail_after(-1);
		if (threw) { count("fault.allocation-failure-in-training"); }
		Params s, t;
		if (!fetch(n, s, t)) violate("model:parameters", "agent %ld has no parameters after training", n->id);
		n->cache = s;
		n->tcache = t;
		n->px.clear();
		size_t now = n->m->dq->get_numtrained();
		if (threw) { n->momknown = n->momknown && !n->a.upd; judge_partial(n); return; }
		log("train %ld due %d possible %d trained %zu", n->id, due, possible, now - was);
		bool trained = now != was;
		if (now < was || now > was + 1) violate("replay:count", "agent %ld counts %zu training steps after %zu", n->id, now, was);
		if (!n->poolknown) due = trained; // copies may or may not start with the original's experiences
		if (due && !possible)
		{
			if (trained && n->poolknown) violate("replay:early", "agent %ld trained with %zu of %zu experiences", n->id, n->pool, dp.mini_batch_size_);
			if (!trained) { unchanged(n, before, tbefore, s, t); return; }
		}
		if (!due)
		{
			if (trained) violate("replay:interval", "agent %ld trained on call %ld although it trains every %zu calls", n->id, n->trains, (size_t) dp.train_interval_);
			unchanged(n, before, tbefore, s, t);
			n->trains++;
			return;
		}
		if (!trained) violate("replay:interval", "agent %ld did not train on call %ld although it holds %zu experiences and trains every %zu calls", n->id, n->trains, n->pool, (size_t) dp.train_interval_);
		n->trains++;
		n->done++;
		nontrivial();
		count("probe.replay-steps");
		// which experiences were used: the placeholder with their rewards is a leaf of the error
		std::vector<Exp> batch;
		gvec rw;
		size_t B = dp.mini_batch_size_;
		std::vector<gnode*> phs;
		for (auto* l : n->m->dq->get_error()->get_leaves())
		{
			if (!dynamic_cast<nnet::placeholder<double>*>(l)) continue;
			const nnet::tensor<double>* v = l->eval();
			if (!v || !v->is_alloc()) continue;
			gvec e = v->expose();
			if (e.empty()) continue;
			size_t known = 0;
			for (double d : e) known += n->all.count(d);
			// rewards are all different from any observation or mask
			if (known * 2 > e.size() && e.size() >= rw.size()) rw = e;
		}
		if (rw.empty()) violate("replay:batch", "agent %ld trained but no rewards of stored experiences are in its training graph", n->id);
		if (rw.size() != B) violate("replay:batch-size", "agent %ld trained on %zu experiences instead of %zu", n->id, rw.size(), B);
		std::set<double> used;
		for (double d : rw)
		{
			auto it = n->all.find(d);
			if (it == n->all.end()) violate("replay:never-stored", "agent %ld trained on an experience with reward %.17g that was never stored", n->id, d);
			if (!used.insert(d).second) violate("replay:repeated", "agent %ld used the experience with reward %.17g twice in one batch", n->id, d);
			batch.push_back(it->second);
		}
		if (n->seenall)
			for (double d : used) if (!n->lastpool.count(d) && !n->since.count(d)) violate("replay:evicted", "agent %ld trained on an experience that had already been dropped", n->id);
		// every experience kept must have a chance, none may be certain
		if (n->poolknown && B < n->pool)
		{
			double f = (double) B / (double) n->pool;
			for (auto& e : n->all)
			{
				if (n->dropped && e.first != n->newest) continue;
				double& miss = n->missed[e.first];
				double& hit = n->drawn[e.first];
				if (used.count(e.first)) { miss = 0; hit += std::log(f); }
				else { hit = 0; miss += std::log(1 - f); }
				if (miss < -36) violate("replay:never-drawn", "agent %ld never trains on the experience with reward %.17g among the %zu it keeps", n->id, e.first, n->pool);
				if (hit < -36) violate("replay:always-drawn", "agent %ld draws the experience with reward %.17g in every batch of %zu from %zu", n->id, e.first, B, n->pool);
			}
			count("probe.partial-batches");
		}
		if (n->poolknown && B == n->pool)
		{
			// the whole memory is on view
			if (!used.count(n->newest)) violate("replay:newest", "agent %ld no longer holds the experience stored last", n->id);
			n->lastpool = used;
			n->since.clear();
			n->seenall = true;
			count("probe.memory-seen");
		}
		for (double d : rw) log_hash(bits(d));
		// the step itself
		Ref ref(n->a);
		gvec xs, xn;
		size_t no = n->a.hid.back();
		for (auto& e : batch) { xs.insert(xs.end(), e.s.begin(), e.s.end()); gvec z = e.n.empty() ? gvec(n->a.nin, 0) : e.n; xn.insert(xn.end(), z.begin(), z.end()); }
		Ref::Tape tape;
		gvec o = ref.forward(before, xs, B, &tape), on = ref.forward(tbefore, xn, B), d(o.size(), 0);
		for (size_t i = 0; i < B; i++)
		{
			double best = on[i * no];
			for (size_t j = 1; j < no; j++) best = std::max(best, on[i * no + j]);
			double goal = batch[i].r + dp.discount_rate_ * (batch[i].n.empty() ? 0 : best);
			d[i * no + batch[i].a] = 2 * (o[i * no + batch[i].a] - goal) / (double) B;
		}
		Params mag, g = ref.backward(before, tape, d, B, mag);
		for (size_t i = 0; i < g.size(); i++) { double nn = clip(g, i); for (double& x : mag[i]) x += nn; }
		judge_step(n, before, s, g, mag, false, "replay step");
		for (size_t i = 0; i < t.size(); i++)
			for (size_t k = 0; k < t[i].size(); k++)
			{
				double want = tbefore[i][k] - dp.target_update_rate_ * (tbefore[i][k] - s[i][k]);
				if (!near(t[i][k], want, 0)) violate("train:target", "target parameter %zu[%zu] of agent %ld went from %.17g to %.17g instead of %.17g", i, k, n->id, tbefore[i][k], t[i][k], want);
			}
		if (q.chance(0.3))
		{
			gvec o2 = ref.forward(s, xs, B), on2 = ref.forward(t, xn, B);
			double sum = 0;
			for (size_t i = 0; i < B; i++)
			{
				double best = on2[i * no];
				for (size_t j = 1; j < no; j++) best = std::max(best, on2[i * no + j]);
				double goal = batch[i].r + dp.discount_rate_ * (batch[i].n.empty() ? 0 : best);
				sum += (o2[i * no + batch[i].a] - goal) * (o2[i * no + batch[i].a] - goal);
			}
			check_error(n, gvec{sum / (double) B}, "after a replay step");
		}
	}
	// a step that threw: counters are unknown, but the agent must go on
	void judge_partial (Net* n) { n->poolknown = false; }
	void unchanged (Net* n, const Params& b, const Params& tb, const Params& s, const Params& t)
	{
		if (!same(b, s) || !same(tb, t)) violate("replay:interval", "agent %ld changed its parameters in a call that does not train", n->id);
	}
	// the chance of a random action at the n-th one
	static double explores (const rocnnet::dqn_param& dp, long n)
	{
		if (n >= dp.exploration_period_) return dp.rand_action_prob_;
		return 1 - n * (1 - dp.rand_action_prob_) / dp.exploration_period_;
	}
	static void tally (Net* n, Net::Tally& t, double want, bool got, const char* what)
	{
		t.n++;
		t.want += want;
		t.var += want * (1 - want);
		t.got += got;
		// Bernstein: farther off with a probability below 2e-14
		const double L = 32;
		double most = L / 3 + std::sqrt(L * L / 9 + 2 * t.var * L);
		if (std::fabs(t.got - t.want) > most) violate("explore:rate", "agent %ld chose %s %ld times in %.0f actions; its settings make that %.1f", n->id, what, t.got, t.n, t.want);
	}
	void action (Net* n, Rng& q, long fail = -1)
	{
		gvec x = input(q, n->a.nin, 1);
		if (q.chance(0.35) && n->ax.size() == x.size()) x = n->ax; // nothing new is observed
		n->ax = x;
		gvec x2 = x;
		double v = 0;
		bool threw = false;
		if (fail >= 0) { if (fail & 1) malloc_fail_after(fail >> 1); else heap_fail_after(fail >> 1); }
		try { v = n->m->dq->action(x2); } catch (std::exception& e) { threw = true; if (fail < 0) { malloc_fail_after(-1); heap_fail_after(-1); violate("action:refused", "agent %ld threw instead of acting: %s", n->id, e.what()); } }
		malloc_fail_after(-1);
		heap_fail_after(-1);
		n->acts++;
		if (threw) { count("fault.allocation-failure-in-action"); n->actsknown = false; return; }
		size_t w = n->a.hid.back();
		if (!(v >= 0 && v < (double) w && v == std::floor(v))) violate("action:range", "agent %ld chose action %g of %zu", n->id, v, w);
		log_hash(bits(v));
		if (!plan().num("explore", 0) || top(n->cache) > 40) return;
		nontrivial();
		count("probe.actions");
		gvec y = n->m->predict(x);
		if (y.size() != w) return;
		double best = *std::max_element(y.begin(), y.end());
		size_t bests = std::count(y.begin(), y.end(), best);
		bool off = y[(size_t) v] != best;
		// an action that failed may have been counted or not
		long at = n->actsknown ? n->acts : std::max(1L, n->acts - 40);
		double p = explores(n->dp, at);
		if (p <= 0 && off) violate("explore:greedy", "agent %ld is past exploring (action %ld) but chose %g valued %.17g over %.17g", n->id, n->acts, v, y[(size_t) v], best);
		if (p <= 0) count("probe.greedy-actions");
		if (!n->actsknown || w < 2 || bests != 1) return;
		p = std::min(p, 1.0);
		tally(n, n->off, p * (double) (w - 1) / (double) w, off, "another action than the best");
		if (y[w - 1] != best) tally(n, n->lastact, p / (double) w, v == (double) (w - 1), "the last action");
	}

	// many actions on one observation, for rates that only show over a whole schedule
	void drive (Net* n, Rng& q, long times)
	{
		if (!n->actsknown || top(n->cache) > 40) return;
		gvec x = input(q, n->a.nin, 1), x2 = x;
		gvec y = n->m->predict(x);
		size_t w = n->a.hid.back();
		if (y.size() != w || w < 2) return;
		double best = *std::max_element(y.begin(), y.end());
		if (std::count(y.begin(), y.end(), best) != 1) return;
		uint64_t h = 0;
		for (long k = 0; k < times; k++)
		{
			double v = n->m->dq->action(x2), p = std::min(1.0, explores(n->dp, ++n->acts));
			if (!(v >= 0 && v < (double) w && v == std::floor(v))) violate("action:range", "agent %ld chose action %g of %zu", n->id, v, w);
			h = h * 31 + (uint64_t) v;
			bool off = y[(size_t) v] != best;
			if (p <= 0 && off) violate("explore:greedy", "agent %ld is past exploring (action %ld) but chose %g valued %.17g over %.17g", n->id, n->acts, v, y[(size_t) v], best);
			tally(n, n->off, p * (double) (w - 1) / (double) w, off, "another action than the best");
			if (y[w - 1] != best) tally(n, n->lastact, p / (double) w, v == (double) (w - 1), "the last action");
		}
		log_hash(h);
		nontrivial();
		count("probe.driven-actions", times);
	}

	// ---- copies and moves
	std::unique_ptr<Net> twin (Net* n)
	{
		std::unique_ptr<Net> c(new Net);
		c->a = n->a;
		c->ax = n->ax;
		c->dp = n->dp;
		c->init = n->init;
		c->id = ++serial;
		c->m.reset(new Model);
		c->m->a = n->a;
		c->m->scope = "cpy" + std::to_string(c->id);
		c->m->init = n->init;
		return c;
	}
	void inherit (Net* c, Net* n, bool moved)
	{
		c->init = n->init;
		c->m->init = n->init;
		c->dp = n->dp;
		c->bt = n->bt;
		c->bp = n->bp;
		c->cache = n->cache;
		c->tcache = n->tcache;
		c->mom = n->mom;
		c->momknown = n->momknown;
		c->all = n->all;
		c->pool = n->pool;
		c->newest = n->newest;
		c->lastpool = n->lastpool;
		c->seenall = n->seenall;
		c->since = n->since;
		c->stores = n->stores;
		c->trains = n->trains;
		c->poolknown = n->poolknown;
		c->done = n->done;
		c->a = n->a;
		c->m->a = n->a;
		c->px.clear();
		c->py.clear();
		c->dropped = n->dropped;
		c->missed = n->missed;
		c->drawn = n->drawn;
		c->acts = n->acts;
		c->actsknown = n->actsknown;
		c->off = c->lastact = Net::Tally(); // judged on its own
		if (!moved) reset_moms(c);
	}
	void settle (Net* c, Net* from, const gvec& x, const gvec& y, const char* what)
	{
		Params s, t;
		bool has = fetch(c, s, t);
		if (has != c->init) violate("copy:parameters", "%s: the new model %s parameters", what, has ? "unexpectedly has" : "has no");
		if (!has) return;
		if (!same(s, c->cache) || !same(t, c->tcache)) violate("copy:parameters", "%s: the parameters are not the original's", what);
		if (x.size())
		{
			gvec z = c->m->predict(x);
			if (bits(z) != bits(y)) violate("copy:predictions", "%s: predictions are not the original's", what);
		}
	}
	static void retire (Model* m) { m->out.clear(); delete m->in; m->in = nullptr; }
	bool compat (Net* a, Net* b)
	{
		return !!a->m->gd == !!b->m->gd && !!a->m->dq == !!b->m->dq && (a->m->gd || a->m->dq || a->a.kind == b->a.kind);
	}
	void copy (long i, long j, int how, Rng& q)
	{
		Net* n = at(i);
		if (!n || n->husk) return;
		gvec x, y;
		if (n->init) { x = input(q, n->a.nin, n->bp); y = n->m->predict(x); n->px = x; n->py = y; }
		Net* d = at(j);
		static const char* const names[] = {"copying", "copy assignment", "moving", "move assignment"};
		log("%s %ld", names[how], n->id);
		count(how == 0 ? "probe.copies" : how == 1 ? "probe.copy-assigns" : how == 2 ? "probe.moves" : "probe.move-assigns");
		if (how == 0 || how == 2)
		{
			if (ns.size() >= 5) return;
			std::unique_ptr<Net> c = twin(n);
			std::string sc = q.chance(0.7) ? c->m->scope : "";
			if (how == 0)
			{
				if (n->m->gd) c->m->gd = new rocnnet::gd_net(*n->m->gd, sc);
				else if (n->m->dq) c->m->dq = new rocnnet::dq_net(*n->m->dq, sc);
				else c->m->comp = n->m->comp->clone(sc);
			}
			else
			{
				if (n->m->gd) { c->m->gd = new rocnnet::gd_net(std::move(*n->m->gd)); n->m->comp = nullptr; }
				else if (n->m->dq) { c->m->dq = new rocnnet::dq_net(std::move(*n->m->dq), sc); n->m->comp = nullptr; }
				else
				{
					bool keep = q.chance(0.5);
					if (!keep) retire(n->m.get());
					c->m->comp = n->m->comp->move();
					// what was built on the model follows it
					c->tune = std::move(n->tune);
					if (keep) { c->m->in = n->m->in; c->m->out = n->m->out; n->m->in = nullptr; n->m->out.clear(); }
				}
			}
			inherit(c.get(), n, how == 2);
			c->id = c->id;
			ns.push_back(std::move(c));
			d = ns.back().get();
		}
		else
		{
			if (!d || d == n) { if (d == n && q.chance(0.5)) self(n, how); return; }
			if (!compat(n, d)) return;
			if (!n->m->gd && !n->m->dq) { retire(d->m.get()); d->tune.reset(); }
			bool mv = how == 3;
			if (n->m->gd) { if (mv) *d->m->gd = std::move(*n->m->gd); else *d->m->gd = *n->m->gd; }
			else if (n->m->dq) { if (mv) *d->m->dq = std::move(*n->m->dq); else *d->m->dq = *n->m->dq; }
			else
			{
				if (mv) { retire(n->m.get()); d->tune = std::move(n->tune); }
				assign(d->m->comp, n->m->comp, n->a.kind, mv);
			}
			if (n->m->gd || n->m->dq) d->m->comp = nullptr; if (mv && (n->m->gd || n->m->dq)) n->m->comp = nullptr;
			inherit(d, n, mv);
			d->husk = false;
		}
		if (how >= 2) { n->husk = true; n->init = false; n->px.clear(); }
		settle(d, n, x, y, names[how]);
		nontrivial();
		if (d->init) { refresh(d); others(d, names[how]); }
	}
	static void assign (rocnnet::icompound* d, rocnnet::icompound* s, int kind, bool mv)
	{
		if (kind == Z_MLP) { auto* a = static_cast<rocnnet::mlp*>(d); auto* b = static_cast<rocnnet::mlp*>(s); if (mv) *a = std::move(*b); else *a = *b; }
		else if (kind == Z_RBM) { auto* a = static_cast<rocnnet::rbm*>(d); auto* b = static_cast<rocnnet::rbm*>(s); if (mv) *a = std::move(*b); else *a = *b; }
		else { auto* a = static_cast<rocnnet::db_net*>(d); auto* b = static_cast<rocnnet::db_net*>(s); if (mv) *a = std::move(*b); else *a = *b; }
	}
	void self (Net* n, int how)
	{
		bool mv = how == 3;
		if (n->m->gd) { auto& g = *n->m->gd; if (mv) g = std::move(g); else g = g; }
		else if (n->m->dq) { auto& g = *n->m->dq; if (mv) g = std::move(g); else g = g; }
		else assign(n->m->comp, n->m->comp, n->a.kind, mv);
		Params s, t;
		if (n->init && (!fetch(n, s, t) || !same(s, n->cache) || !same(t, n->tcache))) violate("copy:self", "assigning model %ld to itself changed it", n->id);
	}

	bool apply (const Op& o)
	{
		if (o.name == "lay") { lays.op((uint64_t) o.arg(0)); return true; }
		if (o.name == "opt") { opts.op((uint64_t) o.arg(0)); return true; }
		Net* n = at(o.arg(0));
		Rng q(mix(o.arg(1), 17));
		if (o.name == "mk")
		{
			if (ns.size() >= 4) return true;
			std::unique_ptr<Net> c(new Net);
			Arch& a = c->a;
			a.kind = (int) (o.arg(0) % Z_N);
			a.nin = 1 + q.below(3);
			size_t lv = 1 + q.below(3);
			if (a.kind == Z_RBM || a.kind == Z_GDR) lv = 1;
			for (size_t i = 0; i < lv; i++) { a.hid.push_back(1 + q.below(3)); a.fn.push_back(q.chance(0.2) ? 2 : (int) q.below(2)); }
			a.upd = (int) q.below(2);
			a.lr = q.chance(0.5) ? 0.1 : 0.01 + q.unit() * 0.3;
			if (q.chance(0.6)) a.disc = q.chance(0.5) ? 0.9 : 0.2 + q.unit() * 0.7;
			if (q.chance(0.5)) a.via = 1 + (int) q.below(4);
			static const size_t ivs[] = {1, 1, 2, 3, 5};
			c->dp.train_interval_ = ivs[q.below(5)];
			c->dp.store_interval_ = ivs[q.below(5)];
			c->dp.max_exp_ = 1 + q.below(6);
			c->dp.mini_batch_size_ = q.chance(0.6) ? c->dp.max_exp_ : 1 + q.below(c->dp.max_exp_ + (q.chance(0.1) ? 1 : 0));
			c->dp.discount_rate_ = q.unit();
			c->dp.target_update_rate_ = q.chance(0.5) ? 0.01 : q.unit();
			c->dp.exploration_period_ = q.below(10);
			c->dp.rand_action_prob_ = q.chance(0.3) ? 0 : q.unit();
			if (o.arg(3) == 1) // for exploration
			{
				Rng e(mix(o.arg(1), 23));
				c->dp.exploration_period_ = e.chance(0.15) ? 0 : e.chance(0.5) ? e.range(1, 40) : e.chance(0.6) ? e.range(40, 400) : e.range(1000, 4000);
				c->dp.rand_action_prob_ = e.chance(0.5) ? 0 : e.chance(0.2) ? 1 : e.chance(0.4) ? 0.05 : e.unit();
				if (e.chance(0.8)) a.hid.back() = e.range(2, 5);
			}
			if (o.arg(3) == 2) // for batches smaller than the memory
			{
				Rng e(mix(o.arg(1), 29));
				c->dp.max_exp_ = 2 + e.below(5);
				c->dp.mini_batch_size_ = 1 + e.below(c->dp.max_exp_ / 2);
				c->dp.train_interval_ = 1;
				c->dp.store_interval_ = 1;
			}
			c->bt = 1 + q.below(q.chance(0.2) ? 6 : 3);
			c->bp = a.kind == Z_DQ || a.kind == Z_DBN ? 1 : 1 + q.below(3);
			c->id = ++serial;
			c->mom.push_back(ones(a));
			c->m.reset(new Model);
			c->m->build(a, "m" + std::to_string(c->id), c->dp);
			ns.push_back(std::move(c));
			n = ns.back().get();
			if (o.arg(2)) init(n);
			return true;
		}
		if (!n) return true;
		if (o.name == "rm") { if (ns.size() > 1) { long id = n->id; ns.erase(ns.begin() + o.arg(0) % ns.size()); log("destroyed %ld", id); others(nullptr, "destroying"); } return true; }
		if (n->husk && o.name != "cp") return true;
		if (o.name == "init") { init(n); others(n, "initialising"); }
		else if (o.name == "set")
		{
			std::vector<gshape> sh = n->a.shapes();
			Params s, t;
			for (auto& x : sh) { gvec v(gn(x)); for (double& d : v) d = q.unit() * 2 - 1; s.push_back(v); if (n->isdq()) { for (double& d : v) d = q.unit() * 2 - 1; t.push_back(v); } }
			install(n, s, t);
			others(n, "loading");
		}
		else if (o.name == "pred") predict(n, q);
		else if (o.name == "tr")
		{
			if (!n->init) return true;
			if (n->isgd()) { calm(n); train_gd(n, q, o.arg(2, -1)); others(n, "training"); if (q.chance(0.5)) predict(n, q); }
			else if (n->isdq())
			{
				long k = 1 + o.arg(3) % 6;
				while (k--) { calm(n); train_dq(n, q, o.arg(2, -1)); }
				others(n, "training");
				if (q.chance(0.5)) predict(n, q);
			}
			else finetune(n, q, o.arg(2, -1));
		}
		else if (o.name == "st") { if (n->isdq()) { long k = 1 + o.arg(2) % 7; while (k--) store(n, q); } }
		else if (o.name == "drive") { if (n->isdq() && n->init) drive(n, q, o.arg(2)); }
		else if (o.name == "act") { if (n->isdq() && n->init) for (long k = std::max(1L, o.arg(2)); k--;) action(n, q, k ? -1 : o.arg(3, -1)); }
		else if (o.name == "drill") { if (n->isdq() && n->init) for (long k = o.arg(2); k--;) { calm(n); train_dq(n, q, -1); } }
		else if (o.name == "cp") copy(o.arg(0), o.arg(2), (int) (o.arg(3) & 3), q);
		else return false;
		return true;
	}
	// training closures of the restricted Boltzmann machine and the deep belief network
	void finetune (Net* n, Rng& q, long fail)
	{
		if (n->a.kind != Z_DBN && n->a.kind != Z_RBM) return;
		Tuner* t = n->tune.get();
		bool fresh = !t;
		if (fresh)
		{
			t = new Tuner;
			n->tune.reset(t);
			t->B = 1 + q.below(3);
			t->lr = 0.05 + q.unit() * 0.3;
			t->in.reset(new nnet::placeholder<double>(gshape{n->a.nin, t->B}, "tin"));
			t->out.reset(new nnet::placeholder<double>(gshape{n->a.hid.back(), t->B}, "tout"));
		}
		gvec x = input(q, n->a.nin, t->B), y = input(q, n->a.hid.back(), t->B);
		if (n->a.kind == Z_RBM) for (double& d : x) d = d > 0;
		*t->in = x;
		*t->out = y;
		if (fresh)
		{
			if (n->a.kind == Z_DBN) t->step = static_cast<rocnnet::db_net*>(n->m->comp)->build_finetune_functions(*t->in, *t->out, t->lr);
			else
			{
				if (q.chance(0.5))
				{
					gvec h(n->a.hid[0] * t->B);
					for (double& d : h) d = q.chance(0.5);
					t->chain.reset(new zvar(nnet::tensorshape(gshape{n->a.hid[0], t->B}), vec_init(h), "chain"));
					t->chain->initialize();
				}
				t->step = static_cast<rocnnet::rbm*>(n->m->comp)->train(t->in.get(), t->chain.get(), t->lr, 1 + q.below(2));
			}
			if (n->a.kind == Z_DBN && q.chance(0.6)) t->pre = static_cast<rocnnet::db_net*>(n->m->comp)->pretraining_functions(*t->in, t->lr, 1 + q.below(2));
			if (t->pre.size() && t->pre.size() != n->a.hid.size() - 1) violate("train:layers", "model %ld offers training for %zu of %zu layers", n->id, t->pre.size(), n->a.hid.size() - 1);
		}
		calm(n);
		if (top(n->cache) > 20) return;
		Params before = n->cache, s, u;
		long level = t->pre.size() && q.chance(0.6) ? (long) q.below(t->pre.size()) : -1;
		bool threw = false;
		if (fail >= 0) { if (fail & 1) malloc_fail_after(fail >> 1); else heap_fail_after(fail >> 1); }
		try { (level < 0 ? t->step : t->pre[level]).first(true); }
		catch (std::exception& e) { threw = true; if (fail < 0) { malloc_fail_after(-1); heap_fail_after(-1); violate("train:refused", "training model %ld threw: %s", n->id, e.what()); } }
		malloc_fail_after(-1);
		heap_fail_after(-1);
		if (threw)
		{
			// which parameters took their step before is open
			count("fault.allocation-failure-in-training");
			refresh(n);
			others(n, "training");
			return;
		}
		gvec chained;
		if (t->chain)
		{
			chained = nnet::expose<double>(t->chain.get());
			if (chained.size() != n->a.hid[0] * t->B) violate("train:chain", "the persistent chain of model %ld has %zu states", n->id, chained.size());
			for (double d : chained) if (d != 0 && d != 1) violate("train:chain", "a state of the persistent chain of model %ld is %.17g", n->id, d);
			count("probe.persistent-chain-steps");
		}
		if (!fetch(n, s, u)) violate("model:parameters", "model %ld has no parameters after training", n->id);
		n->cache = s;
		n->px.clear();
		Ref ref(n->a);
		double keep = n->a.lr;
		int ku = n->a.upd;
		n->a.lr = t->lr;
		n->a.upd = 0;
		if (level >= 0)
		{
			// the layer learns from what the layers below make of the input; the others stay as they are
			Ref::Tape tape;
			ref.forward(before, x, t->B, &tape);
			size_t w = ref.widx((size_t) level);
			for (size_t i = 0; i < before.size(); i++)
				if ((i < w || i > w + 2) && bits(before[i]) != bits(s[i])) violate("train:step", "training layer %ld of model %ld changed parameter %zu of another layer", level, n->id, i);
			judge_cd(n, Params(before.begin() + w, before.begin() + w + 3), Params(s.begin() + w, s.begin() + w + 3), tape.in[level], t->B, level ? n->a.hid[level - 1] : n->a.nin, n->a.hid[level]);
			count("probe.layer-steps");
		}
		else if (n->a.kind == Z_DBN)
		{
			// gradients of the documented cost on an untouched copy holding the old parameters
			Params mag(before), g(before);
			std::unique_ptr<Model> c(new Model);
			c->a = n->a;
			c->comp = n->m->comp->clone("probe");
			std::vector<zvar*> cv = c->comp->get_variables();
			if (cv.size() != before.size()) violate("copy:parameters", "a copy has %zu of %zu parameters", cv.size(), before.size());
			for (size_t i = 0; i < cv.size(); i++) put_param(cv[i], before[i]);
			{
				nnet::placeholder<double> cin(gshape{n->a.nin, t->B}, "cin");
				cin = x;
				gptr cost = -nnet::reduce_mean(nnet::log(c->comp->prop_up(&cin)));
				for (size_t i = 0; i < cv.size(); i++)
				{
					gptr d = cost->derive(cv[i]);
					gvec e = nnet::expose<double>(d);
					if (e.empty()) e.assign(1, 0);
					for (size_t k = 0; k < g[i].size(); k++) { g[i][k] = e[e.size() == 1 ? 0 : k]; mag[i][k] = std::fabs(g[i][k]); }
				}
			}
			judge_step(n, before, s, g, mag, false, "finetuning step");
		}
		else judge_cd(n, before, s, x, t->B, n->a.nin, n->a.hid[0]);
		n->a.lr = keep;
		n->a.upd = ku;
		n->done++;
		nontrivial();
		count("probe.closure-steps");
		others(n, "training");
	}
	// contrastive divergence: some visible sample must explain all three changes
	void judge_cd (Net* n, const Params& b, const Params& s, const gvec& x, size_t B, size_t ni, size_t nh)
	{
		size_t m = ni * B;
		auto add = [&](const gvec& v, double sign, Params& g)
		{
			for (size_t k = 0; k < B; k++)
			{
				for (size_t j = 0; j < nh; j++)
				{
					double z = b[1][j];
					for (size_t i = 0; i < ni; i++) z += v[k * ni + i] * b[0][i * nh + j];
					double p = 1 / (1 + std::exp(-z));
					g[1][j] -= sign * p / (double) B;
					for (size_t i = 0; i < ni; i++) g[0][i * nh + j] -= sign * p * v[k * ni + i] / (double) B;
				}
				for (size_t i = 0; i < ni; i++) g[2][i] -= sign * v[k * ni + i] / (double) B;
			}
		};
		std::string dist;
		double best = 1e300;
		for (uint64_t c = 0; c < (1ull << m); c++)
		{
			gvec v(m);
			for (size_t i = 0; i < m; i++) v[i] = (c >> i) & 1;
			Params g(3);
			for (int i = 0; i < 3; i++) g[i].assign(b[i].size(), 0);
			add(x, 1, g);
			add(v, -1, g);
			double worst = 0;
			for (int i = 0; i < 3; i++) for (size_t k = 0; k < b[i].size(); k++) worst = std::max(worst, std::fabs(s[i][k] - (b[i][k] - n->a.lr * g[i][k])));
			if (worst < best) best = worst;
			if (best < 1e-9) return;
		}
		violate("train:step", "contrastive divergence step of model %ld: no visible sample explains the new parameters (nearest is off by %.3g)", n->id, best);
	}
	void init (Net* n)
	{
		n->m->initialize();
		n->init = true;
		refresh(n);
		reset_moms(n);
		n->px.clear();
	}
};

static void execm (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.lanes = (int) p.num("lanes", 2);
	h.reuse = p.real("reuse", 0.5);
	heap_start(h);
	nnutils::seed_generator((size_t) (p.seed | 1));
	srand((unsigned) (p.seed | 1));
	fs_open_disk();
	// models that come and go, come and go: what is kept for reuse is kept once, what leaks leaks every time
	long rounds = p.num("rounds", 1);
	uint64_t mark = heap_mark();
	size_t kept = 0;
	for (long k = 0; k < rounds; k++)
	{
		if (k) { nnutils::seed_generator((size_t) (p.seed | 1)); srand((unsigned) (p.seed | 1)); }
		{
			ModelWorld w(mix(p.seed, 3));
			for (auto& s : p.ops)
			{
				Op o = parse_op(s);
				log("%s", s.c_str());
				if (!w.apply(o)) harness_error("unknown operation %s", s.c_str());
			}
		}
		size_t now = heap_live_since(mark);
		if (k > 1 && now > kept)
		{
			char buf[400];
			heap_dump_since(mark, buf, sizeof buf);
			violate("destroy:leak", "%zu blocks are left behind each time after every model was destroyed: %s", now - kept, buf);
		}
		if (k > 1) count("probe.leak-checks");
		kept = now;
	}
	fs_quiet(false);
	fs_close_disk();
}

struct MMix { double tr, pred, set, st, act, cp, init, rm, mk; double fail; std::vector<int> kinds; double lay, opt; };
static void genm (Rng& r, Plan& p, const MMix& m)
{
	p.set("reuse", std::to_string(r.chance(0.3) ? 0.0 : r.unit()));
	p.set("lanes", r.range(1, 4));
	long nm = r.range(1, 3);
	auto mk = [&] { return make_op("mk", {m.kinds[r.below(m.kinds.size())], (long) r.below(1000000), (long) r.chance(0.92)}); };
	for (long i = 0; i < nm; i++) p.ops.push_back(mk());
	long n = r.range(4, r.chance(0.25) ? 40 : 18);
	// some histories are all about layers or about optimisers on their own
	double lay = m.lay > 0 && r.chance(m.lay) ? 3 : 0, opt = m.opt > 0 && r.chance(m.opt) ? 3 : 0;
	for (long i = 0; i < n; i++)
	{
		double w[] = {m.tr, m.pred, m.set, m.st, m.act, m.cp, m.init, m.rm, lay, opt, m.mk}, t = 0;
		for (double x : w) t += x;
		double u = r.unit() * t;
		int c = 0;
		while (c < 10 && u >= w[c]) u -= w[c++];
		long i1 = r.range(0, 5), s = (long) r.below(1000000);
		switch (c)
		{
			case 0: p.ops.push_back(make_op("tr", {i1, s, r.chance(m.fail) ? r.range(0, r.chance(0.5) ? 40 : 700) : -1, r.range(0, 5)})); break;
			case 1: p.ops.push_back(make_op("pred", {i1, s})); break;
			case 2: p.ops.push_back(make_op("set", {i1, s})); break;
			case 3: p.ops.push_back(make_op("st", {i1, s, r.range(0, 6)})); break;
			case 4: p.ops.push_back(make_op("act", {i1, s})); break;
			case 5: p.ops.push_back(make_op("cp", {i1, s, r.range(0, 5), r.range(0, 3)})); break;
			case 6: p.ops.push_back(make_op("init", {i1, s})); break;
			case 7: p.ops.push_back(make_op("rm", {i1})); break;
			case 8: p.ops.push_back(make_op("lay", {s})); break;
			case 9: p.ops.push_back(make_op("opt", {s})); break;
			default: p.ops.push_back(mk());
		}
	}
}
//                                          tr   pred set  st   act  cp   init rm   mk   fail
static void g10 (Rng& r, Plan& p) { genm(r, p, {.45, .12, .08, .20, .02, .06, .02, .03, .02, .12, {Z_GD, Z_GD, Z_GDR, Z_DQ, Z_DQ, Z_DBN, Z_RBM}, 0, .15}); }
static void g21 (Rng& r, Plan& p)
{
	if (r.chance(0.06))
	{
		// many batches from a memory that holds more than one
		p.ops.push_back(make_op("mk", {Z_DQ, (long) r.below(1000000), 1, 2}));
		for (long i = 0; i < 3; i++)
		{
			p.ops.push_back(make_op("st", {0, (long) r.below(1000000), r.range(1, 6)}));
			if (r.chance(0.3)) p.ops.push_back(make_op("cp", {0, (long) r.below(1000000), r.range(0, 2), r.range(0, 3)}));
			p.ops.push_back(make_op("drill", {r.range(0, 1), (long) r.below(1000000), r.range(20, 110)}));
		}
		return;
	}
	genm(r, p, {.40, .04, .03, .40, .08, .05, .01, .01, .02, .03, {Z_DQ}, 0, 0});
}
static void g23 (Rng& r, Plan& p)
{
	p.set("explore", 1);
	p.set("reuse", std::to_string(r.chance(0.3) ? 0.0 : r.unit()));
	p.set("lanes", r.range(1, 4));
	long n = r.range(2, 14);
	for (long i = r.range(1, 2); i-- > 0;) p.ops.push_back(make_op("mk", {Z_DQ, (long) r.below(1000000), 1, 1}));
	for (long i = 0; i < n; i++)
	{
		long i1 = r.range(0, 3), s = (long) r.below(1000000);
		double u = r.unit();
		if (r.chance(0.012)) p.ops.push_back(make_op("drive", {i1, s, r.range(500, 5000)}));
		if (u < 0.55) p.ops.push_back(make_op("act", {i1, s, r.chance(0.4) ? r.range(1, 12) : r.range(20, 250), r.chance(0.05) ? r.range(0, 60) : -1}));
		else if (u < 0.68) p.ops.push_back(make_op("cp", {i1, s, r.range(0, 3), r.range(0, 3)}));
		else if (u < 0.76) p.ops.push_back(make_op("st", {i1, s, r.range(0, 6)}));
		else if (u < 0.86) p.ops.push_back(make_op("tr", {i1, s, -1, r.range(0, 5)}));
		else if (u < 0.90) p.ops.push_back(make_op("set", {i1, s}));
		else if (u < 0.94) p.ops.push_back(make_op("pred", {i1, s}));
		else if (u < 0.97) p.ops.push_back(make_op("init", {i1, s}));
		else p.ops.push_back(make_op("rm", {i1}));
	}
}
static void g22 (Rng& r, Plan& p)
{
	bool again = r.chance(0.12);
	genm(r, p, {.28, .10, .08, .14, .02, .30, .04, .10, .05, again ? 0 : .02, {Z_MLP, Z_GD, Z_DQ, Z_RBM, Z_DBN, Z_GDR, Z_GD, Z_DQ}, again ? .35 : .15, 0});
	if (again)
	{
		p.set("rounds", 3);
		if (p.ops.size() > 14) p.ops.resize(14);
	}
}

#define REALM "real: models, layers, optimisers, graph, tensor and storage code, protobuf and libc, under AddressSanitizer; simulated: heap placement and allocation failures, random generator seeds; disk is a scratch directory without faults"
#define FAULTM "fault.allocation-failure-in-training"
#define RULEM "a run is non-trivial when it made at least one training step or copied or moved a model; distinct = distinct operation-and-outcome history hash"
static Reg m10({"C10", RULEM, REALM, 4500, 120000, g10, execm, FAULTM, "steps are compared with plain-number backpropagation within 1e-9 relative; the optimiser state of a copy may be the original's or fresh", 20000});
static Reg m21({"C21", RULEM, REALM, 3200, 80000, g21, execm, FAULTM, "experiences are recognised in a batch by their unique rewards; which experience a full memory gives up is not prescribed", 20000});
static Reg m22({"C22", RULEM, REALM, 5000, 140000, g22, execm, FAULTM, "the optimiser state of a copy may be the original's or fresh; that of a moved-to model is the original's", 20000});
static Reg m23({"C23", "a run is non-trivial when an agent chose an action; distinct = distinct operation-and-outcome history hash", REALM, 2600, 80000, g23, execm,
	"fault.allocation-failure-in-action,probe.greedy-actions,probe.copies,probe.moves", "rates are judged by a Bernstein bound with an error probability below 2e-14 per judgement; once exploring is over the judgement is exact; an action that threw may count or not", 20000});
