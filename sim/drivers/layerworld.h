// Single layers that are copied, moved and assigned, and optimisers used on their own.
#pragma once
#include "zoo.h"
#include "layers/fc_layer.hpp"
#include "layers/conv_layer.hpp"
#include "utils/gd_utils.hpp"

struct LayerWorld
{
	struct Lay
	{
		bool conv = false, husk = false, init = false;
		gshape ni;
		size_t no = 1;
		long id = 0;
		std::unique_ptr<rocnnet::fc_layer> fc;
		std::unique_ptr<rocnnet::conv_layer> cv;
		std::vector<gshape> sh;
		std::vector<gvec> v;
		std::vector<std::unique_ptr<nnet::placeholder<double> > > in;
		gptr out;
		~Lay () { out.clear(); }
		std::vector<zvar*> vars () const { return conv ? cv->get_variables() : fc->get_variables(); }
	};
	std::vector<std::unique_ptr<Lay> > ls;
	long serial = 0;

	void check (Lay* l, const char* what)
	{
		if (l->husk) return;
		std::vector<zvar*> v = l->vars();
		if (v.size() != l->sh.size()) sim::violate("layer:parameters", "after %s layer %ld has %zu of %zu parameters", what, l->id, v.size(), l->sh.size());
		for (size_t i = 0; i < v.size(); i++)
		{
			if (!v[i]) sim::violate("layer:parameters", "after %s layer %ld has lost parameter %zu", what, l->id, i);
			if (!l->init) { if (v[i]->good_status()) sim::violate("layer:parameters", "after %s parameter %zu of layer %ld is initialised", what, i, l->id); continue; }
			Param p;
			if (!take_param(v[i], p)) sim::violate("layer:parameters", "after %s parameter %zu of layer %ld is empty", what, i, l->id);
			if (p.s != l->sh[i] || p.b != bits(l->v[i])) sim::violate("layer:parameters", "after %s parameter %zu of layer %ld is %s", what, i, l->id, pstr(p).c_str());
		}
		for (auto& o : ls) if (o.get() != l && !o->husk) for (zvar* x : o->vars()) for (zvar* y : v) if (x == y) sim::violate("layer:shared", "layers %ld and %ld share a parameter", l->id, o->id);
	}
	void check_all (const char* what) { for (auto& l : ls) check(l.get(), what); }
	void fill (Lay* l, sim::Rng& q)
	{
		std::vector<zvar*> v = l->vars();
		l->v.resize(v.size());
		for (size_t i = 0; i < v.size(); i++)
		{
			gvec g(gn(l->sh[i]));
			for (double& d : g) d = q.unit() * 4 - 2;
			put_param(v[i], g);
			l->v[i] = g;
		}
		l->init = true;
	}
	void predict (Lay* l, sim::Rng& q)
	{
		if (l->conv || !l->init) return;
		size_t B = l->in.empty() ? 1 + q.below(3) : l->in[0]->get_shape().as_list()[1];
		std::vector<gvec> x;
		bool first = l->in.empty();
		for (size_t i = 0; i < l->ni.size(); i++)
		{
			if (first) l->in.emplace_back(new nnet::placeholder<double>(gshape{l->ni[i], B}, "lin"));
			gvec g(l->ni[i] * B);
			for (double& d : g) d = q.unit() * 2 - 1;
			*l->in[i] = g;
			x.push_back(g);
		}
		if (!l->out.get())
		{
			std::vector<gnode*> a;
			for (auto& p : l->in) a.push_back(p.get());
			l->out = (*l->fc)(a);
		}
		gvec y = nnet::expose<double>(l->out);
		if (y.size() != l->no * B) sim::violate("layer:output", "layer %ld gives %zu values instead of %zu", l->id, y.size(), l->no * B);
		for (size_t k = 0; k < B; k++)
			for (size_t j = 0; j < l->no; j++)
			{
				double s = 0, m = 1;
				for (size_t i = 0; i < l->ni.size(); i++)
				{
					s += l->v[2 * i + 1][j];
					m += std::fabs(l->v[2 * i + 1][j]);
					for (size_t h = 0; h < l->ni[i]; h++) { double t = x[i][k * l->ni[i] + h] * l->v[2 * i][h * l->no + j]; s += t; m += std::fabs(t); }
				}
				if (!(std::fabs(s - y[k * l->no + j]) <= 1e-12 * m)) sim::violate("layer:output", "output %zu of layer %ld is %.17g instead of %.17g", j, l->id, y[k * l->no + j], s);
			}
	}
	void inherit (Lay* d, Lay* s)
	{
		d->conv = s->conv;
		d->init = s->init;
		d->ni = s->ni;
		d->no = s->no;
		d->sh = s->sh;
		d->v = s->v;
		d->husk = false;
	}
	void op (uint64_t seed)
	{
		sim::Rng q(sim::mix(seed, 91));
		double y = q.unit();
		if (ls.empty() || (y < 0.15 && ls.size() < 5))
		{
			std::unique_ptr<Lay> l(new Lay);
			l->id = ++serial;
			l->conv = q.chance(0.3);
			l->no = 1 + q.below(3);
			size_t n = l->conv ? 1 : 1 + q.below(3);
			std::string sc = "lay" + std::to_string(l->id);
			if (l->conv)
			{
				size_t h = 1 + q.below(3), w = 1 + q.below(3), c = 1 + q.below(2);
				l->cv.reset(new rocnnet::conv_layer({h, w}, c, l->no, sc));
				l->sh = {{h, w, c, l->no}, {l->no}};
			}
			else
			{
				for (size_t i = 0; i < n; i++) { l->ni.push_back(1 + q.below(3)); l->sh.push_back({l->no, l->ni[i]}); l->sh.push_back({l->no}); }
				l->fc.reset(new rocnnet::fc_layer(l->ni, l->no, sc));
			}
			ls.push_back(std::move(l));
			if (q.chance(0.85)) fill(ls.back().get(), q);
			check_all("building a layer");
			return;
		}
		Lay* s = ls[q.below(ls.size())].get();
		if (s->husk)
		{
			if (q.chance(0.5)) { size_t i = 0; while (ls[i].get() != s) i++; ls.erase(ls.begin() + i); check_all("destroying an emptied layer"); }
			return;
		}
		if (y < 0.35) { fill(s, q); check_all("initialising"); predict(s, q); }
		else if (y < 0.5) predict(s, q);
		else if (y < 0.68)
		{
			bool mv = q.chance(0.5);
			if (ls.size() >= 6) return;
			std::unique_ptr<Lay> d(new Lay);
			d->id = ++serial;
			std::string sc = q.chance(0.5) ? "" : "copy" + std::to_string(d->id);
			bool base = q.chance(0.3);
			rocnnet::ilayer* b = s->conv ? static_cast<rocnnet::ilayer*>(s->cv.get()) : s->fc.get();
			if (base)
			{
				rocnnet::ilayer* r = mv ? b->move() : b->clone(sc);
				if (s->conv) d->cv.reset(dynamic_cast<rocnnet::conv_layer*>(r)); else d->fc.reset(dynamic_cast<rocnnet::fc_layer*>(r));
			}
			else if (s->conv) d->cv.reset(mv ? s->cv->move() : s->cv->clone(sc));
			else d->fc.reset(mv ? s->fc->move() : s->fc->clone(sc));
			inherit(d.get(), s);
			if (mv)
			{
				// what was built on the layer follows it
				s->husk = true;
				if (!s->conv) { d->in = std::move(s->in); d->out = s->out; }
				s->out.clear();
			}
			ls.push_back(std::move(d));
			sim::count(mv ? "probe.layer-moves" : "probe.layer-copies");
			check_all(mv ? "moving a layer" : "copying a layer");
			predict(ls.back().get(), q);
			if (!mv) predict(s, q);
		}
		else if (y < 0.86)
		{
			Lay* d = ls[q.below(ls.size())].get();
			if (d->conv != s->conv) return;
			bool mv = q.chance(0.5);
			if (d == s)
			{
				if (s->conv) { if (mv) *s->cv = std::move(*s->cv); else *s->cv = *s->cv; }
				else { if (mv) *s->fc = std::move(*s->fc); else *s->fc = *s->fc; }
				check_all("assigning a layer to itself");
				predict(s, q);
				return;
			}
			d->out.clear();
			d->in.clear();
			if (s->conv) { if (mv) *d->cv = std::move(*s->cv); else *d->cv = *s->cv; }
			else { if (mv) *d->fc = std::move(*s->fc); else *d->fc = *s->fc; }
			inherit(d, s);
			if (mv)
			{
				s->husk = true;
				if (!s->conv) { d->in = std::move(s->in); d->out = s->out; }
				s->out.clear();
			}
			sim::count(mv ? "probe.layer-moves" : "probe.layer-copies");
			check_all("assigning a layer");
			predict(d, q);
			if (!mv) predict(s, q);
		}
		else
		{
			size_t i = 0;
			while (ls[i].get() != s) i++;
			s->out.clear();
			ls.erase(ls.begin() + i);
			check_all("destroying a layer");
			for (auto& l : ls) if (!l->husk) predict(l.get(), q);
		}
	}
};

// gradient steps of optimisers that are reset, copied, assigned and moved between steps
struct OptWorld
{
	struct Set { nnet::updates_t ups; std::vector<size_t> on; std::vector<gvec> mom; double lr, disc, gain; };
	struct Opt
	{
		std::unique_ptr<nnet::gd_updater> u;
		bool rms = false, husk = false;
		double lr = 0, disc = 0;
		std::set<size_t> ign;
		std::vector<Set> sets;
		~Opt () { sets.clear(); }
	};
	struct Term { std::unique_ptr<zvar> w; gshape s; gvec v; };
	std::vector<Term> ts;
	std::unique_ptr<nnet::placeholder<double> > x;
	gvec xv;
	gptr cost;
	std::vector<gptr> parts;
	std::vector<std::unique_ptr<Opt> > os;
	~OptWorld () { os.clear(); parts.clear(); cost.clear(); ts.clear(); }

	// x * (w0^2 + w1^2 + ..): the derivative for one parameter reads no other
	void begin (sim::Rng& q)
	{
		gshape s{1 + q.below(3), 1 + q.below(2)};
		x.reset(new nnet::placeholder<double>(s, "ox"));
		size_t n = 1 + q.below(3);
		for (size_t i = 0; i < n; i++)
		{
			Term t;
			t.s = s;
			t.w.reset(new zvar(nnet::tensorshape(s), nnet::rand_uniform<double>(-0.5, 0.5), "w" + std::to_string(i)));
			ts.push_back(std::move(t));
			set(i, q);
		}
		feed(q);
		for (auto& t : ts)
		{
			gptr p = gptr(x.get()) * nnet::pow<double>(gptr(t.w.get()), 2);
			parts.push_back(p);
			if (cost.get()) cost = cost + p; else cost = p;
		}
	}
	void set (size_t i, sim::Rng& q)
	{
		gvec v(gn(ts[i].s));
		for (double& d : v) d = q.unit() * 2 - 1;
		put_param(ts[i].w.get(), v);
		ts[i].v = v;
	}
	void feed (sim::Rng& q)
	{
		xv.assign(gn(x->get_shape().as_list()), 0);
		for (double& d : xv) d = q.unit() * 2 - 1;
		*x = xv;
	}
	Opt* make (sim::Rng& q)
	{
		std::unique_ptr<Opt> o(new Opt);
		o->rms = q.chance(0.6);
		o->lr = 0.01 + q.unit() * 0.2;
		o->disc = 0.2 + q.unit() * 0.75;
		if (o->rms) o->u.reset(new nnet::rmspropupdater(o->lr, o->disc)); else o->u.reset(new nnet::vgb_updater(o->lr));
		os.push_back(std::move(o));
		return os.back().get();
	}
	void calculate (Opt* o, sim::Rng& q)
	{
		if (o->sets.size() >= 3) return;
		Set s;
		s.lr = o->lr;
		s.disc = o->disc;
		s.gain = q.chance(0.5) ? 1 : 0.5;
		double gain = s.gain;
		size_t n = 0;
		s.ups = gain == 1 ? o->u->calculate(cost.get()) : o->u->calculate(cost.get(), [&](gptr g, zvar*) { return g * gain; });
		std::vector<size_t> want;
		for (size_t i = 0; i < ts.size(); i++) if (!o->ign.count(i)) want.push_back(i);
		if (s.ups.size() != want.size()) sim::violate("train:ignored", "an optimiser told to ignore %zu of %zu parameters updates %zu", o->ign.size(), ts.size(), s.ups.size());
		// which update belongs to which parameter shows at the first step
		(void) n;
		s.on = want;
		s.mom.assign(ts.size(), gvec(gn(ts[0].s), 1));
		o->sets.push_back(std::move(s));
	}
	void step (Opt* o, size_t k, sim::Rng& q)
	{
		Set& s = o->sets[k];
		if (q.chance(0.5)) feed(q);
		if (q.chance(0.3)) set(q.below(ts.size()), q);
		std::vector<gvec> want;
		for (size_t i = 0; i < ts.size(); i++)
		{
			want.push_back(ts[i].v);
			if (std::find(s.on.begin(), s.on.end(), i) == s.on.end()) continue;
			for (size_t e = 0; e < xv.size(); e++)
			{
				double g = 2 * xv[e] * ts[i].v[e] * s.gain;
				if (o->rms)
				{
					double m = s.disc * s.mom[i][e] + (1 - s.disc) * g * g;
					s.mom[i][e] = m;
					want[i][e] -= g * s.lr / (std::sqrt(m) + std::numeric_limits<double>::epsilon());
				}
				else want[i][e] -= g * s.lr;
			}
		}
		for (auto& u : s.ups) u(true);
		for (size_t i = 0; i < ts.size(); i++)
		{
			Param p;
			if (!take_param(ts[i].w.get(), p)) sim::violate("train:step", "a step emptied parameter %zu", i);
			for (size_t e = 0; e < xv.size(); e++)
			{
				double d = unbits(p.b[e]);
				if (!(std::fabs(d - want[i][e]) <= 1e-9 * (1 + std::fabs(want[i][e])))) sim::violate("train:step", "a step of a %s optimiser put %.17g into parameter %zu, expected %.17g", o->rms ? "rmsprop" : "plain", d, i, want[i][e]);
				ts[i].v[e] = d;
			}
		}
		sim::count("probe.optimiser-steps");
		gvec c = nnet::expose<double>(cost);
		for (size_t e = 0; e < c.size(); e++)
		{
			double y = 0;
			for (auto& t : ts) y += xv[e] * t.v[e] * t.v[e];
			if (!(std::fabs(c[e] - y) <= 1e-9 * (1 + std::fabs(y)))) sim::violate("train:stale", "after a step the cost reads %.17g instead of %.17g", c[e], y);
		}
	}
	void op (uint64_t seed)
	{
		sim::Rng q(sim::mix(seed, 92));
		if (ts.empty()) begin(q);
		double y = q.unit();
		if (os.empty() || (y < 0.12 && os.size() < 4)) { calculate(make(q), q); return; }
		size_t at = q.below(os.size());
		Opt* o = os[at].get();
		if (y < 0.5 && o->sets.size()) { for (size_t k = 1 + q.below(3); k; k--) step(o, q.below(o->sets.size()), q); return; }
		if (y < 0.92 && o->husk) return;
		if (y < 0.6) { calculate(o, q); return; }
		if (y < 0.7)
		{
			if (q.chance(0.4)) { o->u->clear_ignore(); o->ign.clear(); }
			else { size_t i = q.below(ts.size()); o->u->ignore_subtree(parts[i].get()); o->ign.insert(i); }
			return;
		}
		if (y < 0.78)
		{
			o->lr = 0.01 + q.unit() * 0.2;
			o->u->set_learning_rate(o->lr);
			if (o->rms && q.chance(0.5)) { o->disc = 0.2 + q.unit() * 0.75; static_cast<nnet::rmspropupdater*>(o->u.get())->set_discount_factor(o->disc); }
			return;
		}
		if (y < 0.85 && os.size() < 4)
		{
			bool mv = q.chance(0.5), typed = q.chance(0.5);
			std::unique_ptr<Opt> d(new Opt);
			d->rms = o->rms;
			d->lr = o->lr;
			d->disc = o->disc;
			d->ign = o->ign;
			if (!typed) d->u.reset(mv ? o->u->move() : o->u->clone());
			else if (o->rms) { auto* r = static_cast<nnet::rmspropupdater*>(o->u.get()); d->u.reset(mv ? r->move() : r->clone()); }
			else { auto* r = static_cast<nnet::vgb_updater*>(o->u.get()); d->u.reset(mv ? r->move() : r->clone()); }
			if (mv) o->husk = true;
			os.push_back(std::move(d));
			sim::count(mv ? "probe.optimiser-moves" : "probe.optimiser-copies");
			calculate(os.back().get(), q);
			return;
		}
		if (y < 0.92)
		{
			Opt* d = os[q.below(os.size())].get();
			if (d->rms != o->rms || d == o) return;
			bool mv = q.chance(0.5);
			if (o->rms) { auto& a = static_cast<nnet::rmspropupdater&>(*d->u); auto& b = static_cast<nnet::rmspropupdater&>(*o->u); if (mv) a = std::move(b); else a = b; }
			else { auto& a = static_cast<nnet::vgb_updater&>(*d->u); auto& b = static_cast<nnet::vgb_updater&>(*o->u); if (mv) a = std::move(b); else a = b; }
			d->lr = o->lr;
			d->disc = o->disc;
			d->ign = o->ign;
			d->husk = false;
			if (mv) o->husk = true;
			sim::count(mv ? "probe.optimiser-moves" : "probe.optimiser-copies");
			return;
		}
		// its updates end with it
		os.erase(os.begin() + at);
	}
};
