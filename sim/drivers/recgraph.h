// A small random computation graph driven by plan operations; used by the recording checks.
#pragma once
#include "core.h"
#include "heap.h"
#include "graph/operations/operations.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

// reaches the protected rewiring of single positions, which derived observers may use
struct Rewire : nnet::iobserver
{
	static void at (nnet::iobserver* o, nnet::subject* s, size_t i) { (o->*(&Rewire::replace_dependency))(s, i); }
};

struct RecGraph
{
	typedef nnet::inode<double> node;
	struct Ent
	{
		node* p;
		void* block;
		uint64_t birth;
		std::string uid;
		char kind;       // v variable, p placeholder, k other leaf, c connector
		bool init;       // leaf holds data
		bool dirty;      // connector: an argument changed since it was last read
		bool user;       // created by an operation of the plan (not a helper)
		bool stale;      // connector: rewired and not notified since (rewiring does not notify)
	};
	std::vector<Ent> ents;
	std::map<node*, size_t> byptr;               // newest registration
	struct Held { nnet::varptr<double> v; explicit Held (node* n) : v(n) {} };
	std::vector<std::unique_ptr<Held> > held;
	std::set<std::string> dead_uids, all_uids;
	long made = 0;

	bool alive (size_t i) const { return sim::heap_same(ents[i].block, ents[i].birth); }
	size_t reg (node* p, bool user, char kind = 0, bool init = false)
	{
		auto it = byptr.find(p);
		if (it != byptr.end() && alive(it->second)) { if (user) ents[it->second].user = true; return it->second; }
		Ent e;
		e.p = p;
		e.birth = sim::heap_birth(p, e.block);
		if (!e.birth) return (size_t) -1;
		e.uid = p->get_uid();
		if (all_uids.count(e.uid)) sim::count("probe.identifier-reused");
		all_uids.insert(e.uid);
		e.kind = kind ? kind : dynamic_cast<nnet::iconnector<double>*>(p) ? 'c' : 'k';
		e.init = init;
		e.dirty = e.kind == 'c';
		e.user = user;
		e.stale = false;
		ents.push_back(e);
		byptr[p] = ents.size() - 1;
		for (node* a : p->get_arguments()) if (a) reg(a, false);
		return byptr[p];
	}
	std::vector<size_t> users () const
	{
		std::vector<size_t> r;
		for (size_t i = 0; i < ents.size(); i++) if (ents[i].user && alive(i)) r.push_back(i);
		return r;
	}
	std::vector<node*> args (size_t i) const { return ents[i].p->get_arguments(); }
	size_t idx (node* p) const { auto it = byptr.find(p); return it == byptr.end() || !alive(it->second) ? (size_t) -1 : it->second; }
	// every argument link of every live connector: (observer uid, subject uid, position)
	std::set<std::tuple<std::string, std::string, size_t> > edges () const
	{
		std::set<std::tuple<std::string, std::string, size_t> > r;
		for (size_t i = 0; i < ents.size(); i++)
		{
			if (ents[i].kind != 'c' || !alive(i)) continue;
			std::vector<node*> a = args(i);
			for (size_t k = 0; k < a.size(); k++) if (a[k])
			{
				if (!sim::heap_owns(a[k])) { r.emplace(ents[i].uid, a[k]->get_uid(), k); continue; } // shared constants
				size_t j = idx(a[k]);
				if (j == (size_t) -1) sim::violate("record:dangling-argument", "live node %s has an argument that was destroyed", ents[i].uid.c_str());
				r.emplace(ents[i].uid, ents[j].uid, k);
			}
		}
		return r;
	}
	bool depends (size_t i, const std::set<node*>& on, std::set<node*>& seen) const
	{
		if (on.count(ents[i].p)) return true;
		if (!seen.insert(ents[i].p).second) return false;
		for (node* a : args(i)) if (a) { size_t j = idx(a); if (j != (size_t) -1 && depends(j, on, seen)) return true; }
		return false;
	}
	void mark_dirty (node* leaf)
	{
		std::set<node*> on{leaf};
		for (size_t i = 0; i < ents.size(); i++) if (ents[i].kind == 'c' && alive(i)) { std::set<node*> seen; if (depends(i, on, seen)) { ents[i].dirty = true; ents[i].stale = false; } }
	}
	// all leaves below hold data
	bool ready (size_t i) const
	{
		if (ents[i].stale) return false;
		if (ents[i].kind != 'c') return ents[i].kind == 'k' || ents[i].init;
		for (node* a : args(i)) { if (!a) return false; if (!sim::heap_owns(a)) continue; size_t j = idx(a); if (j == (size_t) -1 || !ready(j)) return false; }
		return true;
	}
	void clean (size_t i, std::set<std::string>& updated)
	{
		if (ents[i].kind != 'c') return;
		if (ents[i].dirty) { ents[i].dirty = false; updated.insert(ents[i].uid); }
		for (node* a : args(i)) if (a) { size_t j = idx(a); if (j != (size_t) -1) clean(j, updated); }
	}
	void note_deaths ()
	{
		for (size_t i = 0; i < ents.size(); i++) if (!alive(i)) dead_uids.insert(ents[i].uid);
	}
	// returns true if the operation was one of ours
	bool apply (const sim::Op& o, std::set<std::string>& updated)
	{
		using namespace nnet;
		typedef varptr<double> V;
		std::vector<size_t> us = users();
		auto pick = [&](long k) { return us[(size_t) (k < 0 ? -k : k) % us.size()]; };
		const std::string& n = o.name;
		if (n == "var")
		{
			bool init = o.arg(0) != 0;
			variable<double>* v = new variable<double>(tensorshape(std::vector<size_t>{2}), const_init<double>(o.arg(1, 3)), "v" + std::to_string(made++));
			reg(v, true, 'v', false);
			if (init) { v->initialize(); ents[byptr[v]].init = true; updated.insert(v->get_uid()); }
		}
		else if (n == "ph") { placeholder<double>* v = new placeholder<double>(tensorshape(std::vector<size_t>{2}), "p" + std::to_string(made++)); reg(v, true, 'p', false); }
		else if (us.empty()) return n == "un" || n == "bin" || n == "sca" || n == "init" || n == "del" || n == "steal" || n == "rewire" || n == "mv" || n == "clone" || n == "hold" || n == "drop" || n == "eval";
		else if (n == "un")
		{
			V a(ents[pick(o.arg(1))].p);
			V r;
			switch (o.arg(0) % 8)
			{
				case 0: r = sin(a); break;
				case 1: r = cos(a); break;
				case 2: r = -a; break;
				case 3: r = +a; break;
				case 4: r = pow(a, 2.0); break;
				case 5: r = exp(a); break;
				case 6: r = reduce_sum(a); break;
				default: r = clip_val(a, -1.0, 1.0); break;
			}
			reg(r.get(), true);
		}
		else if (n == "bin")
		{
			V a(ents[pick(o.arg(1))].p), b(ents[pick(o.arg(2))].p);
			V r;
			switch (o.arg(0) % 8)
			{
				case 0: r = a + b; break;
				case 1: r = a - b; break;
				case 2: r = a * b; break;
				case 4: r = eq(a, b); break;
				case 5: r = conditional(a, a, std::function<bool(double,double)>([](double x, double y) { return x < y; }), "lt"); break;
				case 6: r = neq(b, b); break;
				default: r = a / b; break;
			}
			if (r.get()) reg(r.get(), true);
		}
		else if (n == "sca")
		{
			V a(ents[pick(o.arg(1))].p);
			V r;
			double c = 1.5 + o.arg(2) % 3;
			switch (o.arg(0) % 4)
			{
				case 0: r = a + c; break;
				case 1: r = c - a; break;
				case 2: r = a * c; break;
				default: r = conditional(a, c, std::function<bool(double,double)>([](double x, double y) { return x < y; }), "lt"); break;
			}
			if (r.get()) reg(r.get(), true);
		}
		else if (n == "init")
		{
			std::vector<size_t> ls;
			for (size_t i : us) if (ents[i].kind == 'v' || ents[i].kind == 'p') ls.push_back(i);
			if (ls.empty()) return true;
			Ent& e = ents[ls[o.arg(0) % ls.size()]];
			std::string uid = e.uid;
			node* p = e.p;
			e.init = true;
			if (e.kind == 'v') static_cast<variable<double>*>(p)->initialize();
			else *static_cast<placeholder<double>*>(p) = std::vector<double>{(double) o.arg(1), 0.5};
			updated.insert(uid);
			mark_dirty(p);
		}
		else if (n == "del") { size_t i = pick(o.arg(0)); if (ents[i].kind != 'k') delete ents[i].p; }
		else if (n == "steal")
		{
			size_t i = pick(o.arg(0)), j = pick(o.arg(1));
			if (i == j) return true;
			std::set<node*> obs, seen;
			for (size_t k = 0; k < ents.size(); k++) if (ents[k].kind == 'c' && alive(k)) for (node* a : args(k)) if (a == ents[j].p) obs.insert(ents[k].p);
			if (depends(i, obs, seen)) return true;
			if (!obs.empty()) sim::count("probe.observers-stolen");
			ents[i].p->steal_observers(ents[j].p);
			for (node* q : obs) { size_t k = idx(q); if (k != (size_t) -1) ents[k].stale = true; }
		}
		else if (n == "rewire")
		{
			// one position of an observer moves to another subject; prefer observers using a subject twice
			std::vector<size_t> cs, twice;
			for (size_t k = 0; k < ents.size(); k++) if (ents[k].kind == 'c' && alive(k))
			{
				std::vector<node*> as = args(k);
				if (as.empty()) continue;
				cs.push_back(k);
				for (size_t q = 1; q < as.size(); q++) if (as[q] && as[q] == as[0]) { twice.push_back(k); break; }
			}
			if (cs.empty()) return true;
			bool tw = !twice.empty() && o.arg(3);
			size_t k = tw ? twice[o.arg(0) % twice.size()] : cs[o.arg(0) % cs.size()], j = pick(o.arg(1));
			std::set<node*> on{ents[k].p}, seen;
			if (depends(j, on, seen)) return true;
			sim::count(tw ? "probe.shared-position-rewired" : "probe.position-rewired");
			Rewire::at(static_cast<iconnector<double>*>(ents[k].p), ents[j].p, o.arg(2) % args(k).size());
			ents[k].stale = true;
		}
		else if (n == "mv")
		{
			size_t i = pick(o.arg(0));
			node* old = ents[i].p;
			char k = ents[i].kind;
			bool in = ents[i].init;
			if (k == 'k') return true;
			node* q = old->move();
			size_t ni = reg(q, true, k, in);
			ents[ni].dirty = false; // the value came along
			delete old;
		}
		else if (n == "clone")
		{
			size_t i = pick(o.arg(0));
			char k = ents[i].kind;
			bool in = ents[i].init;
			if (k == 'k') return true;
			node* q = ents[i].p->clone();
			if (q) { size_t ni = reg(q, true, k, in); ents[ni].dirty = false; }
		}
		else if (n == "hold") { size_t i = pick(o.arg(0)); held.emplace_back(new Held(ents[i].p)); }
		else if (n == "drop") { if (!held.empty()) held.erase(held.begin() + o.arg(0) % held.size()); }
		else if (n == "eval")
		{
			size_t i = pick(o.arg(0));
			bool rd = ready(i);
			ents[i].p->eval();
			if (rd) clean(i, updated);
		}
		else return false;
		note_deaths();
		return true;
	}
	static void gen (sim::Rng& r, sim::Plan& p, long n)
	{
		for (long i = 0; i < n; i++) p.ops.push_back(gen1(r));
	}
	static std::string gen1 (sim::Rng& r)
	{
		using sim::make_op;
		double x = r.unit();
		long a = r.range(0, 30), b = r.range(0, 30), c = r.range(0, 7);
		if (x < 0.16) return make_op("var", {(long) r.chance(0.8), r.range(1, 9)});
		if (x < 0.20) return "ph";
		if (x < 0.34) return make_op("un", {c, a});
		if (x < 0.52) return make_op("bin", {c, a, b});
		if (x < 0.58) return make_op("sca", {c, a, b});
		if (x < 0.70) return make_op("init", {a, r.range(1, 9)});
		if (x < 0.79) return make_op("del", {a});
		if (x < 0.825) return make_op("steal", {a, b});
		if (x < 0.85) return make_op("rewire", {a, b, r.range(0, 3), (long) r.chance(0.7)});
		if (x < 0.88) return make_op("mv", {a});
		if (x < 0.91) return make_op("clone", {a});
		if (x < 0.94) return make_op("hold", {a});
		if (x < 0.96) return make_op("drop", {a});
		return make_op("eval", {a});
	}
	void teardown ()
	{
		held.clear();
		for (size_t i = 0; i < ents.size(); i++) if (ents[i].kind != 'k' && alive(i)) delete ents[i].p;
	}
};
