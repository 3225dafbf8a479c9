// C08: links between observers and subjects are symmetric, judged from both ends through every kind of rewiring.
// Two worlds: bare observers/subjects of every ownership style (with callbacks that rewire), and real tensor nodes.
#include "graphworld.h"
#include <algorithm>
using namespace sim;

namespace
{
struct Obj;
struct World;
World* w = nullptr;

struct Rec { Obj* who; std::set<size_t> idx; };

// an object of the link world; may be observer, subject, or both
struct Obj
{
	int id;
	bool kill_on_broken = false, kill_on_noparent = false, drops_rest = false;
	Obj (int i) : id(i) {}
	virtual ~Obj ();
	virtual nnet::subject* sub () { return nullptr; }
	virtual nnet::iobserver* obs () { return nullptr; }
	virtual void add (nnet::subject*) {}
	virtual void remove (size_t) {}
	virtual void replace (nnet::subject*, size_t) {}
	virtual Obj* copy (int) const { return nullptr; }
	virtual Obj* mv (int) { return nullptr; }
	virtual void cas (const Obj&) {}
	virtual void mas (Obj&) {}
};
struct Model
{
	bool alive = true, is_sub = false, is_obs = false, kb = false, kn = false;
	std::vector<int> deps; // -1 empty
	Obj* p = nullptr;
	long broken_calls = 0, broken_want = 0;
};
struct World
{
	std::vector<Model> m;
	std::vector<Rec> updates;
	std::function<void(Obj*)> hook;      // runs inside update callbacks
	std::map<nnet::subject*, int> sid;
};

void note_update (Obj* o, const std::unordered_set<size_t>& idx)
{
	w->updates.push_back({o, std::set<size_t>(idx.begin(), idx.end())});
	if (w->hook) w->hook(o);
}
Obj::~Obj ()
{
	Model& x = w->m[id];
	if (!x.p) violate("links:double-death", "object %d destroyed twice", id);
	x.p = nullptr;
}

struct S : Obj, nnet::subject
{
	S (int i) : Obj(i) {}
	S (const S& o, int i) : Obj(i), nnet::subject(o) { kill_on_noparent = o.kill_on_noparent; }
	S (S&& o, int i) : Obj(i), nnet::subject(std::move(o)) { kill_on_noparent = o.kill_on_noparent; }
	nnet::subject* sub () override { return this; }
	std::string get_label (void) const override { return "s"; }
	Obj* copy (int i) const override { return new S(*this, i); }
	Obj* mv (int i) override { return new S(std::move(*this), i); }
	void cas (const Obj& o) override { nnet::subject::operator = (dynamic_cast<const S&>(o)); }
	void mas (Obj& o) override { nnet::subject::operator = (std::move(dynamic_cast<S&>(o))); }
	void death_on_noparent (void) override { if (kill_on_noparent) delete this; }
};
struct O : Obj, nnet::iobserver
{
	O (int i, std::vector<nnet::subject*> d) : Obj(i), nnet::iobserver(d) {}
	O (const O& o, int i) : Obj(i), nnet::iobserver(o) { kill_on_broken = o.kill_on_broken; }
	O (O&& o, int i) : Obj(i), nnet::iobserver(std::move(o)) { kill_on_broken = o.kill_on_broken; }
	nnet::iobserver* obs () override { return this; }
	std::string get_label (void) const override { return "o"; }
	void add (nnet::subject* s) override { add_dependency(s); }
	void remove (size_t i) override { remove_dependency(i); }
	void replace (nnet::subject* s, size_t i) override { replace_dependency(s, i); }
	Obj* copy (int i) const override { return new O(*this, i); }
	Obj* mv (int i) override { return new O(std::move(*this), i); }
	void cas (const Obj& o) override { nnet::iobserver::operator = (dynamic_cast<const O&>(o)); }
	void mas (Obj& o) override { nnet::iobserver::operator = (std::move(dynamic_cast<O&>(o))); }
	void update (std::unordered_set<size_t> a) override { note_update(this, a); }
	void death_on_broken (void) override { w->m[id].broken_calls++; if (kill_on_broken) delete this; }
};
// both ends, like an operator node
struct N : Obj, nnet::subject, nnet::iobserver
{
	N (int i, std::vector<nnet::subject*> d) : Obj(i), nnet::iobserver(d) {}
	N (const N& o, int i) : Obj(i), nnet::subject(o), nnet::iobserver(o) { kill_on_broken = o.kill_on_broken; kill_on_noparent = o.kill_on_noparent; }
	N (N&& o, int i) : Obj(i), nnet::subject(std::move(o)), nnet::iobserver(std::move(o)) { kill_on_broken = o.kill_on_broken; kill_on_noparent = o.kill_on_noparent; }
	nnet::subject* sub () override { return this; }
	nnet::iobserver* obs () override { return this; }
	std::string get_label (void) const override { return "n"; }
	void add (nnet::subject* s) override { add_dependency(s); }
	void remove (size_t i) override { remove_dependency(i); }
	void replace (nnet::subject* s, size_t i) override { replace_dependency(s, i); }
	Obj* copy (int i) const override { return new N(*this, i); }
	Obj* mv (int i) override { return new N(std::move(*this), i); }
	void update (std::unordered_set<size_t> a) override { note_update(this, a); }
	void death_on_broken (void) override { w->m[id].broken_calls++; if (kill_on_broken) delete this; }
	void death_on_noparent (void) override { if (kill_on_noparent) delete this; }
};

// ---- model ----
size_t audience_of (int s)
{
	size_t n = 0;
	for (Model& x : w->m) if (x.alive && x.is_obs && std::find(x.deps.begin(), x.deps.end(), s) != x.deps.end()) n++;
	return n;
}
void m_kill (int id);
void m_unlink (int o, size_t i)
{
	int s = w->m[o].deps[i];
	if (s < 0) return;
	w->m[o].deps[i] = -1;
	if (w->m[s].alive && w->m[s].kn && audience_of(s) == 0) m_kill(s);
}
void m_kill (int id)
{
	if (!w->m[id].alive) return;
	w->m[id].alive = false;
	std::vector<int> mine = w->m[id].deps;
	for (size_t i = 0; i < mine.size(); i++) m_unlink(id, i);
	for (size_t o = 0; o < w->m.size(); o++)
	{
		Model& x = w->m[o];
		if (!x.alive || !x.is_obs || std::find(x.deps.begin(), x.deps.end(), id) == x.deps.end()) continue;
		for (int& d : x.deps) if (d == id) d = -1;
		x.broken_want++;
		if (x.kb) m_kill((int) o);
	}
}
// would object o observe, directly or not, itself?
bool reaches (int from, int to)
{
	if (from == to) return true;
	for (int d : w->m[from].deps) if (d >= 0 && reaches(d, to)) return true;
	return false;
}
nnet::subject* sp (int s) { return s < 0 ? nullptr : w->m[s].p->sub(); }

void check_links (const char* when)
{
	for (size_t i = 0; i < w->m.size(); i++)
	{
		Model& x = w->m[i];
		if (x.alive != (x.p != nullptr)) violate("links:liveness", "after %s object %zu is %s, should be %s", when, i, x.p ? "alive" : "dead", x.alive ? "alive" : "dead");
		if (!x.alive) continue;
		if (x.broken_calls != x.broken_want) violate("links:broken-calls", "after %s object %zu was told %ld times that an argument died, %ld died", when, i, x.broken_calls, x.broken_want);
	}
	for (size_t s = 0; s < w->m.size(); s++)
	{
		Model& x = w->m[s];
		if (!x.alive || !x.is_sub) continue;
		nnet::subject* p = x.p->sub();
		size_t want = audience_of((int) s);
		if (p->n_audience() != want || p->no_audience() != !want) violate("links:audience-size", "after %s subject %zu has %zu observers, %zu list it", when, s, p->n_audience(), want);
		for (size_t o = 0; o < w->m.size(); o++) if (w->m[o].alive && w->m[o].is_obs)
		{
			bool lists = std::find(w->m[o].deps.begin(), w->m[o].deps.end(), (int) s) != w->m[o].deps.end();
			if (w->m[o].p->obs()->has_subject(p) != lists) violate("links:lists", "after %s observer %zu %s subject %zu", when, o, lists ? "does not list" : "lists", s);
		}
		w->updates.clear();
		p->notify(nnet::UPDATE);
		std::map<int, std::set<size_t> > got;
		for (Rec& r : w->updates) { if (got.count(r.who->id)) violate("links:told-twice", "after %s observer %d was told twice of one update of subject %zu", when, r.who->id, s); got[r.who->id] = r.idx; }
		for (size_t o = 0; o < w->m.size(); o++)
		{
			std::set<size_t> idx;
			if (w->m[o].alive && w->m[o].is_obs) for (size_t k = 0; k < w->m[o].deps.size(); k++) if (w->m[o].deps[k] == (int) s) idx.insert(k);
			auto it = got.find((int) o);
			if (idx.empty() != (it == got.end()) || (it != got.end() && it->second != idx))
				violate("links:positions", "after %s subject %zu is registered with observer %zu for %zu positions (first %zd), it lists it at %zu (first %zd)", when, s, o, it == got.end() ? (size_t) 0 : it->second.size(), it == got.end() || it->second.empty() ? (ssize_t) -1 : (ssize_t) *it->second.begin(), idx.size(), idx.empty() ? (ssize_t) -1 : (ssize_t) *idx.begin());
		}
	}
	count("probe.link-checks");
}

int fresh (Obj* (*mk) (int, void*), void* arg, bool s, bool o)
{
	int id = (int) w->m.size();
	w->m.push_back(Model());
	w->m[id].is_sub = s;
	w->m[id].is_obs = o;
	w->m[id].p = mk(id, arg);
	return id;
}
void style (int id, long k)
{
	Model& x = w->m[id];
	x.kb = x.is_obs && (k & 1);
	x.kn = x.is_sub && (k & 2);
	x.p->kill_on_broken = x.kb;
	x.p->kill_on_noparent = x.kn;
}

std::vector<int> live (bool s, bool o)
{
	std::vector<int> r;
	for (size_t i = 0; i < w->m.size(); i++) if (w->m[i].alive && (!s || w->m[i].is_sub) && (!o || w->m[i].is_obs)) r.push_back((int) i);
	return r;
}

bool mock_op (const Op& o)
{
	auto subj = [&](long k, int forobs) -> int
	{
		std::vector<int> s = live(true, false);
		if (forobs >= 0) s.erase(std::remove_if(s.begin(), s.end(), [&](int x) { return reaches(x, forobs); }), s.end());
		return s.empty() || k % 7 == 6 ? -1 : s[(size_t) k % s.size()];
	};
	auto obsv = [&](long k) -> int { std::vector<int> s = live(false, true); return s.empty() ? -1 : s[(size_t) k % s.size()]; };
	const std::string& n = o.name;
	if (n == "s")
	{
		int id = fresh([](int i, void*) -> Obj* { return new S(i); }, nullptr, true, false);
		style(id, o.arg(0));
		return true;
	}
	if (n == "o" || n == "n")
	{
		std::vector<int> d;
		std::vector<nnet::subject*> ps;
		for (long k = 0; k < o.arg(1); k++) { int s = subj(o.arg(2 + k), -1); d.push_back(s); ps.push_back(sp(s)); }
		int id = n == "o" ? fresh([](int i, void* a) -> Obj* { return new O(i, *(std::vector<nnet::subject*>*) a); }, &ps, false, true) :
			fresh([](int i, void* a) -> Obj* { return new N(i, *(std::vector<nnet::subject*>*) a); }, &ps, true, true);
		w->m[id].deps = d;
		style(id, o.arg(0));
		return true;
	}
	if (n == "add")
	{
		int x = obsv(o.arg(0));
		if (x < 0) return true;
		int s = subj(o.arg(1), x);
		// positions are appended after the last one in use or left empty: only where both readings agree
		while (w->m[x].deps.size() && w->m[x].deps.back() < 0) return true;
		w->m[x].p->add(sp(s));
		w->m[x].deps.push_back(s);
		return true;
	}
	if (n == "rm")
	{
		int x = obsv(o.arg(0));
		if (x < 0 || w->m[x].deps.empty()) return true;
		size_t i = (size_t) o.arg(1) % w->m[x].deps.size();
		if (w->m[x].deps[i] < 0) return true;
		w->m[x].p->remove(i);
		m_unlink(x, i);
		while (w->m[x].deps.size() && w->m[x].deps.back() < 0) w->m[x].deps.pop_back();
		return true;
	}
	if (n == "rmbad")
	{
		int x = obsv(o.arg(0));
		if (x < 0) return true;
		bool threw = false;
		try { w->m[x].p->remove(w->m[x].deps.size() + 3 + o.arg(1)); } catch (std::exception&) { threw = true; }
		if (!threw) violate("links:bad-remove", "removing an argument position that does not exist reported nothing");
		return true;
	}
	if (n == "rep")
	{
		int x = obsv(o.arg(0));
		if (x < 0) return true;
		size_t i = (size_t) o.arg(2);
		int s = subj(o.arg(1), x);
		w->m[x].p->replace(sp(s), i);
		if (i >= w->m[x].deps.size()) w->m[x].deps.resize(i + 1, -1);
		int old = w->m[x].deps[i];
		w->m[x].deps[i] = s;
		if (old >= 0 && old != s && w->m[old].alive && w->m[old].kn && audience_of(old) == 0) m_kill(old);
		return true;
	}
	if (n == "cp" || n == "mv")
	{
		std::vector<int> a = live(false, false);
		if (a.empty()) return true;
		int x = a[(size_t) o.arg(0) % a.size()];
		Obj* src = w->m[x].p;
		bool copy = n == "cp";
		int id = (int) w->m.size();
		w->m.push_back(Model());
		w->m[id].is_sub = w->m[x].is_sub;
		w->m[id].is_obs = w->m[x].is_obs;
		w->m[id].deps = w->m[x].deps;
		if (!copy)
		{
			w->m[x].deps.clear();
			for (Model& y : w->m) for (int& d : y.deps) if (d == x) d = id;
		}
		w->m[id].p = copy ? src->copy(id) : src->mv(id);
		w->m[id].kb = w->m[x].kb;
		w->m[id].kn = w->m[x].kn;
		count(copy ? "probe.copied" : "probe.moved");
		return true;
	}
	if (n == "cas" || n == "mas")
	{
		std::vector<int> a;
		for (int i : live(false, false)) if (w->m[i].is_sub != w->m[i].is_obs) a.push_back(i);
		if (a.empty()) return true;
		int x = a[(size_t) o.arg(0) % a.size()];
		std::vector<int> b;
		for (int i : a) if (w->m[i].is_sub == w->m[x].is_sub) b.push_back(i);
		int y = b[(size_t) o.arg(1) % b.size()];
		Model& X = w->m[x];
		Model& Y = w->m[y];
		if (n == "cas") X.p->cas(*Y.p); else X.p->mas(*Y.p);
		if (x == y) return true;
		if (X.is_obs)
		{
			std::vector<int> old = X.deps;
			X.deps = Y.deps;
			if (n == "mas") Y.deps.clear();
			for (int s : old) if (s >= 0 && w->m[s].alive && w->m[s].kn && audience_of(s) == 0) m_kill(s);
		}
		else if (n == "mas") for (Model& z : w->m) for (int& d : z.deps) if (d == y) d = x;
		count("probe.assigned");
		return true;
	}
	if (n == "steal")
	{
		std::vector<int> a = live(true, false);
		if (a.empty()) return true;
		int x = a[(size_t) o.arg(0) % a.size()], y = a[(size_t) o.arg(1) % a.size()];
		// a thief that is one of the observers would end up observing itself
		if (w->m[x].is_obs && reaches(x, y)) return true;
		bool had = audience_of(y);
		w->m[x].p->sub()->steal_observers(w->m[y].p->sub());
		if (x == y) return true;
		for (Model& z : w->m) for (int& d : z.deps) if (d == y) d = x;
		if (had && w->m[y].kn) m_kill(y);
		count("probe.stolen");
		return true;
	}
	if (n == "del")
	{
		std::vector<int> a = live(false, false);
		if (a.empty()) return true;
		int x = a[(size_t) o.arg(0) % a.size()];
		delete w->m[x].p;
		m_kill(x);
		count("probe.destroyed");
		return true;
	}
	if (n == "unsub")
	{
		// a subject tells its observers to leave without dying itself
		std::vector<int> a;
		for (int i : live(true, false)) if (!w->m[i].kn) a.push_back(i);
		if (a.empty()) return true;
		int x = a[(size_t) o.arg(0) % a.size()];
		w->m[x].p->sub()->notify(nnet::UNSUBSCRIBE);
		for (size_t k = 0; k < w->m.size(); k++)
		{
			Model& z = w->m[k];
			if (!z.alive || !z.is_obs || std::find(z.deps.begin(), z.deps.end(), x) == z.deps.end()) continue;
			for (int& d : z.deps) if (d == x) d = -1;
			z.broken_want++;
			if (z.kb) m_kill((int) k);
		}
		count("probe.unsubscribed");
		return true;
	}
	if (n == "reent")
	{
		// while being told of an update, an observer rewires: the others must still be told at most once and stay linked
		std::vector<int> a;
		for (int i : live(true, false)) if (!w->m[i].kn && audience_of(i)) a.push_back(i);
		if (a.empty()) return true;
		int x = a[(size_t) o.arg(0) % a.size()];
		std::vector<int> who;
		for (size_t k = 0; k < w->m.size(); k++) if (w->m[k].alive && std::find(w->m[k].deps.begin(), w->m[k].deps.end(), x) != w->m[k].deps.end()) who.push_back((int) k);
		int actor = who[(size_t) o.arg(1) % who.size()];
		int act = (int) (o.arg(2) % 3);
		int victim = who[(size_t) o.arg(3) % who.size()];
		if (act == 1 && (victim == actor || reaches(x, victim))) act = 0;
		std::map<int, std::vector<int> > before;
		for (int k : who) before[k] = w->m[k].deps;
		bool fired = false;
		w->hook = [&](Obj* ob)
		{
			if (ob->id != actor || fired) return;
			fired = true;
			if (act == 0)
			{
				// leave
				for (size_t k = 0; k < w->m[actor].deps.size(); k++) if (w->m[actor].deps[k] == x) { ob->remove(k); w->m[actor].deps[k] = -1; }
				while (w->m[actor].deps.size() && w->m[actor].deps.back() < 0) w->m[actor].deps.pop_back();
			}
			else if (act == 1) { delete w->m[victim].p; m_kill(victim); }
			else
			{
				std::vector<nnet::subject*> ps{sp(x)};
				int id = fresh([](int i, void* a) -> Obj* { return new O(i, *(std::vector<nnet::subject*>*) a); }, &ps, false, true);
				w->m[id].deps = {x};
			}
		};
		w->updates.clear();
		w->m[x].p->sub()->notify(nnet::UPDATE);
		w->hook = nullptr;
		std::map<Obj*, int> n;
		std::set<int> told;
		if (!fired) violate("links:not-told", "an observer was not told of an update");
		for (Rec& r : w->updates) if (++n[r.who] > 1) violate("links:told-twice", "an observer was told twice of one update");
		for (int k : who) if (w->m[k].alive && k != actor && !n.count(w->m[k].p)) violate("links:not-told", "observer %d was not told of an update during which another observer rewired", k);
		count("probe.rewired-during-notification");
		return true;
	}
	return false;
}

void mock_world (const Plan& p)
{
	World world;
	w = &world;
	uint64_t mark = heap_mark();
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		log("%s", s.c_str());
		if (w->m.size() > 400) break;
		if (!mock_op(o)) harness_error("unknown operation %s", s.c_str());
		check_links(s.c_str());
		log_hash(live(false, false).size());
	}
	nontrivial();
	Rng r(mix(p.seed, 3));
	for (;;)
	{
		std::vector<int> a = live(false, false);
		if (a.empty()) break;
		int x = a[r.below(a.size())];
		delete w->m[x].p;
		m_kill(x);
		check_links("destruction at the end");
	}
	(void) mark;
	w = nullptr;
}

// ---- real nodes ----
void check_real (GraphWorld& g, const char* when)
{
	std::set<std::string> labels;
	for (size_t i = 0; i < g.ents.size(); i++) if (g.alive(i)) labels.insert(g.ents[i].p->get_label());
	for (size_t i = 0; i < g.ents.size(); i++) if (g.alive(i))
	{
		gnode* p = g.ents[i].p;
		if (g.conn(g.ents[i].kind))
		{
			gconn* c = g.con(i);
			for (gnode* a : p->get_arguments()) if (a)
			{
				if (heap_owns(a) && !heap_is_live(a)) violate("links:dead-argument", "after %s node %zu lists a destroyed argument", when, i);
				std::unordered_set<gnode*> aud;
				a->find_audience(p->get_label(), aud);
				if (!aud.count(p)) violate("links:unregistered", "after %s node %zu (%s) lists %s but is not registered with it", when, i, p->get_label().c_str(), a->get_label().c_str());
				if (!c->has_subject(a)) violate("links:lists", "after %s node %zu does not observe its own argument", when, i);
			}
		}
		if (p->no_audience() != (p->n_audience() == 0)) violate("links:audience-size", "after %s node %zu has %zu observers and %s", when, i, p->n_audience(), p->no_audience() ? "none" : "some");
		size_t known = 0;
		for (auto& l : labels)
		{
			std::unordered_set<gnode*> aud;
			p->find_audience(l, aud);
			for (gnode* a : aud)
			{
				if (heap_owns(a) && !heap_is_live(a)) violate("links:dead-observer", "after %s node %zu is observed by a destroyed node", when, i);
				if (a->get_label() != l) continue;
				known++;
				std::vector<gnode*> as = a->get_arguments();
				if (std::find(as.begin(), as.end(), p) == as.end()) violate("links:stale-registration", "after %s node %zu (%s) is observed by a %s that does not list it", when, i, p->get_label().c_str(), l.c_str());
			}
		}
		if (known > p->n_audience()) violate("links:audience-size", "after %s node %zu has %zu observers but %zu were found", when, i, p->n_audience(), known);
		if (g.ents[i].kind == 'h' && p->n_audience() && !g.held.size()) violate("links:husk-observed", "after %s a moved-from node still has observers", when);
	}
	for (auto& h : g.held) if (h->v.get())
	{
		if (heap_owns(h->v.get()) && !heap_is_live(h->v.get())) violate("links:dead-argument", "after %s a handle refers to a destroyed node", when);
		if (h->v.get()->no_audience()) violate("links:unregistered", "after %s a handle is not registered with its node", when);
	}
	count("probe.link-checks");
}
void real_world (const Plan& p)
{
	Rng r(mix(p.seed, 5));
	GraphWorld g;
	g.use_fresh = false;
	g.drop_leaf_husks = p.num("husks", 0);
	
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		log("%s", s.c_str());
		if (o.name == "hcp" || o.name == "has" || o.name == "hnull" || o.name == "hclr" || o.name == "hmas" )
		{
			// handles: copy, re-target, empty
			if (g.held.empty()) { g.held.emplace_back(new GraphWorld::Held(nullptr)); }
			size_t a = (size_t) o.arg(0) % g.held.size(), b = (size_t) o.arg(1) % g.held.size();
			gnode* na = g.held[a]->v.get();
			gnode* nb = g.held[b]->v.get();
			if (o.name == "hcp") { g.held.emplace_back(new GraphWorld::Held(nullptr)); g.held.back()->v = g.held[a]->v; }
			else if (o.name == "has") g.held[a]->v = nb;
			else if (o.name == "hnull") g.held[a]->v = (gnode*) nullptr;
			else if (o.name == "hmas") { if (a != b) g.held[a]->v = std::move(g.held[b]->v); }
			else g.held[a]->v.clear();
			gnode* want = o.name == "hcp" ? na : o.name == "has" || o.name == "hmas" ? nb : nullptr;
			gnode* got = (o.name == "hcp" ? g.held.back() : g.held[a])->v.get();
			if (got != want) violate("links:handle", "a handle refers to the wrong node after %s", s.c_str());
			count("probe.handles-retargeted");
		}
		else if (!g.apply(o, r)) harness_error("unknown operation %s", s.c_str());
		g.spread_freeze();
		if (g.poisoned) break;
		check_real(g, s.c_str());
	}
	for (size_t i = 0; i < g.ents.size(); i++) if (g.alive(i) && g.ents[i].frozen && g.conn(g.ents[i].kind)) g.thaw(i);
	if (!g.poisoned) g.read_all(false);
	nontrivial();
	g.teardown(r);

}

void gen8 (Rng& r, Plan& p)
{
	p.set("reuse", std::to_string(r.chance(0.3) ? 0.0 : r.unit()));
	p.set("lanes", r.range(1, 6));
	p.set("gap", r.chance(0.5) ? 0 : r.range(1, 20));
	bool mock = r.chance(0.6);
	p.set("world", mock ? 1 : 0);
	long n = r.range(6, r.chance(0.3) ? 60 : 25);
	if (mock)
	{
		long st = r.range(0, 3);
		for (long i = 0; i < 3; i++) p.ops.push_back(make_op("s", {r.chance(0.7) ? 0 : st}));
		for (long i = 0; i < n; i++)
		{
			double u = r.unit();
			long a = r.range(0, 60), b = r.range(0, 60);
			if (u < 0.10) p.ops.push_back(make_op("s", {r.range(0, 3)}));
			else if (u < 0.30)
			{
				std::vector<long> v{r.range(0, 3), r.range(0, 4)};
				for (long k = 0; k < v[1]; k++) v.push_back(r.range(0, 60));
				p.ops.push_back(make_op(r.chance(0.5) ? "o" : "n", v));
			}
			else if (u < 0.37) p.ops.push_back(make_op("add", {a, b}));
			else if (u < 0.44) p.ops.push_back(make_op("rm", {a, b}));
			else if (u < 0.45) p.ops.push_back(make_op("rmbad", {a, b}));
			else if (u < 0.55) p.ops.push_back(make_op("rep", {a, b, r.range(0, 4)}));
			else if (u < 0.61) p.ops.push_back(make_op("cp", {a}));
			else if (u < 0.68) p.ops.push_back(make_op("mv", {a}));
			else if (u < 0.75) p.ops.push_back(make_op(r.chance(0.5) ? "cas" : "mas", {a, b}));
			else if (u < 0.80) p.ops.push_back(make_op("steal", {a, b}));
			else if (u < 0.90) p.ops.push_back(make_op("del", {a}));
			else if (u < 0.93) p.ops.push_back(make_op("unsub", {a}));
			else p.ops.push_back(make_op("reent", {a, b, r.range(0, 5), r.range(0, 60)}));
		}
		return;
	}
	p.set("husks", r.chance(0.6) ? 1 : 0);
	for (long i = 0; i < 4; i++) p.ops.push_back(make_op(r.chance(0.8) ? "var" : "ph", {r.range(0, 3), 1}));
	for (long i = 0; i < n; i++)
	{
		double u = r.unit();
		long a = r.range(0, 40), b = r.range(0, 40), k = r.range(0, 79);
		if (u < 0.10) p.ops.push_back(make_op(r.chance(0.6) ? "var" : r.chance(0.5) ? "ph" : "const", {k % 10, 1}));
		else if (u < 0.45)
		{
			double y = r.unit();
			p.ops.push_back(y < 0.35 ? make_op("un", {k, a, (k + b) % 12}) : y < 0.5 ? make_op("sca", {k, a, b, (k + b) % 12}) : y < 0.92 ? make_op("bin", {k, a, b, (k + b) % 12}) : make_op("gen", {k, a, b}));
		}
		else if (u < 0.50) p.ops.push_back(make_op("der", {a, b}));
		else if (u < 0.55) p.ops.push_back(make_op("set", {a}));
		else if (u < 0.60) p.ops.push_back(make_op("read", {a, 0}));
		else if (u < 0.65) p.ops.push_back(make_op("clone", {a}));
		else if (u < 0.71) p.ops.push_back(make_op("mv", {a, b}));
		else if (u < 0.75) p.ops.push_back(make_op("lmv", {a}));
		else if (u < 0.79) p.ops.push_back(make_op(r.chance(0.5) ? "lcp" : "lma", {a, b}));
		else if (u < 0.83) p.ops.push_back(make_op("cas", {a, b, k}));
		else if (u < 0.88) p.ops.push_back(make_op("del", {a, b}));
		else if (u < 0.92) p.ops.push_back(r.chance(0.6) ? make_op("hold", {a}) : make_op("drop", {a}));
		else { static const char* hs[] = {"hcp", "has", "hnull", "hclr", "hmas"}; p.ops.push_back(make_op(hs[r.below(5)], {a, b})); }
	}
}
void exec8 (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.lanes = (int) p.num("lanes", 2);
	h.gap = (int) p.num("gap", 0);
	h.reuse = p.real("reuse", 0);
	heap_start(h);
	nnutils::seed_generator((size_t) (p.seed | 1));
	if (p.num("world")) mock_world(p); else real_world(p);
}
Reg r8({"C08",
	"a run is non-trivial when its whole history of operations was carried out; distinct = distinct operation-and-population history hash",
	"real: observer/subject links, leaves, operators, handles under AddressSanitizer; test doubles: minimal observers and subjects deriving from the library's own base classes; simulated: heap placement and address reuse (and with it notification order)",
	12000, 400000, gen8, exec8,
	"probe.rewired-during-notification,probe.destroyed,probe.unsubscribed,probe.stolen,probe.moved,probe.leaves-moved-over,probe.operators-assigned",
	"registered positions are read off notifications; an observer never (indirectly) observes itself", 20000});
}
