// C15-C18: models saved to and loaded from a simulated disk that fails, fills up, tears, loses power and rots.
#include "zoo.h"
#include "sysgate.h"
#include "memory/tensor_io.hpp"
#include <unistd.h>
using namespace sim;

// contents of a file as far as the saves tell: label -> position -> parameter
typedef std::map<std::string, std::map<size_t, Param> > Content;

static const char* const LABELS[] = {"", "net", "net:0", "a", "m1", "m", "model with spaces", "0", "net:1"};
static const int NLAB = sizeof LABELS / sizeof *LABELS;
static const char* const FILES[] = {"models.pbx", "other.pbx"};

struct StoreWorld
{
	std::vector<std::unique_ptr<Model> > ms;
	Content cur[2];
	bool exists[2] = {false, false};
	bool damaged[2] = {false, false};   // contents may be missing, never wrong
	bool armed = false, crashing = false;
	bool* shret;
	Rng r;
	int nsaves = 0, nloads = 0;
	explicit StoreWorld (uint64_t seed) : shret((bool*) shared_alloc(4096)), r(seed) {}

	Model* at (long i) { return ms.empty() ? nullptr : ms[i % ms.size()].get(); }
	std::string label (Model* m, long l) { const char* s = LABELS[l % NLAB]; return *s ? s : m->scope; }

	// what saving the model now has to put into the file
	Content snapshot (Model* m, const std::string& l)
	{
		Content c;
		std::vector<zvar*> v = m->vars();
		for (size_t i = 0; i < v.size(); i++) { Param p; if (take_param(v[i], p)) c[l][i] = p; }
		if (m->dq)
		{
			// the target network has no accessor: its order is found by saving it to a healthy scratch file
			std::vector<Param> t = target_params(m);
			c["target_" + l];
			for (size_t i = 0; i < t.size(); i++) c["target_" + l][i] = t[i];
		}
		return c;
	}
	std::vector<Param> target_leaves (Model* m)
	{
		std::vector<Param> p;
		for (zvar* v : m->target()) { Param q; if (take_param(v, q)) p.push_back(q); }
		std::sort(p.begin(), p.end());
		return p;
	}
	std::vector<Param> target_params (Model* m)
	{
		std::vector<Param> leaves = target_leaves(m), ordered;
		if (leaves.empty()) return ordered;
		std::vector<gshape> sh = m->a.shapes();
		fs_quiet(true);
		remove("scratch.pbx");
		bool ok = m->save("scratch.pbx", "S");
		if (!ok) violate("save:refused", "saving a Q-learning model to a new file failed although nothing went wrong");
		Content got;
		for (size_t i = 0; i < sh.size(); i++) got["target_S"][i];
		bool file;
		got = observe("scratch.pbx", got, file);
		remove("scratch.pbx");
		fs_quiet(false);
		for (size_t i = 0; i < sh.size(); i++)
		{
			auto it = got["target_S"].find(i);
			if (it == got["target_S"].end()) violate("save:incomplete", "parameter %zu of the target network is missing after a successful save", i);
			ordered.push_back(it->second);
		}
		std::vector<Param> sorted = ordered;
		std::sort(sorted.begin(), sorted.end());
		if (sorted != leaves) violate("save:wrong-content", "the saved target network is not the model's target network");
		return ordered;
	}
	// read positions of interest back with fresh variables of unknown shape; found ones only
	Content observe (const char* f, const Content& want, bool& file)
	{
		Content got;
		file = true;
		fs_quiet(true);
		for (auto& l : want)
		{
			size_t n = 0;
			for (auto& p : l.second) n = std::max(n, p.first + 1);
			if (!n) continue;
			std::vector<std::unique_ptr<zvar> > v;
			std::vector<gnode*> nv;
			for (size_t i = 0; i < n; i++) { v.emplace_back(new zvar(nnet::tensorshape(gshape{}), "probe")); nv.push_back(v.back().get()); }
			file = nnet::read_inorder<double>(nv, l.first, f);
			std::set<gnode*> missing(nv.begin(), nv.end());
			for (size_t i = 0; i < n; i++)
			{
				Param p;
				bool has = take_param(v[i].get(), p);
				if (!file && has) violate("load:installed", "position %zu of \"%s\" was installed although loading reported failure", i, l.first.c_str());
				if (!file) continue;
				if (missing.count(v[i].get())) { if (has) violate("load:installed", "position %zu of \"%s\" was reported missing but has contents %s", i, l.first.c_str(), pstr(p).c_str()); continue; }
				if (!has) violate("load:empty", "position %zu of \"%s\" was reported loaded but has no contents", i, l.first.c_str());
				got[l.first][i] = p;
			}
		}
		fs_quiet(false);
		return got;
	}
	static bool present (const char* f) { return access(f, F_OK) == 0; }
	// does the file hold this state? why not, otherwise
	bool matches (const Content& want, const Content& got, bool subset, std::string& why)
	{
		for (auto& l : want)
			for (auto& p : l.second)
			{
				auto gl = got.find(l.first);
				bool has = gl != got.end() && gl->second.count(p.first);
				std::string at = "\"" + l.first + "\" position " + std::to_string(p.first);
				if (!has) { if (subset) continue; why = at + " is missing"; return false; }
				if (gl->second.at(p.first) != p.second) { why = at + " is " + pstr(gl->second.at(p.first)) + " instead of " + pstr(p.second); return false; }
			}
		return true;
	}
	static Content both (const Content& a, const Content& b)
	{
		Content c = a;
		for (auto& l : b) for (auto& p : l.second) c[l.first][p.first] = p.second;
		return c;
	}

	struct Job { StoreWorld* w; std::function<bool()> doit; };
	static void machine_save (void* a) { Job* j = (Job*) a; *j->w->shret = j->doit(); }

	void save (Model* m, int f, long li, int mode, uint64_t plseed)
	{
		std::string l = label(m, li);
		if (m->dq && li % NLAB == 2) l = "net";
		// bookkeeping first: it must not meet the faults
		if (armed) suspend();
		Content add = snapshot(m, l);
		save_as(add, l, f, mode, plseed, [&] { return m->save(FILES[f], l); });
	}
	// loose nodes of all kinds of shapes, in one or two groups written together
	void rawsave (int f, uint64_t seed, int mode, uint64_t plseed)
	{
		Rng q(seed);
		std::vector<std::unique_ptr<zvar> > own;
		std::vector<gptr> hold;
		std::vector<std::pair<std::string, std::vector<gnode*> > > groups;
		Content add;
		if (armed) suspend();
		size_t ng = q.chance(0.3) ? 2 : 1;
		for (size_t g = 0; g < ng; g++)
		{
			std::string l = LABELS[1 + q.below(NLAB - 1)];
			if (add.count(l)) continue;
			add[l];
			groups.push_back({l, {}});
			size_t n = 1 + q.below(q.chance(0.2) ? 14 : 4);
			for (size_t i = 0; i < n; i++)
			{
				gshape s, allow;
				for (size_t k = 1 + q.below(4); k; k--) s.push_back(1 + q.below(q.chance(0.4) ? 1 : 3));
				allow = s;
				if (q.chance(0.35)) for (size_t& d : allow) if (q.chance(0.5)) d = 0;
				if (q.chance(0.1)) allow.clear();
				own.emplace_back(new zvar(nnet::tensorshape(allow), "raw"));
				zvar* v = own.back().get();
				if (q.chance(0.88))
				{
					gvec x(gn(s));
					for (double& d : x) d = q.chance(0.1) ? unbits(q.next()) : q.unit() * 2 - 1;
					v->set_initializer(vec_init(x));
					if (allow == s) v->initialize();
					else v->initialize(nnet::tensorshape(s));
					Param p;
					if (!take_param(v, p)) violate("param:empty", "an initialised variable has no contents");
					if (p.s != s || p.b != bits(x)) violate("param:initialise", "a variable initialised with shape and values holds %s", pstr(p).c_str());
				}
				gnode* n1 = v;
				// any node may be saved, not only variables
				if (q.chance(0.15) && v->good_status()) { hold.push_back(-gptr(v)); n1 = hold.back().get(); }
				Param p;
				if (take_param(n1, p)) add[l][i] = p;
				groups.back().second.push_back(n1);
			}
		}
		count("probe.raw-saves");
		save_as(add, groups[0].first, f, mode, plseed, [&]
		{
			if (groups.size() == 1 && (seed & 1)) return nnet::write_inorder<double>(groups[0].second, groups[0].first, FILES[f]);
			return nnet::write_inorder<double>(groups, FILES[f]);
		});
		hold.clear();
	}

	void save_as (Content add, std::string l, int f, int mode, uint64_t plseed, std::function<bool()> doit)
	{
		bool was_armed = armed, was_crashing = crashing;
		Content old = cur[f], next = old;
		for (auto& x : add)
		{
			// positions the new contents do not have are of no interest any more
			next[x.first] = x.second;
		}
		// a parameter without contents is not saved: what an earlier save left there is of no interest
		next[l].clear();
		for (auto& x : add[l]) next[l][x.first] = x.second;
		if (mode == 2) fs_make_durable();
		if (was_armed) resume();
		armed = crashing = false;
		nsaves++;
		bool ok = false, crashed = false;
		if (mode == 0 && was_crashing) mode = 1;
		if (mode == 0) ok = doit();
		else
		{
			Job j{this, doit};
			*shret = false;
			crashed = run_machine(machine_save, &j) == 42;
			ok = !crashed && *shret;
		}
		bool fault = fs_fault_fired(), lost = fs_write_lost();
		fs_arm(); // the trouble is over
		if (crashed) count("probe.saves-crashed");
		else count(ok ? "probe.saves-ok" : "probe.saves-failed");
		if (mode == 2) { fs_power_loss(plseed); }
		if (fault || mode == 2) nontrivial();
		log("save %s %s ok %d crashed %d fault %d", FILES[f], l.c_str(), ok, crashed, fault);

		Content interest = both(next, old);
		bool file;
		Content got = observe(FILES[f], interest, file);
		std::string w1, w2;
		bool isnew = file && matches(next, got, damaged[f], w1);
		if (isnew && damaged[f]) for (auto& x : add) { Content one; one[x.first] = x.second; std::string w; if (!matches(one, got, false, w)) { isnew = false; w1 = w; } }
		bool unreadable_ok = !exists[f] || damaged[f];
		bool isold = file ? (matches(old, got, damaged[f], w2) && (exists[f] || got.empty())) : unreadable_ok;
		if (!file && !w2.size()) w2 = "the file cannot be read";
		bool must_new = ok;
		if (must_new && !isnew)
			violate(mode == 2 ? "save:success-lost-with-power" : lost ? "save:success-but-lost" : "save:success-not-loadable", "saving reported success%s but %sloading finds that %s", lost ? " although writing failed" : "", mode == 2 ? "power was lost and " : "", file ? w1.c_str() : "the file cannot be read");
		if (!ok && !crashed && !fault && !damaged[f]) violate("save:refused", "saving failed although nothing went wrong");
		if (!isnew && !isold)
			violate(crashed ? "save:torn-by-crash" : mode == 2 ? "save:torn-by-power-loss" : "save:torn-by-error",
				"after %s save under \"%s\" the file holds neither the old nor the new state: new: %s; old: %s",
				crashed ? "an interrupted" : mode == 2 ? "a power loss after a" : ok ? "a" : "a failed", l.c_str(), file ? w1.c_str() : "the file cannot be read", w2.c_str());
		if (isnew && (ok || !isold || crashed))
		{
			if (damaged[f]) { Content keep; for (auto& x : got) for (auto& p : x.second) { auto it = next.find(x.first); if (it != next.end() && it->second.count(p.first)) keep[x.first][p.first] = p.second; } cur[f] = keep; }
			else cur[f] = next;
		}
		else if (!isnew) { cur[f] = old; }
		exists[f] = present(FILES[f]);
	}
	std::vector<std::vector<long> > pend;
	void suspend () { fs_arm(); }
	void resume () { fs_arm(); for (auto& x : pend) fs_fault((int) x[0], x[1], (int) x[2], x[3]); pend.clear(); }

	void load (Model* m, int f, long li)
	{
		std::string l = label(m, li);
		if (m->dq && li % NLAB == 2) l = "net";
		std::vector<gshape> sh = m->a.shapes();
		bool was = armed;
		armed = crashing = false;
		if (was) resume();
		nloads++;
		m->initialize(FILES[f], l);
		bool err = fs_error_returned();
		fs_arm();
		count("probe.loads");
		std::vector<std::string> labels{l};
		if (m->dq) labels.push_back("target_" + l);
		bool all = true;
		for (auto& x : labels)
		{
			auto it = cur[f].find(x);
			bool full = exists[f] && it != cur[f].end();
			for (size_t i = 0; full && i < sh.size(); i++) full = it->second.count(i) && it->second.at(i).s == sh[i];
			all = all && full;
		}
		std::vector<zvar*> v = m->vars();
		bool exact = true;
		std::string why;
		for (size_t i = 0; i < v.size(); i++)
		{
			Param p;
			if (!take_param(v[i], p)) violate("load:uninitialised", "parameter %zu has no contents after loading \"%s\"", i, l.c_str());
			if (p.s != sh[i]) violate("load:wrong-shape", "parameter %zu has shape %s after loading \"%s\"", i, pstr(p).c_str(), l.c_str());
			if (all && p != cur[f][l][i]) { exact = false; why = "parameter " + std::to_string(i) + " is " + pstr(p) + " instead of " + pstr(cur[f][l][i]); }
		}
		if (m->dq)
		{
			std::vector<Param> t = target_leaves(m), s;
			if (t.size() != sh.size()) violate("load:uninitialised", "%zu of %zu parameters of the target network have contents after loading", t.size(), sh.size());
			if (all)
			{
				for (auto& x : cur[f]["target_" + l]) if (x.first < sh.size()) s.push_back(x.second);
				std::sort(s.begin(), s.end());
				if (s != t) { exact = false; why = "the target network differs from what was saved"; }
			}
		}
		if (all && !err && !damaged[f])
		{
			count("probe.loads-exact");
			if (!exact) violate("load:not-restored", "loading \"%s\" did not restore what was saved: %s", l.c_str(), why.c_str());
		}
		else count("probe.loads-fell-back");
		log("load %s %s all %d err %d exact %d", FILES[f], l.c_str(), all, err, exact);
		// usable either way
		gvec x;
		for (size_t i = 0; i < m->a.nin; i++) x.push_back(0.25 * (double) (i + 1));
		gvec y = m->predict(x);
		if (y.size() != m->a.hid.back()) violate("load:unusable", "after loading, a prediction has %zu values", y.size());
		for (double d : y) log_hash(bits(d));
	}
	// a shape with unknown dimensions agrees with a full one
	static bool agrees (const gshape& allow, const gshape& s)
	{
		if (allow.size() != s.size()) return false;
		for (size_t i = 0; i < s.size(); i++) if (allow[i] && allow[i] != s[i]) return false;
		return true;
	}
	static gshape filled (gshape s) { for (size_t& d : s) if (!d) d = 1; return s; }
	// positions read one by one into variables that already hold something
	void rawread (int f, long li, uint64_t seed, bool badshape)
	{
		std::string l = LABELS[li % NLAB];
		if (l.empty()) l = ms.empty() ? "x" : at((long) seed)->scope;
		if (seed % 3 == 0) l = "target_" + l;
		Rng q(seed);
		auto it = cur[f].find(l);
		size_t n = it == cur[f].end() || it->second.empty() ? 2 : it->second.rbegin()->first + 2;
		std::vector<std::unique_ptr<zvar> > v;
		std::vector<gnode*> nv;
		std::vector<Param> before(n);
		std::vector<bool> had(n), fits(n);
		for (size_t i = 0; i < n; i++)
		{
			gshape s = {1 + q.below(3), 1 + q.below(3)};
			if (it != cur[f].end() && it->second.count(i) && !(badshape && q.chance(0.4))) s = it->second.at(i).s;
			fits[i] = it != cur[f].end() && it->second.count(i) && it->second.at(i).s == s;
			gshape allow = s;
			if (q.chance(0.25)) { for (size_t& d : allow) if (q.chance(0.5)) d = 0; if (it != cur[f].end() && it->second.count(i)) fits[i] = fits[i] || agrees(allow, it->second.at(i).s); }
			v.emplace_back(new zvar(nnet::tensorshape(allow), "raw"));
			had[i] = allow == s && q.chance(0.7);
			if (had[i]) { gvec g(gn(s)); for (double& d : g) d = 100 + q.unit(); put_param(v[i].get(), g); take_param(v[i].get(), before[i]); }
			nv.push_back(v[i].get());
		}
		bool was = armed;
		armed = crashing = false;
		if (was) resume();
		bool ok = nnet::read_inorder<double>(nv, l, FILES[f]);
		bool err = fs_error_returned();
		fs_arm();
		std::set<gnode*> missing(nv.begin(), nv.end());
		if (!ok && nv.size() != n) violate("load:half", "loading failed but some positions are gone from the list of those not loaded");
		if (!ok && !err && exists[f] && !damaged[f]) violate("load:refused", "an undamaged file could not be read");
		count(ok ? "probe.raw-reads" : "probe.raw-reads-refused");
		for (size_t i = 0; i < n; i++)
		{
			Param p;
			bool has = take_param(v[i].get(), p);
			if (missing.count(v[i].get()))
			{
				if (ok && fits[i] && !err && !damaged[f]) violate("load:not-found", "\"%s\" position %zu is stored but was not loaded", l.c_str(), i);
				if (has != had[i] || (has && p != before[i])) violate("load:altered", "\"%s\" position %zu was reported as not loaded but changed from %s to %s", l.c_str(), i, had[i] ? pstr(before[i]).c_str() : "nothing", has ? pstr(p).c_str() : "nothing");
				if (!had[i])
				{
					// still usable
					v[i]->set_initializer(vec_init({0.5}));
					if (v[i]->get_shape().is_fully_defined()) v[i]->initialize();
					else v[i]->initialize(nnet::tensorshape(filled(v[i]->get_shape().as_list())));
					if (!take_param(v[i].get(), p)) violate("load:unusable", "a variable whose load failed cannot be initialised");
				}
			}
			else
			{
				if (!has) violate("load:empty", "\"%s\" position %zu was reported loaded but has no contents", l.c_str(), i);
				if (!fits[i]) { if (it == cur[f].end() || !it->second.count(i)) { count("probe.loads-of-forgotten-positions"); continue; } violate("load:wrong-shape", "\"%s\" position %zu: contents of another shape %s were installed", l.c_str(), i, pstr(p).c_str()); }
				if (p != it->second.at(i)) violate("load:wrong-content", "\"%s\" position %zu loaded as %s but was saved as %s", l.c_str(), i, pstr(p).c_str(), pstr(it->second.at(i)).c_str());
			}
		}
	}
	static std::string slurp (const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
	void damage (int f, int kind, uint64_t a, uint64_t b)
	{
		fs_quiet(true);
		std::string s = slurp(FILES[f]);
		if (s.empty()) { fs_quiet(false); return; }
		Rng q(mix(a, b));
		size_t n = s.size();
		const char* name;
		switch (kind % 9)
		{
			case 0: s.resize(a % n); name = "fault.file-truncated"; break;
			case 1: { int k = 1 + (int) (b % 3); while (k--) { size_t i = q.below(n); s[i] ^= (char) (1 << q.below(8)); } name = "fault.bits-flipped"; break; }
			case 2: { size_t i = q.below(n), len = 1 + q.below(std::min<size_t>(n - i, b % 2 ? 16 : 512)); for (size_t k = 0; k < len; k++) s[i + k] = (char) q.below(256); name = "fault.region-garbled"; break; }
			case 3: { size_t i = q.below(n), len = 1 + q.below(std::min<size_t>(n - i, 512)); for (size_t k = 0; k < len; k++) s[i + k] = 0; name = "fault.region-zeroed"; break; }
			case 4: { size_t len = 1 + q.below(64); for (size_t k = 0; k < len; k++) s += (char) q.below(256); name = "fault.garbage-appended"; break; }
			case 5: { size_t i = q.below(n), len = 1 + q.below(n - i); s.erase(i, len); name = "fault.region-lost"; break; }
			case 6: { size_t i = q.below(n), j = q.below(n), len = std::min(q.below(64) + 1, (uint64_t) n - std::max(i, j)); for (size_t k = 0; k < len; k++) std::swap(s[i + k], s[j + k]); name = "fault.regions-swapped"; break; }
			case 7: s.clear(); name = "fault.file-emptied"; break;
			default: { size_t i = q.below(n); s[i] = (char) q.below(256); name = "fault.byte-changed"; break; }
		}
		std::ofstream o(FILES[f], std::ios::binary | std::ios::trunc);
		o.write(s.data(), s.size());
		o.close();
		fs_quiet(false);
		count(name);
		damaged[f] = true;
		nontrivial();
	}
	void wipe (int f)
	{
		fs_quiet(true);
		remove(FILES[f]);
		fs_quiet(false);
		cur[f].clear();
		exists[f] = damaged[f] = false;
	}
	void audit (int f)
	{
		bool file;
		Content got = observe(FILES[f], cur[f], file);
		std::string why;
		if (!file) { if (exists[f] && !damaged[f]) violate("store:unreadable", "the file cannot be read any more"); return; }
		if (!matches(cur[f], got, damaged[f], why)) violate("store:disturbed", "contents changed without a save of them: %s", why.c_str());
	}

	bool apply (const Op& o)
	{
		if (o.name == "mk")
		{
			if (ms.size() >= 6) return true;
			Arch a;
			a.kind = (int) (o.arg(0) % Z_N);
			Rng q(o.arg(1));
			bool big = q.chance(0.08);
			a.nin = big ? 20 + q.below(20) : 1 + q.below(3);
			size_t lv = q.chance(0.06) && !big ? 5 + q.below(3) : 1 + q.below(2);
			if (a.kind == Z_RBM || a.kind == Z_GDR) lv = 1;
			for (size_t i = 0; i < lv; i++) a.hid.push_back(big ? 30 + q.below(20) : 1 + q.below(3));
			a.upd = a.kind == Z_DQ ? 1 : (int) q.below(2);
			// sharing an architecture makes loads across models succeed
			if (!ms.empty() && q.chance(0.5)) { int k = a.kind; Arch b = q.pick(ms)->a; if ((k == Z_RBM || k == Z_GDR) == (b.kind == Z_RBM || b.kind == Z_GDR)) { b.kind = k; a = b; } }
			ms.emplace_back(new Model);
			ms.back()->build(a, "scope" + std::to_string(ms.size()));
			if (o.arg(2)) ms.back()->initialize();
		}
		else if (o.name == "rm") { if (ms.size() > 1) ms.erase(ms.begin() + o.arg(0) % ms.size()); }
		else if (o.name == "init") { if (Model* m = at(o.arg(0))) m->initialize(); }
		else if (o.name == "pert")
		{
			if (Model* m = at(o.arg(0)))
			{
				if (m->dq && !m->init) m->initialize();
				Rng q(o.arg(1));
				static const uint64_t odd[] = {0, 0x8000000000000000ull, 1, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff4dead0000beefull, 0xffffffffffffffffull, 0x000fffffffffffffull, 0x7fefffffffffffffull};
				std::vector<gshape> sh = m->a.shapes();
				std::vector<zvar*> v = m->vars(), t = m->target();
				// target leaves come in no fixed order: give each its values by position of its shape and label
				std::sort(t.begin(), t.end(), [](zvar* x, zvar* y) { return x->get_label() < y->get_label(); });
				v.insert(v.end(), t.begin(), t.end());
				for (zvar* x : v)
				{
					if (q.chance(0.2)) continue;
					gvec g(gn(x->get_shape().as_list()));
					bool weird = q.chance(0.3);
					for (double& d : g) d = weird && q.chance(0.4) ? unbits(odd[q.below(10)]) : q.unit() * 2 - 1;
					put_param(x, g);
				}
			}
		}
		else if (o.name == "train")
		{
			Model* m = at(o.arg(0));
			if (m && m->gd && m->init)
			{
				Rng q(o.arg(1));
				gvec x(m->a.nin * 2), y(m->a.hid.back() * 2);
				for (double& d : x) d = q.unit();
				for (double& d : y) d = q.unit();
				m->gd->train(x, y);
			}
		}
		else if (o.name == "flt")
		{
			if (pend.size() < 6) pend.push_back({o.arg(0) % FC_N, o.arg(1), o.arg(2) % FK_N, o.arg(3)});
			armed = true;
			long k = o.arg(2) % FK_N;
			if (k == FK_CRASH_BEFORE || k == FK_CRASH_TORN || k == FK_CRASH_AFTER) crashing = true;
		}
		else if (o.name == "save")
		{
			if (Model* m = at(o.arg(0))) { save(m, (int) (o.arg(1) & 1), o.arg(2), (int) (o.arg(3) % 3), o.arg(4)); if (o.arg(4) & 1) audit(1 - (int) (o.arg(1) & 1)); }
		}
		else if (o.name == "rsv") rawsave((int) (o.arg(0) & 1), o.arg(1), (int) (o.arg(2) % 3), o.arg(3));
		else if (o.name == "load")
		{
			// a load that is meant to be interrupted by a crash leaves nothing to look at
			if (crashing) { pend.clear(); armed = crashing = false; }
			if (Model* m = at(o.arg(0))) load(m, (int) (o.arg(1) & 1), o.arg(2));
		}
		else if (o.name == "raw")
		{
			if (crashing) { pend.clear(); armed = crashing = false; }
			rawread((int) (o.arg(0) & 1), o.arg(1), o.arg(2), o.arg(3) & 1);
		}
		else if (o.name == "dmg") damage((int) (o.arg(0) & 1), (int) o.arg(1), o.arg(2), o.arg(3));
		else if (o.name == "wipe") wipe((int) (o.arg(0) & 1));
		else return false;
		return true;
	}
};

static void execs (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.reuse = 0.5;
	heap_start(h);
	nnutils::seed_generator((size_t) (p.seed | 1));
	fs_open_disk();
	{
		StoreWorld w(mix(p.seed, 3));
		for (auto& s : p.ops)
		{
			Op o = parse_op(s);
			log("%s", s.c_str());
			if (!w.apply(o)) harness_error("unknown operation %s", s.c_str());
		}
		w.audit(0);
		w.audit(1);
		if (w.nsaves > 1) nontrivial();
	}
	fs_close_disk();
}

struct SMix { double pert, train, save, load, raw, flt, dmg, wipe, other; double crash, power; int lab; };
static void gens (Rng& r, Plan& p, const SMix& m)
{
	long nm = r.range(1, 4);
	for (long i = 0; i < nm; i++) p.ops.push_back(make_op("mk", {(long) r.below(Z_N), (long) r.below(1000000), (long) r.chance(0.9)}));
	long n = r.range(3, r.chance(0.3) ? 24 : 12);
	for (long i = 0; i < n; i++)
	{
		double w[] = {m.pert, m.train, m.save, m.load, m.raw, m.dmg, m.wipe, m.other}, t = 0;
		for (double x : w) t += x;
		double u = r.unit() * t;
		int c = 0;
		while (c < 7 && u >= w[c]) u -= w[c++];
		long mi = r.range(0, 5), f = r.chance(0.2), l = r.below(m.lab);
		auto faults = [&](bool wr)
		{
			if (!r.chance(m.flt)) return;
			int k = r.chance(0.8) ? 1 : 2;
			while (k--)
			{
				static const int wc[] = {FC_WRITE, FC_WRITE, FC_WRITE, FC_OPEN, FC_CLOSE, FC_SYNC, FC_RENAME, FC_OTHER, FC_READ, FC_ANY, FC_ANY};
				static const int rc[] = {FC_READ, FC_READ, FC_OPEN, FC_CLOSE, FC_ANY};
				int cat = wr ? wc[r.below(11)] : rc[r.below(5)];
				int kind;
				if (wr && r.chance(m.crash)) kind = (int) r.range(FK_CRASH_BEFORE, FK_CRASH_AFTER);
				else { static const int fk[] = {FK_EIO, FK_ENOSPC, FK_SHORT, FK_EINTR, FK_EACCES, FK_FULL}; kind = fk[r.below(6)]; }
				p.ops.push_back(make_op("flt", {cat, r.chance(0.6) ? (long) r.below(2) : (long) r.below(cat == FC_ANY ? 14 : 5), kind, (long) r.below(5000)}));
			}
		};
		switch (c)
		{
			case 0: p.ops.push_back(make_op("pert", {mi, (long) r.below(1000000)})); break;
			case 1: p.ops.push_back(make_op("train", {mi, (long) r.below(1000000)})); break;
			case 2: faults(true);
				if (r.chance(0.25)) p.ops.push_back(make_op("rsv", {f, (long) r.below(1000000), r.chance(m.power) ? 2 : r.chance(0.1), (long) r.below(1000000)}));
				else p.ops.push_back(make_op("save", {mi, f, l, r.chance(m.power) ? 2 : r.chance(0.1), (long) r.below(1000000)})); break;
			case 3: faults(false); p.ops.push_back(make_op("load", {mi, f, l})); break;
			case 4: faults(false); p.ops.push_back(make_op("raw", {f, l, (long) r.below(1000000), (long) r.chance(0.5)})); break;
			case 5: p.ops.push_back(make_op("dmg", {f, (long) r.below(9), (long) r.below(1000000), (long) r.below(1000000)})); break;
			case 6: p.ops.push_back(make_op("wipe", {f})); break;
			default: { double y = r.unit(); p.ops.push_back(y < 0.5 ? make_op("mk", {(long) r.below(Z_N), (long) r.below(1000000), (long) r.chance(0.8)}) : y < 0.7 ? make_op("rm", {mi}) : make_op("init", {mi})); }
		}
	}
}
//                                          pert tr   save load raw  flt  dmg wipe oth  crash pow lab
static void g15 (Rng& r, Plan& p) { gens(r, p, {.20, .06, .40, .20, .05, .75, .00, .03, .06, .00, .12, 4}); }
static void g16 (Rng& r, Plan& p) { gens(r, p, {.22, .04, .50, .06, .02, .80, .00, .02, .05, .65, .35, 6}); }
static void g17 (Rng& r, Plan& p) { gens(r, p, {.10, .02, .25, .16, .22, .12, .20, .01, .04, .05, .05, 4}); }
static void g18 (Rng& r, Plan& p) { gens(r, p, {.20, .06, .36, .22, .10, .12, .00, .02, .10, .20, .03, NLAB}); }

#define REALS "real: model and layer code, tensor serialisation, protobuf, C++ streams and libc down to the system call, under AddressSanitizer; simulated: storage results, crashes, power loss images and file damage (system-call filter), heap placement, random generator seed"
#define FAULTSS "fault.write-EIO,fault.write-ENOSPC,fault.write-short,fault.write-EINTR,fault.write-disk-full,fault.disk-still-full,fault.open-EIO,fault.open-ENOSPC,fault.open-EMFILE,fault.close-EIO,fault.close-ENOSPC,fault.sync-EIO,fault.sync-ENOSPC,fault.sync-EINTR,fault.rename-EIO,fault.rename-ENOSPC,fault.other-EIO,fault.read-EIO,fault.read-EINTR,fault.read-short,fault.write-crash-before,fault.write-crash-torn,fault.write-crash-after,fault.open-crash-before,fault.open-crash-after,fault.close-crash-before,fault.close-crash-after,fault.sync-crash-before,fault.sync-crash-after,fault.rename-crash-before,fault.rename-crash-after,fault.read-crash-before,fault.power-loss,fault.write-lost-on-power-loss,fault.torn-write-on-power-loss,fault.name-change-lost-on-power-loss,fault.file-truncated,fault.bits-flipped,fault.region-garbled,fault.region-zeroed,fault.garbage-appended,fault.region-lost,fault.regions-swapped,fault.file-emptied,fault.byte-changed"
#define RULES "a run is non-trivial when a storage fault fired, a file was damaged or at least two saves were made; distinct = distinct operation-and-outcome history hash"
static Reg s15({"C15", RULES, REALS, 9000, 200000, g15, execs, FAULTSS, "the file is judged by reading it back without faults; a save may fail whenever a fault was injected into it", 20000});
static Reg s16({"C16", RULES, REALS, 9000, 200000, g16, execs, FAULTSS, "power loss keeps what was synced and any torn, reordered or lost subset of the rest; directory changes are kept in order up to a point not before the last directory sync", 20000});
static Reg s17({"C17", RULES, REALS, 9000, 200000, g17, execs, FAULTSS, "damage: truncation, bit flips, garbled, zeroed, lost, swapped or appended regions", 20000});
static Reg s18({"C18", RULES, REALS, 9000, 200000, g18, execs, FAULTSS, "labels of Q-learning models are kept clear of other models' target_ labels", 20000});
