// A random tensor graph driven by plan operations, next to a model that recomputes every expression
// from the leaf values alone. Used by the graph checks (C07, C09, C11, C12).
#pragma once
#include "core.h"
#include "heap.h"
#include "graph/operations/operations.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef nnet::inode<double> gnode;
typedef nnet::iconnector<double> gconn;
typedef nnet::varptr<double> gptr;
typedef std::vector<size_t> gshape;
typedef std::vector<double> gvec;

inline size_t gn (const gshape& s) { size_t n = 1; for (size_t d : s) n *= d; return n; }

// fills a variable with given numbers, through the library's own initializer interface
struct vec_init : nnet::initializer<double>
{
	gvec v;
	explicit vec_init (gvec d) : v(d) {}
	nnet::itensor_handler<double>* clone_impl (void) const override { return new vec_init(*this); }
	nnet::itensor_handler<double>* move_impl (void) override { return new vec_init(std::move(*this)); }
	void calc_data (double* dest, nnet::tensorshape s) override { size_t n = s.n_elems(); for (size_t i = 0; i < n; i++) dest[i] = v[i % v.size()]; }
};

struct GLeaf { gshape s; gvec v; bool init = false; bool ph = false; bool moved = false, merged = false; gvec ini; };
enum GOp { G_LEAF, G_CONST, G_UN, G_SCA, G_BIN, G_DER, G_GEN };
struct GModel;
typedef std::shared_ptr<GModel> GM;
struct GModel
{
	GOp op = G_LEAF;
	int k = 0;
	int p = 0;              // which variant of the operator
	double c = 0;
	std::vector<GM> a;
	std::shared_ptr<GLeaf> leaf;
	gshape s;               // static shape; empty: unknown
	gvec cv;                // constant contents
	bool opaque = false;    // a derivative lies below: no numeric model
};

// value with a bound on how far a correct implementation may be from it
struct GVal { bool ok = false; gshape s; gvec v, e; };

struct GraphWorld
{
	struct Ent
	{
		gnode* p;
		void* block;
		uint64_t birth;
		char kind;              // v variable, p placeholder, k constant, c connector, g generator, h husk of a move
		bool user = false;
		std::vector<GM> models;
		bool frozen = false, fset = false;
		gvec fval;
	};
	struct Held { gptr v; explicit Held (gnode* n) : v(n) {} };
	std::vector<Ent> ents;
	std::map<gnode*, size_t> byptr;
	std::vector<std::unique_ptr<Held> > held;
	// node i with node j replaced by one
	struct Swap
	{
		std::unique_ptr<Held> h;
		size_t i, j;
		void* block;
		uint64_t birth;
		GM mi, mj;
		// whoever asked for it owns it
		void drop (void)
		{
			gnode* n = h->v.get();
			h.reset();
			if (n && sim::heap_same(block, birth)) delete n;
		}
	};
	std::vector<Swap> swaps;
	std::vector<std::pair<gshape, std::vector<std::shared_ptr<GLeaf> > > > dummy;
	bool any_threw = false;     // an operation failed (by an injected fault): leak accounting is off
	bool poisoned = false;      // the library can't evaluate a derivative in this graph: the history ends
	bool use_fresh = true;
	bool drop_leaf_husks = false;
	long made = 0;
	static const int NUN = 28, NSCA = 12, NBIN = 16;
	// variants of operators: alike but for one number
	static double clip_lo (int p) { static const double t[] = {-1, -1, -0.5, -1, 0.25, -1.0000001}; return t[p % 6]; }
	static double clip_hi (int p) { static const double t[] = {1, 0.5, 1, 1.0000001, 1, 1}; return t[p % 6]; }
	static double cap_of (int p) { static const double t[] = {1.5, 0.5, 1.5000001, 4}; return t[p % 4]; }
	static double power_of (int p) { static const double t[] = {-1, 1.5, 2.0000001, 4, -2, 0.5}; return t[p % 6]; }
	static std::pair<size_t,size_t> swap_of (int p) { static const size_t t[][2] = {{0, 1}, {0, 1}, {1, 2}, {1, 0}, {0, 2}, {0, 1}}; return {t[p % 6][0], t[p % 6][1]}; }
	static size_t axis_of (int p) { return (size_t) (p % 3); }
	static size_t mult_of (int p) { return p / 3 % 2 ? 3 : 2; }
	static std::vector<size_t> dims_of (int p) { static const int t[][2] = {{0, -1}, {1, -1}, {0, 1}, {1, 0}, {2, -1}, {0, 2}}; std::vector<size_t> d; for (int x : t[p % 6]) if (x >= 0) d.push_back((size_t) x); return d; }
	static bool left_axial (int p) { return p / 3 % 2; }
	static bool below (int p, double x, double y) { return p % 3 == 0 ? x < y : p % 3 == 1 ? x > y : x <= y; }
	static std::function<bool(double,double)> cmp_of (int p) { return [p](double x, double y) { return below(p, x, y); }; }
	static std::string cmp_name (int p) { return p % 3 == 0 ? "lt" : p % 3 == 1 ? "gt" : "le"; }

	bool alive (size_t i) const { return sim::heap_same(ents[i].block, ents[i].birth); }
	size_t idx (gnode* p) const { auto it = byptr.find(p); return it == byptr.end() || !alive(it->second) ? (size_t) -1 : it->second; }
	std::vector<gnode*> args (size_t i) const { return ents[i].p->get_arguments(); }
	static bool conn (char k) { return k == 'c' || k == 'g'; }
	gconn* con (size_t i) const { return static_cast<gconn*>(ents[i].p); }

	size_t reg (gnode* p, bool user, GM m = GM(), char kind = 0)
	{
		size_t i = idx(p);
		if (i == (size_t) -1)
		{
			Ent e;
			e.p = p;
			e.birth = sim::heap_birth(p, e.block);
			if (!e.birth) return (size_t) -1; // shared constants
			e.kind = kind ? kind : dynamic_cast<nnet::generator<double>*>(p) ? 'g' : dynamic_cast<gconn*>(p) ? 'c' : dynamic_cast<nnet::constant<double>*>(p) ? 'k' :
				dynamic_cast<nnet::placeholder<double>*>(p) ? 'p' : 'v';
			ents.push_back(e);
			i = ents.size() - 1;
			byptr[p] = i;
			for (gnode* a : p->get_arguments()) if (a) reg(a, false);
		}
		if (user) ents[i].user = true;
		if (m) { bool had = false; for (GM& x : ents[i].models) had = had || x == m; if (!had && ents[i].models.size() < 6) ents[i].models.push_back(m); }
		return i;
	}
	std::vector<size_t> users (bool modelled = false) const
	{
		std::vector<size_t> r;
		for (size_t i = 0; i < ents.size(); i++) if (ents[i].user && ents[i].kind != 'h' && alive(i) && (!modelled || ents[i].models.size())) r.push_back(i);
		return r;
	}

	// ---- building ----
	static gptr make_un (int k, int p, gptr a)
	{
		using namespace nnet;
		typedef optional<size_t> ax;
		switch (k)
		{
			case 0: return sin(a);
			case 1: return cos(a);
			case 2: return -a;
			case 3: return pow(a, 2.0);
			case 4: return pow(a, 3.0);
			case 5: return exp(a);
			case 6: return round(a);
			case 7: return clip_val(a, clip_lo(p), clip_hi(p));
			case 8: return identity(a);
			case 9: return reduce_sum(a);
			case 10: return reduce_max(a);
			case 11: return reduce_mean(a);
			case 12: return reduce_sum(a, ax(axis_of(p)));
			case 13: return transpose(a, swap_of(p));
			case 14: return extend(a, axis_of(p), mult_of(p));
			case 15: return as_constant(a);
			case 16: return sqrt(a);
			case 17: return log(a);
			case 18: return clip_norm(a, cap_of(p));
			case 19: return reduce_max(a, ax(axis_of(p)));
			case 20: return tan(a);
			case 21: return csc(a);
			case 22: return flip(a, dims_of(p));
			case 23: return p % 4 == 3 ? arg_max(a) : arg_max(a, ax(axis_of(p % 4)));
			case 24: return pow(a, power_of(p));
			case 25: return sec(a);
			case 26: return cot(a);
			default: return reduce_mean(a, ax(axis_of(p)));
		}
	}
	static gptr make_sca (int k, int p, gptr a, double c)
	{
		using namespace nnet;
		switch (k)
		{
			case 0: return a + c;
			case 1: return c + a;
			case 2: return a - c;
			case 3: return c - a;
			case 4: return a * c;
			case 5: return c * a;
			case 6: return a / c;
			case 7: return c / a;
			case 8: case 10: return conditional(a, c, cmp_of(p), cmp_name(p));
			default: return conditional(c, a, cmp_of(p), cmp_name(p));
		}
	}
	static gptr make_bin (int k, int p, gptr a, gptr b)
	{
		using namespace nnet;
		size_t x = axis_of(p);
		switch (k)
		{
			case 0: return a + b;
			case 1: return a - b;
			case 2: return a * b;
			case 3: return a / b;
			case 4: return matmul(a, b);
			case 5: return eq(a, b);
			case 6: return neq(a, b);
			case 7: return conditional(a, b, cmp_of(p), cmp_name(p));
			case 8: return fit(a, b);
			case 9: return left_axial(p) ? add_axial_a(a, b, x) : add_axial_b(a, b, x);
			case 10: return left_axial(p) ? mul_axial_a(a, b, x) : mul_axial_b(a, b, x);
			case 12: return left_axial(p) ? sub_axial_a(a, b, x) : sub_axial_b(a, b, x);
			case 13: return left_axial(p) ? div_axial_a(a, b, x) : div_axial_b(a, b, x);
			default: return matmul(a, b, p & 1, p & 2);
		}
	}
	// shape of the result, empty if not applicable
	static gshape shape_un (int k, int p, const gshape& s, bool& fits)
	{
		fits = true;
		switch (k)
		{
			case 9: case 10: case 11: return {1};
			case 12: case 19: case 27: case 23:
			{
				if (k == 23 && p % 4 == 3) return {};
				size_t x = axis_of(k == 23 ? p % 4 : p);
				if (x >= s.size()) { if (k == 23) fits = false; return s; }
				gshape t = s;
				t[x] = 1;
				if (s.size() > 1 && (x == 0 || x == s.size() - 1)) t.erase(t.begin() + x);
				return t;
			}
			case 13: { gshape t = s; std::pair<size_t,size_t> w = swap_of(p); if (t.size() <= std::max(w.first, w.second)) t.resize(std::max(w.first, w.second) + 1, 1); std::swap(t[w.first], t[w.second]); return t; }
			case 14: { gshape t = s; if (axis_of(p) >= t.size()) t.resize(axis_of(p) + 1, 1); t[axis_of(p)] *= mult_of(p); if (gn(t) > 24) fits = false; return t; }
			case 15: case 22: return s;
			// element by element: what has one element becomes a scalar
			default: return gn(s) == 1 ? gshape{1} : s;
		}
	}
	static gshape turned (gshape s) { if (s.size() < 2) s.resize(2, 1); std::swap(s[0], s[1]); return s; }
	static gshape shape_bin (int k, int p, const gshape& a, const gshape& b, bool& fits)
	{
		fits = true;
		switch (k)
		{
			case 4: case 11: case 14: case 15:
			{
				gshape x = a, y = b;
				if (k != 4 && (p & 1)) x = turned(x);
				if (k != 4 && (p & 2)) y = turned(y);
				bool deep = x.size() > 2 && y.size() > 2;
				x.resize(3, 1);
				y.resize(3, 1);
				if (x[0] != y[1] || x[2] != y[2]) { fits = false; return {}; }
				if (deep) return {y[0], x[1], x[2]};
				return {y[0], x[1]};
			}
			case 8: if (a.size() != b.size()) fits = false; else for (size_t i = 0; i < a.size(); i++) if (a[i] > b[i]) fits = false; return b;
			case 9: case 10: case 12: case 13:
			{
				// one side lacks a dimension of the other
				const gshape& part = left_axial(p) ? a : b;
				gshape whole = left_axial(p) ? b : a, cut = whole;
				size_t x = axis_of(p);
				if (whole.size() < 2 || x >= whole.size() || (x != 0 && x != whole.size() - 1)) { fits = false; return {}; }
				cut.erase(cut.begin() + x);
				if (cut != part || gn(part) == 1) { fits = false; return {}; }
				return whole;
			}
			default:
				if (gn(a) == 1 && gn(b) == 1) return {1};
				if (a == b) return a;
				if (gn(a) == 1) return b;
				if (gn(b) == 1) return a;
				fits = false;
				return {};
		}
	}
	typedef std::map<GModel*, gnode*> Built;
	static gptr make (const GM& m, Built& b)
	{
		auto arg = [&](size_t i) -> gptr { return gptr(b.at(m->a[i].get())); };
		switch (m->op)
		{
			case G_UN: return make_un(m->k, m->p, arg(0));
			case G_SCA: return make_sca(m->k, m->p, arg(0), m->c);
			case G_BIN: return make_bin(m->k, m->p, arg(0), arg(1));
			case G_DER: { gnode* f = b.at(m->a[0].get()); return f->derive(b.at(m->a[1].get())); }
			case G_GEN: { gptr r(nnet::generator<double>::get(b.at(m->a[0].get()), nnet::const_init<double>(m->c))); return r; }
			case G_CONST: { gptr r(m->cv.size() == 1 && m->s == gshape{1} ? nnet::constant<double>::get(m->cv[0]) : nnet::constant<double>::get(m->cv, nnet::tensorshape(m->s))); return r; }
			default: sim::harness_error("leaf is not made here");
		}
	}

	// ---- numeric model ----
	typedef std::map<GModel*, GVal> Memo;
	static const GVal& value (const GM& m, Memo& memo)
	{
		auto it = memo.find(m.get());
		if (it != memo.end()) return it->second;
		GVal r;
		if (m->op == G_LEAF) { if (m->leaf->init) { r.ok = true; r.s = m->leaf->s; r.v = m->leaf->v; r.e.assign(r.v.size(), 0); } }
		else if (m->op == G_CONST) { r.ok = true; r.s = m->s; r.v = m->cv; r.v.resize(gn(m->s), 0); r.e.assign(r.v.size(), 0); }
		else if (m->op == G_GEN) { GVal a = value(m->a[0], memo); if (a.ok) { r.ok = true; r.s = a.s; r.v.assign(gn(a.s), m->c); r.e.assign(r.v.size(), 0); } }
		else if (m->op == G_UN) { GVal a = value(m->a[0], memo); if (a.ok) r = eval_un(m->k, m->p, a); }
		else if (m->op == G_SCA) { GVal a = value(m->a[0], memo); if (a.ok) r = eval_sca(m->k, m->p, a, m->c); }
		else if (m->op == G_BIN) { GVal a = value(m->a[0], memo), b = value(m->a[1], memo); if (a.ok && b.ok) r = eval_bin(m->k, m->p, a, b, m->a[0] == m->a[1]); }
		if (r.ok) for (size_t i = 0; i < r.v.size(); i++) if (!std::isfinite(r.v[i]) || std::fabs(r.v[i]) > 1e9 || !(r.e[i] <= 1e-5 * (1 + std::fabs(r.v[i])))) r.ok = false;
		return memo[m.get()] = r;
	}
	static void rnd (GVal& r) { for (size_t i = 0; i < r.v.size(); i++) r.e[i] += 1e-14 * std::fabs(r.v[i]) + 1e-300; }
	// element i of a tensor of shape s
	static gshape coords (size_t i, const gshape& s) { gshape c; for (size_t d : s) { c.push_back(i % d); i /= d; } return c; }
	static size_t flat (const gshape& c, const gshape& s) { size_t i = 0, m = 1; for (size_t k = 0; k < s.size(); k++) { i += (k < c.size() ? c[k] : 0) * m; m *= s[k]; } return i; }
	static GVal eval_un (int k, int p, const GVal& a)
	{
		GVal r;
		bool fits;
		r.s = shape_un(k, p, a.s, fits);
		if (!fits) return r;
		r.ok = true;
		size_t n = a.v.size();
		auto each = [&](std::function<double(double)> f, std::function<double(double)> lip)
		{
			for (size_t i = 0; i < n; i++) { r.v.push_back(f(a.v[i])); r.e.push_back(a.e[i] ? lip(a.v[i]) * a.e[i] * 1.5 : 0); }
		};
		double inf = INFINITY;
		switch (k)
		{
			case 0: each([](double x) { return std::sin(x); }, [](double) { return 1; }); break;
			case 1: each([](double x) { return std::cos(x); }, [](double) { return 1; }); break;
			case 2: each([](double x) { return -x; }, [](double) { return 1; }); break;
			case 3: each([](double x) { return x * x; }, [](double x) { return 2 * std::fabs(x) + 1e-3; }); break;
			case 4: each([](double x) { return x * x * x; }, [](double x) { return 3 * x * x + 1e-3; }); break;
			case 5: each([](double x) { return std::exp(x); }, [](double x) { return std::exp(x) * 2; }); break;
			case 6: each([](double x) { return std::round(x); }, [=](double x) { return std::fabs(x - std::floor(x) - 0.5) < 1e-4 ? inf : 0; }); break;
			case 7: each([p](double x) { return std::min(clip_hi(p), std::max(clip_lo(p), x)); }, [](double) { return 1; }); break;
			case 8: case 15: each([](double x) { return x; }, [](double) { return 1; }); break;
			case 9: case 11:
			{
				double s = 0, e = 0, m = 0;
				for (size_t i = 0; i < n; i++) { s += a.v[i]; e += a.e[i]; m += std::fabs(a.v[i]); }
				e += m * 1e-14;
				double d = k == 11 ? n : 1;
				r.v = {s / d}; r.e = {e / d};
				break;
			}
			case 10: { size_t b = 0; double e = 0; for (size_t i = 0; i < n; i++) { if (a.v[i] > a.v[b]) b = i; e = std::max(e, a.e[i]); } r.v = {a.v[b]}; r.e = {e}; break; }
			case 12: case 19: case 27: case 23:
			{
				if (r.s.empty()) { r.ok = false; break; }
				size_t x = axis_of(k == 23 ? p % 4 : p);
				if (x >= a.s.size()) { r.v = a.v; r.e = a.e; break; }
				bool cut = a.s.size() > 1 && (x == 0 || x == a.s.size() - 1);
				for (size_t i = 0; i < gn(r.s); i++)
				{
					gshape c = coords(i, r.s);
					if (cut) c.insert(c.begin() + x, 0);
					double s = 0, e = 0, m = 0, at = 0;
					for (size_t j = 0; j < a.s[x]; j++)
					{
						c[x] = j;
						double v = a.v[flat(c, a.s)], ev = a.e[flat(c, a.s)];
						m += std::fabs(v);
						if (k == 12 || k == 27) { s += v; e += ev; }
						else
						{
							if (k == 23 && j && std::fabs(v - s) <= 4 * (ev + e)) { if (ev + e > 0) r.ok = false; }
							if (!j || v > s) { s = v; at = j; }
							e = std::max(e, ev);
						}
					}
					double d = k == 27 ? a.s[x] : 1;
					if (k == 23) { r.v.push_back(at); r.e.push_back(0); }
					else { r.v.push_back(s / d); r.e.push_back((e + m * 1e-14) / d); }
				}
				break;
			}
			case 13:
			{
				std::pair<size_t,size_t> w = swap_of(p);
				for (size_t i = 0; i < n; i++)
				{
					gshape c = coords(i, r.s);
					std::swap(c[w.first], c[w.second]);
					r.v.push_back(a.v[flat(c, a.s)]); r.e.push_back(a.e[flat(c, a.s)]);
				}
				break;
			}
			case 14: case 22:
			{
				for (size_t i = 0; i < gn(r.s); i++)
				{
					gshape c = coords(i, r.s);
					if (k == 14) c[axis_of(p)] %= axis_of(p) < a.s.size() ? a.s[axis_of(p)] : 1;
					else for (size_t d : dims_of(p)) if (d < c.size()) c[d] = a.s[d] - 1 - c[d];
					r.v.push_back(a.v[flat(c, a.s)]); r.e.push_back(a.e[flat(c, a.s)]);
				}
				break;
			}
			case 18:
			{
				double q = 0, eq = 0, cap = cap_of(p);
				for (size_t i = 0; i < n; i++) { q += a.v[i] * a.v[i]; eq += (2 * std::fabs(a.v[i]) + 1e-3) * a.e[i]; }
				double norm = std::sqrt(q), en = norm > 1e-3 ? eq / norm + norm * 1e-14 : INFINITY;
				if (std::fabs(norm - cap) <= 4 * en) { r.ok = false; break; }
				for (size_t i = 0; i < n; i++)
				{
					if (norm < cap) { r.v.push_back(a.v[i]); r.e.push_back(a.e[i]); }
					else { r.v.push_back(a.v[i] * cap / norm); r.e.push_back((a.e[i] * cap + std::fabs(a.v[i]) * cap / norm * en) / norm * 1.5); }
				}
				break;
			}
			case 24:
			{
				double q = power_of(p);
				for (size_t i = 0; i < n; i++) if (std::fabs(a.v[i]) < 1e-3) r.ok = false;
				each([q](double x) { return std::pow(x, q); }, [q](double x) { return std::fabs(q * std::pow(std::fabs(x), q - 1)) * 2; });
				break;
			}
			case 16: each([](double x) { return std::sqrt(x); }, [=](double x) { return x < 1e-3 ? inf : 1 / std::sqrt(x); }); break;
			case 17: each([](double x) { return std::log(x); }, [=](double x) { return x < 1e-3 ? inf : 2 / x; }); break;
			default: r.ok = false; break;
		}
		if (r.ok) rnd(r);
		return r;
	}
	static GVal eval_sca (int k, int p, const GVal& a, double c)
	{
		GVal b;
		b.ok = true;
		b.s = a.s;
		b.v.assign(a.v.size(), c);
		b.e.assign(a.v.size(), 0);
		switch (k)
		{
			case 0: case 1: return eval_bin(0, p, a, b, false);
			case 2: return eval_bin(1, p, a, b, false);
			case 3: return eval_bin(1, p, b, a, false);
			case 4: case 5: return eval_bin(2, p, a, b, false);
			case 6: return eval_bin(3, p, a, b, false);
			case 7: return eval_bin(3, p, b, a, false);
			case 8: case 10: return eval_bin(7, p, a, b, false);
			default: return eval_bin(7, p, b, a, false);
		}
	}
	static GVal eval_bin (int k, int p, const GVal& a, const GVal& b, bool same)
	{
		GVal r;
		r.ok = true;
		if (k == 4 || k == 11 || k > 13)
		{
			GVal u = a, w = b;
			if (k != 4 && (p & 1)) u = eval_un(13, 0, a);
			if (k != 4 && (p & 2)) w = eval_un(13, 0, b);
			gshape x = u.s, y = w.s;
			r.s = {y[0], x.size() > 1 ? x[1] : 1};
			if (x.size() > 2 && y.size() > 2) r.s.push_back(x[2]);
			x.resize(3, 1); y.resize(3, 1);
			for (size_t l = 0; l < x[2]; l++) for (size_t j = 0; j < x[1]; j++) for (size_t i = 0; i < y[0]; i++)
			{
				double s = 0, e = 0, m = 0;
				for (size_t z = 0; z < x[0]; z++)
				{
					size_t c = z + (j + l * x[1]) * x[0], d = i + (z + l * y[1]) * y[0];
					double f = u.v[c], q = w.v[d];
					s += f * q; m += std::fabs(f * q);
					e += std::fabs(f) * w.e[d] + std::fabs(q) * u.e[c];
				}
				r.v.push_back(s); r.e.push_back(e * 1.5 + m * 1e-14);
			}
			return r;
		}
		if (k == 9 || k == 10 || k > 11)
		{
			bool left = left_axial(p);
			const GVal& whole = left ? b : a;
			const GVal& part = left ? a : b;
			r.s = whole.s;
			for (size_t i = 0; i < whole.v.size(); i++)
			{
				gshape c = coords(i, whole.s);
				c.erase(c.begin() + axis_of(p));
				size_t j = flat(c, part.s), ia = left ? j : i, ib = left ? i : j;
				double x = a.v[ia], y = b.v[ib], ex = a.e[ia], ey = b.e[ib], v = 0, e = 0;
				if (k == 9 || k == 12) { v = k == 9 ? x + y : x - y; e = ex + ey + 1e-14 * (std::fabs(x) + std::fabs(y)); }
				else if (k == 10) { v = x * y; e = (std::fabs(x) * ey + std::fabs(y) * ex) * 1.5; }
				else { if (std::fabs(y) < 1e-4) r.ok = false; v = x / y; e = (ex + std::fabs(v) * ey) / std::fabs(y) * 1.5; }
				r.v.push_back(v); r.e.push_back(e);
			}
			if (r.ok) rnd(r);
			return r;
		}
		if (k > 7) { r.ok = false; return r; }
		bool as = a.v.size() == 1 && b.v.size() > 1, bs = b.v.size() == 1 && a.v.size() > 1;
		r.s = as ? b.s : a.s;
		size_t n = std::max(a.v.size(), b.v.size());
		if (same && k == 1) { r.v.assign(n, 0); r.e.assign(n, 0); return r; }
		if (same && k == 3) { r.v.assign(n, 1); r.e.assign(n, 0); return r; }
		for (size_t i = 0; i < n; i++)
		{
			double x = a.v[as ? 0 : i], y = b.v[bs ? 0 : i], ex = a.e[as ? 0 : i], ey = b.e[bs ? 0 : i], v = 0, e = 0;
			bool tie = std::fabs(x - y) <= 4 * (ex + ey) && (ex + ey) > 0 && !same;
			switch (k)
			{
				case 0: v = x + y; e = ex + ey + 1e-14 * (std::fabs(x) + std::fabs(y)); break;
				case 1: v = x - y; e = ex + ey + 1e-14 * (std::fabs(x) + std::fabs(y)); break;
				case 2: v = x * y; e = (std::fabs(x) * ey + std::fabs(y) * ex) * 1.5; break;
				case 3: if (std::fabs(y) < 1e-4) r.ok = false; v = x / y; e = (ex + std::fabs(v) * ey) / std::fabs(y) * 1.5; break;
				case 5: v = x == y; if (tie) r.ok = false; break;
				case 6: v = x != y; if (tie) r.ok = false; break;
				default: v = below(p, x, y); if (tie) r.ok = false; break;
			}
			r.v.push_back(v); r.e.push_back(e);
		}
		if (r.ok) rnd(r);
		return r;
	}
	static bool all_init (const GM& m, std::map<GModel*, bool>& memo)
	{
		auto it = memo.find(m.get());
		if (it != memo.end()) return it->second;
		bool r = m->op != G_LEAF || m->leaf->init;
		if (m->op != G_LEAF) for (auto& a : m->a) r = r && all_init(a, memo);
		return memo[m.get()] = r;
	}
	static bool all_init (const GM& m) { std::map<GModel*, bool> b; return all_init(m, b); }

	// ---- a second opinion: the same expression built anew from new leaves ----
	struct Fresh
	{
		std::map<GLeaf*, gnode*> leaves;
		std::vector<std::unique_ptr<Held> > keep;   // roots and constants stay while in use
		Built built;
		gnode* build (const GM& m)
		{
			auto it = built.find(m.get());
			if (it != built.end()) return it->second;
			if (m->op == G_LEAF)
			{
				gnode*& n = leaves[m->leaf.get()];
				if (!n)
				{
					gvec v = m->leaf->init ? m->leaf->v : gvec(gn(m->leaf->s), 0.5);
					if (m->leaf->ph) { nnet::placeholder<double>* p = new nnet::placeholder<double>(nnet::tensorshape(m->leaf->s), "fp"); n = p; *p = v; }
					else { nnet::variable<double>* p = new nnet::variable<double>(nnet::tensorshape(m->leaf->s), vec_init(v), "fv"); n = p; p->initialize(); }
				}
				return built[m.get()] = n;
			}
			for (auto& a : m->a) build(a);
			gptr r = make(m, built);
			gnode* n = r.get();
			if (n) keep.emplace_back(new Held(n));
			return built[m.get()] = n;
		}
		~Fresh ()
		{
			// everything the roots are computed from, with proof of life
			struct Node { gnode* p; void* block; uint64_t birth; bool leaf, con; };
			std::vector<Node> all;
			std::set<gnode*> seen;
			std::vector<gnode*> todo;
			for (auto& b : built) if (b.second) todo.push_back(b.second);
			while (todo.size())
			{
				gnode* n = todo.back();
				todo.pop_back();
				if (!seen.insert(n).second) continue;
				Node x;
				x.p = n;
				x.birth = sim::heap_birth(n, x.block);
				if (!x.birth) continue;
				x.con = dynamic_cast<gconn*>(n);
				x.leaf = !x.con && !dynamic_cast<nnet::constant<double>*>(n);
				all.push_back(x);
				for (gnode* a : n->get_arguments()) if (a) todo.push_back(a);
			}
			keep.clear();
			std::sort(all.begin(), all.end(), [](const Node& a, const Node& b) { return a.birth < b.birth; });
			for (Node& x : all) if (x.leaf && sim::heap_same(x.block, x.birth)) delete x.p;
			// expressions of constants only outlive the leaves
			for (Node& x : all) if (x.con && sim::heap_same(x.block, x.birth)) delete x.p;
		}
	};

	// the expression, for messages
	static std::string text (const GM& m, int depth = 0)
	{
		static const char* uns[] = {"sin", "cos", "neg", "sq", "cube", "exp", "round", "clip", "id", "sum", "max", "mean", "sumof", "transpose", "extend", "asconst", "sqrt", "log", "clipnorm", "maxof", "tan", "csc", "flip", "argmax", "pow", "sec", "cot", "mean"};
		static const char* bins[] = {"+", "-", "*", "/", "matmul", "==", "!=", "<", "fit", "+axial", "*axial", "matmulF", "-axial", "/axial", "matmulF", "matmulF"};
		char b[64];
		if (depth > 6) return "...";
		if (m->op == G_LEAF) { snprintf(b, sizeof b, "%c%lx%s", m->leaf->ph ? 'p' : 'v', (long) ((uintptr_t) m->leaf.get() / 16 % 997), m->leaf->init ? "" : "?"); return b; }
		if (m->op == G_CONST) return "k";
		std::string x = text(m->a[0], depth + 1), y = m->a.size() > 1 ? text(m->a[1], depth + 1) : "";
		snprintf(b, sizeof b, "%.8g", m->c);
		std::string q = m->p ? "." + std::to_string(m->p) : "";
		if (m->op == G_UN) return std::string(uns[m->k]) + q + "(" + x + ")";
		if (m->op == G_SCA) return "sca" + std::to_string(m->k) + q + "(" + x + "," + b + ")";
		if (m->op == G_BIN) return "(" + x + bins[m->k] + q + y + ")";
		if (m->op == G_DER) return "d[" + x + "]/d" + y;
		return "gen(" + x + ")";
	}

	void compare (const char* what, size_t i, const gvec& got, const gshape& gs, bool fresh_too)
	{
		for (GM& m : ents[i].models)
		{
			if (!all_init(m)) continue;
			Memo memo;
			const GVal& w = value(m, memo);
			if (w.ok)
			{
				sim::count("probe.reads-checked");
				if (gn(w.s) != got.size()) sim::violate(what, "%s (node %zu): %zu elements, expected %zu", ents[i].p->get_label().c_str(), i, got.size(), gn(w.s));
				for (size_t k = 0; k < got.size(); k++) if (!(std::fabs(got[k] - w.v[k]) <= w.e[k] * 8 + 1e-12))
					sim::violate(what, "%s (node %zu) element %zu is %.17g, recomputation gives %.17g: %s", ents[i].p->get_label().c_str(), i, k, got[k], w.v[k], text(m).c_str());
			}
			else sim::count("probe.reads-ill-conditioned");
			std::set<GModel*> sm;
			if (fresh_too && use_fresh && !(uses(m, nullptr, sm) && selfpair(m)))
			{
				Fresh f;
				gnode* n = nullptr;
				gvec want;
				try { n = f.build(m); if (n) want = nnet::expose<double>(n); } catch (std::exception&) { n = nullptr; any_threw = true; }
				if (!n) continue;
				sim::count("probe.reads-checked-against-rebuild");
				// a folded derivative is a scalar standing for every element
				std::set<GModel*> seen;
				bool folds = m->opaque || uses(m, nullptr, seen);
				if (folds && want.size() == 1) want.resize(got.size(), want[0]);
				if (folds && got.size() == 1 && want.size() > 1)
				{
					bool flat = true;
					for (double d : want) flat = flat && d == want[0];
					if (flat) want.resize(1);
				}
				if (want.size() != got.size()) sim::violate(what, "%s (node %zu): %zu elements, the same expression built anew has %zu: %s", ents[i].p->get_label().c_str(), i, got.size(), want.size(), text(m).c_str());
				for (size_t k = 0; k < got.size(); k++)
				{
					bool eq = got[k] == want[k] || (std::isnan(got[k]) && std::isnan(want[k]));
					if (!eq && (!std::isfinite(got[k]) || !std::isfinite(want[k]) || std::fabs(want[k]) > 1e9)) continue;
					if (!eq && std::fabs(got[k] - want[k]) > 1e-7 * (1 + std::fabs(want[k])))
					{
						if (!w.ok && m->op != G_DER && !m->opaque) { sim::count("probe.rebuild-ill-conditioned"); continue; }
						sim::violate(what, "%s (node %zu) element %zu is %.17g, the same expression built anew gives %.17g: %s", ents[i].p->get_label().c_str(), i, k, got[k], want[k], text(m).c_str());
					}
				}
			}
		}
	}
	bool readable (size_t i) const
	{
		if (ents[i].models.empty()) return false;
		for (const GM& m : ents[i].models) if (all_init(m)) return true;
		return false;
	}
	// read a live node and judge the result
	void read (size_t i, bool fresh_too, const char* what = "read:stale")
	{
		if (!readable(i)) return;
		unghost(i);
		const nnet::tensor<double>* t = nullptr;
		try { t = ents[i].p->eval(); }
		catch (std::exception& e) { sim::violate("read:threw", "reading %s (node %zu) with all leaves holding data: %s; %s", ents[i].p->get_label().c_str(), i, e.what(), text(ents[i].models[0]).c_str()); }
		if (ents[i].frozen)
		{
			if (!t || !t->is_alloc()) { if (ents[i].fset) sim::violate("frozen:lost", "frozen node %zu lost its value", i); return; }
			gvec v = t->expose();
			if (!ents[i].fset) { ents[i].fset = true; ents[i].fval = v; return; }
			sim::count("probe.frozen-reads-checked");
			if (!same(v, ents[i].fval)) sim::violate("frozen:changed", "frozen node %zu (%s) changed from %.17g to %.17g", i, ents[i].p->get_label().c_str(), ents[i].fval.size() ? ents[i].fval[0] : 0, v.size() ? v[0] : 0);
			return;
		}
		if (!t || !t->is_alloc()) sim::violate("read:no-data", "%s (node %zu) has no data though all its leaves do", ents[i].p->get_label().c_str(), i);
		compare(what, i, t->expose(), t->get_shape().as_list(), fresh_too);
	}
	static bool same (const gvec& a, const gvec& b)
	{
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
		return true;
	}
	void read_all (bool fresh_too)
	{
		for (size_t i = 0; i < ents.size(); i++) if (alive(i) && ents[i].kind != 'h') read(i, fresh_too);
	}

	// ---- freezing ----
	// nodes joined to a frozen graph are frozen from then on
	// helpers nobody sees may keep a graph frozen whose last visible node died; operators that find and reuse them join it
	bool ghost = false;
	void unghost (size_t i)
	{
		if (!ghost || !conn(ents[i].kind) || ents[i].frozen || !alive(i)) return;
		for (size_t k = 0; k < ents.size(); k++) if (ents[k].frozen && conn(ents[k].kind) && alive(k) && con(i)->is_same_graph(con(k))) return;
		con(i)->freeze_status(false);
	}
	void spread_freeze ()
	{
		std::vector<size_t> fr;
		for (Ent& e : ents) if (e.frozen && conn(e.kind) && !alive(&e - &ents[0])) { ghost = true; e.frozen = false; sim::count("probe.frozen-graphs-lost"); }
		for (size_t i = 0; i < ents.size(); i++) if (conn(ents[i].kind) && ents[i].frozen && alive(i)) fr.push_back(i);
		for (size_t i = 0; fr.size() && i < ents.size(); i++) if (conn(ents[i].kind) && !ents[i].frozen && alive(i))
			for (size_t f : fr) if (con(i)->is_same_graph(con(f))) { ents[i].frozen = true; ents[i].fset = false; break; }
		for (size_t i = 0; i < ents.size(); i++) unghost(i);
	}
	void freeze (size_t i)
	{
		unghost(i);
		try { con(i)->freeze_status(true); }
		catch (std::exception& e) { sim::violate("read:threw", "freezing threw: %s", e.what()); }
		bool lost = ghost;
		ghost = false; // what follows reads nodes of this graph
		for (size_t k = 0; k < ents.size(); k++) if (conn(ents[k].kind) && alive(k) && con(k)->is_same_graph(con(i)))
		{
			ents[k].frozen = false;
			// still reads the flushed value: freezing took effect with every earlier assignment applied
			read(k, false, "frozen:not-current-at-freeze");
			ents[k].frozen = true;
			ents[k].fset = false;
			if (!readable(k)) continue;
			const nnet::tensor<double>* t = ents[k].p->eval();
			if (t && t->is_alloc()) { ents[k].fset = true; ents[k].fval = t->expose(); }
		}
		ghost = lost;
	}
	void thaw (size_t i)
	{
		con(i)->freeze_status(false);
		for (size_t k = 0; k < ents.size(); k++) if (conn(ents[k].kind) && alive(k) && con(k)->is_same_graph(con(i))) { ents[k].frozen = false; ents[k].fset = false; }
	}

	// ---- destruction ----
	void destroy (size_t i)
	{
		std::set<size_t> dead{i};
		// indices of arguments that may lose their last user
		bool grew = true;
		while (grew)
		{
			grew = false;
			for (size_t k = 0; k < ents.size(); k++) if (!dead.count(k) && alive(k) && conn(ents[k].kind))
				for (gnode* a : args(k)) if (a) { size_t j = idx(a); if (j != (size_t) -1 && dead.count(j)) { dead.insert(k); grew = true; break; } }
		}
		std::set<size_t> before;
		std::map<size_t, size_t> aud;
		for (size_t k = 0; k < ents.size(); k++) if (alive(k)) { before.insert(k); if (ents[k].kind == 'k' || ents[k].kind == 'g') aud[k] = ents[k].p->n_audience(); }
		std::vector<size_t> orphans;
		for (size_t d : dead) if (conn(ents[d].kind) && ents[d].frozen) for (size_t k : before) if (!dead.count(k) && conn(ents[k].kind) && con(k)->is_same_graph(con(d))) { orphans.push_back(d); break; }
		for (size_t d : orphans) ents[d].frozen = false;
		delete ents[i].p;
		sim::count("probe.nodes-destroyed", dead.size());
		for (size_t k : dead) if (alive(k)) sim::violate("death:survivor", "node %zu is computed from destroyed node %zu and still alive", k, i);
		// users of helpers that are left
		std::set<gnode*> used;
		for (size_t k : before) if (alive(k) && conn(ents[k].kind)) for (gnode* a : args(k)) if (a) used.insert(a);
		for (auto& h : held) if (h->v.get()) used.insert(h->v.get());
		for (size_t k : before)
		{
			if (dead.count(k)) continue;
			if (!alive(k))
			{
				if (ents[k].kind != 'k' && ents[k].kind != 'g') sim::violate("death:innocent", "node %zu (%c) does not depend on destroyed node %zu but died with it", k, ents[k].kind, i);
				if (used.count(ents[k].p)) sim::violate("death:innocent", "helper %zu died while still in use", k);
				sim::count("probe.helpers-released");
			}
			else if (aud.count(k) && aud[k] && ents[k].p->n_audience() == 0) sim::violate("death:helper-left", "unmanaged helper %zu lost its last user and stays alive", k);
		}
		for (auto& h : held) if (h->v.get() && idx(h->v.get()) == (size_t) -1 && sim::heap_owns(h->v.get())) sim::violate("death:dangling-handle", "a handle still refers to a destroyed node");
	}

	// ---- operations ----
	static tenncor::tensor_proto stored (const gshape& s, const gvec& v)
	{
		nnet::variable<double> tmp(nnet::tensorshape(s), vec_init(v), "stored");
		tmp.initialize();
		tenncor::tensor_proto pr;
		tmp.eval()->serialize(&pr);
		return pr;
	}
	// content stored elsewhere is loaded into a leaf
	void load_leaf (size_t i, gvec v)
	{
		std::shared_ptr<GLeaf> l = ents[i].models[0]->leaf;
		if (!ents[i].p->read_proto(stored(l->s, v))) sim::violate("load:refused", "leaf %zu refuses content of its own shape", i);
		l->v = v;
		l->init = true;
		sim::count("probe.loads");
	}
	// content of another shape is refused and changes nothing
	void misload_leaf (size_t i, gvec v)
	{
		std::shared_ptr<GLeaf> l = ents[i].models[0]->leaf;
		gshape s = l->s;
		s[0] += 1;
		v.resize(gn(s), 0.25);
		if (ents[i].p->read_proto(stored(s, v))) sim::violate("load:accepted", "leaf %zu accepts content of another shape", i);
		sim::count("probe.loads-of-another-shape");
	}
	bool set_leaf (size_t i, gvec v)
	{
		Ent& e = ents[i];
		std::shared_ptr<GLeaf> l = e.models[0]->leaf;
		gnode* p = e.p;
		if (l->ph) *static_cast<nnet::placeholder<double>*>(p) = v;
		else
		{
			nnet::variable<double>* x = static_cast<nnet::variable<double>*>(p);
			x->set_initializer(vec_init(v));
			x->initialize();
			l->ini = v;
		}
		l->v = v;
		l->init = true;
		return true;
	}
	// a variable, or a copy of it, can start over with the initialiser it has
	void reinit_leaf (size_t i, gvec v)
	{
		std::shared_ptr<GLeaf> l = ents[i].models[0]->leaf;
		if (l->ph || l->ini.empty()) { set_leaf(i, v); return; }
		nnet::variable<double>* x = static_cast<nnet::variable<double>*>(ents[i].p);
		if (!x->can_init()) sim::violate("init:lost", "variable %zu has lost its initialiser", i);
		x->initialize();
		l->v = l->ini;
		l->init = true;
		sim::count("probe.variables-started-over");
	}
	// the other ways to give a leaf its content
	void put_leaf (size_t i, gvec v, bool handle)
	{
		std::shared_ptr<GLeaf> l = ents[i].models[0]->leaf;
		gnode* p = ents[i].p;
		if (l->ph)
		{
			nnet::placeholder<double>* x = static_cast<nnet::placeholder<double>*>(p);
			if (handle)
			{
				nnet::placeptr<double> h(x);
				h = v;
			}
			else
			{
				nnet::variable<double> tmp(nnet::tensorshape(l->s), vec_init(v), "given");
				tmp.initialize();
				nnet::tensor<double> t(*tmp.eval());
				*x = t;
			}
			sim::count("probe.placeholders-given-tensors");
		}
		else
		{
			nnet::varptr<double> c = nnet::constant<double>::get(v, nnet::tensorshape(l->s));
			static_cast<nnet::variable<double>*>(p)->assign(c.get())(true);
			sim::count("probe.variables-assigned-constants");
		}
		l->v = v;
		l->init = true;
	}
	gvec numbers (sim::Rng& r, size_t n)
	{
		gvec v;
		for (size_t i = 0; i < n; i++) v.push_back(r.chance(0.15) ? (double) r.range(-2, 2) : r.unit() * 4 - 1.5);
		return v;
	}
	// a derivative taken for an inner node is computed from the same leaves and helpers as the node itself
	void derive_by_node (size_t i, long which)
	{
		if (!conn(ents[i].kind) || ents[i].frozen || !readable(i) || ents[i].models.size() != 1 || swaps.size() >= 3) return;
		std::set<GModel*> s2;
		if (ents[i].models[0]->opaque || has_op(ents[i].models[0], G_GEN, s2) || has_der(ents[i].models[0])) return;
		std::set<size_t> below;
		std::vector<size_t> todo{i};
		while (todo.size())
		{
			size_t k = todo.back();
			todo.pop_back();
			for (gnode* a : args(k)) { size_t j = a ? idx(a) : (size_t) -1; if (j != (size_t) -1 && conn(ents[j].kind) && below.insert(j).second) todo.push_back(j); }
		}
		if (below.empty()) return;
		auto it = below.begin();
		std::advance(it, which % below.size());
		size_t j = *it;
		if (ents[j].models.size() != 1) return;
		Swap w{std::unique_ptr<Held>(), i, j, nullptr, 0, ents[i].models[0], ents[j].models[0]};
		// only what the library can evaluate with the inner node replaced by a single number
		try
		{
			Fresh t;
			t.build(w.mi);
			auto it = t.built.find(w.mj.get());
			if (it == t.built.end() || !it->second) return;
			Swap x{std::unique_ptr<Held>(new Held(t.built[w.mi.get()]->derive(it->second).get())), 0, 0, nullptr, 0, GM(), GM()};
			x.birth = sim::heap_birth(x.h->v.get(), x.block);
			if (nnet::expose<double>(x.h->v).empty()) any_threw = true;
			x.drop();
		}
		catch (std::exception&) { any_threw = true; sim::count("probe.derivative-unsupported"); return; }
		try
		{
			w.h.reset(new Held(ents[i].p->derive(ents[j].p).get()));
			if (!w.h->v.get()) sim::violate("derive:nothing", "deriving node %zu for its argument %zu gives nothing", i, j);
			w.block = nullptr;
			w.birth = sim::heap_birth(w.h->v.get(), w.block);
			nnet::expose<double>(w.h->v);
		}
		catch (std::exception&) { any_threw = true; sim::count("probe.derivative-unsupported"); return; }
		sim::count("probe.derived-by-nodes");
		swaps.push_back(std::move(w));
	}
	bool has_der (const GM& m) const { if (m->op == G_DER) return true; for (auto& a : m->a) if (has_der(a)) return true; return false; }
	// one taken earlier reads what one taken now does
	void compare_swap (size_t k)
	{
		Swap& w = swaps[k];
		if (!alive(w.i) || !alive(w.j) || ents[w.i].models != std::vector<GM>{w.mi} || ents[w.j].models != std::vector<GM>{w.mj} || ents[w.i].frozen || !readable(w.i) || !w.h->v.get()) return;
		std::vector<double> old, now;
		{
			Swap h{std::unique_ptr<Held>(new Held(ents[w.i].p->derive(ents[w.j].p).get())), 0, 0, nullptr, 0};
			h.block = nullptr;
			h.birth = sim::heap_birth(h.h->v.get(), h.block);
			now = nnet::expose<double>(h.h->v);
			old = nnet::expose<double>(w.h->v);
			h.drop();
		}
		sim::count("probe.derived-by-nodes-compared");
		bool same = old.size() == now.size();
		for (size_t e = 0; same && e < old.size(); e++) same = old[e] == now[e] || (std::isnan(old[e]) && std::isnan(now[e]));
		if (!same) sim::violate("read:stale", "a derivative of node %zu for node %zu taken earlier differs from one taken now", w.i, w.j);
	}
	GM add (GM m)
	{
		Built b;
		std::vector<size_t> ai;
		for (auto& x : m->a) for (size_t i = 0; i < ents.size(); i++) if (alive(i) && ents[i].kind != 'h') for (auto& y : ents[i].models) if (y == x) b[x.get()] = ents[i].p;
		gptr r = make(m, b);
		gnode* n = r.get();
		if (!n) return GM();
		if (dynamic_cast<nnet::constant<double>*>(n) && m->op != G_CONST)
		{
			// folded: judge it now, it is released with the handle
			if (all_init(m))
			{
				Memo memo;
				GVal w = value(m, memo);
				gvec got = nnet::expose<double>(n);
				if (w.ok) for (size_t k = 0; k < w.v.size(); k++)
				{
					double g = got.size() == 1 ? got[0] : k < got.size() ? got[k] : NAN;
					if (!(std::fabs(g - w.v[k]) <= 8 * w.e[k] + 1e-12)) sim::violate("read:stale", "folded constant is %.17g, recomputation gives %.17g", g, w.v[k]);
				}
			}
			return GM();
		}
		reg(n, true, m);
		// a generator lives as long as something uses it
		if (m->op == G_GEN) held.emplace_back(new Held(n));
		return m;
	}
	// whole models built from a model's derivative are judged by rebuilding only
	static bool opaque_of (const GM& m) { for (auto& a : m->a) if (a->opaque || a->op == G_DER) return true; return false; }

	// the variables an expression is computed from
	static void vars_of (const GM& m, std::vector<GM>& out, std::set<GModel*>& seen)
	{
		if (!seen.insert(m.get()).second) return;
		if (m->op == G_LEAF) { if (!m->leaf->ph) out.push_back(m); return; }
		for (auto& a : m->a) vars_of(a, out, seen);
	}
	static bool has_op (const GM& m, GOp op, std::set<GModel*>& seen)
	{
		if (!seen.insert(m.get()).second) return false;
		if (m->op == op) return true;
		for (auto& a : m->a) if (has_op(a, op, seen)) return true;
		return false;
	}

	// an operator on two equal arguments: folded when built, not folded when its arguments became one
	static bool selfpair (const GM& m)
	{
		if (m->a.size() == 2 && text(m->a[0]) == text(m->a[1])) return true;
		for (auto& a : m->a) if (selfpair(a)) return true;
		return false;
	}
	static bool uses (const GM& m, GLeaf* l, std::set<GModel*>& seen)
	{
		if (!seen.insert(m.get()).second) return false;
		if (m->op == G_LEAF) return l ? m->leaf.get() == l : m->leaf->merged;
		for (auto& a : m->a) if (uses(a, l, seen)) return true;
		return false;
	}
	bool apply (const sim::Op& o, sim::Rng& r)
	{
		const std::string& n = o.name;
		if (n == "var" || n == "ph")
		{
			std::shared_ptr<GLeaf> l(new GLeaf());
			static const int sh[][3] = {{1, 0, 0}, {2, 0, 0}, {2, 3, 0}, {3, 2, 0}, {3, 3, 0}, {1, 0, 0}, {2, 2, 0}, {3, 0, 0}, {2, 3, 2}, {2, 2, 0}};
			const int* d = sh[o.arg(0) % 10];
			for (int x = 0; x < 3 && d[x]; x++) l->s.push_back(d[x]);
			l->ph = n == "ph";
			GM m(new GModel());
			m->leaf = l;
			m->s = l->s;
			gnode* p;
			std::string name = (l->ph ? "p" : "v") + std::to_string(made++);
			if (l->ph) p = new nnet::placeholder<double>(nnet::tensorshape(l->s), name);
			else p = new nnet::variable<double>(nnet::tensorshape(l->s), vec_init({0.25}), name);
			size_t i = reg(p, true, m);
			if (!l->ph) l->ini = gvec(gn(l->s), 0.25);
			if (o.arg(1)) set_leaf(i, numbers(r, gn(l->s)));
			return true;
		}
		if (n == "const")
		{
			GM m(new GModel());
			m->op = G_CONST;
			m->s = o.arg(0) % 3 == 0 ? gshape{1} : o.arg(0) % 3 == 1 ? gshape{2} : gshape{2, 3};
			m->cv = numbers(r, gn(m->s));
			Built b;
			gptr c = make(m, b);
			size_t i = reg(c.get(), true, m);
			// a constant lives as long as something uses it
			held.emplace_back(new Held(ents[i].p));
			return true;
		}
		std::vector<size_t> us = users(true);
		if (us.empty()) return true;
		auto pick = [&](long k) { return us[(size_t) k % us.size()]; };
		auto leaves = [&]() { std::vector<size_t> l; for (size_t i : us) if (ents[i].kind == 'v' || ents[i].kind == 'p') l.push_back(i); return l; };
		auto conns = [&]() { std::vector<size_t> l; for (size_t i : us) if (conn(ents[i].kind)) l.push_back(i); return l; };
		if (n == "un" || n == "sca" || n == "gen")
		{
			size_t i = pick(o.arg(1));
			GM a = ents[i].models[0];
			GM m(new GModel());
			m->op = n == "un" ? G_UN : n == "sca" ? G_SCA : G_GEN;
			m->k = (int) (o.arg(0) % (n == "un" ? NUN : NSCA));
			m->a = {a};
			m->opaque = opaque_of(m);
			bool fits = true;
			m->p = n == "un" ? (int) o.arg(2) : n == "sca" ? (int) o.arg(3) : 0;
			if (a->s.empty())
			{
				if (n == "un" && (m->k >= 9 && (m->k < 15 || m->k > 17) && (m->k < 24 || m->k == 27))) return true;
				if (n == "gen") return true;
			}
			else m->s = n == "un" ? shape_un(m->k, m->p, a->s, fits) : n == "sca" && gn(a->s) == 1 ? gshape{1} : a->s;
			if (!fits) return true;
			static const double cs[] = {0.5, 2.0, -1.5, 3.25, 1.0000001, 1.0000002, 0.1234567, 0.1234568};
			m->c = cs[o.arg(2) % 8];
			// dividing by a constant holding zero is refused by the library
			if (n == "sca" && m->k == 7 && a->op == G_CONST) m->k = 6;
			add(m);
			return true;
		}
		if (n == "bin")
		{
			size_t i = pick(o.arg(1)), j = pick(o.arg(2));
			GM a = ents[i].models[0], b = ents[j].models[0];
			if (a->s.empty() || b->s.empty()) return true;
			GM m(new GModel());
			m->op = G_BIN;
			m->k = (int) (o.arg(0) % (NBIN + 8)) ;
			if (m->k >= NBIN) m->k = (m->k - NBIN) % 5;
			m->p = (int) o.arg(3);
			m->a = {a, b};
			m->opaque = opaque_of(m);
			bool fits = true;
			m->s = shape_bin(m->k, m->p, a->s, b->s, fits);
			if (!fits && m->k >= 4) { m->k %= 4; m->s = shape_bin(m->k, m->p, a->s, b->s, fits); }
			if (!fits) return true;
			// the same node on both sides folds
			if (m->k == 3 && (a->op == G_CONST || b->op == G_CONST)) m->k = 0;
			if (m->k == 13 && (a->op == G_CONST || b->op == G_CONST)) m->k = 9;
			if (ents[i].kind == 'k' && ents[j].kind == 'k') return true;
			if (m->k >= 4 && (ents[i].kind == 'k' || ents[j].kind == 'k')) return true;
			add(m);
			return true;
		}
		if (n == "axm")
		{
			// an operator along an axis, between a node (a product where there is one) and a new leaf with one more dimension
			std::vector<size_t> ms, all;
			for (size_t i : conns())
			{
				GM x = ents[i].models[0];
				if (x->s.empty() || gn(x->s) < 2 || x->s.size() > 2) continue;
				all.push_back(i);
				if (x->op == G_BIN && (x->k == 4 || x->k == 11 || x->k > 13)) ms.push_back(i);
			}
			if (ms.empty()) ms = all;
			if (ms.empty()) return true;
			size_t i = ms[o.arg(0) % ms.size()];
			GM x = ents[i].models[0];
			GM m(new GModel());
			static const int ks[] = {9, 10, 12, 13};
			m->op = G_BIN;
			m->k = ks[o.arg(1) % 4];
			m->p = (o.arg(2) % 2 ? (int) x->s.size() : 0) + 3 * (int) (o.arg(2) / 2 % 2);
			gshape w = x->s;
			w.insert(w.begin() + axis_of(m->p), 2 + o.arg(1) / 4 % 2);
			std::shared_ptr<GLeaf> l(new GLeaf());
			l->s = w;
			GM v(new GModel());
			v->leaf = l;
			v->s = w;
			size_t j = reg(new nnet::variable<double>(nnet::tensorshape(w), vec_init({0.25}), "v" + std::to_string(made++)), true, v);
			set_leaf(j, numbers(r, gn(w)));
			m->a = {x, v};
			if (!left_axial(m->p)) std::swap(m->a[0], m->a[1]);
			m->opaque = opaque_of(m);
			bool fits = true;
			m->s = shape_bin(m->k, m->p, m->a[0]->s, m->a[1]->s, fits);
			if (fits) { add(m); sim::count("probe.axial-products"); }
			return true;
		}
		if (n == "twin")
		{
			// a copy outlives its original and is differentiated
			std::vector<size_t> cs;
			for (size_t i : conns()) if (!ents[i].frozen && ents[i].p->no_audience()) cs.push_back(i);
			if (cs.empty()) return true;
			std::vector<size_t> ax;
			for (size_t i : cs) { GM x = ents[i].models[0]; if (x->op == G_BIN && (x->k == 9 || x->k == 10 || x->k == 12 || x->k == 13)) ax.push_back(i); }
			if (ax.size() && o.arg(1) % 2) cs = ax;
			size_t i = cs[o.arg(0) % cs.size()], k = ents.size();
			auto again = [&](const char* op, size_t x) { std::vector<size_t> u = users(true); long at = std::find(u.begin(), u.end(), x) - u.begin(); if (at < (long) u.size()) apply(sim::parse_op(sim::make_op(op, {at, o.arg(1)})), r); };
			again("clone", i);
			destroy(i);
			sim::count("probe.originals-destroyed");
			if (k < ents.size() && alive(k) && !ents[k].frozen) again("der", k);
			return true;
		}
		if (n == "again")
		{
			// the same operator on the same arguments, with another setting
			std::vector<GM> ms;
			for (size_t i : conns()) for (GM& x : ents[i].models) if (x->op == G_UN || x->op == G_SCA || x->op == G_BIN) ms.push_back(x);
			if (ms.empty()) return true;
			GM x = ms[o.arg(0) % ms.size()];
			for (auto& y : x->a)
			{
				bool there = false;
				for (size_t i : us) for (GM& z : ents[i].models) there = there || z == y;
				if (!there) return true;
			}
			GM m(new GModel(*x));
			m->p = (int) o.arg(1);
			bool fits = true;
			if (x->a[0]->s.size() && (x->op != G_BIN || x->a[1]->s.size()))
			{
				if (x->op == G_UN) m->s = shape_un(m->k, m->p, x->a[0]->s, fits);
				if (x->op == G_BIN) m->s = shape_bin(m->k, m->p, x->a[0]->s, x->a[1]->s, fits);
			}
			if (fits) { add(m); sim::count("probe.operators-repeated"); }
			return true;
		}
		if (n == "der")
		{
			size_t i = pick(o.arg(0));
			if (!conn(ents[i].kind)) return true;
			GM f = ents[i].models[0];
			std::vector<GM> vs;
			std::set<GModel*> seen;
			vars_of(f, vs, seen);
			std::set<GModel*> s2, s3;
			if (vs.empty() || f->opaque || f->op == G_DER || has_op(f, G_GEN, s2)) return true;
			GM m(new GModel());
			m->op = G_DER;
			m->opaque = true;
			GM x = vs[o.arg(1) % vs.size()];
			m->a = {f, x};
			sim::log("derivative of %s", text(m).c_str());
			{
				// only derivatives the library can build and evaluate at all; those that fold into constants leave
				// helpers behind that nothing owns: no leak accounting after them
				uint64_t mark = sim::heap_mark();
				bool ok = true;
				{
				Fresh t;
				try { gnode* d = t.build(m); if (!d || nnet::expose<double>(d).empty()) ok = false; }
				catch (std::exception&) { any_threw = true; sim::count("probe.derivative-unsupported"); ok = false; }
				}
				if (!ok) return true;
				if (sim::heap_live_since(mark)) { any_threw = true; sim::count("probe.derivative-leaves-helpers"); }
			}
			// gradient nodes shared with earlier derivatives may not fit this one: such a graph can't be evaluated any further
			if (add(m)) try { if (!ents.back().frozen) for (size_t k = 0; k < ents.size(); k++) if (alive(k) && conn(ents[k].kind) && !ents[k].frozen) { ents[k].p->eval(); } }
			catch (std::exception&) { any_threw = poisoned = true; sim::count("probe.derivative-unsupported"); }
			return true;
		}
		if (n == "derc") { derive_by_node(pick(o.arg(0)), o.arg(1)); return true; }
		if (n == "derx")
		{
			if (swaps.empty()) return true;
			size_t k = o.arg(0) % swaps.size();
			if (o.arg(1) % 5 > 1) compare_swap(k);
			else if (o.arg(1) % 5 == 1)
			{
				// whoever owns the derivative may move it, what it moved out of goes
				Swap& w = swaps[k];
				nnet::iconnector<double>* c = dynamic_cast<nnet::iconnector<double>*>(w.h->v.get());
				if (!c || !sim::heap_same(w.block, w.birth)) return true;
				gnode* q = c->move();
				w.h.reset(new Held(q));
				w.block = nullptr;
				w.birth = sim::heap_birth(q, w.block);
				delete c;
				sim::count("probe.derivatives-moved");
				if (w.h->v.get() != q || !sim::heap_same(w.block, w.birth)) sim::violate("destroy:survivor", "destroying what a derivative was moved out of destroyed the derivative");
				compare_swap(k);
			}
			else { swaps[k].drop(); swaps.erase(swaps.begin() + k); }
			return true;
		}
		if (n == "set")
		{
			std::vector<size_t> ls = leaves();
			if (ls.empty()) return true;
			size_t i = ls[o.arg(0) % ls.size()];
			gvec v = numbers(r, gn(ents[i].models[0]->s));
			long way = o.arg(1);
			if (way == 1) load_leaf(i, v);
			else if (way == 2) misload_leaf(i, v);
			else if (way == 5) reinit_leaf(i, v);
			else if (way >= 3 && ents[i].models[0]->leaf->init) put_leaf(i, v, way == 4);
			else set_leaf(i, v);
			return true;
		}
		if (n == "asg")
		{
			// variable <op>= node, of the same shape
			std::vector<size_t> ls;
			for (size_t i : us) if (ents[i].kind == 'v' && ents[i].models[0]->leaf->init) ls.push_back(i);
			if (ls.empty()) return true;
			size_t i = ls[o.arg(0) % ls.size()];
			std::vector<size_t> ss;
			for (size_t k : us) if (k != i && readable(k) && !ents[k].frozen && ents[k].models[0]->s == ents[i].models[0]->s) ss.push_back(k);
			if (ss.empty()) return true;
			size_t s = ss[o.arg(1) % ss.size()];
			nnet::variable<double>* v = static_cast<nnet::variable<double>*>(ents[i].p);
			gnode* src = ents[s].p;
			gvec before = ents[i].models[0]->leaf->v;
			std::function<void(bool)> f = o.arg(2) % 3 == 0 ? v->assign(src) : o.arg(2) % 3 == 1 ? v->assign_add(src) : v->assign_sub(src);
			// the source is read when the step is taken
			read(s, false);
			gvec sv = nnet::expose<double>(src);
			if (o.arg(3))
			{
				// silently, told later
				f(false);
				v->notify(nnet::UPDATE);
			}
			else f(true);
			gvec now = v->eval()->expose();
			for (size_t k = 0; k < now.size(); k++)
			{
				double w = o.arg(2) % 3 == 0 ? sv[k] : o.arg(2) % 3 == 1 ? before[k] + sv[k] : before[k] - sv[k];
				if (!(now[k] == w || (std::isnan(now[k]) && std::isnan(w)))) sim::violate("assign:wrong", "assignment of kind %ld put %.17g, expected %.17g", o.arg(2) % 3, now[k], w);
			}
			for (double& d : now) if (!std::isfinite(d) || std::fabs(d) > 50) { set_leaf(i, numbers(r, now.size())); return true; }
			ents[i].models[0]->leaf->v = now;
			return true;
		}
		if (n == "read") { read(pick(o.arg(0)), o.arg(1)); return true; }
		if (n == "shape")
		{
			size_t i = pick(o.arg(0));
			if (conn(ents[i].kind))
			{
				// the leaves below a node are those below its arguments (nodes that pass no gradient name none)
				std::set<gnode*> below, said;
				for (gnode* a : ents[i].p->get_arguments()) if (a) for (auto* l : a->get_leaves()) below.insert(l);
				for (auto* l : ents[i].p->get_leaves()) said.insert(l);
				if (!said.empty() && said != below) sim::violate("leaves:wrong", "%s (node %zu) names %zu leaves below it, its arguments %zu", ents[i].p->get_label().c_str(), i, said.size(), below.size());
			}
			gshape s = ents[i].p->get_shape().as_list();
			if (!readable(i) || ents[i].frozen) return true;
			const nnet::tensor<double>* t = nullptr;
			try { t = ents[i].p->eval(); } catch (std::exception& e) { return true; } // judged when read
			if (!t || !t->is_alloc()) return true;
			if (!ents[i].p->good_status()) sim::violate("read:status", "%s (node %zu) was read but says it holds no data", ents[i].p->get_label().c_str(), i);
			if (t->get_shape().as_list() != s) sim::violate("read:shape", "%s (node %zu) reported another shape than its value has", ents[i].p->get_label().c_str(), i);
			return true;
		}
		if (n == "failread")
		{
			size_t i = pick(o.arg(0));
			if (!readable(i) || ents[i].frozen) return true;
			bool viam = o.arg(2);
			bool hit = false;
			if (viam) sim::malloc_fail_after(o.arg(1)); else sim::heap_fail_after(o.arg(1));
			try { ents[i].p->eval(); } catch (...) { hit = true; }
			sim::heap_fail_after(-1);
			sim::malloc_fail_after(-1);
			if (hit) { any_threw = true; sim::count("fault.allocation-failed-during-read"); }
			if (o.arg(3)) read(i, false, "read:stale-after-failed-read");
			return true;
		}
		if (n == "failset")
		{
			std::vector<size_t> ls;
			for (size_t i : leaves()) if (ents[i].models[0]->leaf->init) ls.push_back(i);
			if (ls.empty()) return true;
			size_t i = ls[o.arg(0) % ls.size()];
			gvec v = numbers(r, gn(ents[i].models[0]->s));
			bool hit = false;
			sim::heap_fail_after(o.arg(1));
			try { set_leaf(i, v); } catch (...) { hit = true; }
			sim::heap_fail_after(-1);
			if (hit) { any_threw = true; sim::count("fault.allocation-failed-during-assignment"); set_leaf(i, v); }
			return true;
		}
		if (n == "clone")
		{
			size_t i = pick(o.arg(0));
			Ent e = ents[i];
			if (e.kind == 'k') return true;
			gnode* q = e.p->clone();
			if (!q) return true;
			if (e.kind == 'v' || e.kind == 'p')
			{
				GM m(new GModel(*e.models[0]));
				m->leaf.reset(new GLeaf(*e.models[0]->leaf));
				reg(q, true, m, e.kind);
				return true;
			}
			size_t k = reg(q, true, GM(), e.kind);
			ents[k].models = e.models;
			ents[k].frozen = e.frozen;
			ents[k].fset = e.fset;
			ents[k].fval = e.fval;
			return true;
		}
		if (n == "mv")
		{
			std::vector<size_t> cs = conns();
			if (cs.empty()) return true;
			size_t i = cs[o.arg(0) % cs.size()];
			Ent e = ents[i];
			gnode* q = e.p->move();
			ents[i].kind = 'h';
			ents[i].models.clear();
			ents[i].user = false;
			size_t k = reg(q, true, GM(), e.kind);
			ents[k].models = e.models;
			ents[k].frozen = e.frozen;
			ents[k].fset = e.fset;
			ents[k].fval = e.fval;
			if (o.arg(1) % 3) delete e.p;
			sim::count("probe.nodes-moved");
			return true;
		}
		if (n == "lmv")
		{
			// move a leaf: its users follow
			std::vector<size_t> ls = leaves();
			if (ls.empty()) return true;
			size_t i = ls[o.arg(0) % ls.size()];
			Ent e = ents[i];
			for (GM& m : e.models) if (m->leaf) m->leaf->moved = true;
			gnode* q = e.p->move();
			ents[i].kind = 'h';
			ents[i].models.clear();
			ents[i].user = false;
			size_t k = reg(q, true, GM(), e.kind);
			ents[k].models = e.models;
			if (drop_leaf_husks) delete e.p;
			sim::count("probe.leaves-moved");
			return true;
		}
		if (n == "lcp" || n == "lma")
		{
			// assign one leaf from another of the same kind and shape
			std::vector<size_t> ls;
			for (size_t i : leaves()) if (ents[i].models[0]->leaf->init) ls.push_back(i);
			if (ls.empty()) return true;
			size_t i = ls[o.arg(0) % ls.size()];
			std::vector<size_t> ss;
			for (size_t k : ls) if (k != i && ents[k].kind == ents[i].kind && ents[k].models[0]->leaf->s == ents[i].models[0]->leaf->s) ss.push_back(k);
			if (ss.empty()) return true;
			size_t k = ss[o.arg(1) % ss.size()];
			std::shared_ptr<GLeaf> di = ents[i].models[0]->leaf, dk = ents[k].models[0]->leaf;
			nnet::ivariable<double>& a = *static_cast<nnet::ivariable<double>*>(ents[i].p);
			nnet::ivariable<double>& b = *static_cast<nnet::ivariable<double>*>(ents[k].p);
			di->v = dk->v;
			di->ini = dk->ini;
			if (n == "lcp")
			{
				a = b;
				sim::count("probe.leaves-copied-over");
				return true;
			}
			di->moved = dk->moved = true;
			di->merged = true;
			// derivatives taken with respect to one of two leaves are not derivatives with respect to the merged one
			for (Ent& e : ents) e.models.erase(std::remove_if(e.models.begin(), e.models.end(), [&](const GM& m)
			{
				std::set<GModel*> seen;
				return (m->opaque || m->op == G_DER) && (uses(m, di.get(), seen) || (seen.clear(), uses(m, dk.get(), seen)));
			}), e.models.end());
			a = std::move(b);
			for (GM& m : ents[k].models) { if (m->leaf) m->leaf = di; ents[i].models.push_back(m); }
			ents[k].kind = 'h';
			ents[k].models.clear();
			ents[k].user = false;
			if (drop_leaf_husks) delete ents[k].p;
			sim::count("probe.leaves-moved-over");
			return true;
		}
		if (n == "cas")
		{
			// assign one operator node from another: the target must have no users
			std::vector<size_t> cs;
			for (size_t i : conns()) if (!ents[i].frozen && dynamic_cast<nnet::immutable<double>*>(ents[i].p) && typeid(*ents[i].p) == typeid(nnet::immutable<double>)) cs.push_back(i);
			std::vector<size_t> ts;
			for (size_t i : cs) if (ents[i].p->no_audience()) ts.push_back(i);
			if (ts.empty() || cs.size() < 2) return true;
			size_t i = ts[o.arg(0) % ts.size()], k = cs[o.arg(1) % cs.size()];
			if (i == k) return true;
			nnet::immutable<double>& a = *static_cast<nnet::immutable<double>*>(ents[i].p);
			nnet::immutable<double>& b = *static_cast<nnet::immutable<double>*>(ents[k].p);
			if (o.arg(2) % 2) a = b;
			else
			{
				a = std::move(b);
				ents[k].kind = 'h';
				ents[k].user = false;
			}
			ents[i].models = ents[k].models;
			if (o.arg(2) % 2 == 0) ents[k].models.clear();
			sim::count("probe.operators-assigned");
			return true;
		}
		if (n == "twa")
		{
			// assign to an operator that is the last user of a node it has as several arguments
			std::vector<size_t> cs;
			for (size_t i : conns()) if (!ents[i].frozen && typeid(*ents[i].p) == typeid(nnet::immutable<double>)) cs.push_back(i);
			if (cs.empty()) return true;
			size_t k = cs[o.arg(0) % cs.size()];
			nnet::variable<double>* sh = new nnet::variable<double>(nnet::tensorshape(gshape{2, 2}), nnet::const_init<double>(0), "twa");
			sh->initialize();
			gnode *g, *n0;
			{
				gptr h = nnet::generator<double>::get(sh, nnet::const_init<double>(3));
				gptr r = o.arg(1) % 2 ? nnet::matmul<double>(h, h) : nnet::eq<double>(h, h);
				g = h.get();
				n0 = r.get();
			}
			void *gb = nullptr, *nb = nullptr;
			uint64_t gbirth = sim::heap_birth(g, gb), nbirth = sim::heap_birth(n0, nb);
			if (n0 && typeid(*n0) == typeid(nnet::immutable<double>))
			{
				*static_cast<nnet::immutable<double>*>(n0) = *static_cast<nnet::immutable<double>*>(ents[k].p);
				if (sim::heap_same(gb, gbirth)) sim::violate("destroy:leftover", "a generator outlived its last user, which was assigned another operator");
				if (!sim::heap_same(nb, nbirth)) sim::violate("destroy:survivor", "an operator died when it was assigned another one");
				sim::count("probe.last-users-assigned");
			}
			if (n0 && sim::heap_same(nb, nbirth) && !dynamic_cast<nnet::ileaf<double>*>(n0)) delete n0;
			delete sh;
			return true;
		}
		if (n == "del")
		{
			size_t i = pick(o.arg(0));
			// leaves take much of the graph with them: less often
			if ((ents[i].kind == 'v' || ents[i].kind == 'p') && o.arg(1) % 3) i = pick(o.arg(0) + 1);
			destroy(i);
			return true;
		}
		if (n == "delany")
		{
			std::vector<size_t> all;
			for (size_t i = 0; i < ents.size(); i++) if (alive(i)) all.push_back(i);
			destroy(all[o.arg(0) % all.size()]);
			return true;
		}
		if (n == "hold") { size_t i = pick(o.arg(0)); held.emplace_back(new Held(ents[i].p)); return true; }
		if (n == "drop") { if (!held.empty()) held.erase(held.begin() + o.arg(0) % held.size()); return true; }
		if (n == "freeze") { std::vector<size_t> cs = conns(); if (cs.size()) { freeze(cs[o.arg(0) % cs.size()]); sim::count("probe.freezes"); } return true; }
		if (n == "thaw")
		{
			std::vector<size_t> cs;
			for (size_t i : conns()) if (ents[i].frozen) cs.push_back(i);
			if (cs.empty()) return true;
			size_t i = cs[o.arg(0) % cs.size()];
			thaw(i);
			sim::count("probe.thaws");
			if (o.arg(1)) read_all(false);
			return true;
		}
		return false;
	}
	void teardown (sim::Rng& r)
	{
		held.clear();
		bool late = r.chance(0.5);
		if (!late) for (auto& w : swaps) w.drop();
		if (!late) swaps.clear();
		for (;;)
		{
			std::vector<size_t> ls, cs;
			for (size_t i = 0; i < ents.size(); i++) if (alive(i)) { if (ents[i].kind == 'v' || ents[i].kind == 'p') ls.push_back(i); else cs.push_back(i); }
			if (ls.empty() && cs.empty()) break;
			std::vector<size_t>& x = ls.empty() ? cs : ls;
			destroy(x[r.below(x.size())]);
		}
		for (auto& w : swaps) w.drop();
		swaps.clear();
	}
};
