// A zoo of models for the storage, training and copying checks.
#pragma once
#include "core.h"
#include "graphworld.h"
#include "compounds/mlp.hpp"
#include "models/gd_net.hpp"
#include "models/dq_net.hpp"
#include "models/rbm.hpp"
#include "models/db_net.hpp"
#include <cstring>
#include <optional>

typedef nnet::variable<double> zvar;

// shape and bit patterns of one parameter
struct Param
{
	gshape s;
	std::vector<uint64_t> b;
	bool operator == (const Param& o) const { return s == o.s && b == o.b; }
	bool operator != (const Param& o) const { return !(*this == o); }
	bool operator < (const Param& o) const { return s != o.s ? s < o.s : b < o.b; }
};
inline uint64_t bits (double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double unbits (uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline std::vector<uint64_t> bits (const gvec& v) { std::vector<uint64_t> r; for (double d : v) r.push_back(bits(d)); return r; }

// false: the parameter has no contents
inline bool take_param (gnode* v, Param& p)
{
	const nnet::tensor<double>* t = v->eval();
	if (!t || !t->is_alloc()) return false;
	p.s = t->get_shape().as_list();
	p.b = bits(t->expose());
	if (p.b.size() != gn(p.s)) sim::violate("param:size", "a parameter of shape with %zu elements holds %zu", gn(p.s), p.b.size());
	return true;
}
inline void put_param (zvar* v, const gvec& vals)
{
	v->set_initializer(vec_init(vals));
	v->initialize();
	v->set_initializer(nnet::rand_uniform<double>(-0.5, 0.5));
}
inline std::string pstr (const Param& p)
{
	std::string s = "[";
	for (size_t i = 0; i < p.s.size(); i++) s += (i ? "," : "") + std::to_string(p.s[i]);
	s += "]{";
	char b[40];
	for (size_t i = 0; i < p.b.size() && i < 3; i++) { snprintf(b, sizeof b, "%s%.17g", i ? " " : "", unbits(p.b[i])); s += b; }
	return s + (p.b.size() > 3 ? " ..}" : "}");
}

enum ZKind { Z_MLP, Z_GD, Z_DQ, Z_RBM, Z_DBN, Z_GDR, Z_N };
struct Arch
{
	int kind = Z_MLP;
	size_t nin = 2;
	std::vector<size_t> hid;   // sizes, last is the output
	int upd = 0;               // 0 vanilla, 1 rmsprop
	double lr = 0.1;
	double disc = 0.99;        // rmsprop's discount factor
	int via = 0;               // how the optimiser got its settings: 0 built so, 1 set later, 2 copied over, 3 moved over, 4 copied
	std::vector<int> fn;       // activation per level
	bool operator == (const Arch& o) const { return (kind == Z_DQ) == (o.kind == Z_DQ) && shapes() == o.shapes(); }
	std::vector<gshape> shapes () const
	{
		std::vector<gshape> r;
		size_t in = nin;
		if (kind == Z_RBM || kind == Z_GDR) { r = {{hid[0], nin}, {hid[0]}, {nin}}; return r; }
		for (size_t i = 0; i < hid.size(); i++)
		{
			r.push_back({hid[i], in});
			r.push_back({hid[i]});
			if (kind == Z_DBN && i + 1 < hid.size()) r.push_back({in});
			in = hid[i];
		}
		return r;
	}
};

// linear functions compute with plain numbers what the library computes with graphs
inline rocnnet::VAR_FUNC act (int k)
{
	switch (k)
	{
		case 0: return nnet::sigmoid<double>;
		case 1: return nnet::tanh<double>;
		default: return nnet::identity<double>;
	}
}

struct Model
{
	Arch a;
	std::string scope;
	rocnnet::icompound* comp = nullptr;   // the trainable network (owned by gd/dq when there is one)
	rocnnet::gd_net* gd = nullptr;
	rocnnet::dq_net* dq = nullptr;
	nnet::placeholder<double>* in = nullptr;
	gptr out;
	bool init = false;

	Model () = default;
	Model (const Model&) = delete;
	void build (const Arch& arch, const std::string& sc, const rocnnet::dqn_param& dp = rocnnet::dqn_param())
	{
		a = arch;
		scope = sc;
		nnet::vgb_updater vg(a.via == 1 || a.via == 2 || a.via == 3 ? 0.9 : a.lr), vsrc(a.lr);
		nnet::rmspropupdater rm0(a.via == 1 || a.via == 2 || a.via == 3 ? 0.9 : a.lr, a.via == 1 || a.via == 2 || a.via == 3 ? 0.7 : a.disc), rsrc(a.lr, a.disc);
		if (a.via == 1) { vg.set_learning_rate(a.lr); rm0.set_learning_rate(a.lr); rm0.set_discount_factor(a.disc); }
		if (a.via == 2) { vg = vsrc; rm0 = rsrc; }
		if (a.via == 3) { vg = std::move(vsrc); rm0 = std::move(rsrc); }
		std::unique_ptr<nnet::rmspropupdater> rcl(a.via == 4 ? rsrc.clone() : nullptr);
		nnet::rmspropupdater& rm = rcl ? *rcl : rm0;
		nnet::gd_updater& up = a.upd ? static_cast<nnet::gd_updater&>(rm) : vg;
		std::vector<rocnnet::IN_PAIR> h;
		for (size_t i = 0; i < a.hid.size(); i++) h.push_back({a.hid[i], act(a.fn.empty() ? 0 : a.fn[i % a.fn.size()])});
		switch (a.kind)
		{
			case Z_MLP: comp = new rocnnet::mlp(a.nin, h, sc); break;
			case Z_GD: comp = new rocnnet::mlp(a.nin, h, sc + "_brain"); gd = new rocnnet::gd_net(comp, up, sc); break;
			case Z_GDR: comp = new rocnnet::rbm(a.nin, a.hid[0], sc + "_brain"); gd = new rocnnet::gd_net(comp, up, sc); break;
			case Z_DQ: { rocnnet::mlp* m = new rocnnet::mlp(a.nin, h, sc + "_brain"); comp = m; dq = new rocnnet::dq_net(m, up, dp, sc); break; }
			case Z_RBM: comp = new rocnnet::rbm(a.nin, a.hid[0], sc); break;
			default: comp = new rocnnet::db_net(a.nin, a.hid, sc); break;
		}
	}
	~Model ()
	{
		out.clear();
		if (gd) delete gd;
		else if (dq) delete dq;
		else delete comp;
		delete in;
	}
	std::vector<zvar*> vars () const { return comp->get_variables(); }
	// parameters of the target network, in no particular order
	std::vector<zvar*> target () const
	{
		std::vector<zvar*> r;
		if (!dq) return r;
		std::vector<zvar*> src = vars();
		for (auto* l : dq->get_error()->get_leaves())
			if (zvar* v = dynamic_cast<zvar*>(l)) if (std::find(src.begin(), src.end(), v) == src.end()) r.push_back(v);
		return r;
	}
	void initialize (const std::string& f = "", const std::string& l = "")
	{
		if (gd) gd->initialize(f, l);
		else if (dq) dq->initialize(f, l);
		else comp->initialize(f, l);
		init = true;
	}
	bool save (const std::string& f, const std::string& l) const { return gd ? gd->save(f, l) : dq ? dq->save(f, l) : comp->save(f, l); }
	gvec predict (gvec x)
	{
		if (gd) return (*gd)(x);
		if (dq) return (*dq)(x);
		if (!in)
		{
			in = new nnet::placeholder<double>(gshape{a.nin, 0}, "zin");
			out = comp->prop_up(in);
		}
		*in = x;
		return nnet::expose<double>(out);
	}
};
