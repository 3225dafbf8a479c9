// C19: allocators that refuse memory, and a ledger of every block. Two worlds: tensors over several allocators,
// and graph nodes over the default one.
#include "graphworld.h"
#include <complex>
#include <cstdlib>
using namespace sim;

#ifdef SIM_WRAP_MALLOC
extern "C" void* __real_malloc (size_t);
extern "C" void __real_free (void*);
#else
#define __real_malloc malloc
#define __real_free free
#endif

namespace
{
// ---------------------------------------------------------------- ledgered allocators
struct Block { void* p; size_t n; int who; };
enum { MAXB = 8192, LIMIT = 1 << 26 };
Block blocks[MAXB];
size_t nblocks = 0;
long afail = -1;
uint64_t arefused = 0, aserved = 0;

void* book_get (int who, size_t n)
{
	if (afail >= 0 && afail-- == 0) { count("fault.allocator-refused"); arefused++; return nullptr; }
	if (n > LIMIT) { count("fault.allocator-too-big"); arefused++; return nullptr; }
	void* p = __real_malloc(n);
	if (!p) harness_error("no memory");
	// contents of fresh memory are no tensor's contents
	for (size_t i = 0; i < n; i++) ((unsigned char*) p)[i] = 0x40 + i % 3;
	if (nblocks == MAXB) harness_error("ledger full");
	blocks[nblocks++] = {p, n, who};
	aserved++;
	return p;
}
void book_del (int who, void* p, size_t n)
{
	for (size_t i = 0; i < nblocks; i++)
	{
		if (blocks[i].p != p) continue;
		if (blocks[i].who != who) violate("ledger:wrong-allocator", "a block of allocator %d was returned to allocator %d", blocks[i].who, who);
		if (blocks[i].n != n) violate("ledger:wrong-size", "a block requested with %zu bytes was returned with %zu", blocks[i].n, n);
		blocks[i] = blocks[--nblocks];
		__real_free(p);
		return;
	}
	violate("ledger:unknown-block", "a block allocator %d does not hold was returned to it (%zu bytes)", who, n);
}
template <int K> struct book_alloc : nnet::iallocator
{
	void* get_raw (size_t, size_t n) override { return book_get(K, n); }
	void del_raw (void* p, size_t n) override { book_del(K, p, n); }
	nnet::iallocator* clone_impl () const override { return new book_alloc(*this); }
	nnet::iallocator* move_impl () override { return new book_alloc(*this); }
};

struct Fail
{
	uint64_t a0, m0;
	bool on;
	explicit Fail (long n, bool heap) : a0(arefused), m0(malloc_refused()), on(n >= 0)
	{
		if (!on) return;
		if (heap) { heap_fail_after(n); return; }
		afail = n;
		malloc_fail_after(n);
	}
	void off () { afail = -1; malloc_fail_after(-1); heap_fail_after(-1); }
	bool fired () const { return arefused != a0 || malloc_refused() != m0; }
	~Fail () { off(); }
};

const std::vector<gshape> SHAPES = {{}, {1}, {3}, {2, 3}, {3, 2}, {0, 3}, {2, 0}, {0}, {2, 3, 2}, {6}, {1, 3}, {4, 4}, {3, 1}, {0, 0}, {2, 2},
	{1ul << 40}, {1ul << 33, 1ul << 31}, {1ul << 62, 4}, {3, 1ul << 35}};
const size_t NSMALL = 15;
bool full (const gshape& s) { if (s.empty()) return false; for (size_t d : s) if (!d) return false; return true; }
std::string str (const gshape& s) { std::string r = "["; for (size_t d : s) r += std::to_string(d) + " "; return r + "]"; }
// the number of elements a shape has in truth
double realn (const gshape& s) { double n = 1; for (size_t d : s) n *= (double) d; return n; }

// ---------------------------------------------------------------- tensors
struct Out { int k; };   // 0 done, 1 true, 2 false, 3 threw
const char* outname (Out o) { static const char* const n[] = {"returned", "returned true", "returned false", "threw"}; return n[o.k]; }

template <typename T> struct TensorWorld
{
	typedef nnet::tensor<T> Ten;
	struct State
	{
		bool alloc = false;
		gshape shape, allow;
		std::vector<T> data;
		bool operator == (const State& o) const { return alloc == o.alloc && shape == o.shape && allow == o.allow && data == o.data; }
	};
	enum { N = 6 };
	bool big = false;        // the operation may ask for more than can be counted, which needs no allocator to be refused
	std::unique_ptr<Ten> t[N];
	State st[N];
	bool unwritten[N] = {};  // holds memory nobody wrote yet

	T val (long v) { return (T) (v % 100 + 1); }

	State look (const Ten& x, const char* when)
	{
		State s;
		s.alloc = x.is_alloc();
		s.shape = x.get_shape().as_list();
		if (x.dims() != s.shape || x.rank() != s.shape.size()) violate("tensor:shape-views", "%s: dims, rank and get_shape disagree", when);
		if (!s.alloc)
		{
			s.allow = s.shape;
			if (x.n_elems() != 0 || x.total_bytes() != 0) violate("tensor:half-allocated", "%s: an unallocated tensor claims %zu elements", when, x.n_elems());
			return s;
		}
		if (!full(s.shape)) violate("tensor:undefined-allocation", "%s: allocated with shape %s", when, str(s.shape).c_str());
		if (realn(s.shape) * sizeof(T) > LIMIT) violate("tensor:phantom-memory", "%s: tensor of shape %s claims to be allocated, no allocator handed out that much", when, str(s.shape).c_str());
		if (x.n_elems() != gn(s.shape) || x.total_bytes() != gn(s.shape) * sizeof(T))
			violate("tensor:size", "%s: shape %s but %zu elements", when, str(s.shape).c_str(), x.n_elems());
		s.data = x.expose();
		tenncor::tensor_proto p;
		x.serialize(&p);
		s.allow.assign(p.allow_shape().begin(), p.allow_shape().end());
		return s;
	}
	void log_state (const State& s)
	{
		log_hash(s.alloc);
		for (size_t d : s.shape) log_hash(d);
		for (const T& d : s.data) log_hash((uint64_t) (long) d);
	}
	// run an operation on tensor i, with memory refused at the fail-th request
	template <typename F> void run (long i, const char* name, long fail, bool heap, F act, std::function<void(const State&, const State&, Out)> post)
	{
		Ten& x = *t[i];
		State before = st[i];
		std::unique_ptr<Ten> twin;
		if (fail >= 0 && !heap) twin.reset(new Ten(x));
		Out o;
		bool fired, oom = false;
		{
			Fail f(fail, heap);
			try { o = act(x); }
			catch (std::bad_alloc&) { o.k = 3; oom = true; }
			catch (std::exception&) { o.k = 3; }
			f.off();
			fired = f.fired() || (big && o.k > 1);
		}
		State after = look(x, name);
		log("%s %ld: %s%s", name, i, outname(o), fired ? " (refused)" : "");
		log_state(after);
		st[i] = after;
		others(i, name);
		if (heap)
		{
			// the tensor stays valid; what it holds is open once other memory ran out
			if (oom) { count("probe.heap-exhausted"); return; }
			if (fired) return;   // too big
		}
		else if (fired)
		{
			count("probe.refused-operation");
			nontrivial();
			if (o.k == 0 || o.k == 1) violate("fail:unreported", "%s on a tensor of shape %s: memory was refused but it %s", name, str(before.shape).c_str(), outname(o));
			if (!(after == before) && after.alloc) violate("fail:changed", "%s failed for lack of memory and left a tensor of shape %s (allowed %s) where one of shape %s (allowed %s) was",
				name, str(after.shape).c_str(), str(after.allow).c_str(), str(before.shape).c_str(), str(before.allow).c_str());
			if (!(after == before) && !before.alloc) violate("fail:changed", "%s failed for lack of memory and changed an unallocated tensor from shape %s to %s", name, str(before.shape).c_str(), str(after.shape).c_str());
			if (!twin) return;
			// memory is back: the same operation does what it would have done
			bool same = after == before;
			uint64_t r0 = arefused + malloc_refused();
			Out o1, o2;
			try { o1 = act(x); } catch (std::exception&) { o1.k = 3; }
			if (r0 != arefused + malloc_refused() || big) { st[i] = look(x, name); return; }  // asks for too much
			State s1 = look(x, name);
			st[i] = s1;
			if (same)
			{
				try { o2 = act(*twin); } catch (std::exception&) { o2.k = 3; }
				State s2 = look(*twin, name);
				if (o1.k != o2.k || !(s1 == s2)) violate("fail:not-usable-again", "%s after a refusal: %s shape %s, on an equal tensor without one: %s shape %s", name, outname(o1), str(s1.shape).c_str(), outname(o2), str(s2.shape).c_str());
			}
			others(i, name);
			return;
		}
		if (post) post(before, after, o);
	}
	void others (long i, const char* name)
	{
		for (long k = 0; k < N; k++) if (k != i && t[k])
		{
			State s = look(*t[k], name);
			if (!(s == st[k])) violate("tensor:bystander", "%s on tensor %ld changed tensor %ld", name, i, k);
		}
	}
	// create a tensor in slot i
	template <typename F> void make (long i, const char* name, long fail, bool heap, F create, std::function<void(const State&)> post)
	{
		size_t held = nblocks;
		if (t[i]) { t[i].reset(); held = nblocks; }
		bool fired, threw = false;
		{
			Fail f(fail, heap);
			try { t[i].reset(create()); }
			catch (std::exception&) { threw = true; }
			f.off();
			fired = f.fired() || (big && threw);
		}
		log("%s %ld: %s", name, i, threw ? "threw" : "made");
		if (threw && nblocks != held) violate("fail:constructor-keeps-memory", "%s threw and kept %zd blocks", name, (ssize_t) (nblocks - held));
		if (threw && !fired && !(heap && fail >= 0)) violate("make:refused", "%s threw although memory was there", name);
		if (fired && !threw) violate("fail:unreported", "%s: memory was refused but it returned", name);
		if (threw) { count("probe.refused-construction"); nontrivial(); }
		if (!t[i]) { others(i, name); return; }
		st[i] = look(*t[i], name);
		log_state(st[i]);
		others(i, name);
		if (post) post(st[i]);
	}
	void want (const char* name, const State& got, const State& w)
	{
		if (!(got == w)) violate("copy:differs", "%s gave shape %s allowed %s allocated %d, the source has %s, %s, %d", name, str(got.shape).c_str(), str(got.allow).c_str(), got.alloc, str(w.shape).c_str(), str(w.allow).c_str(), w.alloc);
	}
	void apply (const Op& o)
	{
		const std::string& n = o.name;
		long i = o.arg(0) % N, j = o.arg(1) % N, fail = o.arg(4, -1);
		bool heap = o.arg(5) != 0;
		const gshape& s = SHAPES[o.arg(2) % SHAPES.size()];
		long id = o.arg(3) % 4;  // 0 default, 1..3 ledgered
		T v = val(o.arg(3));
		big = realn(s) * sizeof(T) > LIMIT;
		if (n == "new") make(i, "construction", fail, heap, [&] { return new Ten(nnet::tensorshape(s), id); }, [&](const State& x)
		{
			if (x.alloc != full(s) || x.shape != s) violate("make:shape", "a tensor made with shape %s has shape %s, allocated %d", str(s).c_str(), str(x.shape).c_str(), x.alloc);
		});
		else if (n == "sca") make(i, "scalar construction", fail, heap, [&] { return new Ten(v, (size_t) id); }, [&](const State& x)
		{
			if (!x.alloc || x.data != std::vector<T>{v}) violate("make:scalar", "a scalar tensor does not hold its value");
		});
		else if (n == "def") make(i, "default construction", fail, heap, [&] { return new Ten(); }, nullptr);
		else if (n == "cpc" || n == "cln")
		{
			if (i == j || !t[j]) return;
			bool so = o.arg(3) & 1;
			State src = st[j];
			make(i, "copy construction", fail, heap, [&] { return n == "cln" ? t[j]->clone(so) : new Ten(*t[j], so); }, [&](const State& x)
			{
				if (so) { if (x.alloc != src.alloc || x.shape != src.shape || x.allow != src.allow) violate("copy:shape", "a shape copy has another shape"); }
				else want("copy construction", x, src);
			});
		}
		else if (n == "mvc" || n == "mvv")
		{
			if (i == j || !t[j]) return;
			State src = st[j];
			t[i].reset();
			std::unique_ptr<Ten> old(t[j].release());
			make(i, "move construction", -1, false, [&] { return n == "mvv" ? old->move() : new Ten(std::move(*old)); }, [&](const State& x) { want("move construction", x, src); });
			// the source stays a valid tensor
			t[j] = std::move(old);
			st[j] = look(*t[j], "move construction");
			if (st[j].alloc) violate("move:source-keeps", "a tensor that was moved from is still allocated");
		}
		else if (n == "del") { t[i].reset(); others(i, "destruction"); }
		else if (!t[i]) return;
		else if (n == "cas")
		{
			if (!t[j]) return;
			State src = st[j];
			run(i, "copy assignment", fail, heap, [&](Ten& x) { x = *t[j]; return Out{0}; }, [&, src](const State&, const State& a, Out r)
			{
				if (r.k == 3) violate("copy:refused", "copy assignment threw although memory was there");
				want("copy assignment", a, src);
			});
		}
		else if (n == "mas")
		{
			if (!t[j]) return;
			State src = st[j];
			if (i != j)
			{
				*t[i] = std::move(*t[j]);
				st[j] = look(*t[j], "move assignment");
				if (st[j].alloc) violate("move:source-keeps", "a tensor that was moved from is still allocated");
			}
			else { Ten& x = *t[i]; Ten& y = *t[j]; x = std::move(y); }
			st[i] = look(*t[i], "move assignment");
			want("move assignment", st[i], src);
			others(i, "move assignment");
		}
		else if (n == "alo") run(i, "allocate", fail, heap, [&](Ten& x) { return Out{x.allocate() ? 1 : 2}; }, [&](const State& b, const State& a, Out r)
		{
			bool should = !b.alloc && full(b.shape) && realn(b.shape) * sizeof(T) <= LIMIT;
			if ((r.k == 1) != should) violate("allocate:answer", "allocate on a tensor of shape %s, allocated %d, %s", str(b.shape).c_str(), b.alloc, outname(r));
			if (should ? !a.alloc || a.shape != b.shape : !(a == b)) violate("allocate:state", "allocate %s and left shape %s, allocated %d", outname(r), str(a.shape).c_str(), a.alloc);
		});
		else if (n == "als") run(i, "allocate to shape", fail, heap, [&](Ten& x) { return Out{x.allocate(nnet::tensorshape(s)) ? 1 : 2}; }, [&](const State& b, const State& a, Out r)
		{
			if (r.k == 1 && (!a.alloc || a.shape != s)) violate("allocate:state", "allocate to %s %s and left shape %s, allocated %d", str(s).c_str(), outname(r), str(a.shape).c_str(), a.alloc);
			if (r.k != 1 && !(a == b)) violate("allocate:state", "allocate to %s %s and changed the tensor", str(s).c_str(), outname(r));
			if (r.k != 1 && !b.alloc && full(s) && b.allow == s) violate("allocate:answer", "allocate to the allowed shape %s %s", str(s).c_str(), outname(r));
		});
		else if (n == "dea") run(i, "deallocate", -1, false, [&](Ten& x) { return Out{x.deallocate() ? 1 : 2}; }, [&](const State& b, const State& a, Out r)
		{
			if ((r.k == 1) != b.alloc || a.alloc) violate("deallocate:state", "deallocate %s and left allocated %d", outname(r), a.alloc);
			if (a.shape != b.allow) violate("deallocate:shape", "deallocated tensor has shape %s, allowed was %s", str(a.shape).c_str(), str(b.allow).c_str());
		});
		else if (n == "cpf")
		{
			if (!t[j]) return;
			State src = st[j];
			run(i, "copy_from", fail, heap, [&](Ten& x) { return Out{x.copy_from(*t[j], nnet::tensorshape(s)) ? 1 : 2}; }, [&, src](const State& b, const State& a, Out r)
			{
				bool should = src.alloc && full(s);
				if ((r.k == 1) != should) violate("copy_from:answer", "copy_from of shape %s to %s %s", str(src.shape).c_str(), str(s).c_str(), outname(r));
				if (!should && !(a == b)) violate("copy_from:state", "copy_from %s and changed the tensor", outname(r));
				if (should && (!a.alloc || a.shape != s)) violate("copy_from:state", "copy_from to %s left shape %s", str(s).c_str(), str(a.shape).c_str());
				if (should && s == src.shape && a.data != src.data) violate("copy_from:contents", "copy_from the same shape changed the contents");
			});
		}
		else if (n == "prt")
		{
			if (!t[j] || !st[j].alloc) return;
			State src = st[j];
			tenncor::tensor_proto p;
			t[j]->serialize(&p);
			long bad = o.arg(2) % 8;
			if (bad == 1) p.mutable_data()->resize(p.data().size() / 2 + 1);
			else if (bad == 2) p.add_alloc_shape(2);
			else if (bad == 3) p.clear_alloc_shape();
			else if (bad == 4) { p.clear_allow_shape(); p.add_allow_shape(17); }
			else if (bad == 5) { p.clear_allow_shape(); p.clear_alloc_shape(); p.add_alloc_shape(1ul << 33); p.add_alloc_shape(1ul << 31); }
			if (bad == 1 && p.data().size() == src.data.size() * sizeof(T)) bad = 0;
			if (bad > 5) bad = 0;
			// contents outside their tensor's allowed shape cannot be read back
			if (!nnet::tensorshape(src.shape).is_compatible_with(nnet::tensorshape(src.allow))) return;
			bool withid = o.arg(3) % 3 == 0;
			run(i, "from_proto", fail, heap, [&, withid](Ten& x)
			{
				if (withid) return Out{x.from_proto(p, id) ? 1 : 2};
				return Out{x.from_proto(p) ? 1 : 2};
			}, [&, src, bad](const State& b, const State& a, Out r)
			{
				if (bad ? r.k == 1 : r.k != 1) violate("from_proto:answer", "reading a %s message %s", bad ? "damaged" : "sound", outname(r));
				if (bad) { if (!(a == b)) violate("from_proto:state", "a refused message changed the tensor"); }
				else want("from_proto", a, src);
			});
		}
		else if (n == "sal")
		{
			bool known = o.arg(3) % 5 != 4;
			run(i, "set_allocator", fail, heap, [&, known](Ten& x) { x.set_allocator(known ? id : 77); return Out{0}; }, [&, known](const State& b, const State& a, Out r)
			{
				if (known != (r.k == 0)) violate("set_allocator:answer", "set_allocator to %s allocator %s", known ? "a registered" : "an unregistered", outname(r));
				if (!(a == b)) violate("set_allocator:state", "set_allocator changed the tensor's contents");
			});
		}
		else if (n == "shp") run(i, "set_shape", fail, heap, [&](Ten& x) { x.set_shape(nnet::tensorshape(s)); return Out{0}; }, [&](const State& b, const State& a, Out r)
		{
			if (!b.alloc && r.k == 0 && a.shape != s) violate("set_shape:state", "set_shape to %s on an unallocated tensor left %s", str(s).c_str(), str(a.shape).c_str());
		});
		else if (n == "fil")
		{
			if (!st[i].alloc) return;
			nnet::const_init<T> ci(v);
			ci(*t[i]);
			std::vector<T> w(st[i].data.size(), v);
			st[i].data = w;
			others(-1, "fill");
			if (!(look(*t[i], "fill") == st[i])) violate("fill:contents", "an initialised tensor does not hold the value");
		}
		else if (n == "get")
		{
			if (!st[i].alloc || st[i].data.empty()) return;
			size_t k = o.arg(2) % st[i].data.size();
			std::vector<size_t> c = nnet::tensorshape(st[i].shape).coordinate_from_idx(k);
			if (!(t[i]->get(c) == st[i].data[k])) violate("get:value", "element %zu read by coordinate differs from the exposed one", k);
		}
	}
	void end ()
	{
		for (auto& x : t) x.reset();
	}
};

// ---------------------------------------------------------------- nodes
struct NodeWorld
{
	typedef nnet::variable<double> V;
	typedef nnet::placeholder<double> P;
	struct Leaf
	{
		std::unique_ptr<V> v;
		std::unique_ptr<P> p;
		gshape allow;
		double c = 0;
		bool init = false;
		gshape shape;
		gvec data;
		nnet::ileaf<double>* node () { return v ? (nnet::ileaf<double>*) v.get() : p.get(); }
	};
	struct Expr { gptr p; std::vector<int> uses; int k; };
	std::vector<std::unique_ptr<Leaf> > l;
	bool leaky = false;

	Leaf* leaf (long i) { return l.empty() ? nullptr : l[i % l.size()].get(); }
	void see (Leaf* x, const char* name)
	{
		nnet::ileaf<double>* n = x->node();
		if (n->good_status() != x->init) violate("node:status", "%s: the leaf says it is %sinitialised", name, n->good_status() ? "" : "not ");
		const nnet::tensor<double>* t = n->eval();
		if (!x->init)
		{
			if (t) violate("node:value", "%s: a leaf that is not initialised has a value", name);
			return;
		}
		if (!t || !t->is_alloc()) violate("node:value", "%s: an initialised leaf has no value", name);
		if (t->get_shape().as_list() != x->shape) violate("node:shape", "%s: leaf has shape %s, expected %s", name, str(t->get_shape().as_list()).c_str(), str(x->shape).c_str());
		gvec d = t->expose();
		if (d != x->data) violate("node:value", "%s: leaf holds other values than before", name);
		for (double q : d) log_hash((uint64_t) (long) q);
	}
	void see_all (const char* name) { for (auto& x : l) see(x.get(), name); }
	static void sched (long fail) { if (fail >= 0) malloc_fail_after(fail); }
	// act with memory refused at request fail, returns whether it succeeded
	template <typename F> bool tries (const char* name, long fail, F act)
	{
		uint64_t m0 = malloc_refused();
		bool threw = false;
		std::string what;
		sched(fail);
		try { act(); } catch (std::exception& e) { threw = true; what = e.what(); }
		malloc_fail_after(-1);
		bool fired = malloc_refused() != m0;
		log("%s: %s%s", name, threw ? "threw" : "done", fired ? " (refused)" : "");
		if (fired && !threw) violate("fail:unreported", "%s: memory was refused but it returned", name);
		if (threw && !fired) violate("node:refused", "%s threw although memory was there: %s", name, what.c_str());
		if (fired) { count("probe.refused-operation"); nontrivial(); }
		return !threw;
	}
	void apply (const Op& o)
	{
		const std::string& n = o.name;
		long fail = o.arg(4, -1);
		double c = 1 + o.arg(3) % 50;
		if (n == "vnw")
		{
			if (l.size() >= 6) return;
			std::unique_ptr<Leaf> x(new Leaf());
			x->c = c;
			x->allow = SHAPES[o.arg(2) % NSMALL];
			if (o.arg(1) % 4 == 0)
			{
				if (!tries("scalar variable", fail, [&] { x->v.reset(new V(c, "v")); })) return;
				x->allow = {1};
				x->init = true; x->shape = {1}; x->data = {c};
			}
			else if (!tries("variable", fail, [&] { x->v.reset(new V(nnet::tensorshape(x->allow), nnet::const_init<double>(c), "v")); })) return;
			l.push_back(std::move(x));
		}
		else if (n == "pnw")
		{
			if (l.size() >= 6) return;
			std::unique_ptr<Leaf> x(new Leaf());
			x->allow = SHAPES[o.arg(2) % NSMALL];
			if (!tries("placeholder", fail, [&] { x->p.reset(new P(nnet::tensorshape(x->allow), "p")); })) return;
			l.push_back(std::move(x));
		}
		else if (n == "cst")
		{
			gshape s = SHAPES[o.arg(2) % NSMALL];
			if (s.empty()) s = {4};
			size_t m = full(s) ? gn(s) : nnet::tensorshape(s).n_known();
			gvec raw(m);
			for (size_t k = 0; k < m; k++) raw[k] = c + k;
			nnet::constant<double>* k = nullptr;
			if (tries("constant", fail, [&] { k = o.arg(1) & 1 ? nnet::constant<double>::get(raw, nnet::tensorshape(s)) : nnet::constant<double>::get(c); }))
			{
				const nnet::tensor<double>* t = k->eval();
				if (!t || !t->is_alloc()) violate("node:value", "a constant has no value");
				gvec d = t->expose();
				gvec w = o.arg(1) & 1 ? raw : gvec{c};
				if (d != w) violate("node:value", "a constant does not hold its value");
				delete k;
			}
		}
		else if (n == "rms") { if (l.size()) l.erase(l.begin() + o.arg(0) % l.size()); }
		else if (n == "ini")
		{
			Leaf* x = leaf(o.arg(0));
			if (!x || !x->v || !x->v->can_init()) return;
			bool needs = !x->init;
			// space can be there although nobody initialised it
			gshape s = needs ? x->v->get_shape().as_list() : x->shape;
			if (needs && !full(s)) return;
			auto act = [&] { x->v->initialize(); };
			bool ok = tries("initialize", fail, act);
			if (!ok)
			{
				see_all("refused initialize");
				tries("initialize again", -1, act);
			}
			x->init = true; x->shape = s; x->data.assign(gn(s), x->c);
		}
		else if (n == "ins")
		{
			Leaf* x = leaf(o.arg(0));
			if (!x || !x->v || !x->v->can_init() || x->init) return;
			gshape s = SHAPES[o.arg(2) % NSMALL];
			if (!full(s) || full(x->v->get_shape().as_list())) return;
			if (x->allow.size() && x->allow.size() != s.size()) return;
			for (size_t k = 0; k < x->allow.size(); k++) if (x->allow[k] && x->allow[k] != s[k]) return;
			auto act = [&] { x->v->initialize(nnet::tensorshape(s)); };
			if (!tries("initialize to shape", fail, act))
			{
				see_all("refused initialize");
				tries("initialize to shape again", -1, act);
			}
			x->init = true; x->shape = s; x->data.assign(gn(s), x->c);
		}
		else if (n == "set")
		{
			Leaf* x = leaf(o.arg(0));
			if (!x || !x->p) return;
			gshape s = x->init ? x->shape : x->allow;
			if (!x->init && !full(s))
			{
				// one undefined dimension takes whatever is left
				if (s.empty()) s = {(size_t) (1 + o.arg(1) % 5)};
				else
				{
					bool first = true;
					for (size_t& d : s) if (!d) { d = first ? 1 + o.arg(1) % 4 : 1; first = false; }
				}
			}
			gvec d(gn(s));
			for (size_t k = 0; k < d.size(); k++) d[k] = c + k;
			auto act = [&] { *x->p = d; };
			if (!tries("placeholder assignment", fail, act))
			{
				see_all("refused placeholder assignment");
				tries("placeholder assignment again", -1, act);
			}
			x->init = true; x->shape = s; x->data = d;
		}
		else if (n == "ncp")
		{
			Leaf* x = leaf(o.arg(0));
			if (!x || l.size() >= 6) return;
			std::unique_ptr<Leaf> y(new Leaf());
			y->allow = x->allow; y->c = x->c; y->init = x->init; y->shape = x->shape; y->data = x->data;
			if (!tries("node copy", fail, [&] { if (x->v) y->v.reset(x->v->clone()); else y->p.reset(x->p->clone()); })) { see_all("refused copy"); return; }
			l.push_back(std::move(y));
		}
		else if (n == "nas")
		{
			Leaf* x = leaf(o.arg(0)); Leaf* y = leaf(o.arg(1));
			if (!x || !y || x == y || !x->v != !y->v) return;
			auto act = [&] { if (x->v) *x->v = *y->v; else *x->p = *y->p; };
			if (!tries("node assignment", fail, act))
			{
				see_all("refused node assignment");
				tries("node assignment again", -1, act);
			}
			x->allow = y->allow; x->c = y->c; x->init = y->init; x->shape = y->shape; x->data = y->data;
		}
		else if (n == "pro")
		{
			Leaf* x = leaf(o.arg(0)); Leaf* y = leaf(o.arg(1));
			if (!x || !y || x == y || !y->init || x->allow != y->allow) return;
			tenncor::tensor_proto p;
			y->node()->eval()->serialize(&p);
			uint64_t m0 = malloc_refused();
			sched(fail);
			bool ok = false, threw = false;
			try { ok = x->node()->read_proto(p); } catch (std::exception&) { threw = true; }
			malloc_fail_after(-1);
			bool fired = malloc_refused() != m0;
			log("read_proto: %d%s", ok, fired ? " (refused)" : "");
			if (ok == fired) violate(ok ? "fail:unreported" : "node:refused", "reading a saved tensor %s", ok ? "succeeded without memory" : "failed although memory was there");
			(void) threw;
			if (!ok)
			{
				nontrivial();
				count("probe.refused-operation");
				see_all("refused read_proto");
				if (!x->node()->read_proto(p)) violate("fail:not-usable-again", "reading a saved tensor fails although memory is back");
			}
			x->init = true; x->shape = y->shape; x->data = y->data;
		}
		else if (n == "exp")
		{
			Leaf* x = leaf(o.arg(0)); Leaf* y = leaf(o.arg(1));
			if (!x || !y || !x->init || !y->init || x == y || x->shape != y->shape) return;
			long k = o.arg(2) % 4;
			gvec w = x->data;
			for (size_t q = 0; q < w.size(); q++) switch (k)
			{
				case 0: w[q] += y->data[q]; break;
				case 1: w[q] *= y->data[q]; break;
				case 2: w[q] = -w[q]; break;
				case 3: break;
			}
			gptr e;
			long live = malloc_live();
			auto build = [&] { gptr a(x->node()), b(y->node()); switch (k)
			{
				case 0: e = a + b; break;
				case 1: e = a * b; break;
				case 2: e = -a; break;
				case 3: e = gptr(nnet::generator<double>::get(x->node(), vec_init(x->data), "g")); break;
			} };
			bool ok = tries("expression", fail, build);
			if (!ok)
			{
				see_all("refused expression");
				if (malloc_live() != live) violate("fail:node-keeps-memory", "a node that could not be made (kind %ld) keeps %ld blocks", k, malloc_live() - live);
				tries("expression again", -1, build);
			}
			uint64_t m0 = malloc_refused();
			sched(o.arg(5, -1));
			bool threw = false;
			const nnet::tensor<double>* t = nullptr;
			try { t = e.get()->eval(); } catch (std::exception&) { threw = true; }
			malloc_fail_after(-1);
			if (malloc_refused() != m0)
			{
				nontrivial();
				count("probe.refused-evaluation");
				if (!threw && t) violate("fail:unreported", "an evaluation that got no memory returned a value");
				t = e.get()->eval();
			}
			else if (threw) violate("node:refused", "evaluation threw although memory was there");
			if (!t || !t->is_alloc()) violate("fail:not-usable-again", "an expression (kind %ld) has no value although memory is there", k);
			gvec d = t->expose();
			if (d != w) violate("node:expression", "an expression (kind %ld) has a wrong value after a refusal", k);
			gnode* q = e.get();
			void* block;
			uint64_t birth = heap_birth(q, block);
			e.clear();
			if (heap_same(block, birth)) delete q;
		}
		see_all(n.c_str());
	}
};

template <typename T> void run_tensors (const Plan& p)
{
	TensorWorld<T> w;
	for (auto& s : p.ops) { log("%s", s.c_str()); w.apply(parse_op(s)); }
	w.end();
}
void exec19 (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 19);
	h.reuse = p.real("reuse", 0);
	h.litter = false; // what an allocated tensor holds before it is filled is compared too
	heap_start(h);
	nnet::alloc_builder& b = nnet::alloc_builder::get_instance();
	b.registertype<book_alloc<1> >(1);
	b.registertype<book_alloc<2> >(2);
	b.registertype<book_alloc<3> >(3);
	nnet::constant<double>::get_shared_zero();
	nnet::constant<double>::get_shared_one();
	long live = malloc_live();
	if (p.num("nodes"))
	{
		NodeWorld w;
		for (auto& s : p.ops) { log("%s", s.c_str()); w.apply(parse_op(s)); }
		w.l.clear();
	}
	else switch (p.num("type"))
	{
		case 0: run_tensors<double>(p); break;
		case 1: run_tensors<float>(p); break;
		case 2: run_tensors<int>(p); break;
		case 3: run_tensors<signed char>(p); break;
		default: run_tensors<size_t>(p); break;
	}
	if (nblocks) violate("ledger:not-returned", "%zu blocks were never returned (first: allocator %d, %zu bytes)", nblocks, blocks[0].who, blocks[0].n);
	if (malloc_live() != live) violate("ledger:not-returned", "%ld blocks of the default allocator were never returned", malloc_live() - live);
	log_hash(aserved);
}
void gen19 (Rng& r, Plan& p)
{
	bool nodes = r.chance(0.35);
	p.set("nodes", (long) nodes);
	p.set("type", (long) (r.chance(0.6) ? 0 : r.below(5)));
	p.set("reuse", std::to_string(r.chance(0.5) ? 0.0 : r.unit()));
	double pf = r.chance(0.1) ? 0 : r.chance(0.5) ? 0.3 : 0.6;
	double ph = r.chance(0.3) ? 0.15 : 0;
	double big = r.chance(0.4) ? 0.08 : 0;
	auto add = [&] (const char* n, bool fails)
	{
		long f = fails && r.chance(pf) ? (long) (r.chance(0.8) ? 0 : r.below(4)) : -1, h = 0;
		if (!nodes && fails && r.chance(ph)) { f = (long) r.below(14); h = 1; }
		if (nodes) h = r.chance(pf) ? (long) r.below(2) : -1;
		long shape = (long) (r.chance(big) && !nodes ? NSMALL + r.below(SHAPES.size() - NSMALL) : r.below(NSMALL));
		p.ops.push_back(make_op(n, {(long) r.below(24), (long) r.below(24), shape, (long) r.below(1000), f, h}));
	};
	if (!nodes)
	{
		for (int i = 0; i < 3; i++) { add("new", false); add("fil", false); }
		for (long i = r.range(5, 60); i--;)
		{
			double u = r.unit();
			if (u < .10) add("new", true);
			else if (u < .12) add("sca", true);
			else if (u < .13) add("def", true);
			else if (u < .18) add("cpc", true);
			else if (u < .20) add("cln", true);
			else if (u < .23) add("mvc", false);
			else if (u < .25) add("mvv", false);
			else if (u < .29) add("del", false);
			else if (u < .37) add("cas", true);
			else if (u < .41) add("mas", false);
			else if (u < .46) add("alo", true);
			else if (u < .55) add("als", true);
			else if (u < .60) add("dea", false);
			else if (u < .69) add("cpf", true);
			else if (u < .76) add("prt", true);
			else if (u < .82) add("sal", true);
			else if (u < .91) add("shp", true);
			else if (u < .97) add("fil", false);
			else add("get", false);
		}
		return;
	}
	for (long i = r.range(8, 60); i--;)
	{
		double u = r.unit();
		if (u < .14) add("vnw", true);
		else if (u < .22) add("pnw", true);
		else if (u < .27) add("cst", true);
		else if (u < .32) add("rms", false);
		else if (u < .45) add("ini", true);
		else if (u < .51) add("ins", true);
		else if (u < .63) add("set", true);
		else if (u < .70) add("ncp", true);
		else if (u < .80) add("nas", true);
		else if (u < .86) add("pro", true);
		else add("exp", true);
	}
}
Reg r19({"C19", "a run is non-trivial when memory was refused to an operation; distinct = distinct operation-and-state history hash",
	"real: tensor, tensor shape, default allocator, allocator registry, tensor handlers, protobuf messages, leaves and operators, under AddressSanitizer; simulated: heap placement, refusal of memory by three registered allocators and by malloc",
	40000, 1200000, gen19, exec19, "fault.allocator-refused,fault.allocator-too-big,fault.malloc-failed,fault.malloc-too-big,fault.operator-new-failed",
	"registered allocators refuse single requests and requests beyond 64 MB; malloc refuses single requests and requests beyond 4 GB; contents kept when a tensor changes shape are not judged", 20000});
}
