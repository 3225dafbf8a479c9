// C20: the CSV recorder's edge list against the live graph, after every operation.
#include "recgraph.h"
#include "edgeinfo/csv_record.hpp"
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
using namespace sim;
using namespace rocnnet_record;

static void gen (Rng& r, Plan& p)
{
	long n = r.range(3, r.chance(0.3) ? 60 : 24);
	for (long i = 0; i < n; i++)
	{
		double x = r.unit();
		if (x < 0.10) p.ops.push_back(make_op("write", {r.range(0, 1), r.range(0, 1), r.chance(0.4) ? r.range(0, 30) : -1}));
		else p.ops.push_back(RecGraph::gen1(r));
	}
	p.ops.push_back(make_op("write", {1, 0, -1}));
	p.set("reuse", std::to_string(r.chance(0.3) ? 0.0 : r.unit()));
	p.set("lanes", r.range(1, 6));
	p.set("gap", r.chance(0.5) ? 0 : r.range(1, 20));
}

static int fd = -1;
static std::string slurp ()
{
	std::string s;
	char buf[4096];
	lseek(fd, 0, SEEK_SET);
	ssize_t n;
	while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
	return s;
}

static std::map<std::string, long> lines_of (const std::string& s)
{
	std::map<std::string, long> m;
	std::istringstream in(s);
	std::string l;
	while (std::getline(in, l)) m[l]++;
	return m;
}
// "[12]label" -> 12, "label"
static std::string unnumber (const std::string& s, long& num)
{
	num = -1;
	if (s.empty() || s[0] != '[') return s;
	size_t e = s.find(']');
	if (e == std::string::npos) return s;
	num = atol(s.c_str() + 1);
	return s.substr(e + 1);
}

struct Want { nnet::iconnector<double>* obs; RecGraph::node* sub; size_t idx; };

static void compare (RecGraph& g, csv_record& rec, bool verbose, bool shapes, long consider)
{
	typedef RecGraph::node node;
	nnet::iconnector<double>* root = nullptr;
	if (consider >= 0)
	{
		std::vector<nnet::iconnector<double>*> cs;
		for (size_t i = 0; i < g.ents.size(); i++) if (g.alive(i) && g.ents[i].kind == 'c') cs.push_back(static_cast<nnet::iconnector<double>*>(g.ents[i].p));
		if (!cs.empty()) root = cs[consider % cs.size()];
	}
	rec.setVerbose(verbose);
	rec.setDisplayShape(shapes);
	// asking for shapes flushes pending updates, which may give further nodes a shape: settle that first
	if (shapes) for (int k = 0; k < 3; k++) for (size_t i = 0; i < g.ents.size(); i++) if (g.alive(i)) g.ents[i].p->get_shape();
	rec.to_csv<double>(root);
	std::string text = slurp();
	std::vector<Want> want;
	for (size_t i = 0; i < g.ents.size(); i++)
	{
		if (g.ents[i].kind != 'c' || !g.alive(i)) continue;
		nnet::iconnector<double>* c = static_cast<nnet::iconnector<double>*>(g.ents[i].p);
		if (root && !c->is_same_graph(root)) continue;
		std::vector<node*> a = g.args(i);
		for (size_t k = 0; k < a.size(); k++) if (a[k]) want.push_back({c, a[k], k});
	}
	auto shape = [&](node* n)
	{
		std::stringstream ss;
		if (shapes) { ss << "("; nnet::print_shape(n->get_shape(), ss); ss << ")"; }
		return ss.str();
	};
	count("probe.lists-compared");
	count("probe.edges-compared", want.size());
	if (verbose)
	{
		std::map<std::string, long> exp;
		for (auto& w : want) exp[w.obs->get_name() + shape(w.obs) + "," + w.sub->get_name() + shape(w.sub) + "," + std::to_string(w.idx)]++;
		std::map<std::string, long> got = lines_of(text);
		for (auto& e : exp)
		{
			auto it = got.find(e.first);
			if (it == got.end()) violate("csv:edge-missing", "live edge not listed: %s", e.first.c_str());
			if (it->second > e.second) violate("csv:edge-repeated", "edge listed %ld times: %s", it->second, e.first.c_str());
			if (it->second < e.second) violate("csv:edge-missing", "edge listed too few times: %s", e.first.c_str());
		}
		for (auto& e : got) if (!exp.count(e.first)) violate("csv:ghost-edge", "listed edge does not exist: %s", e.first.c_str());
		return;
	}
	// numbered form: the listing must be the graph up to numbering
	std::map<node*, std::vector<std::string> > es;
	std::map<std::string, long> exp, got;
	for (auto& w : want)
	{
		std::string o = w.obs->get_label() + shape(w.obs), s = w.sub->get_label() + shape(w.sub), k = std::to_string(w.idx);
		exp[o + "," + s + "," + k]++;
		es[w.obs].push_back("o " + s + k);
		es[w.sub].push_back("s " + o + k);
	}
	std::map<long, std::vector<std::string> > gs;
	std::map<long, std::string> name;
	std::istringstream in(text);
	std::string l;
	while (std::getline(in, l))
	{
		// labels may hold commas themselves: split at ",[" which labels of this graph never contain
		size_t a = l.find(",["), b = l.rfind(',');
		if (a == std::string::npos || b <= a) violate("csv:bad-line", "not an edge: %s", l.c_str());
		long on, sn;
		std::string o = unnumber(l.substr(0, a), on), s = unnumber(l.substr(a + 1, b - a - 1), sn), k = l.substr(b + 1);
		got[o + "," + s + "," + k]++;
		for (auto& x : {std::make_pair(on, o), std::make_pair(sn, s)})
		{
			auto it = name.find(x.first);
			if (it == name.end()) name[x.first] = x.second;
			else if (it->second != x.second) violate("csv:number-shared", "number %ld stands for %s and %s", x.first, it->second.c_str(), x.second.c_str());
		}
		gs[on].push_back("o " + s + k);
		gs[sn].push_back("s " + o + k);
	}
	if (exp != got)
	{
		for (auto& e : exp) if (got[e.first] < e.second) violate("csv:edge-missing", "live edge not listed: %s", e.first.c_str());
		for (auto& e : got) if (exp[e.first] < e.second) violate("csv:ghost-edge", "listed edge does not exist: %s", e.first.c_str());
	}
	std::multiset<std::vector<std::string> > x, y;
	for (auto& e : es) { std::sort(e.second.begin(), e.second.end()); x.insert(e.second); }
	for (auto& e : gs) { std::sort(e.second.begin(), e.second.end()); y.insert(e.second); }
	if (x != y) violate("csv:wrong-wiring", "the numbered list connects its nodes differently from the graph");
}

static void exec (const Plan& p)
{
	HeapOpts h;
	h.seed = mix(p.seed, 77);
	h.lanes = (int) p.num("lanes", 2);
	h.gap = (int) p.num("gap", 0);
	h.reuse = p.real("reuse", 0);
	heap_start(h);
	nnutils::seed_generator((size_t) (p.seed | 1));
	fd = memfd_create("edges", 0);
	if (fd < 0) harness_error("no memory file");
	record_status::rec.reset();
	csv_record* rec = new csv_record("/proc/self/fd/" + std::to_string(fd));
	record_status::rec.reset(rec);
	record_status::rec_good = true;
	RecGraph* g = new RecGraph();
	std::set<std::string> updated;
	size_t edges = 0;
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		log("%s", s.c_str());
		if (o.name == "write")
		{
			// listing shapes reads nodes, which may throw when a node was rewired to one without data
			try { compare(*g, *rec, o.arg(0), o.arg(1), o.arg(2)); } catch (std::exception& e) { count("probe.listing-threw"); }
			continue;
		}
		try { g->apply(o, updated); } catch (std::exception& e) { count("probe.graph-operation-threw"); }
		edges += g->edges().size();
		if (p.seed % 4 == 0) compare(*g, *rec, true, false, -1);
		log("%zu", g->edges().size());
	}
	compare(*g, *rec, true, false, -1);
	if (edges) nontrivial();
	if (g->dead_uids.size()) count("probe.nodes-destroyed", g->dead_uids.size());
	g->teardown();
	compare(*g, *rec, true, false, -1);
}

static Reg r20({"C20",
	"a run is non-trivial when at least one edge existed; distinct = distinct operation-and-edge-count history hash",
	"real: csv_record, adjlist_record, subject/iobserver and the tensor graph with the CSV recording build options; simulated: heap placement and address reuse, random generator seed",
	8000, 300000, gen, exec,
	"probe.nodes-destroyed,probe.observers-stolen,probe.shared-position-rewired,probe.position-rewired,probe.identifier-reused",
	"edges are those of live nodes reachable through the public argument lists", 15000});
