// C03, C06 and the racing variants C05: recorder, its server and subscribed clients on a simulated network
#include "t_common.h"
#include "t_net.h"
#include "recgraph.h"
#include "edgeinfo/grpc_vis_record.hpp"
#include "gui_consumer.hpp"

#include <thread>

namespace rocnnet_record
{
std::unique_ptr<igraph_record> record_status::rec = nullptr;
bool record_status::rec_good = false;
}

using namespace sim;
using rocnnet_record::record_status;
using rocnnet_record::rpc_record;

namespace
{
const char* ADDR = "localhost:50981";
struct Client
{
	std::string id;
	bool gui = false;
	tenncor_graph::gui_consumer* consumer = nullptr;
	grpc::ClientContext nctx, ectx;
	std::map<std::tuple<std::string, std::string, size_t>, bool> edges; // newest status: added?
	std::map<std::string, bool> nodes;                                  // newest status: updated?
	long nmsg = 0, emsg = 0;
	bool ndone = false, edone = false;
	bool confirmed = false;    // both calls are known to be served
	bool ending = false, gone = false;
	long stall = 0, slow = 0;
	bool waiting = false;      // stalled right now
	bool done () const { return ndone && edone; }
};
struct Shared { bool stopping = false; };
Shared* S;
std::vector<Client*>* CL;
std::vector<std::thread>* TH;

void pace (Client* c)
{
	for (long i = 0; i < c->slow; i++) sched_yield_point("slow client");
	if (c->stall > 0 && c->nmsg + c->emsg >= c->stall)
	{
		c->stall = 0;
		c->waiting = true;
		count("fault.client-stall");
		sched_block_until("stalled client", [c] { return S->stopping || c->ending || c->gone || sched_is_draining(); });
		c->waiting = false;
	}
}
void node_stream (Client* c)
{
	sched_block_until("client waits for the server", [] { return S->stopping || simnet::listening(ADDR); });
	std::unique_ptr<visor::GUINotifier::Stub> stub = visor::GUINotifier::NewStub(grpc::CreateChannel(ADDR, grpc::InsecureChannelCredentials()));
	visor::StringId q;
	q.set_id(c->id);
	std::unique_ptr<grpc::ClientReader<visor::NodeMessage> > rd(stub->SubscribeNode(&c->nctx, q));
	visor::NodeMessage m;
	while (rd->Read(&m))
	{
		bool up = m.status() == visor::NodeMessage_NodeStatus::NodeMessage_NodeStatus_UPDATE;
		log("%s node %s %s", c->id.c_str(), m.id().c_str(), up ? "updated" : "removed");
		c->nodes[m.id()] = up;
		c->nmsg++;
		count("probe.node-messages");
		pace(c);
	}
	rd->Finish();
	c->nctx.s_ = nullptr;
	c->ndone = true;
}
void edge_stream (Client* c)
{
	sched_block_until("client waits for the server", [] { return S->stopping || simnet::listening(ADDR); });
	std::unique_ptr<visor::GUINotifier::Stub> stub = visor::GUINotifier::NewStub(grpc::CreateChannel(ADDR, grpc::InsecureChannelCredentials()));
	visor::StringId q;
	q.set_id(c->id);
	std::unique_ptr<grpc::ClientReader<visor::EdgeMessage> > rd(stub->SubscribeEdge(&c->ectx, q));
	visor::EdgeMessage m;
	while (rd->Read(&m))
	{
		bool add = m.status() == visor::EdgeMessage_EdgeStatus::EdgeMessage_EdgeStatus_ADD;
		log("%s edge %s <- %s @%ld %s", c->id.c_str(), m.obsid().c_str(), m.subid().c_str(), (long) m.idx(), add ? "added" : "removed");
		c->edges[std::make_tuple(m.obsid(), m.subid(), (size_t) m.idx())] = add;
		c->emsg++;
		count("probe.edge-messages");
		pace(c);
	}
	rd->Finish();
	c->ectx.s_ = nullptr;
	c->edone = true;
}
void gui_node (Client* c)
{
	sched_block_until("client waits for the server", [] { return S->stopping || simnet::listening(ADDR); });
	c->consumer->SubscribeNode();
	c->ndone = true;
}
void gui_edge (Client* c)
{
	sched_block_until("client waits for the server", [] { return S->stopping || simnet::listening(ADDR); });
	c->consumer->SubscribeEdge();
	c->edone = true;
}
struct NullBuf : std::streambuf { int overflow (int c) override { return c; } };

void subscribe (long flavour, long slow, long stall)
{
	Client* c = new Client();
	c->id = "client" + std::to_string(CL->size());
	c->slow = slow;
	c->stall = stall;
	c->gui = flavour == 1;
	CL->push_back(c);
	log("subscribe %s", c->id.c_str());
	if (c->gui)
	{
		c->consumer = new tenncor_graph::gui_consumer(grpc::CreateChannel(ADDR, grpc::InsecureChannelCredentials()));
		TH->emplace_back([c] { gui_node(c); });
		TH->emplace_back([c] { gui_edge(c); });
		count("probe.real-gui-client");
	}
	else
	{
		TH->emplace_back([c] { node_stream(c); });
		TH->emplace_back([c] { edge_stream(c); });
	}
}
void end_call (Client* c)
{
	c->ending = true;
	if (c->gui) { c->consumer->EndSubscription(); return; }
	std::unique_ptr<visor::GUINotifier::Stub> stub = visor::GUINotifier::NewStub(grpc::CreateChannel(ADDR, grpc::InsecureChannelCredentials()));
	visor::StringId q;
	visor::Empty e;
	q.set_id(c->id);
	grpc::ClientContext ctx;
	stub->EndSubscription(&ctx, q, &e);
}

void check_views (RecGraph& g, const std::set<std::string>& updated, bool others_only)
{
	auto live = g.edges();
	std::set<std::tuple<std::string, std::string, size_t> > heldlinks;
	for (auto& h : g.held) if (h->v.get()) heldlinks.emplace(h->v.get_uid(), h->v.get()->get_uid(), 0);
	const char* pre = others_only ? "record:client-starved" : "record:wrong-view";
	for (Client* c : *CL)
	{
		if (c->gui || c->ending || c->gone || c->waiting || c->done()) continue;
		for (auto& e : live)
		{
			auto it = c->edges.find(e);
			if (it == c->edges.end() || !it->second)
				violate(pre, "%s was not told of the live edge %s <- %s @%zu%s", c->id.c_str(), std::get<0>(e).c_str(), std::get<1>(e).c_str(), std::get<2>(e), it == c->edges.end() ? "" : " (was told it is removed)");
		}
		if (others_only) continue;
		for (auto& e : c->edges)
			if (e.second && !live.count(e.first) && !heldlinks.count(e.first))
				violate("record:ghost-edge", "%s believes in the edge %s <- %s @%zu which does not exist", c->id.c_str(), std::get<0>(e.first).c_str(), std::get<1>(e.first).c_str(), std::get<2>(e.first));
		for (auto& n : c->nodes)
			if (n.second && g.dead_uids.count(n.first)) violate("record:ghost-node", "%s believes destroyed node %s is alive", c->id.c_str(), n.first.c_str());
		for (size_t i = 0; i < g.ents.size(); i++)
		{
			if (!g.alive(i)) continue;
			auto it = c->nodes.find(g.ents[i].uid);
			if (it != c->nodes.end() && !it->second) violate("record:live-removed", "%s was told live node %s is removed", c->id.c_str(), g.ents[i].uid.c_str());
			if (it == c->nodes.end() && updated.count(g.ents[i].uid)) violate("record:update-missing", "%s was not told node %s was updated", c->id.c_str(), g.ents[i].uid.c_str());
		}
		count("probe.view-compared");
	}
}
}

// mode 3: subscriptions and shutdown, mode 6: replayed view, mode 5: everything with race checking
void rec_gen (Rng& r, Plan& p, int mode)
{
	gen_sched(r, p);
	p.set("p_acc", std::to_string(r.chance(0.7) ? 0.0 : 0.001));
	p.set("capmax", r.range(1, 6));
	long n = r.range(2, mode == 6 ? 26 : 16);
	long subs = 0;
	for (long i = 0; i < n; i++)
	{
		double x = r.unit();
		if (x < (mode == 6 ? 0.08 : 0.16)) { p.ops.push_back(make_op("sub", {mode != 6 && r.chance(0.2) ? 1 : 0, r.chance(0.3) ? r.range(1, 5) : 0, r.chance(0.3) ? r.range(1, 5) : 0})); subs++; }
		else if (x < (mode == 6 ? 0.09 : 0.26)) p.ops.push_back(make_op("end", {r.range(0, 5)}));
		else if (x < (mode == 6 ? 0.11 : 0.30)) p.ops.push_back(make_op("disc", {r.range(0, 5)}));
		else if (mode != 6 && x < 0.315) p.ops.push_back("restart");
		else if (x < (mode == 6 ? 0.18 : 0.38)) p.ops.push_back("settle");
		else if (x < (mode == 6 ? 0.21 : 0.46)) p.ops.push_back(make_op("yield", {r.range(1, 30)}));
		else p.ops.push_back(RecGraph::gen1(r));
	}
	if (!subs && mode == 6) p.ops.insert(p.ops.begin() + r.below(p.ops.size()), make_op("sub", {0, 0, 0}));
	// how the recorder is stopped: after everything settled, or at whatever moment
	p.set("rush", r.chance(mode == 6 ? 0.2 : 0.6) ? 1 : 0);
	p.set("async_end", r.chance(0.3) ? 1 : 0);
	// another process listens already: the server can't start
	if (mode != 6 && r.chance(0.06)) p.set("taken", 1);
}

void rec_exec (const Plan& p, int mode, bool races)
{
	begin_sched(p, races);
	nnutils::seed_generator((size_t) (p.seed | 1));
	static NullBuf nb;
	std::cout.rdbuf(&nb);
	simnet::net_opts no;
	no.cap_max = (int) p.num("capmax", 4);
	bool unknown = no.port_taken = p.num("taken");
	simnet::net_init(no);
	S = new Shared();
	CL = new std::vector<Client*>();
	TH = new std::vector<std::thread>();
	RecGraph* g = new RecGraph();
	std::set<std::string> updated;
	record_status::rec.reset(new rpc_record("localhost", 50981));
	record_status::rec_good = true;

	// destroying the recorder ends every stream and its server, whatever the clients are doing
	auto destroy = [&]
	{
		S->stopping = true;
		sched_drain(true);
		sched_fair(true);
		log("destroy recorder");
		record_status::rec.reset();
		record_status::rec_good = false;
		sched_fair(true);
		sched_wait_idle();
		for (Client* c : *CL) if (!c->done()) violate("record:stream-left", "%s's %s stream did not finish when the recorder was destroyed", c->id.c_str(), c->ndone ? "edge" : "node");
		if (simnet::handlers_running()) violate("record:handler-left", "%d calls are still being served after the recorder was destroyed", simnet::handlers_running());
		for (auto& t : *TH) t.join();
		TH->clear();
		sched_wait_idle();
		if (sched_threads_alive()) violate("record:thread-left", "%d threads of the recorder still run after it was destroyed", sched_threads_alive());
		if (simnet::listening(ADDR)) violate("record:server-left", "the server still accepts calls after the recorder was destroyed");
	};
	auto confirm = [&] { for (Client* c : *CL) c->confirmed = true; };
	auto settle = [&]
	{
		sched_wait_idle();
		confirm();
		count("probe.settled");
		if (!unknown && (mode == 6 || mode == 3)) check_views(*g, updated, mode == 3);
	};
	for (auto& s : p.ops)
	{
		Op o = parse_op(s);
		if (o.name == "sub") { if (CL->size() < 6) subscribe(o.arg(0), o.arg(1), o.arg(2)); }
		else if (o.name == "end")
		{
			if (CL->empty() || no.port_taken) continue;
			Client* c = (*CL)[o.arg(0) % CL->size()];
			if (c->ending || c->gone || c->done()) continue;
			sched_block_until("wait for the server", [] { return simnet::listening(ADDR); });
			log("end %s", c->id.c_str());
			bool known = c->confirmed;
			count(known ? "probe.end-established" : "probe.end-racing-subscribe");
			if (p.num("async_end") && mode == 5)
			{
				TH->emplace_back([c] { end_call(c); });
				continue;
			}
			end_call(c);
			if (mode != 3 && o.arg(0) % 2) continue;
			sched_wait_idle();
			if (!known)
			{
				// the end may have overtaken the subscription: ended again now that both streams are served
				end_call(c);
				sched_wait_idle();
			}
			if (!c->done()) violate("record:not-ended", "%s ended its subscription but its %s stream stays open", c->id.c_str(), c->ndone ? "edge" : "node");
			confirm();
		}
		else if (o.name == "disc")
		{
			if (CL->empty()) continue;
			Client* c = (*CL)[o.arg(0) % CL->size()];
			if (c->gui || c->gone || c->done()) continue;
			log("disconnect %s", c->id.c_str());
			c->gone = true;
			c->nctx.TryCancel();
			c->ectx.TryCancel();
		}
		else if (o.name == "settle") settle();
		else if (o.name == "restart")
		{
			destroy();
			unknown = true; // what was recorded so far is unknown to the next one
			S->stopping = false;
			sched_drain(false);
			sched_fair(false);
			record_status::rec.reset(new rpc_record("localhost", 50981));
			record_status::rec_good = true;
			count("probe.recorder-restarted");
		}
		else if (o.name == "yield") for (long i = 0; i < o.arg(0); i++) sched_yield_point("publisher");
		else
		{
			log("graph %s", s.c_str());
			try { g->apply(o, updated); } catch (std::exception& e) { count("probe.graph-operation-threw"); }
		}
	}
	if (!p.num("rush"))
	{
		sched_drain(true);
		sched_fair(true);
		sched_wait_idle();
		confirm();
		if (!unknown && (mode == 6 || mode == 3)) check_views(*g, updated, mode == 3);
		sched_drain(false);
	}
	else count("probe.stopped-in-a-rush");
	destroy();
	long msgs = 0;
	for (Client* c : *CL) { msgs += c->nmsg + c->emsg; delete c->consumer; }
	if (CL->size() && (msgs > 0 || mode != 6)) nontrivial();
	g->teardown();
	sched_stop();
}

static const char* REAL = "real: grpc_vis_record, gui_notifier, shareable_cache, stoppable_thread, stop_flag, subject/iobserver and the tensor graph (instrumented), gui_consumer client, protobuf; simulated: thread scheduler and locks; stub: gRPC transport and runtime (handler thread per call, bounded stream window, disconnects)";
static Reg r3({"C03",
	"a run is non-trivial when at least one client subscribed; distinct = distinct event-log hash (graph operations, messages delivered, context switches in order)",
	REAL, 6000, 200000, [](Rng& r, Plan& p) { rec_gen(r, p, 3); }, [](const Plan& p) { rec_exec(p, 3, false); },
	"fault.spurious-wakeup,fault.port-taken,fault.client-stall,fault.client-disconnect,fault.write-to-disconnected-client,probe.end-racing-subscribe,probe.stopped-in-a-rush,probe.recorder-restarted,context-switch",
	"clients keep reading or disconnect before the recorder is destroyed; bounded = quiescence under fair scheduling within 400000 steps", 15000});
static Reg r6({"C06",
	"a run is non-trivial when a client received at least one message; distinct = distinct event-log hash",
	REAL, 6000, 200000, [](Rng& r, Plan& p) { rec_gen(r, p, 6); }, [](const Plan& p) { rec_exec(p, 6, false); },
	"fault.spurious-wakeup,fault.client-stall,fault.client-disconnect,fault.write-to-disconnected-client,probe.stopped-in-a-rush,context-switch",
	"one graph thread, as the library requires; views are compared when every thread is idle", 15000});
static Reg r5({"C05",
	"a run is non-trivial when its scenario did real work (two messages published and one delivered, a worker stopped, or a client subscribed); distinct = distinct event-log hash",
	REAL, 9000, 300000,
	[](Rng& r, Plan& p)
	{
		long k = r.range(0, 3);
		p.set("scenario", k);
		if (k == 0) feed_gen(r, p, r.chance(0.5));
		else if (k == 1) worker_gen(r, p);
		else rec_gen(r, p, k == 2 ? 5 : 6);
	},
	[](const Plan& p)
	{
		long k = p.num("scenario");
		if (k == 0) feed_exec(p, false, true);
		else if (k == 1) worker_exec(p, true);
		else rec_exec(p, 5, true);
	},
	"fault.spurious-wakeup,fault.consumer-stall,fault.client-stall,fault.client-disconnect,context-switch",
	"happens-before race detection over instrumented accesses; sequentially consistent memory", 15000});
