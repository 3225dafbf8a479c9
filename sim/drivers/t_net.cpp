// Simulated network and RPC runtime: one handler thread per call as in synchronous gRPC, bounded
// per-stream flow control, client disconnects, refusal while the server is not listening.
#include "t_net.h"
#include "core.h"
#include "simsched.h"

#include <deque>
#include <functional>
#include <list>

namespace grpc
{
const Status Status::OK;
const Status Status::CANCELLED(StatusCode::CANCELLED, "cancelled");
}

namespace simnet
{
struct stream
{
	std::mutex mu;
	std::deque<std::string> buf;
	size_t cap = 1;
	bool gone = false;      // client disconnected
	bool ended = false;     // handler returned
	bool ok = false;
	int refs = 2;
};
struct server
{
	std::string addr;
	visor::GUINotifier::Service* svc;
	std::mutex mu;
	bool stopping = false, forced = false, stopped = false;
	int active = 0;
	std::list<stream*> live;
};
static std::mutex servers_mu; // a client that reaches a server happens after that server was set up
static std::list<server*> servers;
static net_opts opts;
static int running = 0;
static long ndelivered = 0;

void net_init (const net_opts& o) { opts = o; servers.clear(); running = 0; ndelivered = 0; }
int handlers_running () { return running; }
long delivered () { return ndelivered; }

static server* lookup (const std::string& a)
{
	for (server* s : servers) if (s->addr == a && !s->stopping) return s;
	return nullptr;
}
bool listening (const std::string& a) { return lookup(a) != nullptr; }

static void unref (stream* s)
{
	bool last;
	{
		std::lock_guard<std::mutex> g(s->mu);
		last = --s->refs == 0;
	}
	if (last) delete s;
}

bool server_write (stream* s, const google::protobuf::MessageLite& m)
{
	std::string d;
	m.AppendToString(&d);
	sim::sched_block_until("stream window full", [s] { return s->gone || s->buf.size() < s->cap; });
	std::lock_guard<std::mutex> g(s->mu);
	if (s->gone) { sim::count("fault.write-to-disconnected-client"); return false; }
	s->buf.push_back(d);
	return true;
}
bool client_read (stream* s, google::protobuf::MessageLite* m)
{
	sim::sched_block_until("client waits for a message", [s] { return s->gone || s->ended || !s->buf.empty(); });
	std::lock_guard<std::mutex> g(s->mu);
	if (s->gone) return false;
	if (s->buf.empty()) return false;
	std::string d = s->buf.front();
	s->buf.pop_front();
	ndelivered++;
	if (!m->ParseFromString(d)) sim::harness_error("stream message does not parse");
	return true;
}
bool client_finish (stream* s)
{
	sim::sched_block_until("client waits for the end of the stream", [s] { return s->gone || s->ended; });
	std::lock_guard<std::mutex> g(s->mu);
	return s->ended && s->ok && !s->gone;
}
void client_release (stream* s)
{
	{
		std::lock_guard<std::mutex> g(s->mu);
		s->gone = true;
	}
	unref(s);
}
bool cancelled (const stream* s) { sim::sched_yield_point("cancelled?"); return s->gone; }
void cancel (stream* s) { std::lock_guard<std::mutex> g(s->mu); s->gone = true; sim::count("fault.client-disconnect"); }

server* build (const std::string& addr, void* svc)
{
	if (opts.port_taken)
	{
		sim::sched_yield_point("server start");
		sim::count("fault.port-taken");
		return nullptr;
	}
	server* s = new server();
	s->addr = addr;
	s->svc = (visor::GUINotifier::Service*) svc;
	sim::sched_yield_point("server start");
	{
		std::lock_guard<std::mutex> g(servers_mu);
		servers.push_back(s);
	}
	return s;
}
void server_wait (server* s)
{
	sim::sched_block_until("server wait", [s] { return s->stopped; });
	std::lock_guard<std::mutex> g(s->mu);
}
void server_shutdown (server* s, bool force)
{
	{
		std::lock_guard<std::mutex> g(servers_mu);
		s->stopping = true;
		if (force) for (stream* t : s->live) t->gone = true;
	}
	sim::sched_block_until("server shutdown waits for calls", [s] { return s->active == 0; });
	std::lock_guard<std::mutex> g(servers_mu);
	std::lock_guard<std::mutex> h(s->mu);
	s->stopped = true;
}
void server_destroy (server* s)
{
	if (!s->stopped) server_shutdown(s, false);
	std::lock_guard<std::mutex> g(servers_mu);
	servers.remove(s);
	// kept allocated: server_wait may still be inside it in another thread only if the code forgot to join,
	// which the service's own destruction reports
}

static stream* call (const std::string& addr, const std::function<grpc::Status (visor::GUINotifier::Service*, stream*)>& fn)
{
	stream* st = new stream();
	st->cap = opts.cap_min + sim::sched_pick("window", opts.cap_max - opts.cap_min + 1);
	sim::sched_yield_point("call");
	server* s;
	{
		std::lock_guard<std::mutex> g(servers_mu);
		s = lookup(addr);
		if (s)
		{
			s->active++;
			s->live.push_back(st);
		}
	}
	if (!s)
	{
		sim::count("probe.call-refused");
		st->ended = true;
		st->refs = 1;
		return st;
	}
	running++;
	std::thread([s, st, fn]
	{
		grpc::Status r = fn(s->svc, st);
		{
			std::lock_guard<std::mutex> g(st->mu);
			st->ended = true;
			st->ok = r.ok();
		}
		unref(st);
		running--;
		std::lock_guard<std::mutex> g(servers_mu);
		s->live.remove(st);
		s->active--;
	}).detach();
	return st;
}
}

namespace visor
{
std::unique_ptr<grpc::ClientReader<NodeMessage> > GUINotifier::Stub::SubscribeNode (grpc::ClientContext* c, const StringId& r)
{
	StringId req = r;
	simnet::stream* st = simnet::call(addr_, [req](Service* svc, simnet::stream* s)
	{
		grpc::ServerContext ctx(s);
		grpc::ServerWriter<NodeMessage> w(s);
		StringId q = req;
		return svc->SubscribeNode(&ctx, &q, &w);
	});
	if (c) c->s_ = st;
	return std::unique_ptr<grpc::ClientReader<NodeMessage> >(new grpc::ClientReader<NodeMessage>(st));
}
std::unique_ptr<grpc::ClientReader<EdgeMessage> > GUINotifier::Stub::SubscribeEdge (grpc::ClientContext* c, const StringId& r)
{
	StringId req = r;
	simnet::stream* st = simnet::call(addr_, [req](Service* svc, simnet::stream* s)
	{
		grpc::ServerContext ctx(s);
		grpc::ServerWriter<EdgeMessage> w(s);
		StringId q = req;
		return svc->SubscribeEdge(&ctx, &q, &w);
	});
	if (c) c->s_ = st;
	return std::unique_ptr<grpc::ClientReader<EdgeMessage> >(new grpc::ClientReader<EdgeMessage>(st));
}
grpc::Status GUINotifier::Stub::EndSubscription (grpc::ClientContext*, const StringId& r, Empty* o)
{
	StringId req = r;
	simnet::stream* st = simnet::call(addr_, [req](Service* svc, simnet::stream* s)
	{
		grpc::ServerContext ctx(s);
		StringId q = req;
		Empty e;
		return svc->EndSubscription(&ctx, &q, &e);
	});
	bool ok = simnet::client_finish(st);
	simnet::client_release(st);
	return ok ? grpc::Status() : grpc::Status(grpc::StatusCode::UNAVAILABLE);
}
grpc::Status GUINotifier::Stub::GetNodeData (grpc::ClientContext*, const StringId& r, NodeData* o)
{
	StringId req = r;
	simnet::stream* st = simnet::call(addr_, [req](Service* svc, simnet::stream* s)
	{
		grpc::ServerContext ctx(s);
		StringId q = req;
		NodeData e;
		return svc->GetNodeData(&ctx, &q, &e);
	});
	bool ok = simnet::client_finish(st);
	simnet::client_release(st);
	return ok ? grpc::Status() : grpc::Status(grpc::StatusCode::UNAVAILABLE);
}
}
