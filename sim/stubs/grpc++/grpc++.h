// Simulated gRPC: same surface as the subset rocnnet uses, transport decided by the simulator (drivers/t_net.cpp).
// Message content passes through real protobuf serialisation.
#pragma once
#include <condition_variable>
#include <iostream>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace google { namespace protobuf { class MessageLite; } }

namespace simnet
{
struct stream;
struct server;
bool server_write (stream* s, const google::protobuf::MessageLite& m);
bool client_read (stream* s, google::protobuf::MessageLite* m);
bool client_finish (stream* s);
void client_release (stream* s);
bool cancelled (const stream* s);
void cancel (stream* s);
server* build (const std::string& addr, void* service);
void server_wait (server*);
void server_shutdown (server*, bool force);
void server_destroy (server*);
}

namespace grpc
{
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6, PERMISSION_DENIED = 7,
	RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16 };
class Status
{
public:
	Status () : code_(StatusCode::OK) {}
	Status (StatusCode c, const std::string& m = "") : code_(c), msg_(m) {}
	bool ok () const { return code_ == StatusCode::OK; }
	StatusCode error_code () const { return code_; }
	std::string error_message () const { return msg_; }
	static const Status OK;
	static const Status CANCELLED;
private:
	StatusCode code_;
	std::string msg_;
};
struct WriteOptions {};
class ServerContext
{
public:
	ServerContext (simnet::stream* s = nullptr) : s_(s) {}
	bool IsCancelled () const { return s_ && simnet::cancelled(s_); }
	std::string peer () const { return "sim"; }
	simnet::stream* s_;
};
template <typename W>
class ServerWriter
{
public:
	explicit ServerWriter (simnet::stream* s) : s_(s) {}
	bool Write (const W& m) { return simnet::server_write(s_, m); }
	bool Write (const W& m, WriteOptions) { return simnet::server_write(s_, m); }
private:
	simnet::stream* s_;
};
class ClientContext
{
public:
	void TryCancel () { if (s_) simnet::cancel(s_); }
	simnet::stream* s_ = nullptr;
};
template <typename R>
class ClientReader
{
public:
	explicit ClientReader (simnet::stream* s) : s_(s) {}
	~ClientReader () { simnet::client_release(s_); }
	bool Read (R* m) { return simnet::client_read(s_, m); }
	Status Finish () { return simnet::client_finish(s_) ? Status() : Status(StatusCode::CANCELLED); }
	simnet::stream* raw () { return s_; }
private:
	simnet::stream* s_;
};
class ServerCredentials {};
class ChannelCredentials {};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials () { return std::make_shared<ServerCredentials>(); }
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials () { return std::make_shared<ChannelCredentials>(); }
class Service { public: virtual ~Service () {} virtual void* self () = 0; };
class Channel { public: explicit Channel (const std::string& a) : addr(a) {} std::string addr; };
inline std::shared_ptr<Channel> CreateChannel (const std::string& a, const std::shared_ptr<ChannelCredentials>&) { return std::make_shared<Channel>(a); }
class Server
{
public:
	explicit Server (simnet::server* s) : s_(s) {}
	~Server () { simnet::server_destroy(s_); }
	void Wait () { simnet::server_wait(s_); }
	void Shutdown () { simnet::server_shutdown(s_, false); }
	template <typename D> void Shutdown (const D&) { simnet::server_shutdown(s_, true); }
private:
	simnet::server* s_;
};
class ServerBuilder
{
public:
	ServerBuilder& AddListeningPort (const std::string& a, std::shared_ptr<ServerCredentials>, int* port = nullptr) { addr_ = a; return *this; }
	ServerBuilder& RegisterService (Service* s) { svc_ = s; return *this; }
	std::unique_ptr<Server> BuildAndStart () { simnet::server* s = simnet::build(addr_, svc_->self()); return std::unique_ptr<Server>(s ? new Server(s) : nullptr); }
private:
	std::string addr_;
	Service* svc_ = nullptr;
};
}
