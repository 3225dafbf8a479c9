// Simulated service surface of proto/grpc_gui.proto (messages are the real generated ones).
#pragma once
#include "proto/grpc_gui.pb.h"
#include "grpc++/grpc++.h"

namespace visor
{
class GUINotifier final
{
public:
	class Service : public grpc::Service
	{
	public:
		virtual ~Service () {}
		void* self () override { return this; }
		virtual grpc::Status SubscribeNode (grpc::ServerContext*, const StringId*, grpc::ServerWriter<NodeMessage>*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED); }
		virtual grpc::Status SubscribeEdge (grpc::ServerContext*, const StringId*, grpc::ServerWriter<EdgeMessage>*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED); }
		virtual grpc::Status EndSubscription (grpc::ServerContext*, const StringId*, Empty*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED); }
		virtual grpc::Status GetNodeData (grpc::ServerContext*, const StringId*, NodeData*) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED); }
	};
	class Stub
	{
	public:
		explicit Stub (const std::string& addr) : addr_(addr) {}
		std::unique_ptr<grpc::ClientReader<NodeMessage> > SubscribeNode (grpc::ClientContext* c, const StringId& r);
		std::unique_ptr<grpc::ClientReader<EdgeMessage> > SubscribeEdge (grpc::ClientContext* c, const StringId& r);
		grpc::Status EndSubscription (grpc::ClientContext* c, const StringId& r, Empty* o);
		grpc::Status GetNodeData (grpc::ClientContext* c, const StringId& r, NodeData* o);
	private:
		std::string addr_;
	};
	static std::unique_ptr<Stub> NewStub (const std::shared_ptr<grpc::Channel>& c) { return std::unique_ptr<Stub>(new Stub(c->addr)); }
};
}
