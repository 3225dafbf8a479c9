// Transport stub for the GUI client in single-threaded checks: calls end at once, client identifiers are kept.
#include "proto/grpc_gui.grpc.pb.h"
#include "guistub.h"
std::vector<std::string>& gui_ids () { static std::vector<std::string> v; return v; }
namespace simnet
{
bool client_read (stream*, google::protobuf::MessageLite*) { return false; }
bool client_finish (stream*) { return true; }
void client_release (stream*) {}
bool cancelled (const stream*) { return false; }
void cancel (stream*) {}
}
namespace grpc { const Status Status::OK; const Status Status::CANCELLED(StatusCode::CANCELLED, "cancelled"); }
namespace visor
{
template <typename R> static std::unique_ptr<grpc::ClientReader<R> > sub (const StringId& r)
{
	std::string d;
	r.SerializeToString(&d);
	StringId s;
	s.ParseFromString(d);
	gui_ids().push_back(s.id());
	return std::unique_ptr<grpc::ClientReader<R> >(new grpc::ClientReader<R>(nullptr));
}
std::unique_ptr<grpc::ClientReader<NodeMessage> > GUINotifier::Stub::SubscribeNode (grpc::ClientContext*, const StringId& r) { return sub<NodeMessage>(r); }
std::unique_ptr<grpc::ClientReader<EdgeMessage> > GUINotifier::Stub::SubscribeEdge (grpc::ClientContext*, const StringId& r) { return sub<EdgeMessage>(r); }
grpc::Status GUINotifier::Stub::EndSubscription (grpc::ClientContext*, const StringId& r, Empty*) { gui_ids().push_back(r.id()); return grpc::Status(); }
grpc::Status GUINotifier::Stub::GetNodeData (grpc::ClientContext*, const StringId&, NodeData*) { return grpc::Status(); }
}
