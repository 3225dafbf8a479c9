// The CSV recording build links the gRPC recorder but never runs it: its transport is absent.
#include <grpc++/grpc++.h>
#include <cstdlib>
const grpc::Status grpc::Status::OK;
namespace simnet
{
bool client_read (stream*, google::protobuf::MessageLite*) { abort(); }
bool client_finish (stream*) { abort(); }
void client_release (stream*) { abort(); }
bool cancelled (const stream*) { abort(); }
void cancel (stream*) { abort(); }
bool server_write (stream*, const google::protobuf::MessageLite&) { abort(); }
void server_wait (server*) { abort(); }
void server_destroy (server*) { abort(); }
void server_shutdown (server*, bool) { abort(); }
server* build (const std::string&, void*) { abort(); }
}
