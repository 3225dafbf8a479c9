#pragma once
#include "proto/grpc_gui.grpc.pb.h"
namespace simnet
{
struct net_opts { int cap_min = 1, cap_max = 4; bool port_taken = false; };
void net_init (const net_opts& o);
bool listening (const std::string& addr);
int handlers_running ();
long delivered ();
}
