#pragma once
#include "grpc++/grpc++.h"
#include "gui_consumer.hpp"
// identifiers the simulated server was given
std::vector<std::string>& gui_ids ();
