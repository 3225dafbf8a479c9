#include "grpc++/grpc++.h"
