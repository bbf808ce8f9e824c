#include "../exec.hpp"
using namespace sim;
using T = std::uint64_t; using A = SimAlloc<T, 0>; SIM_CONFIG(p8, T, A, 16, 64)
