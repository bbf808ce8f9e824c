#include "../exec.hpp"
using namespace sim;
using T = std::uint64_t; using A = std::allocator<T>; SIM_CONFIG(p8s, T, A, 8, 0)
