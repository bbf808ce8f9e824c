// Nodes with more entries than a 16 bit count can hold were asked for: the fan-out must be capped.
#include "../exec.hpp"
using namespace sim;
using T = std::uint64_t; using A = SimAlloc<T, 0>; SIM_CONFIG(wide, T, A, 8, 16 + 16 * 70000)
