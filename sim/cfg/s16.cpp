// An allocator which counts in 16 bits.
#include "../exec.hpp"
using namespace sim;
using T = std::uint32_t; using A = SimAlloc<T, POCMA | SIZE16>; SIM_CONFIG(s16, T, A, sizeof(T) * 4, 16 + 16 * 3)
