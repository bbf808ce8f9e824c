// An allocator which counts in 32 bits.
#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0>; using A = SimAlloc<T, POCS | SIZE32>; SIM_CONFIG(s32, T, A, sizeof(T) * 3, 16 + 16 * 4)
