// Only construct is the allocator's.
#include "../exec.hpp"
using namespace sim;
using T = Pod24; using A = SimAlloc<T, POCS | CONLY>; SIM_CONFIG(podk, T, A, sizeof(T) * 3, 64)
