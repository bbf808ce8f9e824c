// Only destroy is the allocator's.
#include "../exec.hpp"
using namespace sim;
using T = Pod24; using A = SimAlloc<T, POCMA | DONLY>; SIM_CONFIG(podx, T, A, sizeof(T) * 5, 64)
