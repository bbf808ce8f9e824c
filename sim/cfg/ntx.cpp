// Only destroy is the allocator's.
#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0>; using A = SimAlloc<T, POCCA | DONLY>; SIM_CONFIG(ntx, T, A, sizeof(T) * 3, 16 + 16 * 4)
