// Only construct is the allocator's. The element type has an operator& of its own.
#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 5>; using A = SimAlloc<T, POCMA | CONLY>; SIM_CONFIG(ntk, T, A, sizeof(T) * 4, 64)
