// More than 255 entries in a node.
#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0>; using A = SimAlloc<T, POCMA>; SIM_CONFIG(mid, T, A, sizeof(T) * 2, 16 + 16 * 300)
