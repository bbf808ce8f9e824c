#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0>; using A = SimAlloc<T, POCCA | POCMA | POCS | CONS | SOCCC>; SIM_CONFIG(nt3c, T, A, sizeof(T) * 3, 16 + 16 * 4)
