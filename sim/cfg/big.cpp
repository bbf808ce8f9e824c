#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 72>; using A = SimAlloc<T, POCCA | POCS>; SIM_CONFIG(big, T, A, 0, 16 + 16 * 5)
