// Throwing moves where merging segments relocates several elements on either side.
#include "../exec.hpp"
using namespace sim;
using T = Elem<true, 0>; using A = SimAlloc<T, POCCA>; SIM_CONFIG(tm7, T, A, sizeof(T) * 7, 16 + 16 * 5)
