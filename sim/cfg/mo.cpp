#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0, false>; using A = SimAlloc<T, 0>; SIM_CONFIG(mo, T, A, sizeof(T) * 5, 64)
