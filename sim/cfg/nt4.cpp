#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 0>; using A = SimAlloc<T, 0>; SIM_CONFIG(nt4, T, A, sizeof(T) * 4, 64)
