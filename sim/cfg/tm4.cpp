#include "../exec.hpp"
using namespace sim;
using T = Elem<true, 0>; using A = SimAlloc<T, CONS | TCONS>; SIM_CONFIG(tm4, T, A, sizeof(T) * 4, 64)
