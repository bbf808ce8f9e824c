#include "../exec.hpp"
using namespace sim;
using T = Elem<true, 0>; using A = std::allocator<T>; SIM_CONFIG(tms, T, A, sizeof(T) * 3, 64)
