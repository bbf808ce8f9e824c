#include "../exec.hpp"
using namespace sim;
using T = Elem<false, 8>; using A = std::allocator<T>; SIM_CONFIG(ntd, T, A, 1024, 768)
