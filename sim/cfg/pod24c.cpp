#include "../exec.hpp"
using namespace sim;
using T = Pod24; using A = SimAlloc<T, CONS | POCS>; SIM_CONFIG(pod24c, T, A, sizeof(T) * 4, 64)
