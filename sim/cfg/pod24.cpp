#include "../exec.hpp"
using namespace sim;
using T = Pod24; using A = SimAlloc<T, POCMA | SOCCC>; SIM_CONFIG(pod24, T, A, sizeof(T) * 6, 16 + 16 * 4)
