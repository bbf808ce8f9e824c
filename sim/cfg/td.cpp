#include "../exec.hpp"
using namespace sim;
using T = TdElem; using A = SimAlloc<T, POCMA | POCCA>; SIM_CONFIG(td, T, A, sizeof(T) * 5, 64)
