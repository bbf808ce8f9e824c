// Segments of 1024 elements.
#include "../exec.hpp"
using namespace sim;
using T = std::uint8_t; using A = SimAlloc<T, POCS | POCCA>; SIM_CONFIG(u8d, T, A, 1024, 768)
