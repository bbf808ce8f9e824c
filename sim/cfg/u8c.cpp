#include "../exec.hpp"
using namespace sim;
using T = std::uint8_t; using A = SimAlloc<T, CONS | POCMA>; SIM_CONFIG(u8c, T, A, 5, 16 + 16 * 6)
