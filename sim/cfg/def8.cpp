// What most users instantiate: a plain element and every default.
#include "../exec.hpp"
using namespace sim;
using T = std::uint64_t; using A = std::allocator<T>; SIM_CONFIG(def8, T, A, 1024, 768)
