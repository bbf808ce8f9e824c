#include "../sut.hpp"
MT_CONFIG(u32s, std::uint32_t, 16, 64)
