#include "../sut.hpp"
MT_CONFIG(strs, Str, 24, 80)
