#include "../sut.hpp"
MT_CONFIG(d32, D32, 1024, 768)
