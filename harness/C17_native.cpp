#include "dv.h"
extern "C" void dv_seq(const void*, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t) { }
