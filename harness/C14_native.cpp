#include "dv.h"
extern "C" void dv_text_white(std::u8string_view s, std::uint64_t from, std::uint64_t to)
{
    for (std::size_t i = from; i < to; ++i) {
        dv_assume(s[i] == ' ' || (s[i] >= 9 && s[i] <= 13 && s[i] != 11));
    }
}
extern "C" bool dv_same_object(const void*, const void*) { return false; }
