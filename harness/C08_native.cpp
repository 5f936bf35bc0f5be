#include "dv.h"
extern "C" void dv_text_none(std::u8string_view s, std::uint64_t from, std::uint8_t c)
{
    for (std::size_t i = from; i < s.size(); ++i) {
        dv_assume(s[i] != c);
    }
}

extern "C" bool dv_text_is(std::u8string_view s, const char* other, std::size_t n)
{
    bool r = s.size() == n;
    for (std::size_t i = 0; r && i < n; ++i) {
        r = char(s[i]) == other[i];
    }
    return r;
}
