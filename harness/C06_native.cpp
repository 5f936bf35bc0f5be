#include "dv.h"
// recursive specification of well-formedness, from Table 3-7, for native replay only
extern "C" int dv_spec_prefix(std::u8string_view s)
{
    static constexpr struct { unsigned char lo[4], hi[4]; int n; } t[] = {
        { { 0x00 }, { 0x7F }, 1 },
        { { 0xC2, 0x80 }, { 0xDF, 0xBF }, 2 },
        { { 0xE0, 0xA0, 0x80 }, { 0xE0, 0xBF, 0xBF }, 3 },
        { { 0xE1, 0x80, 0x80 }, { 0xEC, 0xBF, 0xBF }, 3 },
        { { 0xED, 0x80, 0x80 }, { 0xED, 0x9F, 0xBF }, 3 },
        { { 0xEE, 0x80, 0x80 }, { 0xEF, 0xBF, 0xBF }, 3 },
        { { 0xF0, 0x90, 0x80, 0x80 }, { 0xF0, 0xBF, 0xBF, 0xBF }, 4 },
        { { 0xF1, 0x80, 0x80, 0x80 }, { 0xF3, 0xBF, 0xBF, 0xBF }, 4 },
        { { 0xF4, 0x80, 0x80, 0x80 }, { 0xF4, 0x8F, 0xBF, 0xBF }, 4 },
    };
    for (const auto& r : t) {
        if (s.size() < std::size_t(r.n)) {
            continue;
        }
        bool ok = true;
        for (int i = 0; i < r.n; ++i) {
            const unsigned char b = s[std::size_t(i)];
            ok &= b >= r.lo[i] && b <= r.hi[i];
        }
        if (ok) {
            return r.n;
        }
    }
    return 0;
}
extern "C" bool dv_spec_valid(std::u8string_view s)
{
    while (!s.empty()) {
        const int n = dv_spec_prefix(s);
        if (n == 0) {
            return false;
        }
        s.remove_prefix(std::size_t(n));
    }
    return true;
}
