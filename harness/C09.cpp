// C09: highlight type strings.
#include "dv.h"
#include "hl_enum.h" // generated from the enumerators of ulight.h: HL_LIST(X)
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

namespace {

constexpr int named_types[] = {
#define X(e, id) int(e),
    HL_LIST(X)
#undef X
};

bool is_named(int t)
{
    bool r = false;
    for (const int n : named_types) {
        r |= n == t;
    }
    return r && t != int(ULIGHT_HL_NONE);
}

bool plain(const char* s, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i) {
        const bool ok = (s[i] >= 'a' && s[i] <= 'z') || s[i] == '-' || s[i] == '_';
        if (!ok) {
            return false;
        }
    }
    return true;
}

bool same(const char* a, std::size_t n, const char* b, std::size_t m)
{
    if (n != m) {
        return false;
    }
    for (std::size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) {
            return false;
        }
    }
    return true;
}

void check_string(int t, const char* s, std::size_t n, const char* what)
{
    if (is_named(t)) {
        dv_cover("named");
        dv_assert(n != 0, "a named type has a non-empty string");
        dv_assert(plain(s, n), "the string is plain lower-case ASCII");
        dv_assert(s[n] == 0, "the string is null-terminated");
    }
    else {
        dv_cover("unnamed");
        dv_assert(n == 0, "every other value has an empty string");
    }
}

ulight_highlight_type any_type()
{
    return ulight_highlight_type(dv_u8());
}

} // namespace

extern "C" void dvh_short()
{
    const auto t = any_type();
    const ulight_string_view s = ulight_highlight_type_short_string(t);
    check_string(int(t), s.text, s.length, "short");
    const ulight_u8string_view u = ulight_highlight_type_short_string_u8(t);
    dv_assert(same(s.text, s.length, reinterpret_cast<const char*>(u.text), u.length), "the char8_t short string is the same");
    const ulight_string_view d = ulight_highlight_type_id(t);
    dv_assert(same(s.text, s.length, d.text, d.length), "the deprecated id is the short string");
    const std::string_view v = ulight::highlight_type_short_string(ulight::Highlight_Type(t));
    dv_assert(same(s.text, s.length, v.data(), v.size()), "the C++ short string is the same");
}

extern "C" void dvh_long()
{
    const auto t = any_type();
    const ulight_string_view s = ulight_highlight_type_long_string(t);
    check_string(int(t), s.text, s.length, "long");
    const ulight_u8string_view u = ulight_highlight_type_long_string_u8(t);
    dv_assert(same(s.text, s.length, reinterpret_cast<const char*>(u.text), u.length), "the char8_t long string is the same");
    const std::string_view v = ulight::highlight_type_long_string(ulight::Highlight_Type(t));
    dv_assert(same(s.text, s.length, v.data(), v.size()), "the C++ long string is the same");
}

extern "C" void dvh_unique_short()
{
    const auto a = any_type();
    const ulight_string_view s = ulight_highlight_type_short_string(a);
    dv_assume(s.length != 0);
    const auto b = any_type();
    dv_assume(a < b);
    const ulight_string_view t = ulight_highlight_type_short_string(b);
    dv_assert(!same(s.text, s.length, t.text, t.length), "no two types share a short string");
    dv_cover("end");
}

extern "C" void dvh_unique_long()
{
    const auto a = any_type();
    const ulight_string_view s = ulight_highlight_type_long_string(a);
    dv_assume(s.length != 0);
    const auto b = any_type();
    dv_assume(a < b);
    const ulight_string_view t = ulight_highlight_type_long_string(b);
    dv_assert(!same(s.text, s.length, t.text, t.length), "no two types share a long string");
    dv_cover("end");
}

