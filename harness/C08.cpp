// C08: language lookup.
#include "dv.h"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

extern "C" {
// whether the text is the given constant text
// every code unit of the text from `from` on differs from c (attached to the text: holds wherever it is read)
bool dv_text_is(std::u8string_view s, const char* other, std::size_t n);
void dv_text_none(std::u8string_view s, std::uint64_t from, std::uint8_t c);
}

namespace {

bool same(const char* a, std::size_t n, const char* b, std::size_t m)
{
    if (n != m) {
        return false;
    }
    for (std::size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) {
            return false;
        }
    }
    return true;
}

bool listed(ulight_lang l)
{
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
        if (ulight_lang_list[i].lang == l) {
            return true;
        }
    }
    return false;
}

const char* chars(std::u8string_view s)
{
    return reinterpret_cast<const char*>(s.data());
}

// without branches, so that the specification adds no paths
void check_name(std::u8string_view s, ulight_lang l)
{
    bool found = false;
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
        const auto& e = ulight_lang_list[i];
        const bool eq = dv_text_is(s, e.name, e.name_length);
        dv_assert(!eq | ((l == e.lang) & (l != ULIGHT_LANG_NONE)), "a listed name gives its language");
        found |= eq;
    }
    dv_assert(found | (l == ULIGHT_LANG_NONE), "any other string gives no language");
    if (l == ULIGHT_LANG_NONE) {
        dv_cover("not found");
    }
    else {
        dv_cover("found");
    }
}

} // namespace

// the contract of ulight_get_lang, as dvh_get_lang proves it, for the path lookup
// (naming the expected argument only splits the proof by cases)
static std::u8string_view expected_extension;

extern "C" ulight_lang dvk_get_lang(const char* name, std::size_t n)
{
    std::u8string_view s { reinterpret_cast<const char8_t*>(name), n };
    if (s.size() == expected_extension.size() && s.data() == expected_extension.data()) {
        s = expected_extension;
    }
    const auto l = ulight_lang(dv_havoc_u32());
    bool ok = true;
    bool found = false;
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
        const auto& e = ulight_lang_list[i];
        const bool eq = dv_text_is(s, e.name, e.name_length);
        ok &= !eq | (l == e.lang);
        found |= eq;
    }
    dv_assume(ok & (found | (l == ULIGHT_LANG_NONE)));
    return l;
}

extern "C" void dvh_get_lang()
{
    const std::u8string_view s = dv_text();
    check_name(s, ulight_get_lang(chars(s), s.size()));
}

extern "C" void dvh_get_lang_u8()
{
    const std::u8string_view s = dv_text();
    check_name(s, ulight_get_lang_u8(s.data(), s.size()));
}

extern "C" void dvh_get_lang_cpp()
{
    const std::u8string_view s = dv_text();
    check_name(s, ulight_lang(ulight::get_lang(s)));
}

// a path with a dot at position d, the last one
#define PATH_WITH_DOT                                                                              \
    const std::u8string_view s = dv_text();                                                        \
    const std::size_t d = dv_u64();                                                                \
    dv_assume(d < s.size());                                                                       \
    dv_assume(s.data()[d] == u8'.');                                                               \
    dv_text_none(s, d + 1, '.');                                                                   \
    dv_term(d);                                                                                    \
    dv_term(d + 1);

#define PATH_WITHOUT_DOT                                                                           \
    const std::u8string_view s = dv_text();                                                        \
    dv_text_none(s, 0, '.');

extern "C" void dvh_path_dot()
{
    PATH_WITH_DOT
    expected_extension = { s.data() + (d + 1), s.size() - (d + 1) };
    check_name(expected_extension, ulight_lang_from_path(chars(s), s.size()));
}
extern "C" void dvh_path_dot_u8()
{
    PATH_WITH_DOT
    expected_extension = { s.data() + (d + 1), s.size() - (d + 1) };
    check_name(expected_extension, ulight_lang_from_path_u8(s.data(), s.size()));
}
extern "C" void dvh_path_no_dot()
{
    PATH_WITHOUT_DOT
    dv_assert(ulight_lang_from_path(chars(s), s.size()) == ULIGHT_LANG_NONE, "a path without a dot gives no language");
    dv_cover("end");
}
extern "C" void dvh_path_no_dot_u8()
{
    PATH_WITHOUT_DOT
    dv_assert(ulight_lang_from_path_u8(s.data(), s.size()) == ULIGHT_LANG_NONE, "a path without a dot gives no language");
    dv_cover("end");
}

extern "C" void dvh_display_name()
{
    const auto l = ulight_lang(dv_u32());
    const ulight_string_view n = ulight_lang_display_name(l);
    if (listed(l) && l != ULIGHT_LANG_NONE) {
        dv_cover("listed");
        dv_assert(n.length != 0 && n.text != nullptr, "a listed language has a display name");
    }
    else {
        dv_cover("other");
        dv_assert(n.length == 0, "anything else has no display name");
    }
    const ulight_u8string_view u = ulight_lang_display_name_u8(l);
    dv_assert(same(n.text, n.length, reinterpret_cast<const char*>(u.text), u.length), "the char8_t display name is the same");
}
