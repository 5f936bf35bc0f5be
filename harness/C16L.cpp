// C16: the contract of match_escape_sequence, which C16.cpp relies on.
#include "dv.h"
#include <charconv>
#include "ulight/impl/lang/json.hpp"

using namespace ulight;

namespace {

unsigned digit(char8_t c)
{
    return c >= u8'0' && c <= u8'9' ? unsigned(c - u8'0') : unsigned((c | 0x20) - u8'a' + 10);
}

bool is_hex(char8_t c)
{
    return ((c >= u8'0') & (c <= u8'9')) | ((c >= u8'a') & (c <= u8'f')) | ((c >= u8'A') & (c <= u8'F'));
}

} // namespace

// std::from_chars of four hexadecimal digits, by the standard
extern "C" std::from_chars_result dvk_from_chars4(const char* first, const char* last, unsigned& value, int base)
{
    dv_assert(last - first == 4, "four digits are converted");
    dv_assert(base == 16, "digits are hexadecimal");
    bool all = true;
    unsigned v = 0;
    for (int i = 0; i < 4; ++i) {
        all &= is_hex(char8_t(first[i]));
        v = v * 16 + digit(char8_t(first[i]));
    }
    dv_assert(all, "only hexadecimal digits are converted");
    value = v;
    return { last, std::errc {} };
}

extern "C" void dvh_json_escape()
{
    const std::u8string_view s = dv_text();
    const bool parse = dv_bool();
    const json::Escape_Result r = json::match_escape_sequence(s, json::Escape_Policy(parse));
    const auto none = json::Escape_Result::no_value;
    dv_assert((r.length == 0) | ((r.length >= 2) & (r.length <= 6) & (r.length <= s.size())), "an escape sequence has at most six characters");
    dv_assert((r.value == none) | (r.value <= 0xffff), "escapes are single code points");
    dv_assert((r.length != 0) | (r.value == none), "what is no escape sequence has no value");
    if (s.size() < 2) {
        dv_assert(r.length == 0, "an escape sequence has at least two characters");
        dv_cover("short");
        return;
    }
    const bool is_escape = r.value != none;
    const char8_t c = s[1];
    const bool simple = (c == u8'"') | (c == u8'\\') | (c == u8'/') | (c == u8'b') | (c == u8'f') | (c == u8'n') | (c == u8'r') | (c == u8't');
    dv_assert(!is_escape | (s[0] == u8'\\'), "escape sequences begin with a backslash");
    dv_assert(!is_escape | simple | (c == u8'u'), "nothing else can be escaped");
    if (s[0] == u8'\\' && simple) {
        const char32_t v = c == u8'b' ? U'\b' : c == u8'f' ? U'\f' : c == u8'n' ? U'\n' : c == u8'r' ? U'\r' : c == u8't' ? U'\t' : char32_t(c);
        dv_assert((r.length == 2) & (r.value == (parse ? v : 0)), "simple escape sequences");
    }
    if (s[0] == u8'\\' && c == u8'u') {
        if (s.size() < 6) {
            dv_assert(!is_escape, "four digits are needed");
            dv_cover("truncated");
            return;
        }
        const bool hex = is_hex(s[2]) & is_hex(s[3]) & is_hex(s[4]) & is_hex(s[5]);
        dv_assert(is_escape == hex, "four hexadecimal digits are needed");
        if (hex) {
            const unsigned v = ((digit(s[2]) * 16 + digit(s[3])) * 16 + digit(s[4])) * 16 + digit(s[5]);
            dv_assert((r.length == 6) & (r.value == (parse ? char32_t(v) : 0)), "the value of hexadecimal escape sequences");
            dv_cover("hexadecimal");
        }
    }
    dv_cover("end");
}
