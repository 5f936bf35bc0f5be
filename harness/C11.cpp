// C11: ASCII classification, case conversion and character sets.
#include "dv.h"
#include "ulight/impl/ascii_chars.hpp"
#include "ulight/impl/unicode_chars.hpp"
#include <array>
#include <bit>

using namespace ulight;

namespace {

constexpr bool in(unsigned c, unsigned lo, unsigned hi)
{
    return c >= lo && c <= hi;
}
constexpr bool digit(unsigned c) { return in(c, '0', '9'); }
constexpr bool upper(unsigned c) { return in(c, 'A', 'Z'); }
constexpr bool lower(unsigned c) { return in(c, 'a', 'z'); }
constexpr bool punct(unsigned c)
{
    return in(c, 0x21, 0x2F) || in(c, 0x3A, 0x40) || in(c, 0x5B, 0x60) || in(c, 0x7B, 0x7E);
}

bool base_digit(unsigned c, int base)
{
    const int v = digit(c) ? int(c - '0') : lower(c) ? int(c - 'a') + 10 : upper(c) ? int(c - 'A') + 10 : 99;
    return v < base;
}

template <typename C>
void predicates(C c)
{
    const auto u = unsigned(c);
    dv_assert(is_ascii(c) == (u < 128), "is_ascii");
    dv_assert(is_ascii_digit(c) == digit(u), "is_ascii_digit");
    dv_assert(is_ascii_binary_digit(c) == in(u, '0', '1'), "is_ascii_binary_digit");
    dv_assert(is_ascii_octal_digit(c) == in(u, '0', '7'), "is_ascii_octal_digit");
    dv_assert(is_ascii_upper_alpha(c) == upper(u), "is_ascii_upper_alpha");
    dv_assert(is_ascii_lower_alpha(c) == lower(u), "is_ascii_lower_alpha");
    dv_cover("end");
}

template <typename C>
void sets(C c)
{
    const auto u = unsigned(c);
    dv_assert(is_ascii_set(c) == (u < 128), "is_ascii_set");
    dv_assert(is_ascii_digit_set(c) == digit(u), "is_ascii_digit_set");
    dv_assert(is_ascii_binary_digit_set(c) == in(u, '0', '1'), "is_ascii_binary_digit_set");
    dv_assert(is_ascii_octal_digit_set(c) == in(u, '0', '7'), "is_ascii_octal_digit_set");
    dv_assert(is_ascii_lower_hex_digit(c) == (digit(u) || in(u, 'a', 'f')), "is_ascii_lower_hex_digit");
    dv_assert(is_ascii_upper_hex_digit(c) == (digit(u) || in(u, 'A', 'F')), "is_ascii_upper_hex_digit");
    dv_assert(is_ascii_hex_digit(c) == (digit(u) || in(u, 'A', 'F') || in(u, 'a', 'f')), "is_ascii_hex_digit");
    dv_assert(is_ascii_upper_alpha_set(c) == upper(u), "is_ascii_upper_alpha_set");
    dv_assert(is_ascii_lower_alpha_set(c) == lower(u), "is_ascii_lower_alpha_set");
    dv_assert(is_ascii_alpha(c) == (upper(u) || lower(u)), "is_ascii_alpha");
    dv_assert(is_ascii_alphanumeric(c) == (upper(u) || lower(u) || digit(u)), "is_ascii_alphanumeric");
    dv_assert(is_ascii_punctuation(c) == punct(u), "is_ascii_punctuation");
    dv_assert(is_ascii_printing(c) == in(u, 0x20, 0x7E), "is_ascii_printing");
    dv_assert(is_ascii_xid_start(c) == (upper(u) || lower(u)), "is_ascii_xid_start");
    dv_assert(is_ascii_xid_continue(c) == (upper(u) || lower(u) || digit(u) || u == '_'), "is_ascii_xid_continue");
    dv_assert(is_character_name(c) == (upper(u) || digit(u) || u == ' ' || u == '-'), "is_character_name");
    dv_cover("end");
}

template <typename C>
void cases(C c)
{
    const auto u = unsigned(c);
    dv_assert(unsigned(to_ascii_upper(c)) == (lower(u) ? u - 32 : u), "to_ascii_upper");
    dv_assert(unsigned(to_ascii_lower(c)) == (upper(u) ? u + 32 : u), "to_ascii_lower");
    dv_cover("end");
}

Charset256 any256()
{
    return std::bit_cast<Charset256>(std::array<std::uint64_t, 4> { dv_u64(), dv_u64(), dv_u64(), dv_u64() });
}

Charset128 any128()
{
    return std::bit_cast<Charset128>(std::array<std::uint64_t, 2> { dv_u64(), dv_u64() });
}

template <typename S>
void algebra(const S& x, const S& y, char8_t c)
{
    const bool a = x(c), b = y(c);
    dv_assert((x | y)(c) == (a || b), "union");
    dv_assert((x & y)(c) == (a && b), "intersection");
    dv_assert((x - y)(c) == (a && !b), "difference");
    dv_assert((~x)(c) == !a, "complement");
    S z = x;
    z |= y;
    dv_assert(z(c) == (a || b), "union assignment");
    z = x;
    z &= y;
    dv_assert(z(c) == (a && b), "intersection assignment");
    z = x;
    z -= y;
    dv_assert(z(c) == (a && !b), "difference assignment");
    z.clear();
    dv_assert(!z(c), "clear");
    dv_assert(!S()(c), "a new set is empty");
    dv_assert(!(x == y) || a == b, "equal sets have equal members");
    dv_cover("end");
}

template <typename S>
void element(const S& x, char8_t d, char8_t c)
{
    const bool a = x(c);
    S z = x;
    z.insert(d);
    dv_assert(z(c) == (a || c == d), "insert");
    z = x;
    z.remove(d);
    dv_assert(z(c) == (a && c != d), "remove");
    z = x;
    z |= d;
    dv_assert(z(c) == (a || c == d), "union with a character, assignment");
    z = x;
    z -= d;
    dv_assert(z(c) == (a && c != d), "difference with a character, assignment");
    dv_assert((x | d)(c) == (a || c == d), "union with a character");
    dv_assert((x - d)(c) == (a && c != d), "difference with a character");
    dv_assert(S(d)(c) == (c == d), "set of one character");
    dv_cover("end");
}

template <typename S>
void wide(const S& x, char32_t c)
{
    dv_assert(x(c) == (c < 256 && x(char8_t(c))), "wide characters outside of the set's width are no members");
    dv_cover("end");
}

} // namespace

extern "C" void dvh_predicates8() { predicates(char8_t(dv_u8())); }
extern "C" void dvh_predicates32() { predicates(char32_t(dv_u32())); }
extern "C" void dvh_sets8() { sets(char8_t(dv_u8())); }
extern "C" void dvh_sets32() { sets(char32_t(dv_u32())); }
extern "C" void dvh_case8() { cases(char8_t(dv_u8())); }
extern "C" void dvh_case32() { cases(char32_t(dv_u32())); }
extern "C" void dvh_base8()
{
    const auto c = char8_t(dv_u8());
    const int base = dv_u8();
    dv_assume(base >= 1 && base <= 36);
    dv_assert(is_ascii_digit_base(c, base) == base_digit(unsigned(c), base), "is_ascii_digit_base");
    dv_cover("end");
}
extern "C" void dvh_base32()
{
    const auto c = char32_t(dv_u32());
    const int base = dv_u8();
    dv_assume(base >= 1 && base <= 36);
    dv_assert(is_ascii_digit_base(c, base) == base_digit(unsigned(c), base), "is_ascii_digit_base");
    dv_cover("end");
}
extern "C" void dvh_algebra256()
{
    const Charset256 x = any256(), y = any256();
    algebra(x, y, char8_t(dv_u8()));
}
extern "C" void dvh_element256()
{
    const Charset256 x = any256();
    const auto d = char8_t(dv_u8());
    element(x, d, char8_t(dv_u8()));
}
extern "C" void dvh_wide256()
{
    const Charset256 x = any256();
    wide(x, char32_t(dv_u32()));
}
extern "C" void dvh_algebra128()
{
    const Charset128 x = any128(), y = any128();
    const auto c = char8_t(dv_u8());
    dv_assume(c < 128);
    algebra(x, y, c);
}
extern "C" void dvh_element128()
{
    const Charset128 x = any128();
    const auto d = char8_t(dv_u8()), c = char8_t(dv_u8());
    dv_assume(c < 128 && d < 128);
    element(x, d, c);
}
extern "C" void dvh_range256()
{
    const std::size_t i = dv_u64(), j = dv_u64();
    const auto c = char8_t(dv_u8());
    dv_assume(i < 256 && j <= 256 && i <= j);
    dv_assert(Charset256::range_before(i, j)(c) == (i <= c && c < j), "range_before");
    dv_cover("end");
}
extern "C" void dvh_range256_until()
{
    const std::size_t i = dv_u64(), j = dv_u64();
    const auto c = char8_t(dv_u8());
    dv_assume(i < 256 && j < 256 && i <= j);
    dv_assert(Charset256::range_until(i, j)(c) == (i <= c && c <= j), "range_until");
    dv_cover("end");
}
extern "C" void dvh_range128()
{
    const std::size_t i = dv_u64(), j = dv_u64();
    const auto c = char8_t(dv_u8());
    dv_assume(i < 128 && j <= 128 && i <= j && c < 128);
    dv_assert(Charset128::range_before(i, j)(c) == (i <= c && c < j), "range_before, 128");
    dv_cover("end");
}
// bounded: texts of at most three characters
extern "C" void dvh_from_text()
{
    const std::size_t n = dv_u64();
    dv_assume(n <= 3);
    const char8_t t[3] { char8_t(dv_u8()), char8_t(dv_u8()), char8_t(dv_u8()) };
    const Charset256 s { std::u8string_view(t, n) };
    const auto c = char8_t(dv_u8());
    dv_assert(s(c) == ((n > 0 && t[0] == c) || (n > 1 && t[1] == c) || (n > 2 && t[2] == c)), "set of the characters of a text");
    dv_cover("end");
}
// the unicode predicates defined next to them
extern "C" void dvh_unicode_predicates()
{
    const auto c = char32_t(dv_u32());
    const auto u = unsigned(c);
    dv_assert(is_code_point(c) == (u <= 0x10FFFF), "is_code_point");
    dv_assert(is_leading_surrogate(c) == in(u, 0xD800, 0xDBFF), "is_leading_surrogate");
    dv_assert(is_trailing_surrogate(c) == in(u, 0xDC00, 0xDFFF), "is_trailing_surrogate");
    dv_assert(is_surrogate(c) == in(u, 0xD800, 0xDFFF), "is_surrogate");
    dv_assert(is_scalar_value(c) == (u <= 0x10FFFF && !in(u, 0xD800, 0xDFFF)), "is_scalar_value");
    if (u <= 0x10FFFF) {
        dv_assert(is_noncharacter(c) == (in(u, 0xFDD0, 0xFDEF) || u % 0x10000 >= 0xFFFE), "is_noncharacter");
    }
    dv_assert(
        is_private_use_area_character(c)
            == (in(u, 0xE000, 0xF8FF) || in(u, 0xF0000, 0xFFFFF) || in(u, 0x100000, 0x10FFFF)),
        "is_private_use_area_character"
    );
    dv_cover("end");
}

// what the contract of the call operator (hook in dv/props.py) relies on
extern "C" void dvh_layout()
{
    const std::uint64_t w[4] { dv_u64(), dv_u64(), dv_u64(), dv_u64() };
    const auto x = std::bit_cast<Charset256>(std::array<std::uint64_t, 4> { w[0], w[1], w[2], w[3] });
    const char8_t c = dv_u8();
    dv_assert(x(c) == bool(w[c / 64] >> c % 64 & 1), "membership is a bit");
    const char32_t d = dv_u32();
    dv_assert(x(d) == (d < 256 && x(char8_t(d))), "membership of a code point");
    dv_cover("end");
}
