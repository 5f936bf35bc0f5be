// C13: numbers.
#include "dv.h"
#include "ulight/impl/ascii_chars.hpp"
#include "ulight/impl/numbers.hpp"
#include <array>

using namespace ulight;

namespace {

bool digit(unsigned c, int base)
{
    const int v = (c >= '0') & (c <= '9') ? int(c - '0')
        : (c >= 'a') & (c <= 'z')         ? int(c - 'a') + 10
        : (c >= 'A') & (c <= 'Z')         ? int(c - 'A') + 10
                                          : 99;
    return v < base;
}

bool alphanumeric(unsigned c)
{
    return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z'));
}

int any_base()
{
    const int b = int(dv_u8());
    dv_assume(b >= 1 && b <= 36);
    return b;
}

} // namespace

// the contract of is_ascii_digit_base (proved by C11)
extern "C" bool dvk_digit(char8_t c, int base) { return digit(c, base); }

// ---- digits ---------------------------------------------------------------------------------------------------

extern "C" void dvh_digits()
{
    const auto s = dv_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    const int base = any_base();
    const bool d = digit(s[x], base);
    dv_point(x, d);
    const std::size_t r = match_digits(s, base);
    dv_assert(r <= s.size(), "digits lie in the text");
    dv_assert(x >= r || d, "only digits");
    dv_assert(r == s.size() || !digit(s[r], base), "all the digits");
    dv_cover("end");
}

extern "C" void dvh_digits_as_result()
{
    const auto s = dv_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    const int base = any_base();
    const bool d = digit(s[x], base);
    dv_point(x, d);
    const Digits_Result r = match_digits_as_result(s, base);
    dv_assert(r.length <= s.size() && !r.erroneous, "digits lie in the text");
    dv_assert(x >= r.length || d, "only digits");
    dv_assert(r.length == s.size() || !digit(s[r.length], base), "all the digits");
    dv_cover("end");
}

// length and contents
extern "C" void dvh_separated()
{
    const auto s = dv_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    const int base = any_base();
    const char8_t separator = dv_u8();
    dv_assume(separator != 0 && !alphanumeric(separator));
    const bool d = digit(s[x], base) | (s[x] == separator);
    dv_point(x, d);
    const Digits_Result r = match_separated_digits(s, base, separator);
    dv_assert(r.length <= s.size(), "digits lie in the text");
    dv_assert(x >= r.length || d, "only digits and separators");
    dv_assert(r.length == s.size() || !(digit(s[r.length], base) | (s[r.length] == separator)), "all the digits");
    dv_cover("end");
}

extern "C" void dvh_not_separated()
{
    const auto s = dv_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    const int base = any_base();
    const bool d = digit(s[x], base);
    dv_point(x, d);
    const Digits_Result r = match_separated_digits(s, base, 0);
    dv_assert(r.length <= s.size() && !r.erroneous, "digits lie in the text");
    dv_assert(x >= r.length || d, "only digits");
    dv_assert(r.length == s.size() || !digit(s[r.length], base), "all the digits");
    dv_cover("end");
}

// separators: arbitrary position x inside of the match
extern "C" void dvh_separators()
{
    const auto s = dv_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    const int base = any_base();
    const char8_t separator = dv_u8();
    dv_assume(separator != 0 && !alphanumeric(separator));
    const bool wrong = (s[x] == separator) && (x == 0 || s[x - 1] == separator);
    const bool at = s[x] == separator;
    dv_point(x, !wrong);
    const Digits_Result r = match_separated_digits(s, base, separator);
    dv_assert(x >= r.length || !wrong || r.erroneous, "leading and repeated separators are flagged");
    dv_assert(x + 1 != r.length || r.length != s.size() || !at || r.erroneous, "a separator at the end of the text is flagged");
    dv_cover("end");
}

// ---- numbers --------------------------------------------------------------------------------------------------
//
// The specifications below are written without branches (`&`, `|`): every short circuit would double the paths.

namespace {

std::u8string_view source; // never empty
std::uint64_t tracked; // an arbitrary position
char8_t tracked_char, tracked_previous;

char8_t peek(std::size_t i)
{
    return source[i < source.size() ? i : 0];
}

bool is_at(std::size_t i, char8_t c)
{
    return (i < source.size()) & (peek(i) == c);
}

bool is_at(std::size_t i, char8_t c, char8_t d)
{
    return is_at(i, c) & is_at(i + 1, d);
}

bool allowed(unsigned c, int base, char8_t separator)
{
    return digit(c, base) | ((separator != 0) & (c == separator));
}

} // namespace

// the contract that dvh_separated, dvh_not_separated and dvh_separators prove
extern "C" Digits_Result dvk_separated(std::u8string_view s, int base, char8_t separator)
{
    const std::size_t n = dv_havoc_u64();
    const bool wrong = dv_havoc_u8() & 1;
    const std::uint64_t at = s.data() - source.data();
    dv_assert(at + s.size() == source.size(), "digits are matched in the rest of the text");
    const bool in = (at <= tracked) & (tracked - at < n);
    const bool is_separator = (separator != 0) & (tracked_char == separator);
    dv_assume((n <= s.size()) & ((separator != 0) | !wrong) & ((n == s.size()) | !allowed(peek(at + n), base, separator))
              & (!in | allowed(tracked_char, base, separator))
              & (!(in & is_separator) | wrong | !((tracked == at) | (tracked_previous == separator)))
              & (!(in & is_separator) | wrong | (tracked - at + 1 != s.size())));
    return { n, wrong };
}

extern "C" std::size_t dvk_digits(std::u8string_view s, int base)
{
    return dvk_separated(s, base, 0).length;
}

namespace {

// the lists with their first `n` entries
constexpr Number_Prefix prefixes[] { { u8"0b", 2 }, { u8"0x", 16, true } };
constexpr Exponent_Separator exponents[] { { u8"e", 10 }, { u8"p+", 16 } };
constexpr std::u8string_view suffixes[] { u8"u", u8"lf" };

std::u8string_view suffix_text;
std::size_t suffix_length, suffix_calls;

std::size_t match_suffix(std::u8string_view s)
{
    ++suffix_calls;
    suffix_text = s;
    suffix_length = dv_u64();
    dv_assume(suffix_length <= s.size());
    return suffix_length;
}

Common_Number_Options any_options()
{
    Common_Number_Options o;
    const auto signs = dv_u8();
    dv_assume(signs < 4);
    o.signs = Matched_Signs(signs);
    o.default_base = any_base();
    o.default_leading_zero_base = any_base();
    o.digit_separator = dv_u8();
    o.nonempty_integer = dv_bool();
    o.nonempty_fraction = dv_bool();
    return o;
}

void number(std::size_t with_prefixes, std::size_t with_exponents, std::size_t with_suffixes, bool callback = false)
{
    Common_Number_Options o = any_options();
    o.prefixes = std::span(prefixes).first(with_prefixes);
    o.exponent_separators = std::span(exponents).first(with_exponents);
    o.suffixes = std::span(suffixes).first(with_suffixes);
    if (callback) {
        o.match_suffix = Constant<&match_suffix> {};
    }
    const auto s = dv_text();
    source = s;
    tracked = dv_u64();
    dv_assume(tracked < s.size());
    tracked_char = s[tracked];
    tracked_previous = s[tracked == 0 ? 0 : tracked - 1];
    suffix_calls = 0;
    suffix_length = 0;
    const Common_Number_Result r = match_common_number(s, o);
    const std::size_t sum = r.sign + r.prefix + r.integer + r.radix_point + r.fractional + r.exponent_sep + r.exponent_digits + r.suffix;
    const bool match = r.length != 0;
    // a lone sign or point: the result is empty as a whole
    dv_assert(!match | (r.length == sum), "the length is the sum of the parts");
    dv_assert(match | (sum == 0), "no parts without a match");
    dv_assert(r.length <= s.size(), "the number lies in the text");
    dv_assert(match | !r.erroneous, "no match");
    if (!match) {
        dv_cover("none");
        return;
    }
    const bool plus = (peek(0) == '+') & ((unsigned(o.signs) & 2) != 0);
    const bool minus = (peek(0) == '-') & ((unsigned(o.signs) & 1) != 0);
    dv_assert(r.sign == std::size_t(plus | minus), "an allowed sign");
    // prefix
    const bool hex = (with_prefixes > 1) & is_at(r.sign, '0', 'x');
    const bool binary = (with_prefixes > 0) & is_at(r.sign, '0', 'b');
    const int base = hex ? 16 : binary ? 2 : is_at(r.sign, '0') ? o.default_leading_zero_base : o.default_base;
    const bool floating = !binary;
    dv_assert(r.prefix == (std::size_t(hex | binary) << 1), "the prefix is the first in the list");
    // integer
    const std::size_t integer = r.sign + r.prefix;
    const std::size_t integer_end = integer + r.integer;
    const bool separator = (o.digit_separator != 0) & (tracked_char == o.digit_separator);
    const bool repeated = (tracked > 0) & (tracked_previous == o.digit_separator);
    const bool in_integer = (tracked >= integer) & (tracked < integer_end);
    dv_assert(!in_integer | allowed(tracked_char, base, o.digit_separator), "the integer part are digits");
    dv_assert(!(in_integer & separator) | !((tracked == integer) | repeated) | r.erroneous, "separators in the integer part");
    dv_assert((integer_end >= s.size()) | !allowed(peek(integer_end), base, o.digit_separator), "all the digits of the integer part");
    dv_assert(!(o.nonempty_integer & (r.integer == 0)) | r.erroneous, "an integer part that has to be there");
    // fraction
    const bool point = floating & is_at(integer_end, '.');
    dv_assert(r.radix_point == std::size_t(point), "the radix point");
    const std::size_t fraction = integer_end + r.radix_point;
    const std::size_t fraction_end = fraction + r.fractional;
    const bool in_fraction = (tracked >= fraction) & (tracked < fraction_end);
    dv_assert(point | (r.fractional == 0), "no fraction without radix point");
    dv_assert(!in_fraction | allowed(tracked_char, base, o.digit_separator), "the fraction are digits");
    dv_assert(!(in_fraction & separator) | !((tracked == fraction) | repeated) | r.erroneous, "separators in the fraction");
    dv_assert(!point | (fraction_end >= s.size()) | !allowed(peek(fraction_end), base, o.digit_separator), "all the digits of the fraction");
    dv_assert(!(point & o.nonempty_fraction & (r.fractional == 0)) | r.erroneous, "a fraction that has to be there");
    // exponent
    const bool e = (with_exponents > 0) & floating & is_at(fraction_end, 'e');
    const bool p = (with_exponents > 1) & floating & is_at(fraction_end, 'p', '+');
    dv_assert(r.exponent_sep == (e ? 1 : p ? 2 : 0), "the exponent separator is the first in the list");
    const std::size_t exponent = fraction_end + r.exponent_sep;
    const std::size_t exponent_end = exponent + r.exponent_digits;
    const bool in_exponent = (tracked >= exponent) & (tracked < exponent_end);
    dv_assert(e | p | (r.exponent_digits == 0), "no exponent digits without separator");
    dv_assert(!in_exponent | digit(tracked_char, 10), "the exponent are digits");
    dv_assert(!(e | p) | (exponent_end >= s.size()) | !digit(peek(exponent_end), 10), "all the digits of the exponent");
    dv_assert(!(e | p) | (r.exponent_digits != 0) | r.erroneous, "an exponent without digits");
    // suffix
    if (callback) {
        dv_assert(suffix_calls == std::size_t(exponent_end < s.size()), "the suffix is matched once");
        dv_assert((suffix_calls == 0) | ((suffix_text.data() == s.data() + exponent_end) & (suffix_text.size() == s.size() - exponent_end)),
                  "the suffix is matched in the rest of the text");
        dv_assert(r.suffix == suffix_length, "the suffix that is matched");
    }
    else {
        const bool u = (with_suffixes > 0) & is_at(exponent_end, 'u');
        const bool lf = (with_suffixes > 1) & is_at(exponent_end, 'l', 'f');
        dv_assert(r.suffix == (u ? 1 : lf ? 2 : 0), "the suffix is the first in the list");
    }
    dv_assert((r.prefix != r.length) | r.erroneous, "a prefix alone");
    dv_cover("number");
}

} // namespace

extern "C" void dvh_number_plain() { number(0, 0, 0); }
extern "C" void dvh_number_prefix() { number(2, 0, 0); }
extern "C" void dvh_number_exponent() { number(0, 2, 0); }
extern "C" void dvh_number_suffix() { number(0, 0, 2); }
extern "C" void dvh_number_all() { number(1, 1, 1); }
extern "C" void dvh_number_callback() { number(0, 0, 0, true); }

// ---- numbers with a base suffix ---------------------------------------------------------------------------------

namespace {

std::size_t base_calls;
std::u8string_view base_text;
Base_Suffix base_result;
// what it is going to be, so that it can be talked about beforehand
int base_any;
std::size_t base_digits;

// any length inside of the number, any base
Base_Suffix determine_base(std::u8string_view s)
{
    ++base_calls;
    base_text = s;
    dv_assume(base_digits <= s.size());
    base_result.length = s.size() - base_digits;
    base_result.base = base_any;
    return base_result;
}

} // namespace

extern "C" void dvh_suffix_number()
{
    const auto s = dv_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    const char8_t separator = dv_u8();
    dv_assume(!alphanumeric(separator));
    const char8_t c = s[x];
    const char8_t before = s[x == 0 ? 0 : x - 1];
    const bool is_separator = (separator != 0) & (c == separator);
    const bool inside = alphanumeric(c) | is_separator;
    base_calls = 0;
    base_result = {};
    base_any = dv_u8();
    base_digits = dv_u64();
    dv_assume((base_any >= 1) & (base_any <= 36));
    dv_point(x, inside);
    dv_point(x, digit(c, base_any) | (is_separator & (x != 0) & (before != separator) & (x + 1 != base_digits)));
    const Suffix_Number_Result r = match_suffix_number(s, Constant<&determine_base> {}, separator);
    dv_assert(base_calls <= 1, "the base is determined once");
    const std::size_t length = r.digits + r.suffix;
    dv_assert((r.digits != 0) | ((r.suffix == 0) & !r.erroneous), "no match");
    if (r.digits == 0) {
        dv_cover("none");
        return;
    }
    dv_assert(base_calls == 1, "the base is determined");
    dv_assert(length <= s.size(), "the number lies in the text");
    dv_assert((x >= length) | inside, "only alphanumeric characters and separators");
    dv_assert((length >= s.size()) | !(alphanumeric(s[length < s.size() ? length : 0]) | ((separator != 0) & (s[length < s.size() ? length : 0] == separator))),
              "all the alphanumeric characters");
    dv_assert((base_text.data() == s.data()) & (base_text.size() == length), "the base is determined from all of it");
    dv_assert((r.suffix == base_result.length) & (r.base == base_result.base), "the suffix that was determined");
    const bool wrong = is_separator ? (x == 0) | (before == separator) | (x + 1 == r.digits) : !digit(c, r.base);
    dv_assert((x >= r.digits) | !wrong | r.erroneous, "wrong digits and separators are flagged");
    dv_assert(!r.erroneous | digit(s[0], 10), "an erroneous number starts with a digit");
    dv_cover("number");
}

// known finding: see known-findings.txt
extern "C" void dvh_trailing_separator()
{
    const auto s = dv_text();
    const int base = any_base();
    const char8_t separator = dv_u8();
    dv_assume(separator != 0 && !alphanumeric(separator));
    const Digits_Result r = match_separated_digits(s, base, separator);
    const bool trailing = (r.length != 0) && s[r.length - 1] == separator;
    dv_assert(!trailing || r.erroneous || r.length < s.size(), "a separator at the end of the text is flagged");
    dv_assert(!trailing || r.erroneous || r.length == s.size(), "KNOWN trailing separator before another character");
    dv_cover("end");
}
