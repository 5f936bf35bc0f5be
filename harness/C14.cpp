// C14: basic text matchers.
#include "dv.h"
#include <charconv>
#include "ulight/impl/ascii_algorithm.hpp"
#include "ulight/impl/escapes.hpp"
#include "ulight/impl/lang/html.hpp"
#include "ulight/impl/parse_utils.hpp"
#include "ulight/impl/strings.hpp"

using namespace ulight;

extern "C" {
// every code unit of the text from `from` up to `to` is white space
void dv_text_white(std::u8string_view s, std::uint64_t from, std::uint64_t to);
}

namespace {

constexpr auto npos = std::u8string_view::npos;

bool white(unsigned c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\f') | (c == '\r'); }
bool octal(unsigned c) { return (c >= '0') & (c <= '7'); }
bool hex(unsigned c)
{
    return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'));
}
unsigned upper(unsigned c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
unsigned lower(unsigned c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

// an arbitrary position of the text
std::uint64_t place(std::u8string_view s)
{
    const std::uint64_t x = dv_u64();
    dv_assume(x < s.size());
    return x;
}

} // namespace

// ---- lines ----------------------------------------------------------------------------------------------------

extern "C" void dvh_line()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    const bool plain = (s[x] != '\r') & (s[x] != '\n');
    dv_point(x, plain);
    const Line_Result r = match_crlf_line(s);
    dv_assert(r.content_length <= s.size(), "the line lies in the text");
    dv_assert(r.terminator_length <= s.size() - r.content_length, "the terminator lies in the text");
    dv_assert(!(x < r.content_length) | plain, "no terminator inside of the line");
    if (r.content_length == s.size()) {
        dv_assert(r.terminator_length == 0, "unterminated line");
        dv_cover("unterminated");
        return;
    }
    const auto c = s[r.content_length];
    if (c == '\r' && r.content_length + 1 < s.size() && s[r.content_length + 1] == '\n') {
        dv_assert(r.terminator_length == 2, "CRLF");
        dv_cover("crlf");
    }
    else {
        dv_assert((c == '\r' || c == '\n') && r.terminator_length == 1, "CR or LF");
        dv_cover("cr or lf");
    }
}

extern "C" void dvh_blank()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    dv_point(x, white(s[x]));
    const Blank_Line r = find_blank_line_sequence(s);
    if (r.length == 0) {
        dv_assert(r.begin == 0, "no blank line");
        dv_cover("none");
        return;
    }
    dv_assert(r.begin < s.size() && r.length <= s.size() - r.begin, "the sequence lies in the text");
    dv_assert(r.begin == 0 || s[r.begin - 1] == '\n', "the sequence begins a line");
    dv_assert(s[r.begin + r.length - 1] == '\n', "the sequence ends with LF");
    dv_assert(x < r.begin || x >= r.begin + r.length || white(s[x]), "only white space in the sequence");
    dv_cover("found");
}

extern "C" void dvh_blank_first()
{
    const auto s = dv_text();
    // an arbitrary blank line
    const std::uint64_t from = dv_u64();
    const std::uint64_t to = dv_u64();
    dv_assume(from <= to && to < s.size() && s[to] == '\n' && (from == 0 || s[from - 1] == '\n'));
    dv_text_white(s, from, to);
    const Blank_Line r = find_blank_line_sequence(s);
    dv_assert(r.length != 0, "a blank line is found");
    dv_assert(r.begin <= from, "the first blank line is found");
    dv_cover("end");
}

// the sequence extends over every blank line that follows
extern "C" void dvh_blank_last()
{
    const auto s = dv_text();
    // an arbitrary line feed with white space only before it
    const std::uint64_t from = dv_u64();
    const std::uint64_t to = dv_u64();
    dv_assume(from <= to && to < s.size() && s[to] == '\n');
    dv_text_white(s, from, to);
    const Blank_Line r = find_blank_line_sequence(s);
    dv_assert((r.length == 0) | (r.begin > from) | (r.begin + r.length < from) | (r.begin + r.length > to), "the sequence extends over all blank lines");
    dv_cover("end");
}

// ---- delimited spans ------------------------------------------------------------------------------------------

namespace {

void enclosed(std::u8string_view s, const char* prefix, std::size_t m, const char* suffix, std::size_t n, Enclosed_Result r,
              std::uint64_t x, bool closes)
{
    bool starts = s.size() >= m;
    for (std::size_t i = 0; i < m; ++i) {
        starts = starts && s[i] == static_cast<unsigned char>(prefix[i]);
    }
    if (!starts) {
        dv_assert(r.length == 0 && !r.is_terminated, "no opening delimiter: no match");
        dv_cover("none");
        return;
    }
    dv_assert(r.length >= m && r.length <= s.size(), "the span lies in the text");
    if (!r.is_terminated) {
        dv_assert(r.length == s.size(), "unterminated: to the end of the text");
        dv_assert(!closes, "unterminated: no closing delimiter");
        dv_cover("unterminated");
        return;
    }
    dv_assert(r.length >= m + n, "the delimiters do not overlap");
    for (std::size_t i = 0; i < n; ++i) {
        dv_assert(s[r.length - n + i] == static_cast<unsigned char>(suffix[i]), "ends with the closing delimiter");
    }
    dv_assert(!(x < r.length - n) | !closes, "the first closing delimiter ends the span");
    dv_cover("terminated");
}

} // namespace

// x: an arbitrary position behind the opening delimiter; does a closing delimiter begin there
#define ENCLOSED(name, pre, m, suf, n, call, at)                                                                         \
    extern "C" void dvh_enclosed_##name()                                                                          \
    {                                                                                                              \
        const auto s = dv_text();                                                                                  \
        const std::uint64_t x = place(s);                                                                          \
        dv_assume(x >= m);                                                                                         \
        const bool closes = at;                                                                                    \
        dv_point(x, !closes);                                                                                      \
        const Enclosed_Result r = call;                                                                            \
        enclosed(s, pre, m, suf, n, r, x, closes);                                                                 \
    }

#define AT2(c, d) (s.size() - x >= 2 && s[x] == c && s[x + 1] == d)
#define AT3(c, d, e) (s.size() - x >= 3 && s[x] == c && s[x + 1] == d && s[x + 2] == e)

ENCLOSED(block, "/*", 2, "*/", 2, match_enclosed(s, u8"/*", u8"*/"), AT2('*', '/'))
ENCLOSED(paren, "(*", 2, "*)", 2, match_enclosed(s, u8"(*", u8"*)"), AT2('*', ')'))
ENCLOSED(sgml, "<!--", 4, "-->", 3, match_enclosed(s, u8"<!--", u8"-->"), AT3('-', '-', '>'))
ENCLOSED(char, "<", 1, ">", 1, match_enclosed(s, u8'<', u8'>'), (s[x] == '>'))
ENCLOSED(same, "\"", 1, "\"", 1, match_enclosed(s, u8'"', u8'"'), (s[x] == '"'))

#define AT6(p) (s.size() - x >= 6 && (s[x] == p[0]) & (s[x + 1] == p[1]) & (s[x + 2] == p[2]) & (s[x + 3] == p[3]) & (s[x + 4] == p[4]) & (s[x + 5] == p[5]))
// long delimiters that overlap
ENCLOSED(long, "[=BEGIN-", 8, "-END-]", 6, match_enclosed(s, u8"[=BEGIN-", u8"-END-]"), AT6("-END-]"))

// ---- escapes --------------------------------------------------------------------------------------------------

namespace {

// how many of the first `most` characters satisfy p
template <typename P>
std::size_t leading(std::u8string_view s, std::size_t most, P p)
{
    for (std::size_t i = 0; i < most; ++i) {
        if (i >= s.size() || !p(s[i])) {
            return i;
        }
    }
    return most;
}

template <Common_Escape type, typename P>
void up_to(std::size_t most, P p)
{
    const auto s = dv_text();
    const Escape_Result r = match_common_escape<type>(s);
    const std::size_t n = leading(s, most, p);
    dv_assert(r.length == n, "as many digits as there are, at most the documented number");
    dv_assert(r.erroneous == (n == 0), "flagged without digits");
    dv_cover("end");
}

template <Common_Escape type>
void exactly_hex(std::size_t most)
{
    const auto s = dv_text();
    const Escape_Result r = match_common_escape<type>(s);
    dv_assert(r.length <= s.size() && r.length <= most, "an escape lies in the text");
    const std::size_t n = leading(s, most, hex);
    dv_assert(r.erroneous == (n != most), "flagged unless there are exactly that many digits");
    if (n == most) {
        dv_assert(r.length == most, "all the digits");
        dv_cover("all");
    }
    else {
        dv_cover("flagged");
    }
}

template <Common_Escape type, typename P>
void braced(P p)
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    dv_assume(x >= 1);
    const bool closes = s[x] == '}';
    const bool digit = p(s[x]);
    dv_point(x, !closes);
    dv_point(x, digit);
    const Escape_Result r = match_common_escape<type>(s);
    dv_assert(r.length <= s.size(), "an escape lies in the text");
    if (s[0] != '{') {
        dv_assert(r.length == 0 && r.erroneous, "no brace");
        dv_cover("no brace");
        return;
    }
    dv_assert(r.length >= 1, "the brace is matched");
    dv_assert(!closes || x + 1 >= r.length, "the first closing brace ends the escape");
    const bool closed = r.length >= 2 && s[r.length - 1] == '}';
    if (!closed) {
        dv_assert(r.length == s.size(), "without closing brace: to the end of the text");
        dv_assert(!closes, "without closing brace: there is none");
        dv_cover("open");
    }
    else {
        dv_assert(r.length != 2 || r.erroneous, "empty braces are flagged");
        dv_cover("closed");
    }
    dv_assert(r.erroneous || x + 1 >= r.length || digit, "flagged if something is not a digit");
}

// flagged only with a reason: the braces are empty or there is something that is not a digit
template <Common_Escape type, typename P>
void braced_flag(P p)
{
    const auto s = dv_text();
    const Escape_Result r = match_common_escape<type>(s);
    if (s.size() >= 2 && s[0] == '{' && p(s[1]) && r.length == 3 && s[2] == '}') {
        dv_assert(!r.erroneous, "one digit in braces is fine");
        dv_cover("end");
    }
}

} // namespace

extern "C" void dvh_octal_1_to_2() { up_to<Common_Escape::octal_1_to_2>(2, octal); }
extern "C" void dvh_octal_1_to_3() { up_to<Common_Escape::octal_1_to_3>(3, octal); }
extern "C" void dvh_hex_1_to_2() { up_to<Common_Escape::hex_1_to_2>(2, hex); }
extern "C" void dvh_hex_2() { exactly_hex<Common_Escape::hex_2>(2); }
extern "C" void dvh_hex_4() { exactly_hex<Common_Escape::hex_4>(4); }
extern "C" void dvh_hex_8() { exactly_hex<Common_Escape::hex_8>(8); }
extern "C" void dvh_octal_braced() { braced<Common_Escape::octal_braced>(octal); }
extern "C" void dvh_hex_braced() { braced<Common_Escape::hex_braced>(hex); }
extern "C" void dvh_octal_braced_flag() { braced_flag<Common_Escape::octal_braced>(octal); }
extern "C" void dvh_hex_braced_flag() { braced_flag<Common_Escape::hex_braced>(hex); }
extern "C" void dvh_nonempty_braced()
{
    braced<Common_Escape::nonempty_braced>([](unsigned) { return true; });
}
extern "C" void dvh_nonempty_braced_flag() { braced_flag<Common_Escape::nonempty_braced>([](unsigned c) { return c != '}'; }); }

extern "C" void dvh_octal_3()
{
    const auto s = dv_text();
    const Escape_Result r = match_common_escape<Common_Escape::octal_3>(s);
    const std::size_t n = leading(s, 3, octal);
    dv_assert(r.length == n, "the digits there are, at most three");
    dv_assert(r.erroneous == (n != 3), "flagged unless three digits");
    dv_cover("end");
}

extern "C" void dvh_hex_1_to_inf()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    const bool digit = hex(s[x]);
    dv_point(x, digit);
    const Escape_Result r = match_common_escape<Common_Escape::hex_1_to_inf>(s);
    dv_assert(r.length <= s.size(), "an escape lies in the text");
    dv_assert(x >= r.length || digit, "only digits");
    dv_assert(r.length == s.size() || !hex(s[r.length]), "all the digits");
    dv_assert(r.erroneous == (r.length == 0), "flagged without digits");
    dv_cover("end");
}

extern "C" void dvh_lf_cr_crlf()
{
    const auto s = dv_text();
    const Escape_Result r = match_common_escape<Common_Escape::lf_cr_crlf>(s);
    const bool cr = !s.empty() && s[0] == '\r';
    const bool lf = !s.empty() && s[0] == '\n';
    const bool crlf = cr && s.size() >= 2 && s[1] == '\n';
    dv_assert(r.length == std::size_t(crlf ? 2 : cr || lf ? 1 : 0), "the line terminator");
    dv_assert(r.erroneous == !(cr || lf), "flagged without line terminator");
    dv_cover("end");
}

// with a prefix: the result of the rest of the text, and the prefix
extern "C" void dvh_prefixed()
{
    const auto s = dv_text();
    const std::uint64_t k = dv_u64();
    dv_assume(k <= s.size());
    const Escape_Result r = match_common_escape<Common_Escape::hex_2>(s, k);
    const Escape_Result q = match_common_escape<Common_Escape::hex_2>(s.substr(k));
    dv_assert(r.length == k + q.length && r.erroneous == q.erroneous, "prefix and escape");
    dv_cover("end");
}

// ---- searching by a predicate ---------------------------------------------------------------------------------

namespace {

// found: the first position, not before `from`, for which p is `want`; at the end: there is none
template <typename P>
void first(std::u8string_view s, std::uint64_t from, P p, bool want, std::uint64_t r, std::uint64_t none, std::uint64_t x, bool px)
{
    if (r == none) {
        dv_assert(x < from || px != want, "not found: there is none");
        dv_cover("not found");
        return;
    }
    dv_assert(r >= from && r < s.size(), "the position lies in the text");
    dv_assert(p(s[r]) == want, "what is found satisfies the predicate");
    dv_assert(!(x >= from && x < r) || px != want, "the first is found");
    dv_cover("found");
}

} // namespace

// a predicate with a parameter stands for any predicate: the algorithms are templates
#define SEARCH(name, want, call, none)                                                                             \
    extern "C" void dvh_##name()                                                                                   \
    {                                                                                                              \
        const auto s = dv_text();                                                                                  \
        const std::uint64_t x = place(s);                                                                          \
        const std::uint64_t from = dv_u64();                                                                       \
        dv_assume(from <= s.size());                                                                               \
        const char8_t t = dv_u8();                                                                                 \
        const auto p = [t](char8_t c) { return c < t; };                                                           \
        const bool px = p(s[x]);                                                                                   \
        dv_point(x, px != want);                                                                                   \
        first(s, from, p, want, ascii::call, none, x, px);                                                         \
    }

SEARCH(find_if, true, find_if(s, p, from), npos)
SEARCH(find_if_not, false, find_if_not(s, p, from), npos)
SEARCH(length_if, false, length_if(s, p, from), s.size())
SEARCH(length_if_not, true, length_if_not(s, p, from), s.size())

#define HEAD_TAIL(name, want)                                                                                      \
    extern "C" void dvh_##name()                                                                                   \
    {                                                                                                              \
        const auto s = dv_text();                                                                                  \
        const std::uint64_t x = place(s);                                                                          \
        const char8_t h = dv_u8();                                                                                 \
        const char8_t t = dv_u8();                                                                                 \
        const auto head = [h](char8_t c) { return c == h; };                                                       \
        const auto p = [t](char8_t c) { return c < t; };                                                           \
        const bool px = p(s[x]);                                                                                   \
        dv_point(x, px != want);                                                                                   \
        const std::size_t r = ascii::name(s, head, p);                                                             \
        if (s[0] != h) {                                                                                           \
            dv_assert(r == 0, "no head: no match");                                                                \
            dv_cover("no head");                                                                                   \
            return;                                                                                                \
        }                                                                                                          \
        first(s, 1, p, want, r, s.size(), x, px);                                                                  \
    }

HEAD_TAIL(length_if_head_tail, false)
HEAD_TAIL(length_if_not_head_tail, true)


#define BEFORE(name, want)                                                                                         \
    extern "C" void dvh_##name()                                                                                   \
    {                                                                                                              \
        const auto s = dv_text();                                                                                  \
        const std::uint64_t x = place(s);                                                                          \
        const std::uint64_t from = dv_u64();                                                                       \
        dv_assume(from <= s.size());                                                                               \
        const char8_t t = dv_u8();                                                                                 \
        const auto p = [t](char8_t c) { return c == t; };                                                          \
        const bool px = p(s[x]);                                                                                   \
        dv_point(x, px != want);                                                                                   \
        first(s, from, p, want, ascii::name(s, t, from), s.size(), x, px);                                         \
    }

BEFORE(length_before, true)
BEFORE(length_before_not, false)

#define UNTIL(name, want)                                                                                          \
    extern "C" void dvh_##name()                                                                                   \
    {                                                                                                              \
        const auto s = dv_text();                                                                                  \
        const std::uint64_t x = place(s);                                                                          \
        const std::uint64_t from = dv_u64();                                                                       \
        dv_assume(from <= s.size());                                                                               \
        const char8_t t = dv_u8();                                                                                 \
        const bool px = s[x] == t;                                                                                 \
        dv_point(x, px != want);                                                                                   \
        const std::size_t r = ascii::name(s, t, from);                                                             \
        dv_assert(r <= s.size() && r >= from, "the length lies in the text");                                      \
        dv_assert(x < from || x + 1 >= r || px != want, "nothing before is what is searched");                     \
        if (r == s.size()) {                                                                                       \
            dv_cover("not found");                                                                                 \
            return;                                                                                                \
        }                                                                                                          \
        dv_assert(r > from && (s[r - 1] == t) == want, "what is found is the last");                               \
        dv_cover("found");                                                                                         \
    }

UNTIL(length_until, true)
UNTIL(length_until_not, false)

extern "C" void dvh_contains()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    const char8_t t = dv_u8();
    dv_point(x, s[x] != t);
    const bool r = contains(s, t);
    if (r) {
        dv_cover("yes");
        return;
    }
    dv_assert(s[x] != t, "not contained: nowhere");
    dv_cover("no");
}

extern "C" void dvh_is_all_ascii()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    dv_point(x, s[x] < 128);
    if (is_all_ascii(s)) {
        dv_assert(s[x] < 128, "all ASCII: everywhere");
        dv_cover("yes");
    }
    else {
        dv_cover("no");
    }
}

// ---- ignoring case --------------------------------------------------------------------------------------------

extern "C" void dvh_equal_self()
{
    const auto s = dv_text();
    dv_assert(ascii::equals_ignore_case(s, s), "a text equals itself");
    dv_assert(ascii::starts_with_ignore_case(s, s), "a text starts with itself");
    dv_assert(ascii::starts_with_ignore_case(s, u8""), "a text starts with the empty text");
    dv_assert(ascii::compare_to_lower(s, s) == 0, "a text compares equal to itself");
    dv_cover("end");
}

extern "C" void dvh_equal()
{
    const auto s = dv_text();
    const auto t = dv_text();
    const std::uint64_t x = place(s);
    dv_assume(x < t.size());
    const bool same = lower(s[x]) == lower(t[x]);
    dv_point(x, same);
    if (ascii::equals_ignore_case(s, t)) {
        dv_assert(s.size() == t.size() && same, "equal: the same length and characters");
        dv_cover("equal");
    }
    else {
        dv_cover("different");
    }
}

extern "C" void dvh_starts()
{
    const auto s = dv_text();
    const auto t = dv_text();
    const std::uint64_t x = place(t);
    dv_assume(x < s.size());
    const bool same = lower(s[x]) == lower(t[x]);
    dv_point(x, same);
    if (ascii::starts_with_ignore_case(s, t)) {
        dv_assert(s.size() >= t.size() && same, "starts with: the same characters");
        dv_cover("yes");
    }
    else {
        dv_cover("no");
    }
}

namespace {

bool is_prefix(std::u8string_view s, const char* p, std::size_t n)
{
    if (s.size() < n) {
        return false;
    }
    for (std::size_t i = 0; i < n; ++i) {
        if (lower(s[i]) != lower(static_cast<unsigned char>(p[i]))) {
            return false;
        }
    }
    return true;
}

} // namespace

extern "C" void dvh_equal_word()
{
    const auto s = dv_text();
    const bool want = s.size() == 6 && is_prefix(s, "ScR-1p", 6);
    dv_assert(ascii::equals_ignore_case(s, u8"ScR-1p") == want, "equal to a word");
    dv_assert(ascii::equals_ignore_case(u8"ScR-1p", s) == want, "equal to a word, the other way around");
    dv_cover("end");
}

extern "C" void dvh_starts_word()
{
    const auto s = dv_text();
    dv_assert(ascii::starts_with_ignore_case(s, u8"ScR-1p") == is_prefix(s, "ScR-1p", 6), "starts with a word");
    dv_cover("end");
}

extern "C" void dvh_contains_word()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    const bool here = s.size() - x >= 2 && lower(s[x]) == 'a' && s[x + 1] == '-';
    dv_point(x, !here);
    dv_assert(ascii::contains_ignore_case(s, u8""), "the empty text is contained");
    if (ascii::contains_ignore_case(s, u8"A-")) {
        dv_cover("yes");
        return;
    }
    dv_assert(!here, "not contained: nowhere");
    dv_cover("no");
}

extern "C" void dvh_compare_word()
{
    const auto s = dv_text();
    const auto r = ascii::compare_to_lower(s, u8"bQ");
    int want = 0;
    if (s.size() == 0) {
        want = -1;
    }
    else if (lower(s[0]) != 'b') {
        want = lower(s[0]) < 'b' ? -1 : 1;
    }
    else if (s.size() == 1) {
        want = -1;
    }
    else if (lower(s[1]) != 'q') {
        want = lower(s[1]) < 'q' ? -1 : 1;
    }
    else {
        want = s.size() == 2 ? 0 : 1;
    }
    dv_assert(((r < 0) == (want < 0)) & ((r > 0) == (want > 0)), "compared in lower case");
    dv_cover("end");
}

// ---- HTML raw text --------------------------------------------------------------------------------------------

namespace {

// a tag that ends raw text begins at x
bool ends_raw(std::u8string_view s, std::uint64_t x, const char* name, std::size_t n)
{
    if (s.size() - x < n + 3) {
        return false;
    }
    bool r = (s[x] == '<') & (s[x + 1] == '/');
    for (std::size_t i = 0; i < n; ++i) {
        r &= lower(s[x + 2 + i]) == static_cast<unsigned char>(name[i]);
    }
    const unsigned c = s[x + 2 + n];
    return r & (white(c) | (c == '>') | (c == '/'));
}

} // namespace

extern "C" void dvh_raw_text()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    const bool ends = ends_raw(s, x, "ab", 2);
    dv_point(x, !ends);
    const std::size_t r = html::match_raw_text(s, u8"ab");
    dv_assert(r <= s.size(), "raw text lies in the text");
    dv_assert(x >= r || !ends, "the first closing tag ends raw text");
    if (r == s.size()) {
        dv_cover("unterminated");
        return;
    }
    dv_assert(ends_raw(s, r, "ab", 2), "raw text ends with a closing tag");
    dv_cover("terminated");
}

namespace {
const char8_t* tracked_text;
std::uint64_t tracked;

bool among(char8_t c, const char8_t* set, std::size_t n)
{
    bool in = false;
    for (std::size_t i = 0; i < n; ++i) {
        in |= c == set[i];
    }
    return in;
}
}

extern "C" bool dv_same_object(const void*, const void*);

// the library function that searches for one of several characters (dvh_find_first_of proves it for the set in use):
// what is found is one of them, and no tracked position before is
extern "C" std::size_t dvk_find_first_of(const std::u8string_view* self, const char8_t* set, std::size_t at, std::size_t n)
{
    const std::u8string_view v = *self;
    const std::size_t r = dv_havoc_u64();
    const bool found = r < v.size();
    dv_assume(r == npos || (found && r >= at));
    if (found) {
        dv_assume(among(v[r], set, n));
    }
    if (dv_same_object(v.data(), tracked_text)) {
        const std::uint64_t base = v.data() - tracked_text;
        if (base + at <= tracked && tracked - base < (found ? r : v.size())) {
            dv_assume(!among(tracked_text[tracked], set, n));
        }
    }
    return r;
}

extern "C" void dvh_find_first_of()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    const std::uint64_t from = dv_u64();
    dv_assume(from <= s.size());
    const bool in = (s[x] == '<') | (s[x] == '&');
    dv_point(x, !in);
    const std::size_t r = s.find_first_of(u8"<&", from);
    if (r == npos) {
        dv_assert(x < from || !in, "none found: there is none");
        dv_cover("none");
        return;
    }
    dv_assert(r >= from && r < s.size() && (s[r] == '<' || s[r] == '&'), "the found character is one of the set");
    dv_assert(x < from || x >= r || !in, "the first is found");
    dv_cover("found");
}

extern "C" void dvh_escapable()
{
    const auto s = dv_text();
    const std::uint64_t x = place(s);
    tracked_text = s.data();
    tracked = x;
    const bool ends = ends_raw(s, x, "ab", 2);
    dv_point(x, !ends);
    const html::Raw_Text_Result r = html::match_escapable_raw_text_piece(s, u8"ab");
    dv_assert(r.raw_length <= s.size() && r.ref_length <= s.size() - r.raw_length, "raw text lies in the text");
    dv_assert(x >= r.raw_length || !ends, "the first closing tag ends raw text");
    if (r.ref_length != 0) {
        dv_assert(s[r.raw_length] == '&', "a reference begins with an ampersand");
        dv_cover("reference");
        return;
    }
    if (r.raw_length == s.size()) {
        dv_cover("unterminated");
        return;
    }
    dv_assert(ends_raw(s, r.raw_length, "ab", 2), "raw text ends with a closing tag");
    dv_cover("terminated");
}

// ---- integer literals -----------------------------------------------------------------------------------------

namespace {
const char* from_first;
const char* from_last;
int from_base, from_calls, from_ec;
unsigned long long from_value;
}

// std::from_chars: some value, or an error
extern "C" std::from_chars_result dvk_from_chars(const char* first, const char* last, unsigned long long& value, int base)
{
    ++from_calls;
    from_first = first;
    from_last = last;
    from_base = base;
    from_ec = dv_havoc_u8();
    from_value = dv_havoc_u64();
    dv_assume(from_ec == 0 || from_ec == 22 || from_ec == 34);
    if (from_ec == 0) {
        value = from_value;
    }
    return { last, std::errc(from_ec) };
}

namespace {

#ifdef DV_NATIVE
void digits(std::u8string_view s, std::size_t at, int base)
{
    unsigned __int128 v = 0;
    std::size_t n = 0;
    from_ec = 0;
    for (; at < s.size(); ++at, ++n) {
        const unsigned c = lower(s[at]);
        const int d = c >= '0' && c <= '9' ? int(c - '0') : c >= 'a' && c <= 'f' ? int(c - 'a') + 10 : 99;
        if (d >= base) {
            break;
        }
        v = v * unsigned(base) + unsigned(d);
        if (v >> 64) {
            from_ec = 34;
            return;
        }
    }
    from_ec = n ? 0 : 22;
    from_value = (unsigned long long)v;
}
#else
void digits(std::u8string_view s, std::size_t at, int base)
{
    dv_assert(from_calls == 1, "the digits are converted once");
    dv_assert(from_first == reinterpret_cast<const char*>(s.data()) + at && from_last == reinterpret_cast<const char*>(s.data()) + s.size(), "all the digits are converted");
    dv_assert(from_base == base, "the prefix gives the base");
}
#endif

// where the digits begin, and their base
void prefix(std::u8string_view s, std::size_t at)
{
    if (s.size() - at >= 2 && s[at] == '0' && s[at + 1] == 'b') {
        digits(s, at + 2, 2);
        dv_cover("binary");
    }
    else if (s.size() - at >= 2 && s[at] == '0' && s[at + 1] == 'x') {
        digits(s, at + 2, 16);
        dv_cover("hexadecimal");
    }
    else if (s[at] == '0') {
        digits(s, at, 8);
        dv_cover("octal");
    }
    else {
        digits(s, at, 10);
        dv_cover("decimal");
    }
}

} // namespace

extern "C" void dvh_uinteger()
{
    const auto s = dv_text();
    from_calls = 0;
    const auto r = parse_uinteger_literal(s);
    if (s.empty()) {
        dv_assert(!r, "no digits");
        dv_cover("empty");
        return;
    }
    prefix(s, 0);
    dv_assert(r.has_value() == (from_ec == 0), "a value unless the digits are none or too many");
    dv_assert(!r || *r == from_value, "the value of the digits");
}

extern "C" void dvh_integer()
{
    const auto s = dv_text();
    from_calls = 0;
    const auto r = parse_integer_literal(s);
    const bool minus = !s.empty() && s[0] == '-';
    if (s.size() == std::size_t(minus)) {
        dv_assert(!r, "no digits");
        dv_cover("empty");
        return;
    }
    prefix(s, minus);
    dv_assert(r.has_value() == (from_ec == 0), "a value unless the digits are none or too many");
    dv_assert(!r || (unsigned long long)*r == (minus ? 0 - from_value : from_value), "the value of the digits, negated after a minus");
}
