// C06: UTF-8 decoding against Table 3-7 of the Unicode Standard and D93b (maximal subparts).
#include "dv.h"
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"

using namespace ulight;

namespace {

struct Row {
    unsigned lo[4], hi[4];
    int n;
};

// Table 3-7. Well-Formed UTF-8 Byte Sequences
constexpr Row table[] = {
    { { 0x00, 0, 0, 0 }, { 0x7F, 0, 0, 0 }, 1 },
    { { 0xC2, 0x80, 0, 0 }, { 0xDF, 0xBF, 0, 0 }, 2 },
    { { 0xE0, 0xA0, 0x80, 0 }, { 0xE0, 0xBF, 0xBF, 0 }, 3 },
    { { 0xE1, 0x80, 0x80, 0 }, { 0xEC, 0xBF, 0xBF, 0 }, 3 },
    { { 0xED, 0x80, 0x80, 0 }, { 0xED, 0x9F, 0xBF, 0 }, 3 },
    { { 0xEE, 0x80, 0x80, 0 }, { 0xEF, 0xBF, 0xBF, 0 }, 3 },
    { { 0xF0, 0x90, 0x80, 0x80 }, { 0xF0, 0xBF, 0xBF, 0xBF }, 4 },
    { { 0xF1, 0x80, 0x80, 0x80 }, { 0xF3, 0xBF, 0xBF, 0xBF }, 4 },
    { { 0xF4, 0x80, 0x80, 0x80 }, { 0xF4, 0x8F, 0xBF, 0xBF }, 4 },
};

struct Spec {
    // length of the row the first unit selects, 0 if none
    int row_length;
    // number of leading units that fit that row (maximal subpart), at least 1 unless empty
    int subpart;
    bool well_formed;
    unsigned value;
};

Spec spec(std::u8string_view s)
{
    Spec r {};
    if (s.size() == 0) {
        return r;
    }
    r.subpart = 1;
    const unsigned b0 = s.data()[0];
    for (const Row& row : table) {
        if (b0 < row.lo[0] || b0 > row.hi[0]) {
            continue;
        }
        r.row_length = row.n;
        int i = 1;
        for (; i < row.n; ++i) {
            if (std::size_t(i) >= s.size()) {
                break;
            }
            const unsigned b = s.data()[i];
            if (b < row.lo[i] || b > row.hi[i]) {
                break;
            }
        }
        r.subpart = i;
        r.well_formed = i == row.n;
        if (r.well_formed) {
            unsigned v = row.n == 1 ? b0 : b0 % (1u << (7 - row.n));
            for (int k = 1; k < row.n; ++k) {
                v = v * 64 + (s.data()[k] - 0x80u);
            }
            r.value = v;
        }
        return r;
    }
    return r;
}

void check_error(const Spec& sp, std::size_t size, utf8::Error_Code e)
{
    using enum utf8::Error_Code;
    if (size == 0) {
        dv_assert(e == no_data, "empty input reports no_data");
    }
    else if (sp.row_length == 0) {
        dv_assert(e == illegal_bits, "impossible first unit reports illegal_bits");
    }
    else if (size < std::size_t(sp.row_length)) {
        dv_assert(e == missing_units, "short input reports missing_units");
    }
    else {
        dv_assert(e == illegal_bits, "broken sequence reports illegal_bits");
    }
}

} // namespace

extern "C" void dvh_decode_and_length()
{
    const std::u8string_view s = dv_text();
    const Spec sp = spec(s);
    const auto r = utf8::decode_and_length(s);
    dv_assert(r.has_value() == sp.well_formed, "decode_and_length accepts exactly Table 3-7");
    if (r) {
        dv_cover("accepted");
        dv_assert(r->code_point == sp.value, "decode_and_length value");
        dv_assert(r->length == sp.row_length, "decode_and_length length");
    }
    else {
        dv_cover("rejected");
        check_error(sp, s.size(), r.error());
    }
}

extern "C" void dvh_decode_view()
{
    const std::u8string_view s = dv_text();
    const Spec sp = spec(s);
    const auto r = utf8::decode(s);
    dv_assert(r.has_value() == sp.well_formed, "decode(view) accepts exactly Table 3-7");
    if (r) {
        dv_cover("accepted");
        dv_assert(*r == sp.value, "decode(view) value");
    }
    else {
        dv_cover("rejected");
        check_error(sp, s.size(), r.error());
    }
}

extern "C" void dvh_decode_array()
{
    const std::array<char8_t, 4> a { char8_t(dv_u8()), char8_t(dv_u8()), char8_t(dv_u8()), char8_t(dv_u8()) };
    const int n = int(dv_u32());
    dv_assume(n >= 1 && n <= 4);
    const Spec sp = spec({ a.data(), std::size_t(n) });
    const bool ok = sp.well_formed && sp.row_length == n;
    dv_assert(utf8::is_valid(a, n) == ok, "is_valid(array) is Table 3-7");
    const auto r = utf8::decode(a, n);
    dv_assert(r.has_value() == ok, "decode(array) accepts exactly Table 3-7");
    const char32_t q = utf8::decode_or_replacement(a, n);
    if (r) {
        dv_cover("accepted");
        dv_assert(*r == sp.value, "decode(array) value");
        dv_assert(q == sp.value, "decode_or_replacement(array, n) value");
    }
    else {
        dv_cover("rejected");
        dv_assert(r.error() == utf8::Error_Code::illegal_bits, "decode(array) error");
        dv_assert(q == 0xFFFD, "decode_or_replacement(array, n) replacement");
    }
}

extern "C" void dvh_replacement_view()
{
    const std::u8string_view s = dv_text();
    const Spec sp = spec(s);
    const auto r = utf8::decode_and_length_or_replacement(s);
    if (sp.well_formed) {
        dv_cover("well-formed");
        dv_assert(r.code_point == sp.value, "replacement decoding keeps the value");
        dv_assert(r.length == sp.row_length, "replacement decoding keeps the length");
    }
    else {
        dv_cover("ill-formed");
        dv_assert(r.code_point == 0xFFFD, "ill-formed input gives U+FFFD");
        dv_assert(r.length == sp.subpart, "length is that of the maximal subpart");
    }
    dv_assert(r.length >= 0 && std::size_t(r.length) <= s.size(), "length is available");
    dv_assert(s.empty() || r.length >= 1, "progress on non-empty input");
    dv_assert(utf8::decode_or_replacement(s) == r.code_point, "decode_or_replacement(view)");
}

extern "C" void dvh_replacement_array()
{
    const std::array<char8_t, 4> a { char8_t(dv_u8()), char8_t(dv_u8()), char8_t(dv_u8()), char8_t(dv_u8()) };
    const Spec sp = spec({ a.data(), 4 });
    const auto r = utf8::decode_and_length_or_replacement(a);
    if (sp.well_formed) {
        dv_cover("well-formed");
        dv_assert(r.code_point == sp.value, "replacement decoding of an array keeps the value");
        dv_assert(r.length == sp.row_length, "replacement decoding of an array keeps the length");
    }
    else {
        dv_cover("ill-formed");
        dv_assert(r.code_point == 0xFFFD, "ill-formed array gives U+FFFD");
        dv_assert(r.length == sp.subpart, "array length is that of the maximal subpart");
    }
    dv_assert(utf8::decode_or_replacement(a) == r.code_point, "decode_or_replacement(array)");
}

extern "C" void dvh_sequence_length()
{
    const auto c = char8_t(dv_u8());
    const Spec sp = spec({ &c, 1 });
    dv_assert(utf8::sequence_length(c) == sp.row_length, "sequence_length is the row length");
    const int f = int(dv_u32());
    dv_assert(utf8::sequence_length(c, f) == (sp.row_length ? sp.row_length : f), "sequence_length with fallback");
    if (sp.row_length != 0) {
        dv_assert(utf8::unchecked_sequence_length(c) == sp.row_length, "unchecked_sequence_length on valid first units");
    }
    dv_cover("end");
}

extern "C" void dvh_unchecked()
{
    const std::u8string_view s = dv_text();
    const Spec sp = spec(s);
    dv_assume(sp.well_formed);
    const auto r = utf8::decode_and_length_unchecked(s.data());
    dv_assert(r.code_point == sp.value, "decode_and_length_unchecked value");
    dv_assert(r.length == sp.row_length, "decode_and_length_unchecked length");
    dv_cover("end");
}

// is_valid(view): the loop is cut; `valid` is the recursive specification
//   valid(s) <=> s is empty, or a Table 3-7 sequence of length k starts s and valid(s without k units)
// as an uninterpreted predicate unfolded where the loop stands.
extern "C" void dvh_is_valid_view()
{
    const std::u8string_view s = dv_text();
    const auto r = utf8::is_valid(s);
    dv_assert(r.has_value() == dv_spec_valid(s), "is_valid(view) is segment-wise Table 3-7");
    dv_cover("end");
}

// the contract of decode_and_length, as dvh_decode_and_length proves it, for its use in is_valid
extern "C" std::expected<utf8::Code_Point_And_Length, utf8::Error_Code> dvk_decode_and_length(std::u8string_view s)
{
    const int n = dv_spec_prefix(s);
    if (n == 0) {
        return std::unexpected { utf8::Error_Code(dv_havoc_u32()) };
    }
    return utf8::Code_Point_And_Length { .code_point = char32_t(dv_havoc_u32()), .length = n };
}

extern "C" void dvh_iterator()
{
    const std::u8string_view s = dv_text();
    const Spec sp = spec(s);
    dv_assume(sp.well_formed);
    utf8::Code_Point_Iterator it { s };
    dv_assert(*it == sp.value, "Code_Point_Iterator yields the value");
    ++it;
    const utf8::Code_Point_Iterator rest { s.substr(std::size_t(sp.row_length)) };
    dv_assert(it == rest, "Code_Point_Iterator advances by the sequence length");
    dv_cover("end");
}
