// C07: encoding and decoding are inverse on scalar values, and encoding is shortest.
#include "dv.h"
#include "ulight/impl/unicode.hpp"

using namespace ulight;

extern "C" void dvh_roundtrip()
{
    const char32_t c = dv_u32();
    dv_assume(c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF));
    const utf8::Code_Units_And_Length e = utf8::encode8_unchecked(c);
    const int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    dv_assert(e.length == n, "encoding has the shortest length");
    dv_assert(utf8::is_valid(e.code_units, e.length), "encoding is well-formed");
    const auto d = utf8::decode_and_length(e.as_string());
    dv_assert(d.has_value(), "encoding decodes");
    dv_assert(d->code_point == c, "decode(encode(c)) == c");
    dv_assert(d->length == e.length, "decoded length is the encoded length");
    const auto r = utf8::decode_and_length_or_replacement(e.as_string());
    dv_assert(r.code_point == c && r.length == e.length, "replacement decode(encode(c)) == c");
    dv_assert(utf8::decode_unchecked(e.code_units, e.length) == c, "decode_unchecked(encode(c)) == c");
    dv_assert(utf8::sequence_length(e.code_units[0]) == n, "first unit announces the length");
    for (int i = n; i < 4; ++i) {
        dv_assert(e.code_units[std::size_t(i)] == 0, "unused units are zero");
    }
    dv_assert(e.end() - e.begin() == n, "begin/end span the sequence");
    dv_cover("end");
}

// the converse direction: encoding what was decoded gives the same units
extern "C" void dvh_inverse()
{
    const std::u8string_view s = dv_text();
    const auto d = utf8::decode_and_length(s);
    if (d) {
        const utf8::Code_Units_And_Length e = utf8::encode8_unchecked(d->code_point);
        dv_assert(e.length == d->length, "encode(decode(s)) has the same length");
        for (int i = 0; i < e.length; ++i) {
            dv_assert(e.code_units[std::size_t(i)] == s[std::size_t(i)], "encode(decode(s)) has the same units");
        }
        dv_cover("end");
    }
}
