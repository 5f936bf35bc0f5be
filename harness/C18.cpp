// C18: embedded code.
#include "tokens.h"

#include "ulight/impl/highlight.hpp"
#include "ulight/impl/highlighter.hpp"

namespace {

struct Probe : Highlighter_Base {
    using Highlighter_Base::Highlighter_Base;
    using Highlighter_Base::advance;
    using Highlighter_Base::consume_nested_language;
    using Highlighter_Base::sub_buffer;
    std::size_t at() const { return index; }
    std::u8string_view rest() const { return remainder; }
};

Highlight_Options any_options()
{
    const bool c = dv_bool();
    const bool s = dv_bool();
    return { .coalescing = c, .strict = s };
}

char memory_resource[64];

std::pmr::memory_resource* memory()
{
    return reinterpret_cast<std::pmr::memory_resource*>(memory_resource);
}

ulight_token* smem;
std::uint64_t scap;

// the inner tokens follow those emitted before, shifted
void inner(std::uint64_t before, const Tokens& b, std::uint64_t shift)
{
    total = before + b.n;
    if (before <= k && k < total) {
        expected = b.p[k - before];
        expected.begin += shift;
        dv_cover("inner token");
    }
    candidates(tmem, expected);
}

#define INNER_BUFFER                                                                               \
    scap = dv_u64();                                                                               \
    dv_assume(scap >= 1 && scap < limit);                                                          \
    smem = static_cast<ulight_token*>(dv_array(scap * sizeof(ulight_token), 8));

// puts arbitrary tokens into the inner buffer
Tokens fill(Non_Owning_Buffer<ulight_token>& sub, std::uint64_t before, std::uint64_t shift)
{
    const Tokens b = any_tokens(scap);
    for (std::uint64_t i = 0; i < 1; ++i) {
        const std::uint64_t j = k - before;
        if (before <= k && j < b.n) {
            const ulight_token t = b.p[j];
            dv_at(smem, j, sizeof(ulight_token), offsetof(ulight_token, begin), 8, t.begin);
            dv_at(smem, j, sizeof(ulight_token), offsetof(ulight_token, begin), 8, t.begin + shift);
            dv_at(smem, j, sizeof(ulight_token), offsetof(ulight_token, length), 8, t.length);
            dv_at(smem, j, sizeof(ulight_token), offsetof(ulight_token, type), 1, t.type);
        }
    }
    sub.append_range(std::span<const ulight_token> { b.p, b.n });
    inner(before, b, shift);
    return b;
}

} // namespace

// ---- flushing the inner buffer, in any state ---------------------------------------------------------------
extern "C" void dvh_flush()
{
    TOKEN_BUFFER
    INNER_BUFFER
    const std::u8string_view source = dv_text();
    const Highlight_Options options = any_options();
    Probe h { buffer, source, memory(), options };
    const std::size_t skip = dv_u64();
    dv_assume(skip <= source.size());
    h.advance(skip);
    Non_Owning_Buffer<ulight_token> sub = h.sub_buffer({ smem, scap });
    dv_assert(sub.empty() && sub.capacity() == scap, "the inner buffer is over the memory given");
    const Tokens b = fill(sub, a.n, skip);
    dv_assert(sub.size() == b.n && flushes == 0, "nothing is delivered before the inner buffer is full");
    sub.flush();
    dv_assert(sub.empty(), "the inner buffer is empty after a flush");
    dv_assert(h.at() == skip && h.rest().size() == source.size() - skip, "flushing does not advance");
    after(buffer);
}

// ---- consuming a piece of another language ----------------------------------------------------------------
namespace {

std::uint64_t entered;
ulight_lang want_lang;
const char8_t* want_source;
std::uint64_t want_length;
std::uint64_t want_before;
std::uint64_t want_shift;
Highlight_Options want_options;
std::uint8_t status_given;

} // namespace

#ifndef DV_NATIVE
extern "C" Status dvk_highlight_lang(
    Non_Owning_Buffer<Token>& out,
    std::u8string_view source,
    Lang lang,
    std::pmr::memory_resource* mem,
    const Highlight_Options& options
)
{
    ++entered;
    dv_assert(source.data() == want_source && source.size() == want_length, "exactly the piece is highlighted");
    dv_assert(lang == Lang(want_lang), "in its own language");
    dv_assert(options.coalescing == want_options.coalescing && options.strict == want_options.strict, "with the same options");
    dv_assert(mem == memory(), "with the memory resource of the highlighter");
    dv_assert(out.empty() && out.capacity() == scap, "into the whole inner buffer");
    const std::uint8_t s = dv_havoc_u8();
    dv_assume(s < 16);
    status_given = s;
    if (s == 0) {
        fill(out, want_before, want_shift);
    }
    return Status(s);
}
#endif

extern "C" void dvh_nested()
{
    TOKEN_BUFFER
    INNER_BUFFER
    const std::u8string_view source = dv_text();
    want_options = any_options();
    Probe h { buffer, source, memory(), want_options };
    const std::size_t skip = dv_u64();
    dv_assume(skip <= source.size());
    h.advance(skip);
    const std::size_t length = dv_u64();
    dv_assume(length <= source.size() - skip);
    const std::uint8_t lang = dv_u8();
    dv_assume(lang >= 1 && lang < ULIGHT_LANG_COUNT);
    entered = 0;
    want_lang = ulight_lang(lang);
    want_source = source.data() + skip;
    want_length = length;
    want_before = a.n;
    want_shift = skip;
    status_given = 0;
    const Status r = h.consume_nested_language(Lang(want_lang), length, { smem, scap });
#ifndef DV_NATIVE
    dv_assert(r == Status(status_given), "the status is passed on");
    if (status_given == 0) {
        dv_assert(entered == (length == 0 ? 0 : 1), "the piece is highlighted once");
        dv_assert(h.at() == skip + length, "continues behind the piece");
        dv_assert(h.rest().data() == source.data() + skip + length && h.rest().size() == source.size() - skip - length,
                  "with the text behind the piece");
        after(buffer);
    }
    else {
        dv_assert(h.at() == skip && h.rest().size() == source.size() - skip, "stays in front of the piece on failure");
    }
#else
    // the same, against what the piece gives by itself
    if (r == Status::ok) {
        dv_assert(h.at() == skip + length && h.rest().size() == source.size() - skip - length, "continues behind the piece");
        static std::vector<ulight_token> alone;
        alone.clear();
        ulight_token mem[1];
        Non_Owning_Buffer<Token> plain { mem, 1, nullptr, +[](const void*, ulight_token* p, std::size_t n) {
            alone.insert(alone.end(), p, p + n);
        } };
        (void) highlight(plain, source.substr(skip, length), Lang(want_lang), memory(), want_options);
        plain.flush();
        if (length == 0) {
            alone.clear();
        }
        total = a.n + alone.size();
        if (k >= a.n && k < total) {
            expected = alone[k - a.n];
            expected.begin += skip;
        }
        after(buffer);
    }
#endif
}

// ---- script and style in HTML: the bodies of elements whose names are spelt in any case -------------------------
namespace {

bool is_raw_text_name(std::u8string_view name, ulight_lang lang)
{
    return name == (lang == ULIGHT_LANG_CSS ? std::u8string_view { u8"style" } : u8"script");
}

std::u8string_view page;
std::uint64_t body_length;
bool body_seen;

} // namespace

#ifndef DV_NATIVE
extern "C" std::size_t dvk_match_raw_text(std::u8string_view str, std::u8string_view name)
{
    dv_assert(is_raw_text_name(name, want_lang), "the body ends at the end tag of the element");
    dv_assert(str.data() == page.data() + 8 - (want_lang == ULIGHT_LANG_CSS) && str.size() == page.size() - 8 + (want_lang == ULIGHT_LANG_CSS),
              "the body begins behind the start tag");
    body_seen = true;
    body_length = dv_havoc_u64();
    dv_assume(body_length >= 1 && body_length <= str.size());
    return body_length;
}

extern "C" Status dvk_html_nested(
    Non_Owning_Buffer<Token>&,
    std::u8string_view source,
    Lang lang,
    std::pmr::memory_resource* mem,
    const Highlight_Options& options
)
{
    dv_assert(body_seen, "the body is delimited");
    dv_assert(source.data() == page.data() + 8 - (want_lang == ULIGHT_LANG_CSS) && source.size() == body_length, "the body is highlighted");
    dv_assert(lang == Lang(want_lang), "script is JavaScript, style is CSS");
    dv_assert(options.coalescing == want_options.coalescing && options.strict == want_options.strict, "with the same options");
    dv_assert(mem == memory(), "with the memory resource given");
    dv_cover("body highlighted");
    dv_assume(false);
    return Status::ok;
}

extern "C" void dvh_html()
{
    cap = 16;
    static ulight_token ms[16];
    Non_Owning_Buffer<Token> out { ms, 16, nullptr, +[](const void*, ulight_token*, std::size_t) { } };
    page = dv_text();
    const bool style = dv_bool();
    const std::u8string_view tag = style ? std::u8string_view { u8"<style>" } : u8"<script>";
    dv_assume(page.size() > tag.size());
    for (std::size_t i = 0; i < tag.size(); ++i) {
        const char8_t c = page[i];
        dv_assume(c == tag[i] || (tag[i] >= 'a' && tag[i] <= 'z' && c == char8_t(tag[i] - 32)));
    }
    want_lang = style ? ULIGHT_LANG_CSS : ULIGHT_LANG_JAVASCRIPT;
    want_options = any_options();
    body_seen = false;
    (void) highlight_html(out, page, memory(), want_options);
    dv_assert(false, "the body is highlighted in its language");
}
#else
extern "C" void dvh_html()
{
    // compare the tokens inside of the element with those of its body alone
    static std::vector<ulight_token> got;
    static std::vector<ulight_token> alone;
    got.clear();
    alone.clear();
    const std::u8string_view body = dv_text();
    const bool style = dv_bool();
    const Highlight_Options options = any_options();
    dv_assume(body.find(u8'<') == std::u8string_view::npos);
    const std::u8string text = std::u8string(style ? u8"<STYLE>" : u8"<SCRIPT>") + std::u8string(body);
    const std::size_t n = text.size() - body.size();
    ulight_token mem[1];
    Non_Owning_Buffer<Token> out { mem, 1, nullptr, +[](const void*, ulight_token* p, std::size_t n) { got.insert(got.end(), p, p + n); } };
    (void) highlight_html(out, text, memory(), options);
    out.flush();
    ulight_token mem2[1];
    Non_Owning_Buffer<Token> plain { mem2, 1, nullptr, +[](const void*, ulight_token* p, std::size_t n) { alone.insert(alone.end(), p, p + n); } };
    (void) highlight(plain, body, style ? Lang::css : Lang::javascript, memory(), options);
    plain.flush();
    std::size_t i = 0;
    for (const ulight_token& t : got) {
        if (t.begin >= n) {
            dv_assert(i < alone.size() && t.begin == alone[i].begin + n && t.length == alone[i].length && t.type == alone[i].type, "inner token");
            ++i;
        }
    }
    dv_assert(i == alone.size(), "all inner tokens");
}
#endif
