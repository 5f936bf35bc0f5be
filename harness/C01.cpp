// C01 - C03: highlighting.
#include "dv.h"
#include <string>
#include <vector>
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

#define protected public
#define private public
#include "ulight/impl/buffer.hpp"
#include "ulight/impl/highlight.hpp"
#include "ulight/impl/highlighter.hpp"
#undef private
#undef protected

using namespace ulight;

namespace {

constexpr std::uint64_t limit = std::uint64_t(1) << 40;
std::uint64_t last_end; // end of the last token
std::uint64_t source_size;

Highlight_Options any_options()
{
    const bool c = dv_bool();
    const bool s = dv_bool();
    return { .coalescing = c, .strict = s };
}

} // namespace

// emitting: the token has to be well-formed and behind all others
extern "C" void dvk_emit(Highlighter_Base*, std::size_t begin, std::size_t length, Highlight_Type, Coalescing)
{
    dv_assert(length != 0, "tokens are not empty");
    dv_assert(begin < source_size, "tokens begin in the source");
    dv_assert(length <= source_size - begin, "tokens end in the source");
    dv_assert(begin >= last_end, "tokens are in order and disjoint");
    last_end = begin + length;
}

// the last token in the buffer: everything before is not looked at by highlighters
extern "C" Token* dvk_emplace(Non_Owning_Buffer<Token>* self, const std::size_t& begin, const std::size_t& length, const std::uint8_t& type)
{
    dv_assert(length != 0, "tokens are not empty");
    dv_assert(begin < source_size, "tokens begin in the source");
    dv_assert(length <= source_size - begin, "tokens end in the source");
    if (self->m_size != 0) {
        const Token& back = self->m_buffer[0];
        dv_assert(back.begin + back.length <= begin, "tokens are in order and disjoint");
    }
    self->m_buffer[0].begin = begin;
    self->m_buffer[0].length = length;
    self->m_buffer[0].type = type;
    self->m_size = 1;
    return self->m_buffer;
}

// embedded code, which is shorter, is highlighted successfully; its tokens lie inside it
extern "C" Status dvk_nested(Highlighter_Base* self, Lang lang, std::size_t length, Token*, std::size_t)
{
    dv_assert(lang == Lang::css || lang == Lang::javascript, "the embedded language is supported");
    dv_assert(length <= self->remainder.length(), "embedded code is in the source");
    if (length == 0) {
        return Status::ok;
    }
    dv_assert(self->index >= last_end, "tokens are in order and disjoint");
    const std::uint64_t end = dv_u64();
    dv_assume(end >= last_end && end <= self->index + length);
    last_end = end;
    self->index += length;
    self->remainder.remove_prefix(length);
    return Status::ok;
}

namespace {
void on_flush(const void*, Token*, std::size_t) { }
}

#define LANG(name)                                                                                 \
    extern "C" void dvh_##name()                                                                   \
    {                                                                                              \
        const std::u8string_view source = dv_text();                                               \
        const Highlight_Options options = any_options();                                           \
        last_end = 0;                                                                              \
        source_size = source.size();                                                               \
        ulight_token tokens[1] {};                                                                 \
        Non_Owning_Buffer<Token> out { tokens, 1, nullptr, on_flush };                              \
        dv_assert(highlight_##name(out, source, nullptr, options), "highlighting succeeds");       \
        if (!out.empty()) {                                                                        \
            dv_assert(tokens[0].begin + tokens[0].length <= source.size(), "tokens end in the source"); \
        }                                                                                          \
        dv_cover("end");                                                                           \
    }

LANG(bash)
LANG(c)
LANG(cowel)
LANG(cpp)
LANG(css)
LANG(diff)
LANG(ebnf)
LANG(html)
LANG(java)
LANG(javascript)
LANG(json)
LANG(jsonc)
LANG(kotlin)
LANG(llvm)
LANG(lua)
LANG(markdown)
LANG(nasm)
LANG(python)
LANG(rust)
LANG(tex)
LANG(typescript)
LANG(xml)
LANG(yaml)
