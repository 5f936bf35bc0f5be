// C17: coalescing.
#include "tokens.h"

#include "ulight/impl/highlight.hpp"
#include "ulight/impl/highlighter.hpp"

// the highlighter for C and C++ has an emit of its own
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory_resource>
#include <optional>
#include <ranges>
#include <span>
#include <string_view>
#include <vector>

#include "ulight/impl/ascii_algorithm.hpp"
#include "ulight/impl/assert.hpp"
#include "ulight/impl/escapes.hpp"
#include "ulight/impl/numbers.hpp"
#include "ulight/impl/unicode.hpp"
#define private public
#include "lang/cpp.cpp"
#undef private

namespace {

struct Probe : Highlighter_Base {
    using Highlighter_Base::Highlighter_Base;
    using Highlighter_Base::emit;
    using Highlighter_Base::emit_and_advance;
    using Highlighter_Base::advance;
    std::size_t at() const { return index; }
    std::u8string_view rest() const { return remainder; }
};

// what the output should be after emitting t: A with its last token extended, or A followed by t
void emitted(const Tokens& a, const ulight_token& t, bool coalesce)
{
    if (a.n != 0) {
        const ulight_token last = a.p[a.n - 1];
        if (coalesce && last.type == t.type && last.begin + last.length == t.begin) {
            dv_cover("merged");
            if (k == a.n - 1) {
                expected.length += t.length;
            }
            return;
        }
    }
    dv_cover("appended");
    total += 1;
    if (k == a.n) {
        expected = t;
    }
}

Highlight_Options any_options()
{
    const bool c = dv_bool();
    const bool s = dv_bool();
    return { .coalescing = c, .strict = s };
}

} // namespace

extern "C" void dvh_emit()
{
    TOKEN_BUFFER
    const std::u8string_view source = dv_text();
    const Highlight_Options options = any_options();
    Probe h { buffer, source, options };
    const ulight_token t { .begin = dv_u64(), .length = dv_u64(), .type = dv_u8() };
    dv_assume(t.length >= 1 && t.begin < source.size() && t.length <= source.size() - t.begin);
    const bool forced = dv_bool();
    emitted(a, t, options.coalescing || forced);
    h.emit(t.begin, t.length, Highlight_Type(t.type), forced ? Coalescing::forced : Coalescing::normal);
    dv_assert(h.at() == 0 && h.rest().size() == source.size(), "emitting does not advance");
    after(buffer);
}

// the default is not to coalesce unless the option asks for it
extern "C" void dvh_emit_default()
{
    TOKEN_BUFFER
    const std::u8string_view source = dv_text();
    const Highlight_Options options = any_options();
    Probe h { buffer, source, nullptr, options };
    const ulight_token t { .begin = dv_u64(), .length = dv_u64(), .type = dv_u8() };
    dv_assume(t.length >= 1 && t.begin < source.size() && t.length <= source.size() - t.begin);
    emitted(a, t, options.coalescing);
    h.emit(t.begin, t.length, Highlight_Type(t.type));
    after(buffer);
}

extern "C" void dvh_emit_and_advance()
{
    TOKEN_BUFFER
    const std::u8string_view source = dv_text();
    const Highlight_Options options = any_options();
    Probe h { buffer, source, options };
    const std::size_t skip = dv_u64();
    dv_assume(skip < source.size());
    h.advance(skip);
    dv_assert(h.at() == skip && h.rest().data() == source.data() + skip && h.rest().size() == source.size() - skip,
              "advancing skips that many code units");
    const std::size_t length = dv_u64();
    const std::uint8_t type = dv_u8();
    dv_assume(length >= 1 && length <= source.size() - skip);
    const bool forced = dv_bool();
    emitted(a, { .begin = skip, .length = length, .type = type }, options.coalescing || forced);
    h.emit_and_advance(length, Highlight_Type(type), forced ? Coalescing::forced : Coalescing::normal);
    dv_assert(h.at() == skip + length && h.rest().data() == source.data() + skip + length
                  && h.rest().size() == source.size() - skip - length,
              "and advances behind the token");
    after(buffer);
}

// ---- the flag reaches the highlighter, and everything emitted is delivered --------------------------------
namespace {

const ulight_state* state_given;
std::uint64_t entered;
Tokens emitted_tokens;

} // namespace

#ifndef DV_NATIVE
// stands for any highlighter: emits any tokens (that do not exceed the buffer: the rest is C04)
extern "C" bool dvk_highlight(
    Non_Owning_Buffer<Token>& out,
    std::u8string_view source,
    std::pmr::memory_resource*,
    const Highlight_Options& options
)
{
    ++entered;
    dv_assert(options.coalescing == ((state_given->flags & ULIGHT_COALESCE) != 0), "ULIGHT_COALESCE asks for coalescing");
    dv_assert(options.strict == ((state_given->flags & ULIGHT_STRICT) != 0), "ULIGHT_STRICT asks for strictness");
    dv_assert(
        reinterpret_cast<const char*>(source.data()) == state_given->source && source.size() == state_given->source_length,
        "the whole source is highlighted"
    );
    dv_assert(out.empty() && out.capacity() == state_given->token_buffer_length, "into the buffer of the caller");
    emitted_tokens = tstart(out);
    return dv_bool();
}
#endif

extern "C" void dvh_flags()
{
    cap = dv_u64();
    dv_assume(cap >= 1 && cap < limit);
    tmem = static_cast<ulight_token*>(dv_array(cap * sizeof(ulight_token), 8));
    flushed = 0;
    flushes = 0;
    entered = 0;
    ulight_state s;
    ulight_init(&s);
    const std::u8string_view source = dv_text();
    s.source = reinterpret_cast<const char*>(source.data());
    s.source_length = source.size();
    const std::uint32_t lang = dv_u32();
    dv_assume(lang >= 1 && lang < ULIGHT_LANG_COUNT);
    s.lang = ulight_lang(lang);
    s.flags = ulight_flag(dv_u8() & 3);
    s.token_buffer = tmem;
    s.token_buffer_length = cap;
    s.flush_tokens_data = &context;
    s.flush_tokens = on_tokens;
    state_given = &s;
    const ulight_status r = ulight_source_to_tokens(&s);
#ifndef DV_NATIVE
    dv_assert(entered == 1 || lang == ULIGHT_LANG_TXT, "one highlighter is entered");
    if (entered == 1) {
        dv_cover("highlighted");
        dv_assert(r == ULIGHT_STATUS_OK || r == ULIGHT_STATUS_BAD_CODE, "status");
        dv_assert(flushed == emitted_tokens.n, "everything emitted is delivered");
        dv_assert(flushes == (emitted_tokens.n == 0 ? 0 : 1), "once");
    }
#else
    dv_assert(r == ULIGHT_STATUS_OK, "status");
#endif
    dv_cover("end");
}

// ---- C and C++ -----------------------------------------------------------------------------------------
namespace {

template <typename H>
void cpp_emit(bool advance)
{
    TOKEN_BUFFER
    const std::u8string_view source = dv_text();
    const Highlight_Options options = any_options();
    const Lang lang = dv_bool() ? Lang::c : Lang::cpp;
    if constexpr (requires(H h) { h.emit(std::size_t {}, std::size_t {}, Highlight_Type {}); h.index = 0; }) {
        H h { buffer, source, lang, options };
        const ulight_token t { .begin = dv_u64(), .length = dv_u64(), .type = dv_u8() };
        dv_assume(t.length >= 1 && t.begin < source.size() && t.length <= source.size() - t.begin);
        emitted(a, t, options.coalescing);
        if constexpr (requires { h.emit_and_advance(std::size_t {}, Highlight_Type {}); }) {
            if (advance) {
                h.index = t.begin;
                h.emit_and_advance(t.length, Highlight_Type(t.type));
                dv_assert(h.index == t.begin + t.length, "advances behind the token");
                after(buffer);
                return;
            }
        }
        h.emit(t.begin, t.length, Highlight_Type(t.type));
        dv_assert(h.index == 0, "emitting does not advance");
        after(buffer);
    }
    else {
        dv_cover("merged");
        dv_cover("appended");
        dv_cover("end");
    }
}

} // namespace

extern "C" void dvh_cpp_emit()
{
    cpp_emit<cpp::Highlighter>(false);
}

extern "C" void dvh_cpp_emit_and_advance()
{
    cpp_emit<cpp::Highlighter>(true);
}

// ---- Lua: a fixed text (bounded), into a buffer in any state ---------------------------------------------
namespace {

ulight_token lua_tokens[64];
std::size_t lua_count;

void on_lua(const void*, ulight_token* p, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i) {
        lua_tokens[lua_count++] = p[i];
    }
}

} // namespace

extern "C" void dvh_lua()
{
    TOKEN_BUFFER
    const std::u8string_view source = u8"((";
    ulight_token mem[4];
    lua_count = 0;
    Non_Owning_Buffer<Token> plain { mem, 4, nullptr, on_lua };
    const bool ok = highlight_lua(plain, source, nullptr, { .coalescing = false, .strict = false });
    plain.flush();
    dv_assert(ok && lua_count >= 1, "tokens");
    // what is in the buffer, then these, merged
    ulight_token last = a.n ? a.p[a.n - 1] : ulight_token {};
    dv_assume(last.begin < limit && last.length < limit);
    std::uint64_t n = a.n;
    for (std::size_t i = 0; i < lua_count; ++i) {
        const ulight_token t = lua_tokens[i];
        if (n != 0 && last.type == t.type && last.begin + last.length == t.begin) {
            dv_cover("merged");
            last.length += t.length;
        }
        else {
            dv_cover("appended");
            last = t;
            ++n;
        }
        if (k == n - 1) {
            expected = last;
        }
    }
    total = n;
    highlight_lua(buffer, source, nullptr, { .coalescing = true, .strict = false });
    after(buffer);
}
