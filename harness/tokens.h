// Token buffers over arbitrary memory, in an arbitrary state, with a monitor of what is delivered.
// With A the tokens emitted so far (those still in the buffer) and k an arbitrary position of the output,
// `expected` is element k of what the output should be.
#pragma once
#include "dv.h"
#include <string>
#include <vector>
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

#include "ulight/impl/buffer.hpp"

extern "C" {
void dv_seq(const void* mem, std::uint64_t k, std::uint64_t stride, std::uint64_t offset, std::uint64_t width, std::uint64_t value);
void dv_at(const void* mem, std::uint64_t k, std::uint64_t stride, std::uint64_t offset, std::uint64_t width, std::uint64_t value);
}

namespace {

using namespace ulight;

constexpr std::uint64_t limit = std::uint64_t(1) << 40;

ulight_token* tmem;
std::uint64_t cap;
std::uint64_t flushed;
std::uint64_t total;
std::uint64_t k;
std::uint64_t flushes;
ulight_token expected;
int context;

bool same(const ulight_token& x, const ulight_token& y)
{
    return (x.begin == y.begin) & (x.length == y.length) & (x.type == y.type);
}

void on_tokens(const void* data, ulight_token* p, std::size_t n)
{
    dv_assert(data == &context, "the flush data is passed on");
    dv_assert(p == tmem, "the caller's buffer is flushed");
    dv_assert(n >= 1 && n <= cap, "one to capacity tokens are flushed");
    if (flushed <= k && k < flushed + n) {
        dv_assert(same(p[k - flushed], expected), "flushed tokens are the expected ones");
    }
    flushed += n;
    ++flushes;
}

void after(const Non_Owning_Buffer<ulight_token>& b)
{
    dv_assert(flushed + b.size() == total, "no token is lost or added");
    dv_assert(b.size() <= cap, "size is at most capacity");
    if (flushed <= k && k < total) {
        dv_assert(same(tmem[k - flushed], expected), "tokens in the buffer are the expected ones");
    }
    dv_cover("end");
}

void candidates(const void* mem, const ulight_token& t)
{
    dv_seq(mem, k, sizeof(ulight_token), offsetof(ulight_token, begin), 8, t.begin);
    dv_seq(mem, k, sizeof(ulight_token), offsetof(ulight_token, length), 8, t.length);
    dv_seq(mem, k, sizeof(ulight_token), offsetof(ulight_token, type), 1, t.type);
}

struct Tokens {
    ulight_token* p;
    std::uint64_t n;
};

Tokens any_tokens(std::uint64_t max)
{
    const std::uint64_t n = dv_u64();
    dv_assume(n <= max);
    return { static_cast<ulight_token*>(dv_array(n * sizeof(ulight_token), 8)), n };
}

Tokens tstart(Non_Owning_Buffer<ulight_token>& buffer)
{
    const Tokens a = any_tokens(cap);
    k = dv_u64();
    total = a.n;
    expected = k < a.n ? a.p[k] : ulight_token {};
    candidates(tmem, expected);
    buffer.append_range(std::span<const ulight_token> { a.p, a.n });
    dv_assert(buffer.size() == a.n && flushes == 0, "no flush before the buffer is full");
    if (k < a.n) {
        dv_assert(same(tmem[k], expected), "tokens in the buffer are the appended ones");
    }
    return a;
}

} // namespace

#define TOKEN_BUFFER                                                                               \
    cap = dv_u64();                                                                                \
    dv_assume(cap >= 1 && cap < limit);                                                            \
    tmem = static_cast<ulight_token*>(dv_array(cap * sizeof(ulight_token), 8));                    \
    flushed = 0;                                                                                   \
    flushes = 0;                                                                                   \
    Non_Owning_Buffer<ulight_token> buffer { tmem, cap, &context, on_tokens };                     \
    const Tokens a = tstart(buffer);
