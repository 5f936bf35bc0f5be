// C04: buffered output.
//
// A buffer of arbitrary capacity over arbitrary memory is brought into an arbitrary state (0 to capacity elements
// of arbitrary text A), then one operation appends B. With k an arbitrary position of the output A ++ B:
// whatever is flushed or stays in the buffer at position k is element k of A ++ B. As A, the fill and k are
// arbitrary, every history follows by induction over its operations.
#include "dv.h"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

#include "ulight/impl/buffer.hpp"

using namespace ulight;

extern "C" {
// mem holds, at stride * (k - first) + offset, the given value: where k is between `first` and `first + n`
// of the elements in mem (a candidate for loop invariants, nothing is assumed)
void dv_seq(const void* mem, std::uint64_t k, std::uint64_t stride, std::uint64_t offset, std::uint64_t width, std::uint64_t value);
}

namespace {

constexpr std::uint64_t limit = std::uint64_t(1) << 40;

// ---- characters ------------------------------------------------------------------------------------------
char* mem;
std::uint64_t cap;
std::uint64_t flushed; // number of elements flushed so far
std::uint64_t total;   // number of elements appended at the end of the operation
std::uint64_t k;       // arbitrary position
char expected;         // element k of A ++ B
std::uint64_t flushes;
int context;

void on_flush(const void* data, char* p, std::size_t n)
{
    dv_assert(data == &context, "the flush data is passed on");
    dv_assert(p == mem, "the caller's buffer is flushed");
    dv_assert(n >= 1, "at least one element is flushed");
    dv_assert(n <= cap, "at most capacity elements are flushed");
    if (flushed <= k && k < flushed + n) {
        dv_assert(p[k - flushed] == expected, "flushed elements are the appended ones");
    }
    flushed += n;
    ++flushes;
}

void after(const Non_Owning_Buffer<char>& b, std::uint64_t added)
{
    dv_assert(flushed + b.size() == total, "nothing is lost or added");
    dv_assert(b.size() <= cap, "size is at most capacity");
    dv_assert(b.capacity() == cap, "the capacity stays");
    dv_assert(b.available() == cap - b.size(), "available elements");
    dv_assert(b.full() == (b.size() == cap), "full");
    dv_assert(b.empty() == (b.size() == 0), "empty");
    dv_assert(added == 0 || b.size() >= 1, "the newest element stays in the buffer");
    if (flushed <= k && k < total) {
        dv_assert(mem[k - flushed] == expected, "elements in the buffer are the appended ones");
    }
    dv_cover("end");
}

struct Setup {
    std::u8string_view a, b;
};

std::u8string_view start(Non_Owning_Buffer<char>& buffer)
{
    const std::u8string_view a = dv_text();
    dv_assume(a.size() <= cap);
    k = dv_u64();
    total = a.size();
    expected = k < a.size() ? char(a[k]) : char(0);
    dv_seq(mem, k, 1, 0, 1, std::uint8_t(expected));
    const char* const p = reinterpret_cast<const char*>(a.data());
    buffer.append(p, p + a.size());
    dv_assert(buffer.size() == a.size() && flushes == 0, "no flush before the buffer is full");
    if (k < a.size()) {
        dv_assert(mem[k] == expected, "elements in the buffer are the appended ones");
    }
    return a;
}

#define CHAR_BUFFER                                                                                \
    cap = dv_u64();                                                                                \
    dv_assume(cap >= 1 && cap < limit);                                                            \
    mem = static_cast<char*>(dv_array(cap, 1));                                                    \
    flushed = 0;                                                                                   \
    flushes = 0;                                                                                   \
    Non_Owning_Buffer<char> buffer { mem, cap, &context, on_flush };                               \
    dv_assert(buffer.empty() && buffer.capacity() == cap, "a new buffer is empty");                \
    const std::u8string_view a = start(buffer);

#define ONE_MORE                                                                                   \
    const char c = char(dv_u8());                                                                  \
    total += 1;                                                                                    \
    if (k == a.size()) {                                                                           \
        expected = c;                                                                              \
    }

std::u8string_view more(std::u8string_view a)
{
    const std::u8string_view b = dv_text();
    total += b.size();
    if (k >= a.size() && k < total) {
        expected = char(b[k - a.size()]);
    }
    dv_seq(mem, k, 1, 0, 1, std::uint8_t(expected));
    return b;
}

// single pass
struct Input {
    using value_type = char;
    using difference_type = std::ptrdiff_t;
    const char* p;
    char operator*() const { return *p; }
    Input& operator++()
    {
        ++p;
        return *this;
    }
    void operator++(int) { ++p; }
    bool operator==(const Input& o) const { return p == o.p; }
};

} // namespace

extern "C" void dvh_push_const()
{
    CHAR_BUFFER
    ONE_MORE
    char& r = buffer.push_back(static_cast<const char&>(c));
    dv_assert(r == c && &r == &buffer.back(), "the result is the new element");
    after(buffer, 1);
}

extern "C" void dvh_push_move()
{
    CHAR_BUFFER
    ONE_MORE
    char x = c;
    char& r = buffer.push_back(static_cast<char&&>(x));
    dv_assert(r == c && &r == &buffer.back(), "the result is the new element");
    after(buffer, 1);
}

extern "C" void dvh_emplace()
{
    CHAR_BUFFER
    ONE_MORE
    char& r = buffer.emplace_back(c);
    dv_assert(r == c && &r == &buffer.back(), "the result is the new element");
    after(buffer, 1);
}

extern "C" void dvh_append()
{
    CHAR_BUFFER
    const std::u8string_view b = more(a);
    const char* const p = reinterpret_cast<const char*>(b.data());
    buffer.append(p, p + b.size());
    after(buffer, b.size());
}

extern "C" void dvh_append_range()
{
    CHAR_BUFFER
    const std::u8string_view b = more(a);
    buffer.append_range(std::string_view { reinterpret_cast<const char*>(b.data()), b.size() });
    after(buffer, b.size());
}

extern "C" void dvh_append_range_u8()
{
    CHAR_BUFFER
    const std::u8string_view b = more(a);
    buffer.append_range(b);
    after(buffer, b.size());
}

extern "C" void dvh_append_input()
{
    CHAR_BUFFER
    const std::u8string_view b = more(a);
    const char* const p = reinterpret_cast<const char*>(b.data());
    buffer.append(Input { p }, Input { p + b.size() });
    after(buffer, b.size());
}

// elements that are converted
extern "C" void dvh_append_converted()
{
    CHAR_BUFFER
    const std::uint64_t n = dv_u64();
    dv_assume(n <= limit);
    const std::uint16_t* const w = static_cast<const std::uint16_t*>(dv_array(2 * n, 2));
    total += n;
    if (k >= a.size() && k < total) {
        expected = char(w[k - a.size()]);
    }
    dv_seq(mem, k, 1, 0, 1, std::uint8_t(expected));
    dv_seq(w, k - a.size(), 2, 0, 1, std::uint8_t(expected));
    buffer.append(w, w + n);
    after(buffer, n);
}

extern "C" void dvh_flush()
{
    CHAR_BUFFER
    buffer.flush();
    dv_assert(buffer.empty(), "nothing is left after a flush");
    dv_assert(flushes == (a.empty() ? 0 : 1), "a flush of nothing does not call back");
    after(buffer, 0);
    buffer.flush();
    dv_assert(flushes == (a.empty() ? 0 : 1), "a flush of nothing does not call back");
    // and the buffer is usable afterwards
    ONE_MORE
    buffer.push_back(c);
    dv_assert(buffer.size() == 1, "the buffer is usable after a flush");
    after(buffer, 1);
}

extern "C" void dvh_clear()
{
    CHAR_BUFFER
    buffer.clear();
    dv_assert(buffer.empty() && buffer.available() == cap, "clear empties the buffer");
    dv_assert(flushes == 0, "clear does not flush");
    dv_cover("end");
}

// the constructor from a span and a function reference
extern "C" void dvh_span()
{
    cap = dv_u64();
    dv_assume(cap >= 1 && cap < limit);
    mem = static_cast<char*>(dv_array(cap, 1));
    flushed = 0;
    flushes = 0;
    std::uint64_t calls = 0;
    const auto f = [&](char* p, std::size_t n) {
        ++calls;
        on_flush(&context, p, n);
    };
    Non_Owning_Buffer<char> buffer { std::span<char> { mem, cap }, f };
    const std::u8string_view a = start(buffer);
    ONE_MORE
    buffer.push_back(c);
    after(buffer, 1);
    buffer.flush();
    dv_assert(flushed == total && calls == flushes, "everything is flushed");
}

// ---- tokens ------------------------------------------------------------------------------------------------
namespace {

ulight_token* tmem;
ulight_token texpected;

bool same(const ulight_token& x, const ulight_token& y)
{
    return (x.begin == y.begin) & (x.length == y.length) & (x.type == y.type);
}

void on_tokens(const void* data, ulight_token* p, std::size_t n)
{
    dv_assert(data == &context, "the flush data is passed on");
    dv_assert(p == tmem, "the caller's buffer is flushed");
    dv_assert(n >= 1, "at least one element is flushed");
    dv_assert(n <= cap, "at most capacity elements are flushed");
    if (flushed <= k && k < flushed + n) {
        dv_assert(same(p[k - flushed], texpected), "flushed elements are the appended ones");
    }
    flushed += n;
    ++flushes;
}

void tafter(const Non_Owning_Buffer<ulight_token>& b, std::uint64_t added)
{
    dv_assert(flushed + b.size() == total, "nothing is lost or added");
    dv_assert(b.size() <= cap, "size is at most capacity");
    dv_assert(added == 0 || b.size() >= 1, "the newest element stays in the buffer");
    if (flushed <= k && k < total) {
        dv_assert(same(tmem[k - flushed], texpected), "elements in the buffer are the appended ones");
    }
    dv_cover("end");
}

void candidates()
{
    dv_seq(tmem, k, sizeof(ulight_token), offsetof(ulight_token, begin), 8, texpected.begin);
    dv_seq(tmem, k, sizeof(ulight_token), offsetof(ulight_token, length), 8, texpected.length);
    dv_seq(tmem, k, sizeof(ulight_token), offsetof(ulight_token, type), 1, texpected.type);
}

struct Tokens {
    ulight_token* p;
    std::uint64_t n;
};

Tokens any_tokens(std::uint64_t max)
{
    const std::uint64_t n = dv_u64();
    dv_assume(n <= max);
    return { static_cast<ulight_token*>(dv_array(n * sizeof(ulight_token), 8)), n };
}

Tokens tstart(Non_Owning_Buffer<ulight_token>& buffer)
{
    const Tokens a = any_tokens(cap);
    k = dv_u64();
    total = a.n;
    texpected = k < a.n ? a.p[k] : ulight_token {};
    candidates();
    buffer.append_range(std::span<const ulight_token> { a.p, a.n });
    dv_assert(buffer.size() == a.n && flushes == 0, "no flush before the buffer is full");
    if (k < a.n) {
        dv_assert(same(tmem[k], texpected), "elements in the buffer are the appended ones");
    }
    return a;
}

#define TOKEN_BUFFER                                                                               \
    cap = dv_u64();                                                                                \
    dv_assume(cap >= 1 && cap < limit);                                                            \
    tmem = static_cast<ulight_token*>(dv_array(cap * sizeof(ulight_token), 8));                    \
    flushed = 0;                                                                                   \
    flushes = 0;                                                                                   \
    Non_Owning_Buffer<ulight_token> buffer { tmem, cap, &context, on_tokens };                     \
    const Tokens a = tstart(buffer);

#define TOKEN_MORE                                                                                 \
    const ulight_token t { .begin = dv_u64(), .length = dv_u64(), .type = dv_u8() };               \
    total += 1;                                                                                    \
    if (k == a.n) {                                                                                \
        texpected = t;                                                                             \
    }

} // namespace

extern "C" void dvh_token_push()
{
    TOKEN_BUFFER
    TOKEN_MORE
    ulight_token& r = buffer.push_back(t);
    dv_assert(same(r, t) && &r == &buffer.back(), "the result is the new element");
    tafter(buffer, 1);
}

extern "C" void dvh_token_emplace()
{
    TOKEN_BUFFER
    TOKEN_MORE
    ulight_token& r = buffer.emplace_back(t.begin, t.length, t.type);
    dv_assert(same(r, t) && &r == &buffer.back(), "the result is the new element");
    tafter(buffer, 1);
}

extern "C" void dvh_token_append()
{
    TOKEN_BUFFER
    const Tokens b = any_tokens(limit);
    total += b.n;
    if (k >= a.n && k < total) {
        texpected = b.p[k - a.n];
    }
    candidates();
    buffer.append_range(std::span<const ulight_token> { b.p, b.n });
    tafter(buffer, b.n);
}

extern "C" void dvh_token_flush()
{
    TOKEN_BUFFER
    buffer.flush();
    dv_assert(buffer.empty(), "nothing is left after a flush");
    dv_assert(flushes == (a.n == 0 ? 0 : 1), "a flush of nothing does not call back");
    tafter(buffer, 0);
}
