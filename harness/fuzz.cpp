// Bounded stand-in for the languages (or obligations) the verifier does not reach: judges the real
// highlighters on concrete inputs.  DVF_PROP selects the property that is judged, DVF_LANG the language.
#include "ulight/ulight.h"
#include "ulight/impl/assert.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string_view>
#include <vector>

namespace {

int prop, lang;

[[noreturn]] void report(const char* what)
{
    std::fprintf(stderr, "DVF C%02d lang %d: %s\n", prop, lang, what);
    std::fflush(stderr);
    std::abort();
}

void on_assert(const ulight::Assertion_Error& e)
{
    const bool emit = std::strstr(e.location.function_name(), "emit") != nullptr
        && std::strstr(e.location.file_name(), "highlighter.hpp") != nullptr;
    if (prop == 2 || (prop == 1 && emit)) {
        char text[400];
        std::snprintf(text, sizeof text, "assertion %.*s at %s:%u", int(e.message.size() < 200 ? e.message.size() : 200),
            reinterpret_cast<const char*>(e.message.data()), e.location.file_name(), unsigned(e.location.line()));
        report(text);
    }
    throw e;
}

struct Context {
    std::size_t size, previous_end, count;
};

void on_flush(const void* data, ulight_token* tokens, std::size_t n)
{
    Context& c = *static_cast<Context*>(const_cast<void*>(data));
    c.count += n;
    if (prop != 1) {
        return;
    }
    for (std::size_t i = 0; i < n; ++i) {
        const ulight_token& t = tokens[i];
        if (t.length == 0) {
            report("empty token");
        }
        if (t.begin > c.size || t.length > c.size - t.begin) {
            report("token outside of the source");
        }
        if (t.begin < c.previous_end) {
            report("tokens overlap or are out of order");
        }
        c.previous_end = t.begin + t.length;
    }
}

void run(int flags, const char* s, std::size_t n, std::size_t capacity)
{
    Context c { n, 0, 0 };
    ulight_state st;
    ulight_init(&st);
    st.source = s;
    st.source_length = n;
    st.lang = ulight_lang(lang);
    st.flags = ulight_flag(flags);
    std::vector<ulight_token> buffer(capacity);
    st.token_buffer = buffer.data();
    st.token_buffer_length = capacity;
    st.flush_tokens_data = &c;
    st.flush_tokens = on_flush;
    const ulight_status r = ulight_source_to_tokens(&st);
    if (r != ULIGHT_STATUS_OK && prop == 2) {
        char text[400];
        std::snprintf(text, sizeof text, "status %d: %.*s", int(r), int(st.error_length), st.error);
        report(text);
    }
}

} // namespace

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n)
{
    if (lang == 0) {
        prop = std::atoi(std::getenv("DVF_PROP"));
        lang = std::atoi(std::getenv("DVF_LANG"));
        ulight::assertion_handler = on_assert;
    }
    if (n == 0) {
        return 0;
    }
    char* const copy = static_cast<char*>(std::malloc(n - 1));
    std::memcpy(copy, d + 1, n - 1);
    run(d[0] & 3, copy, n - 1, d[0] & 4 ? 1 : 64);
    std::free(copy);
    return 0;
}
