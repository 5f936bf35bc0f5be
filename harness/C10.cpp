// C10: rejection of invalid state.
#include "dv.h"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

extern "C" {
// symbolic only: how often a highlighter was entered, and what it returned last
std::uint64_t dv_highlight_calls();
bool dv_highlight_result();
}

namespace {

bool flushed = false;

void on_tokens(const void*, ulight_token*, std::size_t)
{
    flushed = true;
}
void on_text(const void*, char*, std::size_t)
{
    flushed = true;
}

ulight_token token_memory[4];
char text_memory[16];
char source_memory[4] = { 'a', ' ', 'b', ' ' };
char name_memory[4] = { 'n', 'a', 'm', 'e' };

// any value, also one without an enumerator
void set_lang(ulight_state& s, std::uint32_t v)
{
    static_assert(sizeof(s.lang) == 4);
    __builtin_memcpy(&s.lang, &v, 4);
}

std::size_t len(std::size_t max)
{
    const std::size_t n = dv_u64();
#ifdef DV_NATIVE
    return n <= max ? n : max;
#endif
    return n;
}

ulight_state any_state()
{
    flushed = false;
    ulight_state s;
    ulight_init(&s);
    s.source = dv_bool() ? nullptr : source_memory;
    s.source_length = len(4);
    set_lang(s, dv_u32());
    s.flags = ulight_flag(dv_u8() & 3);
    s.token_buffer = dv_bool() ? nullptr : token_memory;
    s.token_buffer_length = len(4);
    s.flush_tokens = dv_bool() ? nullptr : on_tokens;
    s.html_tag_name = dv_bool() ? nullptr : name_memory;
    s.html_tag_name_length = len(4);
    s.html_attr_name = dv_bool() ? nullptr : name_memory;
    s.html_attr_name_length = len(4);
    s.text_buffer = dv_bool() ? nullptr : text_memory;
    s.text_buffer_length = len(16);
    s.flush_text = dv_bool() ? nullptr : on_text;
    return s;
}

bool valid_lang(std::uint32_t l)
{
    bool r = false;
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
        r |= std::uint32_t(ulight_lang_list[i].lang) == l;
    }
    return r;
}

std::uint32_t lang_value(const ulight_state& s)
{
    std::uint32_t l;
    __builtin_memcpy(&l, &s.lang, 4);
    return l;
}

#ifndef DV_NATIVE
void accepted(ulight_status r)
{
    // plain text has no highlighter
    const std::uint64_t n = dv_highlight_calls();
    dv_assert(n <= 1, "accepted state is highlighted once");
    if (n == 1) {
        dv_cover("highlighted");
        dv_assert(r == (dv_highlight_result() ? ULIGHT_STATUS_OK : ULIGHT_STATUS_BAD_CODE), "the highlighter's status");
    }
    else {
        dv_assert(r == ULIGHT_STATUS_OK, "plain text is accepted");
    }
}
#endif

} // namespace

extern "C" void dvh_tokens()
{
    ulight_state s = any_state();
    const bool bad_source = s.source == nullptr && s.source_length != 0;
    const bool bad_buffer = s.token_buffer == nullptr || s.token_buffer_length == 0 || s.flush_tokens == nullptr;
    const bool bad_lang = !valid_lang(lang_value(s));
    const ulight_status r = ulight_source_to_tokens(&s);
    if (bad_source || bad_buffer || bad_lang) {
        dv_cover("rejected");
        dv_assert(
            (bad_source && r == ULIGHT_STATUS_BAD_STATE) || (bad_buffer && r == ULIGHT_STATUS_BAD_BUFFER)
                || (bad_lang && r == ULIGHT_STATUS_BAD_LANG),
            "the documented error status"
        );
        dv_assert(s.error != nullptr && s.error_length != 0, "an error text");
        dv_assert(!flushed, "no callback before rejection");
#ifndef DV_NATIVE
        dv_assert(dv_highlight_calls() == 0, "no highlighting of rejected state");
#endif
    }
    else {
        dv_cover("accepted");
#ifndef DV_NATIVE
        accepted(r);
#else
        dv_assert(
            r != ULIGHT_STATUS_BAD_STATE && r != ULIGHT_STATUS_BAD_BUFFER && r != ULIGHT_STATUS_BAD_LANG,
            "accepted state is highlighted"
        );
#endif
    }
}

extern "C" void dvh_html()
{
    ulight_state s = any_state();
    const bool bad_source = s.source == nullptr && s.source_length != 0;
    const bool bad_names = s.html_tag_name == nullptr || s.html_tag_name_length == 0 || s.html_attr_name == nullptr
        || s.html_attr_name_length == 0;
    // flush_tokens is set by the call itself
    const bool bad_buffer = s.token_buffer == nullptr || s.token_buffer_length == 0 || s.text_buffer == nullptr
        || s.text_buffer_length == 0 || s.flush_text == nullptr;
    const bool bad_lang = !valid_lang(lang_value(s));
    dv_assume(bad_source || bad_names || bad_buffer || bad_lang);
    const ulight_status r = ulight_source_to_html(&s);
    dv_cover("rejected");
    dv_assert(
        ((bad_source || bad_names) && r == ULIGHT_STATUS_BAD_STATE) || (bad_buffer && r == ULIGHT_STATUS_BAD_BUFFER)
            || (bad_lang && r == ULIGHT_STATUS_BAD_LANG),
        "the documented error status"
    );
    dv_assert(s.error != nullptr && s.error_length != 0, "an error text");
    dv_assert(!flushed, "no callback before rejection");
#ifndef DV_NATIVE
    dv_assert(dv_highlight_calls() == 0, "no highlighting of rejected state");
#endif
}

// valid state with an empty source: the html call proceeds
extern "C" void dvh_html_accepted()
{
    ulight_state s = any_state();
    s.source_length = 0;
    const bool bad_names = s.html_tag_name == nullptr || s.html_tag_name_length == 0 || s.html_attr_name == nullptr
        || s.html_attr_name_length == 0;
    const bool bad_buffer = s.token_buffer == nullptr || s.token_buffer_length == 0 || s.text_buffer == nullptr
        || s.text_buffer_length == 0 || s.flush_text == nullptr;
    dv_assume(!bad_names && !bad_buffer && valid_lang(lang_value(s)));
    const ulight_status r = ulight_source_to_html(&s);
    dv_cover("accepted");
#ifndef DV_NATIVE
    accepted(r);
#else
    dv_assert(r == ULIGHT_STATUS_OK, "accepted state is highlighted");
#endif
}

// a new state is rejected until its buffers are set, whatever they are
extern "C" void dvh_init()
{
    ulight_state s;
    dv_assert(ulight_init(&s) == &s, "ulight_init returns its argument");
    dv_assert(s.html_tag_name_length != 0 && s.html_tag_name != nullptr, "default tag name");
    dv_assert(s.html_attr_name_length != 0 && s.html_attr_name != nullptr, "default attribute name");
    dv_assert(ulight_source_to_tokens(&s) == ULIGHT_STATUS_BAD_BUFFER, "a new state has no token buffer");
    dv_assert(s.error_length != 0, "an error text");
    ulight_init(&s);
    dv_assert(s.error == nullptr && s.error_length == 0, "ulight_init clears the error");
    dv_assert(ulight_source_to_html(&s) == ULIGHT_STATUS_BAD_BUFFER, "a new state has no text buffer");
    dv_cover("end");
}
