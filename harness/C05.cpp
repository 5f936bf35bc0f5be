// C05: HTML output.
// Whatever is appended to the output goes through the monitor below, which accepts exactly the escaped
// source with the tokens wrapped in elements.  (C04: what is appended is what is delivered.)
#include "dv.h"
#include <string>
#include <vector>
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"

#include "ulight/impl/buffer.hpp"

using namespace ulight;

extern "C" {
// whether both point into the same object
bool dv_same_object(const void*, const void*);
// the tokens of one flush: non-empty, in order, disjoint, inside of the source and not before `from`
ulight_token* dv_tokens(std::uint64_t n, std::uint64_t from, std::uint64_t end);
}

#ifndef DV_NATIVE
namespace {

constexpr std::uint64_t limit = std::uint64_t(1) << 40;

std::string_view source;
std::string_view tag;
std::string_view attr;
std::string_view id;
std::uint64_t id_type;

std::uint64_t w; // an arbitrary position of the source

// monitor
std::uint64_t phase; // 0: between tokens, 1: in a start tag, 2: in an element, 3: in an end tag
std::uint64_t segment;
std::uint64_t offset; // in that segment
std::uint64_t entity; // characters of an entity seen
char entity_of;
std::uint64_t pos; // in the source
std::uint64_t from; // position at the begin of this flush
ulight_token* T;
std::uint64_t j; // tokens of this flush seen
std::uint64_t amount;
bool finished;
bool is_flushed;

bool special(char c) { return (c == '<') | (c == '>') | (c == '&'); }

std::uint64_t text_end()
{
    if (phase == 2) {
        return T[j].begin + T[j].length;
    }
    return j < amount ? T[j].begin : finished ? source.size() : pos;
}

std::string_view start_segment()
{
    switch (segment) {
    case 0: return "<";
    case 1: return tag;
    case 2: return " ";
    case 3: return attr;
    case 4: return "=";
    case 5: return id;
    default: return ">";
    }
}

std::string_view end_segment()
{
    switch (segment) {
    case 0: return "</";
    case 1: return tag;
    default: return ">";
    }
}

std::string_view entity_text(char c)
{
    if (c == '<') {
        return "&lt;";
    }
    if (c == '>') {
        return "&gt;";
    }
    return "&amp;";
}

// the segment that is due, if any
std::string_view due()
{
    if (phase != 1 && phase != 3) {
        return {};
    }
    if (phase == 3) {
        return end_segment();
    }
    std::string_view s = start_segment();
    if (segment == 5) {
        dv_assert(id_type == T[j].type, "the id is that of the token");
        if (id.empty()) {
            ++segment;
            s = start_segment();
        }
    }
    return s;
}

void advance_segment(std::uint64_t n, std::uint64_t length)
{
    offset += n;
    if (offset == length) {
        offset = 0;
        ++segment;
        if (phase == 1 && segment == 7) {
            phase = 2;
            segment = 0;
            dv_cover("start tag");
        }
        else if (phase == 3 && segment == 3) {
            phase = 0;
            segment = 0;
            ++j;
            dv_cover("end tag");
        }
    }
}

void feed(char c)
{
    is_flushed = false;
    if (phase == 1 || phase == 3) {
        const std::string_view s = due();
        dv_assert(c == s[offset], "tags are spelt as configured");
        advance_segment(1, s.size());
        return;
    }
    if (entity != 0) {
        const std::string_view e = entity_text(entity_of);
        dv_assert(c == e[entity], "entities are spelt right");
        if (++entity == e.size()) {
            entity = 0;
            ++pos;
            dv_cover("entity");
        }
        return;
    }
    if (c == '<') {
        if (phase == 0) {
            dv_assert(j < amount && pos == T[j].begin, "an element begins where a token does");
            phase = 1;
            segment = 1;
        }
        else {
            dv_assert(pos == T[j].begin + T[j].length, "an element ends where the token does");
            phase = 3;
            segment = 0;
            offset = 1;
        }
        return;
    }
    dv_assert(pos < text_end(), "no text outside of the source or on the other side of a tag");
    if (c == '&') {
        dv_assert(special(source[pos]), "entities stand for the characters that need one");
        entity = 1;
        entity_of = source[pos];
        return;
    }
    dv_assert(c == source[pos] && !special(c), "the text is that of the source");
    ++pos;
}

void feed_range(const char* p, std::uint64_t n)
{
    if (n == 0) {
        return;
    }
    if (dv_same_object(p, source.data())) {
        is_flushed = false;
        dv_assert((phase == 0 || phase == 2) && entity == 0, "source text is not written into tags or entities");
        dv_assert(std::uint64_t(p - source.data()) == pos, "the source is written in order");
        const std::uint64_t e = text_end();
        dv_assert(pos <= e && n <= e - pos, "no text on the other side of a tag");
        if (pos <= w && w - pos < n) {
            dv_assert(!special(source[w]), "special characters are escaped");
        }
        pos += n;
        dv_cover("text");
        return;
    }
    if (dv_same_object(p, tag.data()) || dv_same_object(p, attr.data()) || dv_same_object(p, id.data())) {
        is_flushed = false;
        dv_assert(phase == 1 || phase == 3, "names are written in tags only");
        const std::string_view s = due();
        dv_assert(dv_same_object(p, s.data()), "the parts of a tag are in order");
        dv_assert(p == s.data() + offset && n <= s.size() - offset, "the parts of a tag are complete");
        advance_segment(n, s.size());
        return;
    }
    for (std::uint64_t i = 0; i < n; ++i) {
        feed(p[i]);
    }
}

} // namespace

// ---- contracts ------------------------------------------------------------------------------------------
extern "C" void dvk_append(Non_Owning_Buffer<char>&, const char* b, const char* e) { feed_range(b, std::uint64_t(e - b)); }

char pushed;
extern "C" char& dvk_push(Non_Owning_Buffer<char>&, const char& c)
{
    feed(c);
    return pushed;
}

extern "C" void dvk_flush(Non_Owning_Buffer<char>&) { is_flushed = true; }

extern "C" std::string_view dvk_short_string(Highlight_Type t)
{
    id_type = std::uint64_t(t);
    return id;
}

extern "C" ulight_string_view dvk_short_string_c(ulight_highlight_type t)
{
    id_type = std::uint64_t(t);
    return { id.data(), id.size() };
}

extern "C" std::size_t dvk_find_first_of(const std::string_view* self, const char* s, std::size_t at, std::size_t n)
{
    const std::string_view v = *self;
    const std::size_t r = dv_havoc_u64();
    const bool found = r < v.size();
    dv_assume(r == std::string_view::npos || (found && r >= at));
    if (found) {
        const char c = v[r];
        bool in = false;
        for (std::size_t i = 0; i < n; ++i) {
            in |= c == s[i];
        }
        dv_assume(in);
    }
    // everything before is not in the set: in particular w
    if (dv_same_object(v.data(), source.data())) {
        const std::uint64_t base = v.data() - source.data();
        if (base + at <= w && w - base < (found ? r : v.size())) {
            const char c = source[w];
            bool in = false;
            for (std::size_t i = 0; i < n; ++i) {
                in |= c == s[i];
            }
            dv_assume(!in);
        }
    }
    return r;
}

ulight_status status_given;

extern "C" ulight_status dvk_source_to_tokens(ulight_state* state)
{
    dv_assert(state->source == source.data() && state->source_length == source.size(), "the source is not changed");
    dv_assert(phase == 0 && pos == 0, "nothing is written before the tokens");
    while (dv_havoc_u8() & 1) {
        amount = dv_havoc_u64();
        dv_assume(amount >= 1 && amount < limit);
        from = pos;
        T = dv_tokens(amount, pos, source.size());
        j = 0;
        state->flush_tokens(state->flush_tokens_data, T, amount);
        dv_assert(j == amount && phase == 0 && entity == 0, "all tokens of a flush are written");
        dv_cover("tokens");
        amount = 0;
        j = 0;
    }
    const std::uint8_t s = dv_havoc_u8();
    dv_assume(s < 16);
    status_given = ulight_status(s);
    finished = true;
    return status_given;
}

namespace {

std::string_view any_text()
{
    const std::u8string_view t = dv_text();
    dv_assume(t.size() < limit);
    return { reinterpret_cast<const char*>(t.data()), t.size() };
}

char text_memory[1];
ulight_token token_memory[1];

} // namespace

extern "C" void dvh_html()
{
    ulight_state s;
    ulight_init(&s);
    source = any_text();
    tag = any_text();
    attr = any_text();
    id = any_text();
    dv_assume(!tag.empty() && !attr.empty());
    w = dv_u64();
    phase = segment = offset = entity = pos = from = j = amount = 0;
    id_type = 256;
    finished = is_flushed = false;
    s.source = source.data();
    s.source_length = source.size();
    s.lang = ULIGHT_LANG_CPP;
    s.html_tag_name = tag.data();
    s.html_tag_name_length = tag.size();
    s.html_attr_name = attr.data();
    s.html_attr_name_length = attr.size();
    s.token_buffer = token_memory;
    s.token_buffer_length = 1;
    s.text_buffer = text_memory;
    s.text_buffer_length = 1;
    s.flush_text = [](const void*, char*, std::size_t) { };
    const ulight_status r = ulight_source_to_html(&s);
    dv_assert(r == status_given, "the status of highlighting is returned");
    if (r == ULIGHT_STATUS_OK) {
        dv_assert(phase == 0 && entity == 0 && pos == source.size(), "the whole source is written");
        dv_assert(is_flushed || pos == 0, "everything is delivered");
        dv_cover("end");
    }
}

// ---- the library function used to find what needs escaping meets its contract -----------------------------------
extern "C" void dvh_find()
{
    const std::string_view v = any_text();
    const std::uint64_t x = dv_u64();
    dv_assume(x < v.size());
    dv_point(x, !special(v[x]));
    const std::size_t r = v.find_first_of("<>&");
    if (r == std::string_view::npos) {
        dv_assert(!special(v[x]), "none found: there is none");
        dv_cover("none");
    }
    else {
        dv_assert(r < v.size() && special(v[r]), "the found character is one of the set");
        if (x < r) {
            dv_assert(!special(v[x]), "the first is found");
        }
        dv_cover("found");
    }
}

#else

// the same on real texts, against output built from the tokens
namespace {

std::vector<ulight_token> tokens;
std::string output;
char text_memory[256];
ulight_token token_memory[256];

std::string escaped(std::string_view s)
{
    std::string r;
    for (char c : s) {
        r += c == '<' ? std::string("&lt;") : c == '>' ? "&gt;" : c == '&' ? "&amp;" : std::string(1, c);
    }
    return r;
}

} // namespace

extern "C" void dvh_html()
{
    ulight_state s;
    ulight_init(&s);
    const std::u8string_view t1 = dv_text();
    const std::u8string_view t2 = dv_text();
    std::u8string t { t1 };
    if (dv_bool()) {
        t.append(dv_u64() % 2048, u8'a');
    }
    t += t2;
    s.source = reinterpret_cast<const char*>(t.data());
    s.source_length = t.size();
    s.lang = ulight_lang(1 + dv_u8() % (ULIGHT_LANG_COUNT - 1));
    s.flags = ulight_flag(dv_u8() & 3);
    const std::string_view tag = dv_bool() ? "h-" : "span";
    const std::string_view attr = dv_bool() ? "data-h" : "c";
    s.html_tag_name = tag.data();
    s.html_tag_name_length = tag.size();
    s.html_attr_name = attr.data();
    s.html_attr_name_length = attr.size();
    s.token_buffer = token_memory;
    s.token_buffer_length = 1 + dv_u8();
    s.text_buffer = text_memory;
    s.text_buffer_length = 1 + dv_u8();
    s.flush_text = [](const void*, char* p, std::size_t n) { output.append(p, n); };
    s.flush_tokens = [](const void*, ulight_token* p, std::size_t n) { tokens.insert(tokens.end(), p, p + n); };
    tokens.clear();
    output.clear();
    const ulight_status r0 = ulight_source_to_tokens(&s);
    std::uint64_t at = 0;
    std::string want;
    for (const ulight_token& t : tokens) {
        dv_assume(t.length >= 1 && t.begin >= at && t.begin <= s.source_length && t.length <= s.source_length - t.begin);
        const ulight_string_view id = ulight_highlight_type_short_string(ulight_highlight_type(t.type));
        want += escaped({ s.source + at, t.begin - at });
        want += "<" + std::string(tag) + " " + std::string(attr) + "=" + std::string(id.text, id.length) + ">";
        want += escaped({ s.source + t.begin, t.length });
        want += "</" + std::string(tag) + ">";
        at = t.begin + t.length;
    }
    want += escaped({ s.source + at, s.source_length - at });
    const ulight_status r = ulight_source_to_html(&s);
    dv_assert(r == r0, "the status of highlighting is returned");
    if (r == ULIGHT_STATUS_OK) {
        dv_assert(output == want, "the output is the escaped source with the tokens wrapped");
    }
}

#include <unistd.h>
extern "C" void dvh_find() { _exit(0); }
#endif
