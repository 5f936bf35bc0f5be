// C16: parsing JSON.  The events that are reported, for every text; what is accepted is bounded (C16_native.cpp).
#include "dv.h"
#include <string>
#include "ulight/ulight.hpp"
#include "ulight/json.hpp"
#include "ulight/impl/lang/json.hpp"

using namespace ulight;

namespace {

const char8_t* source_begin;
std::uint64_t source_size;
std::uint64_t last;   // where the last event ended
std::uint64_t objects, arrays, strings, properties; // how many are open

void at(const Source_Position& p)
{
    dv_assert(p.code_unit <= source_size, "positions lie in the source");
    dv_assert(p.code_unit >= last, "events are in order");
    dv_assert((p.line <= p.code_unit) & (p.line_code_unit <= p.code_unit), "lines are not longer than the text");
    last = p.code_unit;
}

void text(const Source_Position& p, std::u8string_view s)
{
    at(p);
    dv_assert(s.size() != 0, "texts are not empty");
    dv_assert(s.size() <= source_size - p.code_unit, "texts lie in the source");
    dv_assert(s.data() == source_begin + p.code_unit, "texts are at their positions");
    last = p.code_unit + s.size();
}

void inside(const Source_Position& p)
{
    dv_assert(p.code_unit < source_size, "brackets lie in the source");
    at(p);
    last = p.code_unit + 1;
}

char8_t unit(const Source_Position& p)
{
    return source_begin[p.code_unit];
}

struct Visitor final : JSON_Visitor {
    void line_comment(const Source_Position& p, std::u8string_view s) final { text(p, s); }
    void block_comment(const Source_Position& p, std::u8string_view s) final { text(p, s); }
    void literal(const Source_Position& p, std::u8string_view s) final
    {
        text(p, s);
        dv_assert((strings | properties) != 0, "characters are reported within a string");
    }
    void escape(const Source_Position& p, std::u8string_view s) final { text(p, s); }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c) final
    {
        text(p, s);
        dv_assert(c <= 0xffff, "escapes are single code points");
    }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c, std::u8string_view) final
    {
        text(p, s);
        dv_assert(c <= 0xffff, "escapes are single code points");
    }
    void number(const Source_Position& p, std::u8string_view s) final { text(p, s); }
    void number(const Source_Position& p, std::u8string_view s, double) final { text(p, s); }
    void null(const Source_Position& p) final { inside(p); }
    void boolean(const Source_Position& p, bool) final { inside(p); }
    void push_string(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'"', "strings begin with a quote");
        ++strings;
    }
    void pop_string(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'"', "strings end with a quote");
        dv_assert(strings == 1, "strings end once");
        --strings;
    }
    void push_property(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'"', "names begin with a quote");
        ++properties;
    }
    void pop_property(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'"', "names end with a quote");
        dv_assert(properties == 1, "names end once");
        --properties;
    }
    void push_object(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'{', "objects begin with a brace");
        ++objects;
    }
    void pop_object(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'}', "objects end with a brace");
        dv_assert(objects != 0, "no exit without an entry");
        --objects;
    }
    void push_array(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8'[', "arrays begin with a bracket");
        ++arrays;
    }
    void pop_array(const Source_Position& p) final
    {
        inside(p);
        dv_assert(unit(p) == u8']', "arrays end with a bracket");
        dv_assert(arrays != 0, "no exit without an entry");
        --arrays;
    }
    Error_Reaction error(const Source_Position& p, JSON_Error) final
    {
        at(p);
        return Error_Reaction::abort;
    }
};

char digits[2];

} // namespace

// proved by C16L.cpp
extern "C" json::Escape_Result dvk_match_escape(std::u8string_view s, json::Escape_Policy)
{
    json::Escape_Result r { dv_havoc_u64(), dv_havoc_u32() };
    dv_assume((r.length == 0) | ((r.length >= 2) & (r.length <= 6) & (r.length <= s.size())));
    dv_assume((r.value == json::Escape_Result::no_value) | (r.value <= 0xffff));
    return r;
}

// the copy of the digits and its conversion to a number
extern "C" void dvk_string(void*, const char*, std::size_t) { }
extern "C" const char* dvk_c_str(void*)
{
    return digits;
}
extern "C" void dvk_string_end(void*) { }
extern "C" double dvk_strtod(const char* s, char** end)
{
    *end = const_cast<char*>(s) + (dv_havoc_u8() & 1);
    return 0;
}

extern "C" void dvh_json_events()
{
    const std::u8string_view source = dv_text();
    source_begin = source.data();
    source_size = source.size();
    last = objects = arrays = strings = properties = 0;
    JSON_Options options;
    options.allow_comments = dv_bool();
    options.parse_numbers = dv_bool();
    const std::uint8_t e = dv_u8();
    dv_assume(e <= 2);
    options.escapes = Escape_Parsing(e);
    Visitor visitor;
    const bool ok = parse_json(visitor, source, options);
    if (ok) {
        dv_assert(objects == 0, "every object that is entered is left");
        dv_assert(arrays == 0, "every array that is entered is left");
        dv_assert((strings == 0) & (properties == 0), "every string that is entered is left");
    }
    dv_cover("end");
}
