// C16: what parse_json accepts and reports, bounded.  A separate recogniser produces the events that a text has to give.
// Compiled natively together with the real sources.
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <string_view>
#include <vector>

#include "ulight/json.hpp"
#include "ulight/ulight.hpp"

using namespace ulight;

namespace {

enum Kind : std::uint8_t {
    line_comment, block_comment, literal, escape, number, null, boolean,
    push_string, pop_string, push_property, pop_property, push_object, pop_object, push_array, pop_array
};

struct Event {
    Kind kind;
    std::uint32_t begin;
    std::uint32_t length;
    std::uint32_t value;
    double real;
    bool operator==(const Event& o) const
    {
        return kind == o.kind && begin == o.begin && length == o.length && value == o.value
            && (real == o.real || (std::isnan(real) && std::isnan(o.real)));
    }
};

const char* failure;
std::u8string_view source;

void require(bool b, const char* what)
{
    if (!b && failure == nullptr) {
        failure = what;
    }
}

struct Visitor final : JSON_Visitor {
    std::vector<Event> events;
    std::size_t last = 0;
    std::size_t line = 0;       // at `seen`
    std::size_t line_begin = 0;
    std::size_t seen = 0;
    std::string open;
    bool failed = false;
    JSON_Options options;

    void at(const Source_Position& p)
    {
        require(p.code_unit <= source.size(), "positions lie in the source");
        require(p.code_unit >= last, "events are in order");
        require(!failed, "no events after an error");
        if (failure != nullptr) {
            return;
        }
        for (; seen < p.code_unit; ++seen) {
            if (source[seen] == u8'\n') {
                ++line;
                line_begin = seen + 1;
            }
        }
        require(p.line == line, "the line of a position is the number of line feeds before it");
        require(p.line_code_unit == p.code_unit - line_begin, "the offset of a position is counted from its line");
        last = p.code_unit;
    }
    void text(Kind k, const Source_Position& p, std::u8string_view s, std::uint32_t value = 0, double real = 0)
    {
        at(p);
        require(!s.empty(), "texts are not empty");
        require(failure != nullptr || (s.size() <= source.size() - p.code_unit && s.data() == source.data() + p.code_unit),
                "texts are in the source at their positions");
        if (failure != nullptr) {
            return;
        }
        last += s.size();
        if (k == Kind::literal && !events.empty() && events.back().kind == Kind::literal && events.back().begin + events.back().length == p.code_unit) {
            events.back().length += std::uint32_t(s.size());
            return;
        }
        events.push_back({ k, std::uint32_t(p.code_unit), std::uint32_t(s.size()), value, real });
    }
    void mark(Kind k, const Source_Position& p, std::uint32_t value = 0)
    {
        require(p.code_unit < source.size(), "positions lie in the source");
        at(p);
        if (failure == nullptr) {
            events.push_back({ k, std::uint32_t(p.code_unit), 1, value, 0 });
            ++last;
        }
    }
    void push(char c) { open += c; }
    void pop(char c)
    {
        require(!open.empty() && open.back() == c, "every exit belongs to the last entry");
        if (!open.empty()) {
            open.pop_back();
        }
    }
    void line_comment(const Source_Position& p, std::u8string_view s) final { text(Kind::line_comment, p, s); }
    void block_comment(const Source_Position& p, std::u8string_view s) final { text(Kind::block_comment, p, s); }
    void literal(const Source_Position& p, std::u8string_view s) final { text(Kind::literal, p, s); }
    void escape(const Source_Position& p, std::u8string_view s) final
    {
        require(options.escapes == Escape_Parsing::none, "escapes are reported as asked for");
        text(Kind::escape, p, s);
    }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c) final
    {
        require(options.escapes == Escape_Parsing::parse, "escapes are reported as asked for");
        text(Kind::escape, p, s, c);
    }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c, std::u8string_view u) final
    {
        require(options.escapes == Escape_Parsing::parse_encode, "escapes are reported as asked for");
        char8_t expected[3];
        std::size_t n = 0;
        if (c < 0x80) {
            expected[n++] = char8_t(c);
        }
        else if (c < 0x800) {
            expected[n++] = char8_t(0xc0 | c >> 6);
            expected[n++] = char8_t(0x80 | (c & 0x3f));
        }
        else {
            expected[n++] = char8_t(0xe0 | c >> 12);
            expected[n++] = char8_t(0x80 | (c >> 6 & 0x3f));
            expected[n++] = char8_t(0x80 | (c & 0x3f));
        }
        require(u == std::u8string_view(expected, n), "escapes are encoded");
        text(Kind::escape, p, s, c);
    }
    void number(const Source_Position& p, std::u8string_view s) final
    {
        require(!options.parse_numbers, "numbers are reported as asked for");
        text(Kind::number, p, s);
    }
    void number(const Source_Position& p, std::u8string_view s, double x) final
    {
        require(options.parse_numbers, "numbers are reported as asked for");
        text(Kind::number, p, s, 0, x);
    }
    void null(const Source_Position& p) final { mark(Kind::null, p); }
    void boolean(const Source_Position& p, bool b) final { mark(Kind::boolean, p, b); }
    void push_string(const Source_Position& p) final { mark(Kind::push_string, p); push('"'); }
    void pop_string(const Source_Position& p) final { mark(Kind::pop_string, p); pop('"'); }
    void push_property(const Source_Position& p) final { mark(Kind::push_property, p); push('p'); }
    void pop_property(const Source_Position& p) final { mark(Kind::pop_property, p); pop('p'); }
    void push_object(const Source_Position& p) final { mark(Kind::push_object, p); push('{'); }
    void pop_object(const Source_Position& p) final { mark(Kind::pop_object, p); pop('{'); }
    void push_array(const Source_Position& p) final { mark(Kind::push_array, p); push('['); }
    void pop_array(const Source_Position& p) final { mark(Kind::pop_array, p); pop('['); }
    Error_Reaction error(const Source_Position& p, JSON_Error) final
    {
        at(p);
        failed = true;
        return Error_Reaction::abort;
    }
};

// RFC 8259, with comments if they are allowed
struct Oracle {
    std::u8string_view s;
    JSON_Options options;
    std::size_t i = 0;
    std::vector<Event> events {};
    bool unclear = false;       // the text is not UTF-8, or the end of a line comment is a matter of taste

    int c() const { return i < s.size() ? s[i] : -1; }
    void put(Kind k, std::size_t at, std::size_t n = 1, std::uint32_t v = 0, double x = 0)
    {
        events.push_back({ k, std::uint32_t(at), std::uint32_t(n), v, x });
    }
    static bool hex(int x) { return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F'); }
    static bool digit(int x) { return x >= '0' && x <= '9'; }

    bool space()
    {
        for (;;) {
            if (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') {
                ++i;
                continue;
            }
            if (!options.allow_comments || c() != '/') {
                return true;
            }
            const std::u8string_view r = s.substr(i);
            if (r.starts_with(u8"//")) {
                std::size_t n = 2;
                while (n < r.size() && r[n] != '\n' && r[n] != '\r') {
                    if (r[n] == 0xe2) {
                        unclear = true; // U+2028, U+2029
                    }
                    ++n;
                }
                if (n < r.size() && r[n] == '\r' && !(n + 1 < r.size() && r[n + 1] == '\n')) {
                    unclear = true;
                }
                if (n < r.size() && r[n] == '\r') {
                    unclear = true;
                }
                put(line_comment, i, n);
                i += n;
                continue;
            }
            if (r.starts_with(u8"/*")) {
                const std::size_t e = r.find(u8"*/", 2);
                if (e == r.npos) {
                    return false;
                }
                put(block_comment, i, e + 2);
                i += e + 2;
                continue;
            }
            return true;
        }
    }
    bool string(bool property)
    {
        put(property ? push_property : push_string, i++);
        for (;;) {
            const int x = c();
            if (x < 0x20) {
                return false;
            }
            if (x == '"') {
                put(property ? pop_property : pop_string, i++);
                return true;
            }
            if (x == '\\') {
                const std::size_t begin = i;
                std::uint32_t v = 0;
                ++i;
                const int e = c();
                static const char from[] = "\"\\/bfnrt";
                static const char to[] = "\"\\/\b\f\n\r\t";
                if (e == 'u') {
                    for (int k = 0; k < 4; ++k) {
                        ++i;
                        if (!hex(c())) {
                            return false;
                        }
                        v = v * 16 + std::uint32_t(digit(c()) ? c() - '0' : (c() | 32) - 'a' + 10);
                    }
                }
                else {
                    const char* f = e > 0 ? std::strchr(from, e) : nullptr;
                    if (f == nullptr) {
                        return false;
                    }
                    v = std::uint32_t(to[f - from]);
                }
                ++i;
                put(escape, begin, i - begin, options.escapes == Escape_Parsing::none ? 0 : v);
                continue;
            }
            const std::size_t begin = i;
            while (c() >= 0x20 && c() != '"' && c() != '\\') {
                ++i;
            }
            put(literal, begin, i - begin);
        }
    }
    bool number_()
    {
        const std::size_t begin = i;
        if (c() == '-') {
            ++i;
        }
        if (c() == '0') {
            ++i;
        }
        else {
            if (!digit(c())) {
                return false;
            }
            while (digit(c())) {
                ++i;
            }
        }
        if (c() == '.') {
            ++i;
            if (!digit(c())) {
                return false;
            }
            while (digit(c())) {
                ++i;
            }
        }
        if (c() == 'e' || c() == 'E') {
            ++i;
            if (c() == '+' || c() == '-') {
                ++i;
            }
            if (!digit(c())) {
                return false;
            }
            while (digit(c())) {
                ++i;
            }
        }
        double x = 0;
        if (options.parse_numbers) {
            const char* p = reinterpret_cast<const char*>(s.data());
            if (std::from_chars(p + begin, p + i, x).ec != std::errc {}) {
                x = std::strtod(std::string(p + begin, p + i).c_str(), nullptr); // too large or too small
            }
        }
        put(number, begin, i - begin, 0, x);
        return true;
    }
    bool value()
    {
        const std::u8string_view r = s.substr(i);
        if (r.starts_with(u8"true")) {
            put(boolean, i, 1, 1);
            i += 4;
            return true;
        }
        if (r.starts_with(u8"false")) {
            put(boolean, i, 1, 0);
            i += 5;
            return true;
        }
        if (r.starts_with(u8"null")) {
            put(null, i);
            i += 4;
            return true;
        }
        switch (c()) {
        case '"': return string(false);
        case '[':
            put(push_array, i++);
            if (!space()) {
                return false;
            }
            for (bool first = true; c() != ']' || !first; first = false) {
                if (!first && c() == ']') {
                    break;
                }
                if (!first) {
                    if (c() != ',') {
                        return false;
                    }
                    ++i;
                }
                if (!space() || !value() || !space()) {
                    return false;
                }
            }
            put(pop_array, i++);
            return true;
        case '{':
            put(push_object, i++);
            if (!space()) {
                return false;
            }
            for (bool first = true; c() != '}' || !first; first = false) {
                if (!first && c() == '}') {
                    break;
                }
                if (!first) {
                    if (c() != ',') {
                        return false;
                    }
                    ++i;
                }
                if (!space() || c() != '"' || !string(true) || !space() || c() != ':') {
                    return false;
                }
                ++i;
                if (!space() || !value() || !space()) {
                    return false;
                }
            }
            put(pop_object, i++);
            return true;
        default: return (c() == '-' || digit(c())) && number_();
        }
    }
    bool operator()() { return space() && value() && space() && i == s.size(); }
};

// is the text UTF-8?  Only then it is a JSON text or not.
bool is_utf8(std::u8string_view s)
{
    for (std::size_t i = 0; i < s.size();) {
        const unsigned x = s[i];
        const std::size_t n = x < 0x80 ? 1 : x >= 0xc2 && x < 0xe0 ? 2 : x >= 0xe0 && x < 0xf0 ? 3 : x >= 0xf0 && x < 0xf5 ? 4 : 0;
        if (n == 0 || s.size() - i < n) {
            return false;
        }
        for (std::size_t k = 1; k < n; ++k) {
            if ((s[i + k] & 0xc0) != 0x80) {
                return false;
            }
        }
        if ((x == 0xe0 && s[i + 1] < 0xa0) || (x == 0xed && s[i + 1] > 0x9f) || (x == 0xf0 && s[i + 1] < 0x90) || (x == 0xf4 && s[i + 1] > 0x8f)) {
            return false;
        }
        i += n;
    }
    return true;
}

unsigned long long count, accepted;

[[noreturn]] void fail(std::u8string_view t, unsigned flags)
{
    std::printf("DVF C16 %s\noptions: comments %u numbers %u escapes %u\ninput ", failure, flags & 1, flags >> 1 & 1, flags >> 2);
    for (char8_t c : t) {
        std::printf("%02x", unsigned(c));
    }
    std::printf("\n%.*s\n", int(t.size()), reinterpret_cast<const char*>(t.data()));
    std::exit(1);
}

char8_t* place; // the text ends where its memory ends

void run(std::u8string_view t, unsigned flags)
{
    ++count;
    char8_t* const p = place - t.size();
    std::memcpy(p, t.data(), t.size());
    source = { p, t.size() };
    Visitor v;
    v.options.allow_comments = flags & 1;
    v.options.parse_numbers = flags >> 1 & 1;
    v.options.escapes = Escape_Parsing(flags >> 2);
    failure = nullptr;
    const bool ok = parse_json(v, source, v.options);
    if (failure != nullptr) {
        fail(t, flags);
    }
    Oracle o { t, v.options };
    const bool expected = o();
    if (ok) {
        ++accepted;
        require(v.open.empty(), "everything that is entered is left");
        require(!v.failed, "a text that is accepted has no errors");
    }
    if (is_utf8(t) && !o.unclear) {
        require(ok == expected, expected ? "every JSON text is accepted" : "nothing but JSON texts is accepted");
        if (ok && expected) {
            require(v.events == o.events, "the events are those of the text");
        }
    }
    if (failure != nullptr) {
        fail(t, flags);
    }
}

const std::u8string_view units[] = { u8"{", u8"}", u8"[", u8"]", u8",", u8":", u8"\"", u8"\\", u8"/", u8"*", u8"0", u8"1", u8"-", u8"+",
                                     u8".", u8"e", u8" ", u8"\n", u8"u", u8"n" };
const std::u8string_view pieces[] = { u8"{", u8"}", u8"[", u8"]", u8",", u8":", u8"\"a\"", u8"\"\\n\"", u8"\"", u8"\\u00e9", u8"0", u8"-12.5E+3", u8"01",
                                      u8"true", u8"false", u8"null", u8" ", u8"\r\n", u8"//x\n", u8"/*\n*/", u8"/*", u8"\"\\ud800\x7f\"", u8"E", u8"\u00e4" };

void all(const std::u8string_view* alphabet, std::size_t size, std::size_t depth, std::u8string& t, unsigned long long& number, unsigned part, unsigned parts)
{
    if (number++ % parts == part) {
        run(t, 0);
        run(t, unsigned(1 + (number * 7) % 11));
    }
    if (depth == 0) {
        return;
    }
    const std::size_t n = t.size();
    for (std::size_t k = 0; k < size; ++k) {
        t += alphabet[k];
        all(alphabet, size, depth - 1, t, number, part, parts);
        t.resize(n);
    }
}

std::mt19937 rnd;
std::size_t below(std::size_t n)
{
    return std::size_t(rnd() % n);
}

void generate_space(std::u8string& t, bool comments)
{
    while (below(4) == 0) {
        switch (below(comments ? 8 : 5)) {
        case 0: t += u8' '; break;
        case 1: t += u8'\n'; break;
        case 2: t += u8'\t'; break;
        case 3: t += u8"\r\n"; break;
        case 4: t += u8"  \n "; break;
        case 5: t += u8"// \"c\n"; break;
        case 6: t += u8"/* // \n**/"; break;
        default: t += u8"/**/"; break;
        }
    }
}

void generate_string(std::u8string& t)
{
    t += u8'"';
    while (below(3)) {
        switch (below(9)) {
        case 0: t += u8'\\'; t += u8"\"\\/bfnrt"[below(8)]; break;
        case 1: {
            char x[8];
            std::snprintf(x, sizeof(x), below(2) ? "\\u%04x" : "\\u%04X", unsigned(below(4) ? below(0x10000) : below(2) ? below(0x900) : 0xd7f0 + below(0x900)));
            t += reinterpret_cast<const char8_t*>(x);
            break;
        }
        case 2: t += u8"\u00e9\u20ac\U0001f600"; break;
        case 3: t += char8_t(below(10) ? 0x20 + below(0x60) : below(256)); if (t.back() == u8'"' || t.back() == u8'\\') { t.back() = u8'x'; } break;
        case 4: t += u8"//"; break;
        case 5: t += u8"{}[],:"; break;
        default: t += char8_t('a' + below(26)); break;
        }
    }
    t += u8'"';
}

void generate_number(std::u8string& t)
{
    if (below(3) == 0) {
        t += u8'-';
    }
    const auto digits = [&] {
        do {
            t += char8_t('0' + below(10));
        } while (below(below(20) ? 3 : 30));
    };
    if (below(4) == 0) {
        t += u8'0';
    }
    else {
        t += char8_t('1' + below(9));
        if (below(2)) {
            digits();
        }
    }
    if (below(3) == 0) {
        t += u8'.';
        digits();
    }
    if (below(3) == 0) {
        t += below(2) ? u8'e' : u8'E';
        if (below(2)) {
            t += below(2) ? u8'+' : u8'-';
        }
        digits();
    }
}

void generate(std::u8string& t, unsigned depth, bool comments)
{
    generate_space(t, comments);
    switch (below(depth ? 7 : 4)) {
    case 0: generate_string(t); break;
    case 1: generate_number(t); break;
    case 2: t += below(2) ? u8"true" : u8"false"; break;
    case 3: t += u8"null"; break;
    case 4:
    case 5: {
        t += u8'[';
        const std::size_t n = below(4);
        for (std::size_t k = 0; k < n; ++k) {
            if (k) {
                t += u8',';
            }
            generate(t, depth - 1, comments);
        }
        if (n == 0) {
            generate_space(t, comments);
        }
        t += u8']';
        break;
    }
    default: {
        t += u8'{';
        const std::size_t n = below(4);
        for (std::size_t k = 0; k < n; ++k) {
            if (k) {
                t += u8',';
            }
            generate_space(t, comments);
            generate_string(t);
            generate_space(t, comments);
            t += u8':';
            generate(t, depth - 1, comments);
        }
        if (n == 0) {
            generate_space(t, comments);
        }
        t += u8'}';
        break;
    }
    }
    generate_space(t, comments);
}

} // namespace

int main(int, char** argv)
{
    const unsigned part = unsigned(std::atoi(argv[1]));
    const unsigned parts = unsigned(std::atoi(argv[2]));
    const std::size_t depth = std::size_t(std::atoi(argv[3]));
    const unsigned seed = unsigned(std::atoi(argv[4]));
    const unsigned rounds = unsigned(std::atoi(argv[5]));
    constexpr std::size_t room = 1 << 20;
    place = static_cast<char8_t*>(std::malloc(room)) + room;
    if (argv[6] != nullptr) { // replay
        std::u8string t;
        for (const char* h = argv[7]; h[0] && h[1]; h += 2) {
            const char two[3] = { h[0], h[1], 0 };
            t += char8_t(std::strtoul(two, nullptr, 16));
        }
        run(t, unsigned(std::atoi(argv[6])));
        return 0;
    }
    std::u8string t;
    unsigned long long number = 0;
    all(units, std::size(units), depth, t, number, part, parts);
    all(pieces, std::size(pieces), depth - 1, t, number, part, parts);
    // every code unit, alone and in a string, and every escape
    for (unsigned c = part; c < 256; c += parts) {
        const char8_t u = char8_t(c);
        for (unsigned flags = 0; flags < 12; ++flags) {
            run(std::u8string(1, u), flags);
            run(std::u8string(u8"1") + u, flags);
            run(std::u8string(u8"\"\\") + u + u8"\"", flags);
            run(std::u8string(u8"\"") + u + u8"\"", flags);
            run(std::u8string(1, u) + u8"[]", flags);
            for (unsigned k = 0; k < 4; ++k) {
                std::u8string e = u8"[\"\\u0000\"]";
                e[4 + k] = u;
                run(e, flags);
            }
        }
    }
    const unsigned long long exhaustive = count;
    rnd.seed(seed * 1000 + part);
    for (unsigned r = 0; r < rounds; ++r) {
        const unsigned flags = unsigned(below(12));
        std::u8string d;
        generate(d, r % 100 == 0 ? 9 : 3, flags & 1);
        if (d.size() > 60000) {
            continue;
        }
        run(d, flags);
        for (unsigned k = 0; k < 6; ++k) {
            std::u8string m = d;
            for (std::size_t e = 1 + below(2); e-- > 0;) {
                const std::size_t at = below(m.size() + 1);
                const std::u8string_view x = below(2) ? units[below(std::size(units))] : pieces[below(std::size(pieces))];
                switch (below(4)) {
                case 0: m.insert(at, x); break;
                case 1: m.erase(at, 1 + below(3)); break;
                case 2: m.resize(at); break;
                default: if (at < m.size()) { m.replace(at, 1, x); } break;
                }
            }
            run(m, flags);
        }
    }
    // deep nesting and long texts
    if (part == 0) {
        for (std::size_t n : { 15u, 64u, 255u, 256u, 257u, 1000u, 1024u }) {
            std::u8string d(n, u8'[');
            d += std::u8string(n, u8']');
            run(d, 0);
            d.pop_back();
            run(d, 0);
            std::u8string o;
            for (std::size_t k = 0; k < n; ++k) {
                o += u8"{\"\":";
            }
            o += u8"1" + std::u8string(n, u8'}');
            run(o, 1);
            run(u8"\"" + std::u8string(n, u8'x') + u8"\"", 4);
            run(std::u8string(n, u8'1'), 0);
            run(std::u8string(n, u8'\n') + u8"1" + std::u8string(n, u8'\n'), 2);
            run(u8"\"" + std::u8string(70 * n, u8'x') + u8"\\n\"", 8);
        }
    }
    std::printf("DVF runs %llu exhaustive %llu accepted %llu\n", count, exhaustive, accepted);
}
