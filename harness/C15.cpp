// C15: shortest edit scripts, bounded.  Every pattern of equal and different lines up to a number of lines,
// and long sequences of a few shapes.  Compiled natively together with the real header.
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <string_view>
#include <vector>

#include "ulight/impl/string_diff.hpp"

using namespace ulight;

namespace {

std::vector<int> a, b;
const char* failure;

// texts of the lines; the two sides never share memory
std::u8string line(int kind)
{
    switch (kind) {
    case 0: return u8"";
    case 1: return u8"a";
    case 2: return u8"aa";
    case 3: return std::u8string(u8"a\0", 2);
    case 4: return u8"A";
    case 5: return std::u8string(70, u8'x') + u8"y";
    case 6: return std::u8string(70, u8'x') + u8"z";
    case 7: return u8" a";
    case 8: return u8"a ";
    case 9: return u8"a\r";
    case 10: return u8"\u00e4";
    case 11: return u8"a\u0308";
    default: {
        const std::string s = "line " + std::to_string(kind);
        return std::u8string(s.begin(), s.end());
    }
    }
}

std::vector<std::u8string> text_a, text_b;
std::vector<std::u8string_view> view_a, view_b;

std::size_t common_length()
{
    std::vector<std::uint32_t> row(b.size() + 1, 0);
    for (int x : a) {
        std::uint32_t diagonal = 0;
        for (std::size_t j = 0; j < b.size(); ++j) {
            const std::uint32_t above = row[j + 1];
            row[j + 1] = x == b[j] ? diagonal + 1 : std::max(row[j], above);
            diagonal = above;
        }
    }
    return row[b.size()];
}

bool check(std::size_t lcs)
{
    view_a.resize(a.size());
    view_b.resize(b.size());
    for (std::size_t i = 0; i < a.size(); ++i) {
        view_a[i] = text_a[std::size_t(a[i])];
    }
    for (std::size_t j = 0; j < b.size(); ++j) {
        view_b[j] = text_b[std::size_t(b[j])];
    }
    const std::vector<Edit_Type> script = shortest_edit_script(view_a, view_b);
    std::size_t i = 0;
    std::size_t j = 0;
    std::size_t length = 0;
    Edit_Type before = Edit_Type::common;
    failure = nullptr;
    for (const Edit_Type e : script) {
        switch (e) {
        case Edit_Type::common:
            if (i >= a.size() || j >= b.size() || a[i] != b[j]) {
                failure = "lines that are kept are the same on both sides";
                return false;
            }
            ++i;
            ++j;
            break;
        case Edit_Type::del:
            if (i >= a.size()) {
                failure = "only lines of the first sequence are deleted";
                return false;
            }
            if (before == Edit_Type::ins) {
                failure = "deletions come before insertions";
                return false;
            }
            ++i;
            ++length;
            break;
        case Edit_Type::ins:
            if (j >= b.size()) {
                failure = "only lines of the second sequence are inserted";
                return false;
            }
            ++j;
            ++length;
            break;
        default: failure = "edits are deletions, insertions or common lines"; return false;
        }
        before = e;
    }
    if (i != a.size() || j != b.size()) {
        failure = "the script covers both sequences";
    }
    else if (length != a.size() + b.size() - 2 * lcs) {
        failure = "no shorter script exists";
    }
    return failure == nullptr;
}

unsigned long long count;

void fail()
{
    std::printf("DVF C15 %s\n", failure);
    const auto print = [](const char* name, const std::vector<int>& v) {
        std::printf("%s %zu lines:", name, v.size());
        for (std::size_t i = 0; i < v.size() && i < 100; ++i) {
            std::printf(" %d", v[i]);
        }
        std::printf("\n");
    };
    print("from", a);
    print("to", b);
    std::exit(1);
}

void run()
{
    ++count;
    if (!check(common_length())) {
        fail();
    }
}

// all restricted growth sequences, split among the processes by their number
void all(std::size_t n, std::size_t m, std::size_t k, int kinds, unsigned long long& number, unsigned part, unsigned parts)
{
    if (k == n + m) {
        if (number++ % parts == part) {
            run();
        }
        return;
    }
    for (int x = 0; x <= kinds; ++x) {
        (k < n ? a[k] : b[k - n]) = x;
        all(n, m, k + 1, std::max(kinds, x + 1), number, part, parts);
    }
}

} // namespace

int main(int, char** argv)
{
    const unsigned part = unsigned(std::atoi(argv[1]));
    const unsigned parts = unsigned(std::atoi(argv[2]));
    const std::size_t lines = std::size_t(std::atoi(argv[3]));
    const unsigned seed = unsigned(std::atoi(argv[4]));
    const unsigned rounds = unsigned(std::atoi(argv[5]));
    const int kinds = 2000;
    for (int x = 0; x < kinds; ++x) {
        text_a.push_back(line(x));
        text_b.push_back(line(x));
    }
    unsigned long long number = 0;
    for (std::size_t n = 0; n <= lines; ++n) {
        for (std::size_t m = 0; m <= lines; ++m) {
            a.assign(n, 0);
            b.assign(m, 0);
            all(n, m, 0, 0, number, part, parts);
        }
    }
    const unsigned long long exhaustive = count;
    // longer sequences: one is an edited copy of the other, or both are arbitrary
    std::mt19937 random(seed * 1000 + part);
    const auto below = [&](std::size_t n) { return std::size_t(random() % n); };
    for (unsigned r = 0; r < rounds; ++r) {
        const std::size_t n = r % 50 == 0 ? 200 + below(300) : below(40);
        const std::size_t alphabet = 1 + below(r % 3 == 0 ? 3 : r % 3 == 1 ? 12 : 1000);
        a.resize(n);
        for (int& x : a) {
            x = int(below(alphabet));
        }
        if (r % 2) {
            b = a;
            for (std::size_t e = below(12); e-- > 0;) {
                const std::size_t at = below(b.size() + 1);
                if (at < b.size() && below(2)) {
                    b.erase(b.begin() + std::ptrdiff_t(at));
                }
                else {
                    b.insert(b.begin() + std::ptrdiff_t(at), int(below(alphabet)));
                }
            }
        }
        else {
            b.resize(r % 50 == 0 ? 200 + below(300) : below(40));
            for (int& x : b) {
                x = int(below(alphabet));
            }
        }
        run();
    }
    // very long ones
    const std::size_t sizes[] = { 127, 128, 129, 255, 256, 257, 1000 };
    for (std::size_t s = part; s < 7; s += parts) {
        for (int shape = 0; shape < 5; ++shape) {
            a.assign(sizes[s], 0);
            b.assign(sizes[s], 0);
            for (std::size_t i = 0; i < sizes[s]; ++i) {
                a[i] = shape == 0 ? int(i) : shape == 1 ? 0 : shape == 2 ? int(i % 2) : shape == 3 ? int(i) : int(i % 7);
                b[i] = shape == 0 ? int(1000 + i % 1000) : shape == 1 ? 0 : shape == 2 ? int(1 + i % 3) : shape == 3 ? int(sizes[s] - 1 - i) : int(i % 5);
            }
            run();
        }
    }
    for (int shape = int(part); shape < 8; shape += int(parts)) {
        const bool swap = shape & 1;
        a.assign(shape & 2 ? 0 : 1, 7);
        b.assign(70000, 5);
        if (shape & 4) {
            b[65536 + 1234] = 7;
        }
        if (swap) {
            std::swap(a, b);
        }
        run();
    }
    std::printf("DVF runs %llu exhaustive %llu\n", count, exhaustive);
}
