// Native meaning of the harness primitives: replays a file of input values, or searches for
// inputs on which a harness fails.
//   prog FUNCTION replay FILE          exit 1: the failure is reproduced, 0: it is not
//   prog FUNCTION search SEED SECONDS FILE   exit 1: a failing input was written to FILE
#include "dv.h"
#include <chrono>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace {

struct Shared {
    std::size_t used;
    char text[1 << 20];
};

Shared* shared = nullptr;
bool searching = false;
unsigned bias = 8; // of truth values, per trial
std::vector<std::string> lines;
std::size_t next_line = 0;
std::mt19937_64 rng;
std::size_t last_length = 0;
std::uint64_t scale = 8; // of sizes, per trial
std::jmp_buf out;
std::vector<std::pair<void*, std::size_t>> maps;

void record(const std::string& s)
{
    if (shared && shared->used + s.size() + 1 < sizeof(shared->text)) {
        std::memcpy(shared->text + shared->used, s.data(), s.size());
        shared->used += s.size();
        shared->text[shared->used++] = '\n';
    }
}

std::uint64_t value(const char* kind, int bits)
{
    std::uint64_t v = 0;
    if (!searching) {
        if (next_line >= lines.size()) {
            return 0;
        }
        std::istringstream is(lines[next_line++]);
        std::string k;
        is >> k >> v;
        return v;
    }
    switch (bits == 1 ? 9 : bits == 64 && scale > 64 && rng() % 4 ? 4 : rng() % 5) {
    case 9: v = rng() % 16 < bias; break;
    case 0: v = rng() % 8; break;
    case 4: v = rng() % 2 ? rng() % scale : scale - rng() % (scale < 3 ? scale : 3); break;
    case 1:
        // near the length of the last text or array
        v = last_length && rng() % 2 ? (rng() % 2 ? last_length - rng() % (last_length < 4 ? last_length + 1 : 4) : rng() % (last_length + 1))
                                     : rng() % 256;
        break;
    case 2: v = rng() >> (rng() % 64); break;
    default: v = rng() % 4 ? rng() : ~(rng() % 8); break;
    }
    if (bits < 64) {
        v &= (1ull << bits) - 1;
    }
    record(std::string(kind) + " " + std::to_string(v));
    return v;
}

} // namespace

extern "C" {
std::uint8_t dv_u8() { return std::uint8_t(value("u8", 8)); }
std::uint16_t dv_u16() { return std::uint16_t(value("u16", 16)); }
std::uint32_t dv_u32() { return std::uint32_t(value("u32", 32)); }
std::uint64_t dv_u64() { return value("u64", 64); }
bool dv_bool() { return value("bool", 1) & 1; }
void dv_assume(bool b)
{
    if (!b) {
        std::longjmp(out, 1);
    }
}
void dv_assert(bool b, const char* label)
{
    if (!b && std::strncmp(label, "KNOWN ", 6) != 0) {
        std::printf("FAILED: %s\n", label);
        std::fflush(stdout);
        _exit(1);
    }
}
void dv_cover(const char*) { }
void dv_point(std::uint64_t, bool) { }
void dv_term(std::uint64_t) { }
std::uint8_t dv_havoc_u8() { std::abort(); }
std::uint32_t dv_havoc_u32() { std::abort(); }
std::uint64_t dv_havoc_u64() { std::abort(); }

void* dv_array(std::uint64_t size, std::uint64_t)
{
    dv_assume(size <= (1u << 16));
    auto* const p = static_cast<unsigned char*>(std::calloc(size ? size : 1, 1));
    maps.emplace_back(reinterpret_cast<char8_t*>(p), size);
    if (!searching) {
        if (next_line < lines.size()) {
            std::istringstream is(lines[next_line++]);
            std::string k, hex;
            std::size_t len;
            is >> k >> len >> hex;
            for (std::size_t i = 0; 2 * i + 1 < hex.size() && i < size; ++i) {
                p[i] = static_cast<unsigned char>(std::stoi(hex.substr(2 * i, 2), nullptr, 16));
            }
        }
        return p;
    }
    std::string line = "array " + std::to_string(size) + " ";
    for (std::size_t i = 0; i < size; ++i) {
        const auto r = rng();
        p[i] = static_cast<unsigned char>(r % 3 ? (r >> 8) % 4 : r >> 8);
        line += "0123456789abcdef"[p[i] >> 4];
        line += "0123456789abcdef"[p[i] & 15];
    }
    record(line);
    last_length = size;
    return p;
}

std::u8string_view dv_text()
{
    std::size_t len = 0;
    std::string bytes;
    if (!searching) {
        if (next_line < lines.size()) {
            std::istringstream is(lines[next_line++]);
            std::string k, hex;
            is >> k >> len >> hex;
            for (std::size_t i = 0; i + 1 < hex.size(); i += 2) {
                bytes += char(std::stoi(hex.substr(i, 2), nullptr, 16));
            }
        }
    }
    else {
        const char* const alphabet = std::getenv("DV_ALPHABET");
        const char* const words = std::getenv("DV_WORDS");
        std::vector<std::string> ws;
        if (words) {
            std::istringstream is(words);
            for (std::string w; std::getline(is, w, '\x1f');) {
                ws.push_back(w);
            }
        }
        const auto n = rng() % 4 ? rng() % 6 : rng() % 30;
        const auto mode = rng() % 4;
        for (std::size_t i = 0; i < n; ++i) {
            if (alphabet && *alphabet && mode < 2) {
                bytes += alphabet[rng() % std::strlen(alphabet)];
            }
            else if (!ws.empty() && mode == 2) {
                bytes += ws[rng() % ws.size()];
            }
            else if (rng() % 2) {
                bytes += char(rng());
            }
            else {
                static constexpr unsigned char lead[] = { 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1,
                                                          0xF4, 0x80, 0x9F, 0xA0, 0xBF, 0x8F, 0x90, 0x7F, 0xC1, 0xF5 };
                bytes += char(lead[rng() % sizeof(lead)]);
            }
        }
        if (rng() % 4 == 0 && !ws.empty()) {
            // a word, possibly with a small change
            bytes = ws[rng() % ws.size()];
            const auto at = rng() % (bytes.size() + 1);
            switch (rng() % 8) {
            case 0: bytes.resize(at); break;
            case 1: bytes.erase(0, at); break;
            case 2: bytes.insert(at, 1, char(rng())); break;
            case 3: bytes.insert(at, 1, "./ -\0"[rng() % 5]); break;
            case 4:
                if (at < bytes.size()) {
                    bytes[at] = char(bytes[at] ^ (1 << rng() % 8));
                }
                break;
            case 5: bytes += ws[rng() % ws.size()]; break;
            default: break;
            }
        }
        if (!bytes.empty() && bytes.size() < 100 && rng() % 256 == 0) {
            // long texts, now and then
            const std::size_t times = (rng() % 4 ? 4096 : 140000) / bytes.size();
            const std::string once = bytes;
            for (std::size_t i = 0; i < times; ++i) {
                bytes += once;
            }
        }
        len = last_length = bytes.size();
        std::string line = "text " + std::to_string(len) + " ";
        char b[3];
        for (unsigned char c : bytes) {
            std::snprintf(b, 3, "%02x", c);
            line += b;
        }
        record(line);
    }
    // exactly sized, so that AddressSanitizer sees every access outside of it
    char8_t* p;
    if (len > (64u << 20)) {
        void* m = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) {
            std::longjmp(out, 1);
        }
        p = static_cast<char8_t*>(m);
    }
    else {
        p = static_cast<char8_t*>(std::calloc(len ? len : 1, 1));
        maps.emplace_back(p, len);
        if (len == 0) {
            p += 1;
        }
    }
    std::memcpy(p, bytes.data(), bytes.size());
    return { p, len };
}
} // extern "C"

namespace ulight {
struct Assertion_Error;
}

int main(int argc, char** argv)
{
    void* self = dlopen(nullptr, RTLD_NOW);
    auto f = reinterpret_cast<void (*)()>(dlsym(self, argv[1]));
    if (!f || argc < 4) {
        return 2;
    }
    if (std::string(argv[2]) == "replay") {
        std::ifstream in(argv[3]);
        for (std::string l; std::getline(in, l);) {
            if (!l.empty() && l[0] != '#') {
                lines.push_back(l);
            }
        }
        if (setjmp(out) == 0) {
            f();
            std::puts("no failure");
        }
        else {
            std::puts("assumption not met");
        }
        return 0;
    }
    searching = true;
    shared = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)
    );
    const auto seed = std::strtoull(argv[3], nullptr, 10);
    const double seconds = std::atof(argv[4]);
    const pid_t child = fork();
    if (child == 0) {
        alarm(unsigned(seconds) + 5);
        rng.seed(seed);
        const auto start = std::chrono::steady_clock::now();
        volatile unsigned long n = 0;
        while (true) {
            if ((++n & 63) == 0
                && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > seconds) {
                _exit(0);
            }
            shared->used = 0;
            scale = 1 + (rng() % 4 ? rng() % 40 : rng() >> (48 + rng() % 16));
            bias = rng() % 3 == 0 ? 1 : rng() % 2 ? 8 : 15;
            for (auto& [p, len] : maps) {
                std::free(p);
            }
            maps.clear();
            if (setjmp(out) == 0) {
                f();
            }
        }
    }
    int st = 0;
    waitpid(child, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return 0;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        return 0;
    }
    std::ofstream o(argv[5]);
    o.write(shared->text, std::streamsize(shared->used));
    return 1;
}
