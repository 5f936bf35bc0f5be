// Harness primitives: symbolic under the verifier, read from a replay file natively.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
extern "C" {
std::uint8_t dv_u8();
std::uint16_t dv_u16();
std::uint32_t dv_u32();
std::uint64_t dv_u64();
bool dv_bool();
void dv_assume(bool);
void dv_assert(bool, const char* label);
void dv_cover(const char* label);
void dv_point(std::uint64_t position, bool claim);
void dv_term(std::uint64_t value);
std::u8string_view dv_text();
// arbitrary memory of that many bytes (at least one), accessed in words of `grain` bytes
void* dv_array(std::uint64_t bytes, std::uint64_t grain);
// only in contracts: an arbitrary value that is not an input of the harness
std::uint8_t dv_havoc_u8();
std::uint32_t dv_havoc_u32();
std::uint64_t dv_havoc_u64();
bool dv_spec_valid(std::u8string_view);
// length of the Table 3-7 sequence that starts the text, 0 if none
int dv_spec_prefix(std::u8string_view);

}
