// Minimal stand-in for folly/hash/Checksum.h (same crc32c: no final inversion, start value ~0U).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#if defined(__x86_64__)
#include <nmmintrin.h>
#endif
namespace folly {
namespace shim {
inline const std::array<uint32_t, 256>& crcTable() {
  static const std::array<uint32_t, 256> t = [] {
    std::array<uint32_t, 256> r{};
    for (uint32_t i = 0; i < 256; i++) {
      uint32_t c = i;
      for (int k = 0; k < 8; k++) c = (c & 1) ? 0x82F63B78u ^ (c >> 1) : c >> 1;
      r[i] = c;
    }
    return r;
  }();
  return t;
}
}  // namespace shim
inline uint32_t crc32c(const uint8_t* d, size_t n, uint32_t seed = ~0U) {
  const auto& t = shim::crcTable();
  uint32_t c = seed;
  for (size_t i = 0; i < n; i++) c = t[(c ^ d[i]) & 0xff] ^ (c >> 8);
  return c;
}
}  // namespace folly
