// Minimal stand-in for folly/Random.h.
#pragma once
#include <cstdint>
#include <random>
namespace folly {
struct Random {
  static std::mt19937_64& gen() { thread_local std::mt19937_64 g{std::random_device{}()}; return g; }
  static uint32_t rand32() { return (uint32_t)gen()(); }
  static uint32_t rand32(uint32_t max) { return max ? rand32() % max : 0; }
  static uint32_t rand32(uint32_t a, uint32_t b) { return a + rand32(b - a); }
  static uint64_t rand64() { return gen()(); }
  static uint64_t rand64(uint64_t max) { return max ? rand64() % max : 0; }
  static bool oneIn(uint32_t n) { return n && rand32(n) == 0; }
};
}  // namespace folly
