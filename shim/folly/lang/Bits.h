// Minimal stand-in for folly/lang/Bits.h.
#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
namespace folly {
template <class T> T loadUnaligned(const void* p) { T v; memcpy(&v, p, sizeof v); return v; }
template <class T> void storeUnaligned(void* p, T v) { memcpy(p, &v, sizeof v); }
struct Endian {
  enum class Order : uint8_t { LITTLE, BIG };
  static constexpr Order order = __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__ ? Order::LITTLE : Order::BIG;
  template <class T> static T swap(T x) {
    T r; auto* a = (unsigned char*)&r; auto* b = (unsigned char*)&x;
    for (size_t i = 0; i < sizeof(T); i++) a[i] = b[sizeof(T) - 1 - i];
    return r;
  }
  template <class T> static T little(T x) { return order == Order::LITTLE ? x : swap(x); }
  template <class T> static T big(T x) { return order == Order::BIG ? x : swap(x); }
};
inline unsigned findLastSet(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
template <class T> T nextPowTwo(T v) { if (v <= 1) return 1; return T(1) << (64 - __builtin_clzll((uint64_t)v - 1)); }
}  // namespace folly
