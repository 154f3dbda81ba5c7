// Minimal stand-in for folly/Optional.h.
#pragma once
#include <optional>
#include <utility>
namespace folly {
struct None { explicit constexpr None(int) {} };
inline constexpr None none{0};
template <class T>
class Optional : public std::optional<T> {
 public:
  using std::optional<T>::optional;
  Optional() {}
  Optional(None) {}
  Optional(const T& t) : std::optional<T>(t) {}
  Optional(T&& t) : std::optional<T>(std::move(t)) {}
  bool hasValue() const { return this->has_value(); }
  void clear() { this->reset(); }
  T* get_pointer() { return *this ? &**this : nullptr; }
};
}  // namespace folly
