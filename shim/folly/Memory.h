// Minimal stand-in for folly/Memory.h.
#pragma once
#include <memory>
namespace folly {
template <class T, void (*f)(T*)>
struct static_function_deleter {
  void operator()(T* t) const { f(t); }
};
using std::make_unique;
}  // namespace folly
