// Minimal stand-in for folly/SpinLock.h.
#pragma once
#include <mutex>
namespace folly {
class SpinLock {
 public:
  void lock() const { m_.lock(); }
  void unlock() const { m_.unlock(); }
  bool try_lock() const { return m_.try_lock(); }
  bool trylock() const { return m_.try_lock(); }
 private:
  mutable std::mutex m_;
};
class SpinLockGuard {
 public:
  explicit SpinLockGuard(SpinLock& l) : l_(l) { l_.lock(); }
  ~SpinLockGuard() { l_.unlock(); }
 private:
  SpinLock& l_;
};
}  // namespace folly
