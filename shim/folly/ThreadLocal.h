// Minimal stand-in for folly/ThreadLocal.h: per-thread objects owned by the thread,
// deleted when the thread or the container goes away, enumerable under a lock.
#pragma once
#include <map>
#include <memory>
#include <mutex>
#include <unordered_map>
#include <vector>
namespace folly {
namespace shim {
struct TlState {
  std::mutex m;
  std::map<void*, void*> perThread;  // thread token -> object
  void (*del)(void*){nullptr};
};
struct TlThread {
  std::map<TlState*, std::weak_ptr<TlState>> states;
  std::map<TlState*, void*> fast;
  ~TlThread() {
    for (auto& p : states) {
      auto s = p.second.lock();
      if (!s) continue;
      std::lock_guard<std::mutex> l(s->m);
      auto it = s->perThread.find(this);
      if (it != s->perThread.end()) {
        void* o = it->second;
        s->perThread.erase(it);
        s->del(o);
      }
    }
  }
};
inline TlThread& tlThread() { thread_local TlThread t; return t; }
}  // namespace shim
template <class T, class Tag = void, class Access = void>
class ThreadLocalPtr {
 public:
  ThreadLocalPtr() : s_(std::make_shared<shim::TlState>()) { s_->del = [](void* p) { delete static_cast<T*>(p); }; }
  ~ThreadLocalPtr() {
    if (!s_) return;
    std::lock_guard<std::mutex> l(s_->m);
    auto objs = s_->perThread;
    s_->perThread.clear();
    for (auto& p : objs) s_->del(p.second);
  }
  ThreadLocalPtr(const ThreadLocalPtr&) = delete;
  T* get() const {
    std::lock_guard<std::mutex> l(s_->m);
    auto it = s_->perThread.find(&shim::tlThread());
    return it == s_->perThread.end() ? nullptr : static_cast<T*>(it->second);
  }
  T* operator->() const { return get(); }
  T& operator*() const { return *get(); }
  explicit operator bool() const { return get() != nullptr; }
  void reset(T* t = nullptr) {
    auto& th = shim::tlThread();
    std::lock_guard<std::mutex> l(s_->m);
    th.states[s_.get()] = s_;
    auto it = s_->perThread.find(&th);
    T* old = nullptr;
    if (it != s_->perThread.end()) { old = static_cast<T*>(it->second); s_->perThread.erase(it); }
    if (t) s_->perThread[&th] = t;
    delete old;
  }
  class Accessor {
   public:
    explicit Accessor(std::shared_ptr<shim::TlState> s) : s_(s), l_(s->m) {}
    Accessor(Accessor&&) = default;
    class Iterator {
     public:
      explicit Iterator(std::map<void*, void*>::iterator i) : i_(i) {}
      T& operator*() const { return *static_cast<T*>(i_->second); }
      T* operator->() const { return static_cast<T*>(i_->second); }
      Iterator& operator++() { ++i_; return *this; }
      bool operator==(const Iterator& o) const { return i_ == o.i_; }
      bool operator!=(const Iterator& o) const { return i_ != o.i_; }
     private:
      std::map<void*, void*>::iterator i_;
    };
    Iterator begin() const { return Iterator(s_->perThread.begin()); }
    Iterator end() const { return Iterator(s_->perThread.end()); }
   private:
    std::shared_ptr<shim::TlState> s_;
    std::unique_lock<std::mutex> l_;
  };
  Accessor accessAllThreads() const { return Accessor(s_); }
 private:
  std::shared_ptr<shim::TlState> s_;
};
template <class T, class Tag = void, class Access = void>
class ThreadLocal {
 public:
  T* get() const { T* p = p_.get(); if (!p) { p = new T(); p_.reset(p); } return p; }
  T* operator->() const { return get(); }
  T& operator*() const { return *get(); }
  typename ThreadLocalPtr<T, Tag>::Accessor accessAllThreads() const { return p_.accessAllThreads(); }
 private:
  mutable ThreadLocalPtr<T, Tag> p_;
};
}  // namespace folly
