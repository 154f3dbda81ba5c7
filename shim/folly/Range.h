// Minimal stand-in for folly/Range.h (folly is not installed in this sandbox).
// Same semantics as folly for the members provided.
#pragma once
#include <algorithm>
#include <cstring>
#include <cstdint>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
namespace folly {
template <class Iter>
class Range {
 public:
  typedef std::size_t size_type;
  typedef Iter iterator;
  typedef Iter const_iterator;
  typedef typename std::remove_reference<decltype(*std::declval<Iter>())>::type value_type_c;
  typedef typename std::remove_const<value_type_c>::type value_type;
  static const size_type npos = size_type(-1);
  constexpr Range() : b_(), e_() {}
  constexpr Range(Iter b, Iter e) : b_(b), e_(e) {}
  constexpr Range(Iter b, size_type n) : b_(b), e_(b + n) {}
  template <class T = value_type, typename std::enable_if<std::is_same<T, char>::value, int>::type = 0>
  Range(const char* s) : b_(s), e_(s + strlen(s)) {}
  template <class T = value_type, typename std::enable_if<std::is_same<T, char>::value, int>::type = 0>
  Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class T = value_type, typename std::enable_if<std::is_same<T, char>::value, int>::type = 0>
  Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class T = value_type, typename std::enable_if<std::is_same<T, char>::value, int>::type = 0>
  Range(const std::string& s, size_type off) {
    if (off > s.size()) throw std::out_of_range("index out of range");
    b_ = s.data() + off;
    e_ = s.data() + s.size();
  }
  template <class T = value_type, typename std::enable_if<std::is_same<T, char>::value, int>::type = 0>
  Range(const std::string& s, size_type off, size_type n) {
    if (off > s.size()) throw std::out_of_range("index out of range");
    b_ = s.data() + off;
    e_ = b_ + std::min(n, s.size() - off);
  }
  template <class It2, typename std::enable_if<!std::is_same<It2, Iter>::value && std::is_same<value_type, unsigned char>::value && std::is_same<It2, const char*>::value, int>::type = 0>
  explicit Range(const Range<It2>& o)
      : b_(reinterpret_cast<Iter>(o.begin())), e_(reinterpret_cast<Iter>(o.end())) {}
  template <class It2, typename std::enable_if<!std::is_same<It2, Iter>::value && std::is_same<value_type, char>::value && std::is_same<It2, const unsigned char*>::value, int>::type = 0, class = void>
  explicit Range(const Range<It2>& o)
      : b_(reinterpret_cast<Iter>(o.begin())), e_(reinterpret_cast<Iter>(o.end())) {}
  void clear() { b_ = Iter(); e_ = Iter(); }
  void assign(Iter b, Iter e) { b_ = b; e_ = e; }
  void reset(Iter b, size_type n) { b_ = b; e_ = b + n; }
  constexpr size_type size() const { return size_type(e_ - b_); }
  constexpr bool empty() const { return b_ == e_; }
  constexpr Iter data() const { return b_; }
  constexpr Iter start() const { return b_; }
  constexpr Iter begin() const { return b_; }
  constexpr Iter end() const { return e_; }
  value_type_c& front() const { return *b_; }
  value_type_c& back() const { return *(e_ - 1); }
  value_type_c& operator[](size_type i) const { return b_[i]; }
  value_type_c& at(size_type i) const {
    if (i >= size()) throw std::out_of_range("index out of range");
    return b_[i];
  }
  void advance(size_type n) {
    if (n > size()) throw std::out_of_range("index out of range");
    b_ += n;
  }
  void uncheckedAdvance(size_type n) { b_ += n; }
  void subtract(size_type n) {
    if (n > size()) throw std::out_of_range("index out of range");
    e_ -= n;
  }
  void pop_front() { if (b_ == e_) throw std::out_of_range("pop_front"); ++b_; }
  void pop_back() { if (b_ == e_) throw std::out_of_range("pop_back"); --e_; }
  Range subpiece(size_type first, size_type len = npos) const {
    if (first > size()) throw std::out_of_range("index out of range");
    return Range(b_ + first, std::min(len, size() - first));
  }
  std::string str() const { return std::string(b_, e_); }
  std::string toString() const { return str(); }
  std::basic_string<value_type> fbstr() const { return std::basic_string<value_type>(b_, e_); }
  int compare(const Range& o) const {
    size_type n = std::min(size(), o.size());
    for (size_type i = 0; i < n; i++) {
      if (b_[i] != o.b_[i]) {
        return (unsigned char)b_[i] < (unsigned char)o.b_[i] ? -1 : 1;
      }
    }
    return size() < o.size() ? -1 : (size() > o.size() ? 1 : 0);
  }
  size_type find(value_type c, size_type pos = 0) const {
    for (size_type i = pos; i < size(); i++) if (b_[i] == c) return i;
    return npos;
  }
  size_type find(const Range& o, size_type pos = 0) const {
    if (pos > size()) return npos;
    auto it = std::search(b_ + pos, e_, o.b_, o.e_);
    if (it == e_ && o.size() > 0) return npos;
    return size_type(it - b_);
  }
  size_type rfind(value_type c) const {
    for (size_type i = size(); i > 0; i--) if (b_[i - 1] == c) return i - 1;
    return npos;
  }
  bool contains(value_type c) const { return find(c) != npos; }
  bool startsWith(const Range& o) const { return size() >= o.size() && Range(b_, o.size()).compare(o) == 0; }
  bool startsWith(value_type c) const { return !empty() && front() == c; }
  bool endsWith(const Range& o) const { return size() >= o.size() && Range(e_ - o.size(), o.size()).compare(o) == 0; }
  bool endsWith(value_type c) const { return !empty() && back() == c; }
  bool removePrefix(const Range& o) { if (!startsWith(o)) return false; b_ += o.size(); return true; }
  bool removePrefix(value_type c) { if (!startsWith(c)) return false; ++b_; return true; }
  bool removeSuffix(const Range& o) { if (!endsWith(o)) return false; e_ -= o.size(); return true; }
  Range split_step(value_type d) {
    size_type i = find(d);
    Range r(b_, i == npos ? size() : i);
    b_ = (i == npos) ? e_ : b_ + i + 1;
    return r;
  }
  Range split_step(const Range& d) {
    size_type i = find(d);
    Range r(b_, i == npos ? size() : i);
    b_ = (i == npos) ? e_ : b_ + i + d.size();
    return r;
  }
  template <class T = value_type, typename std::enable_if<std::is_same<T, char>::value, int>::type = 0>
  operator std::string_view() const { return std::string_view(b_, size()); }
  explicit operator std::string() const { return str(); }
 private:
  Iter b_, e_;
};
template <class I> const typename Range<I>::size_type Range<I>::npos;
template <class I> bool operator==(const Range<I>& a, const Range<I>& b) { return a.size() == b.size() && a.compare(b) == 0; }
template <class I> bool operator!=(const Range<I>& a, const Range<I>& b) { return !(a == b); }
template <class I> bool operator<(const Range<I>& a, const Range<I>& b) { return a.compare(b) < 0; }
typedef Range<const char*> StringPiece;
typedef Range<char*> MutableStringPiece;
typedef Range<const unsigned char*> ByteRange;
typedef Range<unsigned char*> MutableByteRange;
#define FOLLY_SHIM_CMP(op)                                                                             \
  inline bool operator op(const StringPiece& a, const std::string& b) { return a op StringPiece(b); } \
  inline bool operator op(const std::string& a, const StringPiece& b) { return StringPiece(a) op b; } \
  inline bool operator op(const StringPiece& a, const char* b) { return a op StringPiece(b); }        \
  inline bool operator op(const char* a, const StringPiece& b) { return StringPiece(a) op b; }
FOLLY_SHIM_CMP(==)
FOLLY_SHIM_CMP(!=)
FOLLY_SHIM_CMP(<)
inline std::ostream& operator<<(std::ostream& o, const StringPiece& s) { return o.write(s.data(), s.size()); }
}  // namespace folly
