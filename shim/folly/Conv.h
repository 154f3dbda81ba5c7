// Minimal stand-in for folly/Conv.h: to<T>() and toAppend().
#pragma once
#include <folly/Range.h>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
namespace folly {
struct ConversionError : std::range_error {
  explicit ConversionError(const std::string& s) : std::range_error(s) {}
};
namespace shim {
inline void app(std::string* o, char c) { o->push_back(c); }
inline void app(std::string* o, const std::string& s) { o->append(s); }
inline void app(std::string* o, const char* s) { if (s) o->append(s); }
inline void app(std::string* o, StringPiece s) { o->append(s.data(), s.size()); }
inline void app(std::string* o, bool b) { o->push_back(b ? '1' : '0'); }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, char>::value && !std::is_same<T, bool>::value, int>::type = 0>
void app(std::string* o, T v) { o->append(std::to_string(v)); }
template <class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0>
void app(std::string* o, T v) { app(o, static_cast<typename std::underlying_type<T>::type>(v)); }
template <class T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
void app(std::string* o, T v) {
  char b[64];
  for (int p = 1; p <= 17; p++) {
    snprintf(b, sizeof b, "%.*g", p, (double)v);
    if (strtod(b, nullptr) == (double)v) break;
  }
  o->append(b);
}
inline void all(std::string*) {}
template <class A, class... R> void all(std::string* o, const A& a, const R&... r) { app(o, a); all(o, r...); }
template <class T> T parseInt(StringPiece s) {
  const char *b = s.begin(), *e = s.end();
  while (b < e && isspace((unsigned char)*b)) b++;
  if (b == e) throw ConversionError("Empty input string");
  bool neg = false;
  if (std::is_signed<T>::value && (*b == '-' || *b == '+')) { neg = *b == '-'; b++; }
  if (b == e || !isdigit((unsigned char)*b)) throw ConversionError("Non-digit character found");
  unsigned __int128 v = 0;
  unsigned __int128 lim = neg ? (unsigned __int128)1 + (unsigned __int128)std::numeric_limits<T>::max() : (unsigned __int128)std::numeric_limits<T>::max();
  while (b < e && isdigit((unsigned char)*b)) {
    v = v * 10 + (*b - '0');
    if (v > lim) throw ConversionError("Overflow during conversion");
    b++;
  }
  while (b < e && isspace((unsigned char)*b)) b++;
  if (b != e) throw ConversionError("Non-whitespace character found after end of conversion");
  return neg ? (T)(-(__int128)v) : (T)v;
}
inline bool parseBool(StringPiece s) {
  const char *b = s.begin(), *e = s.end();
  while (b < e && isspace((unsigned char)*b)) b++;
  while (e > b && isspace((unsigned char)e[-1])) e--;
  if (b == e) throw ConversionError("Empty input string");
  std::string w;
  for (const char* p = b; p < e; p++) w += (char)tolower((unsigned char)*p);
  if (isdigit((unsigned char)w[0])) {
    unsigned long v = 0;
    for (char c : w) {
      if (!isdigit((unsigned char)c)) throw ConversionError("Non-whitespace character found after end of conversion");
      v = v * 10 + (c - '0');
      if (v > 1) throw ConversionError("Integer overflow when parsing bool (must be 0 or 1)");
    }
    return v == 1;
  }
  if (w == "y" || w == "yes" || w == "t" || w == "true" || w == "on") return true;
  if (w == "n" || w == "no" || w == "f" || w == "false" || w == "off") return false;
  throw ConversionError("Invalid value for bool");
}
template <class T, class S> struct ToImpl;
}  // namespace shim
template <class... A> void toAppendHelper(std::string* o, const A&... a) { shim::all(o, a...); }
namespace shim {
template <class A, class... R> std::string* lastOf(const A& a, const R&... r) {
  if constexpr (sizeof...(R) == 0) return a;
  else return lastOf(r...);
}
template <class A> void butLast(std::string*, const A&) {}
template <class A, class B, class... R> void butLast(std::string* o, const A& a, const B& b, const R&... r) { app(o, a); butLast(o, b, r...); }
}  // namespace shim
template <class... A> void toAppend(const A&... a) { shim::butLast(shim::lastOf(a...), a...); }
template <class T, class... A>
typename std::enable_if<std::is_same<T, std::string>::value, T>::type to(const A&... a) {
  std::string s;
  shim::all(&s, a...);
  return s;
}
template <class T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, T>::type to(StringPiece s) { return shim::parseInt<T>(s); }
template <class T>
typename std::enable_if<std::is_same<T, bool>::value, T>::type to(StringPiece s) { return shim::parseBool(s); }
template <class T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type to(StringPiece s) {
  std::string str = s.str();
  char* end = nullptr;
  double d = strtod(str.c_str(), &end);
  while (*end && isspace((unsigned char)*end)) end++;
  if (str.empty() || *end) throw ConversionError("Unable to convert to floating point");
  return (T)d;
}
template <class T, class S>
typename std::enable_if<std::is_integral<T>::value && std::is_integral<S>::value && !std::is_same<T, bool>::value, T>::type to(S v) {
  if ((__int128)v < (__int128)std::numeric_limits<T>::min() || (__int128)v > (__int128)std::numeric_limits<T>::max()) throw ConversionError("Overflow during arithmetic conversion");
  return (T)v;
}
template <class T>
T to_or(StringPiece s, T d) { try { return to<T>(s); } catch (const std::exception&) { return d; } }
}  // namespace folly
