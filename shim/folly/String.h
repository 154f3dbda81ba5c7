// Minimal stand-in for folly/String.h.
#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
namespace folly {
inline std::string hexlify(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
inline std::string backslashify(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '\\') r += "\\\\";
    else if (c >= 32 && c < 127) r += (char)c;
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r;
}
inline std::string humanify(const std::string& s) {
  size_t np = 0;
  for (unsigned char c : s) np += !(c >= 32 && c < 127 && c != '\\');
  if (np == 0) return s;
  if (np * 2 > s.size()) return "0x" + hexlify(s);
  return backslashify(s);
}
inline std::string errnoStr(int e) {
  char b[256] = {0};
  return strerror_r(e, b, sizeof b);
}
template <class D, class V>
void split(const D& delim, StringPiece s, V& out, bool ignoreEmpty = false) {
  std::string d;
  shim::app(&d, delim);
  size_t start = 0;
  std::string str = s.str();
  while (true) {
    size_t i = d.empty() ? std::string::npos : str.find(d, start);
    StringPiece tok = i == std::string::npos ? s.subpiece(start) : s.subpiece(start, i - start);
    if (!ignoreEmpty || !tok.empty()) out.push_back(typename V::value_type(tok.str()));
    if (i == std::string::npos) break;
    start = i + d.size();
  }
}
template <class D, class C>
std::string join(const D& delim, const C& c) {
  std::string r;
  bool first = true;
  for (const auto& x : c) { if (!first) shim::app(&r, delim); first = false; shim::app(&r, x); }
  return r;
}
inline std::string stringPrintf(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
inline StringPiece trimWhitespace(StringPiece s) {
  while (!s.empty() && isspace((unsigned char)s.front())) s.advance(1);
  while (!s.empty() && isspace((unsigned char)s.back())) s.subtract(1);
  return s;
}
}  // namespace folly
