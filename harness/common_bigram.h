#pragma once
#include <cctype>
#include <string>
#include <utility>
#include <vector>
// Decodes the printable form of a pair independently of the code under test:
// tries every split of the body into two single-byte escapes.
inline bool decodeOne(const std::string& s, unsigned char& c) {
  if (s.empty()) return false;
  if (s[0] != '\\') {
    if (s.size() != 1 || s[0] == '"') return false;
    unsigned char u = s[0];
    if (u < 32 || u > 126) return false;
    c = u;
    return true;
  }
  if (s.size() == 2 && (s[1] == '\\' || s[1] == '"')) {
    c = s[1];
    return true;
  }
  if (s.size() >= 3 && s.size() <= 5 && s[1] == '0') {
    unsigned v = 0;
    for (size_t i = 2; i < s.size(); i++) {
      if (s[i] < '0' || s[i] > '7') return false;
      v = v * 8 + (s[i] - '0');
    }
    if (v > 255) return false;
    if (v >= 32 && v < 127) return false;  // printable bytes are not escaped
    if (s.size() > 3 && s[2] == '0') return false;  // canonical octal
    c = v;
    return true;
  }
  return false;
}
inline std::vector<std::pair<unsigned char, unsigned char>> decodePair(const std::string& printable) {
  std::vector<std::pair<unsigned char, unsigned char>> r;
  if (printable.size() < 6 || printable.compare(0, 2, "{\"") != 0 || printable.compare(printable.size() - 2, 2, "\"}") != 0) return r;
  std::string b = printable.substr(2, printable.size() - 4);
  for (size_t i = 1; i < b.size(); i++) {
    unsigned char x, y;
    if (decodeOne(b.substr(0, i), x) && decodeOne(b.substr(i), y)) r.emplace_back(x, y);
  }
  return r;
}
