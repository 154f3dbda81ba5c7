// Minimal stand-in for folly/FileUtil.h.
#pragma once
#include <cstdio>
#include <string>
namespace folly {
template <class C> bool readFile(const char* n, C& out) {
  FILE* f = fopen(n, "rb");
  if (!f) return false;
  out.clear();
  char b[65536];
  size_t r;
  while ((r = fread(b, 1, sizeof b, f)) > 0) out.insert(out.end(), b, b + r);
  fclose(f);
  return true;
}
template <class C> bool writeFile(const C& d, const char* n) {
  FILE* f = fopen(n, "wb");
  if (!f) return false;
  bool ok = d.size() == 0 || fwrite(d.data(), 1, d.size(), f) == d.size();
  return fclose(f) == 0 && ok;
}
}  // namespace folly
