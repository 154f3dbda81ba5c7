#pragma once
// Directory trees, a small regex AST with its own matcher, and helpers.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"
struct Rx {
  enum K { LIT, ANY, CLS, NCLS, CAT, ALT, STAR, PLUS, OPT, EMPTY } k{EMPTY};
  char ch{0};
  std::string set;
  std::vector<std::shared_ptr<Rx>> sub;
  using P = std::shared_ptr<Rx>;
  static P lit(char c) { auto r = std::make_shared<Rx>(); r->k = LIT; r->ch = c; return r; }
  static P mk(K k, std::vector<P> s = {}) { auto r = std::make_shared<Rx>(); r->k = k; r->sub = std::move(s); return r; }
  static P cls(const std::string& s, bool neg) { auto r = std::make_shared<Rx>(); r->k = neg ? NCLS : CLS; r->set = s; return r; }
  static P text(const std::string& s) {
    std::vector<P> v;
    for (char c : s) v.push_back(lit(c));
    return mk(CAT, v);
  }
  bool hasStar() const {
    if (k == STAR || k == PLUS) return true;
    for (auto& s : sub) if (s->hasStar()) return true;
    return false;
  }
  // ECMAScript source text
  std::string src() const {
    switch (k) {
      case LIT: return std::string(strchr("^$\\.*+?()[]{}|", ch) && ch ? "\\" : "") + ch;
      case ANY: return ".";
      case CLS: return "[" + set + "]";
      case NCLS: return "[^" + set + "]";
      case CAT: { std::string r; for (auto& s : sub) r += s->k == ALT ? "(" + s->src() + ")" : s->src(); return r; }
      case ALT: { std::string r; for (size_t i = 0; i < sub.size(); i++) r += (i ? "|" : "") + sub[i]->src(); return r; }
      case STAR: return "(" + sub[0]->src() + ")*";
      case PLUS: return "(?:" + sub[0]->src() + ")+";
      case OPT: return "(" + sub[0]->src() + ")?";
      default: return "";
    }
  }
  // positions reachable after matching from the given positions
  std::set<size_t> step(const std::string& s, const std::set<size_t>& from) const {
    std::set<size_t> r;
    switch (k) {
      case LIT: for (size_t p : from) if (p < s.size() && s[p] == ch) r.insert(p + 1); return r;
      case ANY: for (size_t p : from) if (p < s.size() && s[p] != '\n' && s[p] != '\r') r.insert(p + 1); return r;
      case CLS: case NCLS:
        for (size_t p : from) if (p < s.size() && (set.find(s[p]) != std::string::npos) == (k == CLS)) r.insert(p + 1);
        return r;
      case CAT: r = from; for (auto& x : sub) r = x->step(s, r); return r;
      case ALT: for (auto& x : sub) { auto q = x->step(s, from); r.insert(q.begin(), q.end()); } return r;
      case OPT: r = sub[0]->step(s, from); r.insert(from.begin(), from.end()); return r;
      case STAR: case PLUS: {
        std::set<size_t> cur = from;
        if (k == STAR) r = from;
        while (true) {
          cur = sub[0]->step(s, cur);
          size_t n = r.size();
          r.insert(cur.begin(), cur.end());
          if (r.size() == n) return r;
        }
      }
      default: return from;
    }
  }
  bool match(const std::string& s) const { return step(s, {0}).count(s.size()) > 0; }
};
inline Rx::P dotStar() { return Rx::mk(Rx::STAR, {Rx::mk(Rx::ANY)}); }
// a pattern matching (usually) some of the given strings
// At most a few quantifiers per pattern: std::regex backtracks exponentially.
inline Rx::P genRxB(pbt::Case& c, const std::vector<std::string>& paths, int depth, int& budget) {
  using R = Rx;
  const std::string alpha = "ab.-x/ ";
  switch (depth > 0 ? c.draw(6) : c.draw(3)) {
    case 0: {  // from a path, pieces replaced by wildcards
      std::string p = paths.empty() ? c.str(0, 6, alpha) : paths[c.draw(paths.size() - 1)];
      std::vector<R::P> v;
      for (size_t i = 0; i < p.size();) {
        size_t w = c.weighted({6, 1, 1, 1, 1, 1});
        if ((w == 2 || w == 5) && budget-- <= 0) w = 1;
        switch (w) {
          case 1: v.push_back(R::mk(R::ANY)); i++; break;
          case 2: v.push_back(dotStar()); i += c.range(0, p.size() - i); break;
          case 3: v.push_back(R::cls(std::string(1, (unsigned char)p[i] < 128 && isalnum(p[i]) ? p[i] : 'q') + "b", false)); i++; break;
          case 4: v.push_back(R::cls(c.flip() ? "/" : "a", true)); i++; break;
          case 5: v.push_back(R::mk(c.flip() ? R::PLUS : R::OPT, {R::lit(p[i])})); i++; break;
          default: v.push_back(R::lit(p[i])); i++;
        }
      }
      return R::mk(R::CAT, v);
    }
    case 1: {  // suffix
      std::string p = paths.empty() ? "a" : paths[c.draw(paths.size() - 1)];
      size_t k = c.range(0, p.size());
      return R::mk(R::CAT, {dotStar(), R::text(p.substr(k))});
    }
    case 2: {  // prefix
      std::string p = paths.empty() ? "a" : paths[c.draw(paths.size() - 1)];
      size_t k = c.range(0, p.size());
      return R::mk(R::CAT, {R::text(p.substr(0, k)), dotStar()});
    }
    case 3: return R::text(paths.empty() ? c.str(0, 6, alpha) : paths[c.draw(paths.size() - 1)]);
    case 4: return R::mk(R::ALT, {genRxB(c, paths, depth - 1, budget), genRxB(c, paths, depth - 1, budget)});
    case 5: return R::mk(R::CAT, {dotStar(), R::text(c.str(0, 2, alpha)), dotStar()});
    default: {
      auto x = R::text(c.str(1, 2, alpha));
      return R::mk(R::CAT, {R::mk(budget-- > 0 ? (c.flip() ? R::PLUS : R::STAR) : R::OPT, {x}), genRxB(c, paths, depth - 1, budget)});
    }
  }
}
inline Rx::P genRx(pbt::Case& c, const std::vector<std::string>& paths, int depth = 2) {
  int budget = 2;
  return genRxB(c, paths, depth, budget);
}
inline std::string genName(pbt::Case& c) {
  static const std::vector<std::string> fixed{"a", "b", "ab", "aa", "ba", "a.b", "x", "x x", ".a", "..a", "...", "-a", "a-", "\xc3\xa9", "a\\b", "*", "$a", "a(1)", "A"};
  if (c.chance(1, 30)) return std::string(c.logRange(1, 250), 'n') + c.str(0, 2, "ab");
  if (c.flip()) return fixed[c.draw(fixed.size() - 1)];
  return c.str(1, 3, "abx.") == "." ? "c" : c.str(1, 4, "abcdx");
}
inline void rmTree(const std::string& path) {
  struct stat st;
  if (lstat(path.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR* d = opendir(path.c_str())) {
      std::vector<std::string> n;
      while (auto* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
      closedir(d);
      for (auto& x : n) rmTree(path + "/" + x);
    }
    rmdir(path.c_str());
  } else {
    unlink(path.c_str());
  }
}
// relative path -> content of every regular file; other entries are listed with a marker
inline void snapshot(const std::string& root, const std::string& rel, std::map<std::string, std::string>& out, bool content) {
  DIR* d = opendir((root + "/" + rel).c_str());
  if (!d) { out[rel] = "<unreadable>"; return; }
  std::vector<std::string> n;
  while (auto* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
  closedir(d);
  for (auto& x : n) {
    std::string r = rel + x, f = root + "/" + r;
    struct stat st;
    if (lstat(f.c_str(), &st)) { out[r] = "<gone>"; continue; }
    if (S_ISDIR(st.st_mode)) {
      out[r + "/"] = "<dir>";
      snapshot(root, r + "/", out, content);
    } else if (S_ISREG(st.st_mode)) {
      if (content) {
        std::string s;
        int fd = open(f.c_str(), O_RDONLY);
        s.resize(st.st_size);
        size_t got = 0;
        while (got < s.size()) {
          ssize_t k = ::read(fd, &s[got], s.size() - got);
          if (k <= 0) break;
          got += k;
        }
        s.resize(got);
        ::close(fd);
        out[r] = "f" + s;
      } else {
        out[r] = "f" + std::to_string(st.st_size);
      }
    } else if (S_ISLNK(st.st_mode)) {
      char b[4096];
      ssize_t k = readlink(f.c_str(), b, sizeof b);
      out[r] = "<link>" + std::string(b, k > 0 ? k : 0);
    } else {
      out[r] = "<other>";
    }
  }
}
