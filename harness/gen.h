// Helpers for the generators.
#pragma once
#include "core.h"
#include <cstring>
#include <algorithm>
typedef std::vector<std::string> VS;
typedef const VS& CVS;

inline const std::string& one(Chooser& c, CVS v) { return v[c.pick((int)v.size())]; }

// Collects lines into sessions of up to n lines, so that one execution decides many of them.
struct Batch {
  Ctx& c; VS argv, prefix, suffix; size_t n; VS lines; std::map<std::string, std::string> files;
  Batch(Ctx& c, const VS& prefix, size_t n = 24, const VS& argv = {"-q"}) : c(c), argv(argv), prefix(prefix), n(n) {}
  ~Batch() noexcept(false) { if (!lines.empty()) flush(); }
  void add(const std::string& l) { lines.push_back(l); if (lines.size() >= n) flush(); }
  void add(std::initializer_list<std::string> ls) { for (auto& l : ls) lines.push_back(l); if (lines.size() >= n) flush(); }
  void flush() {
    VS l; l.swap(lines);
    if (!c.take()) return;
    Case k; k.argv = argv; k.files = files;
    for (const VS* v : {(const VS*)&prefix, (const VS*)&l, (const VS*)&suffix}) for (auto& s : *v) for (auto& x : lines_of(s)) k.in.push_back(x);
    c.model(k);
  }
};
inline VS split(const std::string& s, char sep = '|') { VS v; size_t p = 0; for (;;) { size_t e = sep == '|' ? line_bar(s, p) : s.find(sep, p); if (e == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, e - p)); p = e + 1; } }
inline std::string num(long v) { return std::to_string(v); }
inline std::string rep(const std::string& s, size_t n) { std::string o; while (n--) o += s; return o; }
// every string over an alphabet up to a length
template<class F> void strings(const VS& alphabet, int maxlen, F f) {
  std::vector<int> d;
  for (int len = 0; len <= maxlen; len++) {
    d.assign(len, 0);
    for (;;) {
      std::string s; for (int x : d) s += alphabet[x];
      f(s);
      int i = len - 1; while (i >= 0 && ++d[i] == (int)alphabet.size()) d[i--] = 0;
      if (i < 0) break;
    }
  }
}
// every sequence of elements, joined
template<class F> void sequences(const VS& alphabet, int minlen, int maxlen, F f) {
  std::vector<int> d;
  for (int len = minlen; len <= maxlen; len++) {
    d.assign(len, 0);
    for (;;) {
      VS s; for (int x : d) s.push_back(alphabet[x]);
      f(s);
      int i = len - 1; while (i >= 0 && ++d[i] == (int)alphabet.size()) d[i--] = 0;
      if (i < 0) break;
    }
  }
}
inline void model_program(Ctx& c, const std::string& p) { if (c.take()) c.model(program(p)); }
inline void model_session(Ctx& c, const std::string& p) { if (c.take()) c.model(session(p)); }
#define G(id) void gen_##id(Ctx& c)
