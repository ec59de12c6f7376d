// Small helpers shared by the harnesses: script input and JSON output.
#ifndef VERIF_H_H_
#define VERIF_H_H_
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct Line {
  std::vector<std::string> a;
  const std::string& operator[](size_t i) const {
    static const std::string e;
    return i < a.size() ? a[i] : e;
  }
  size_t size() const { return a.size(); }
  long long i(size_t k) const { return strtoll((*this)[k].c_str(), 0, 10); }
  unsigned long long u(size_t k) const { return strtoull((*this)[k].c_str(), 0, 10); }
  double d(size_t k) const { return strtod((*this)[k].c_str(), 0); }
};

// Reads the next script (lines up to END); false at end of input.
inline bool NextScript(std::vector<Line>* out) {
  out->clear();
  std::string s;
  bool any = false;
  while (std::getline(std::cin, s)) {
    any = true;
    if (s == "END") return true;
    Line l;
    std::istringstream is(s);
    std::string w;
    while (is >> w) l.a.push_back(w);
    if (!l.a.empty()) out->push_back(l);
  }
  return any && !out->empty();
}

inline int HexV(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline std::string UnHex(const std::string& h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)(HexV(h[i]) * 16 + HexV(h[i + 1])));
  return r;
}
inline std::string Hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string r;
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { r.push_back(d[b[i] >> 4]); r.push_back(d[b[i] & 15]); }
  return r;
}
inline std::string Hex(const std::string& s) { return Hex(s.data(), s.size()); }

// JSON text builder.
struct J {
  std::string s;
  bool first = true;
  std::vector<char> st;
  void comma() { if (!first) s += ','; first = false; }
  J& obj() { comma(); s += '{'; first = true; st.push_back('}'); return *this; }
  J& arr() { comma(); s += '['; first = true; st.push_back(']'); return *this; }
  J& end() { s += st.back(); st.pop_back(); first = false; return *this; }
  J& key(const char* k) { comma(); s += '"'; s += k; s += "\":"; first = true; return *this; }
  J& num(long long v) { comma(); s += std::to_string(v); return *this; }
  J& str(const std::string& v) {  // v must be plain text
    comma(); s += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { s += '\\'; s += (char)c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
      else s += (char)c;
    }
    s += '"'; return *this;
  }
  J& boolean(bool b) { comma(); s += b ? "true" : "false"; return *this; }
  J& raw(const std::string& v) { comma(); s += v; return *this; }
  J& bytes(const std::string& v) {  // as array of ints
    arr(); for (unsigned char c : v) num(c); end(); return *this;
  }
  J& kn(const char* k, long long v) { return key(k).num(v); }
  J& ks(const char* k, const std::string& v) { return key(k).str(v); }
};
inline void Emit(const J& j) { fputs(j.s.c_str(), stdout); fputc('\n', stdout); fflush(stdout); }

// Deterministic payload bytes from (seed, length): same function in gen/ebml.py.
inline std::string Payload(uint32_t seed, size_t n) {
  std::string r(n, 0);
  uint32_t x = seed * 2654435761u + 12345u;
  for (size_t i = 0; i < n; ++i) {
    if (i >= 2039) { r[i] = r[i - 2039]; continue; }
    x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    r[i] = (char)(x >> 11);
  }
  return r;
}
#endif
