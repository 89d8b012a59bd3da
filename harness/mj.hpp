// Minimal JSON reader used by every harness (kept tiny so that harness compile time is spent on stator).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <stdexcept>
namespace mj {
struct V {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  double n = 0; std::string s; std::vector<V> a; std::map<std::string, V> o;
  const V &operator[](const char *k) const { auto it = o.find(k); if (it == o.end()) throw std::runtime_error(std::string("missing field ") + k); return it->second; }
  const V &operator[](size_t i) const { return a.at(i); }
  bool has(const char *k) const { return o.count(k) != 0; }
  long i() const { return (long)n; }
};
struct P {
  const char *p;
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
  std::string str() {
    std::string r; ++p;
    while (*p && *p != '"') {
      if (*p == '\\') { ++p;
        switch (*p) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
          case 'u': { unsigned c = strtoul(std::string(p + 1, 4).c_str(), 0, 16); p += 4;
            if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 63)); }
            else { r += char(0xE0 | (c >> 12)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); } } break;
          default: r += *p; }
        ++p; }
      else r += *p++; }
    ++p; return r; }
  V val() { ws(); V v;
    if (*p == '{') { v.t = V::OBJ; ++p; ws(); while (*p != '}') { ws(); std::string k = str(); ws(); ++p; v.o[k] = val(); ws(); if (*p == ',') ++p; ws(); } ++p; }
    else if (*p == '[') { v.t = V::ARR; ++p; ws(); while (*p != ']') { v.a.push_back(val()); ws(); if (*p == ',') ++p; ws(); } ++p; }
    else if (*p == '"') { v.t = V::STR; v.s = str(); }
    else if (!strncmp(p, "true", 4)) { v.t = V::BOOL; v.n = 1; p += 4; }
    else if (!strncmp(p, "false", 5)) { v.t = V::BOOL; p += 5; }
    else if (!strncmp(p, "null", 4)) { p += 4; }
    else { v.t = V::NUM; char *e; v.n = strtod(p, &e); if (e == p) throw std::runtime_error("bad json"); p = e; }
    return v; }
};
inline V parse(const std::string &s) { P q{s.c_str()}; return q.val(); }
inline std::string esc(const std::string &s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c >= 0x80) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\""; }
// Exact residue of a finite double modulo a small prime: every finite double is m*2^e.
inline long modp(long a, long p) { a %= p; return a < 0 ? a + p : a; }
inline long powp(long b, long e, long p) { long r = 1; b = modp(b, p); while (e) { if (e & 1) r = r * b % p; b = b * b % p; e >>= 1; } return r; }
}
