// Compile-time constants and doubles as the specification's exact numbers.
#pragma once
#include <stator/symbolic/symbolic.hpp>
#include <cmath>
#include <string>
inline std::string jint(std::intmax_t v) {
  bool neg = v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v;
  std::string r = "[" + std::to_string(v == 0 ? 0 : neg ? -1 : 1); for (char ch : std::to_string(u)) r += std::string(",") + ch;
  return r + "]";
}
template <std::intmax_t n, std::intmax_t d> std::string jrat(const sym::C<n, d>&) { return "{\"n\":" + jint(n) + ",\"d\":" + jint(d) + "}"; }
inline std::string jbits(double d) {
  int e; double m = std::frexp(std::fabs(d), &e); long mi = long(std::ldexp(m, 53)); e -= 53;
  if (!mi) e = 0;
  return "{\"s\":" + std::to_string(d < 0 ? -1 : d > 0) + ",\"hi\":" + std::to_string(mi >> 26) + ",\"lo\":" + std::to_string(mi & ((1L << 26) - 1)) + ",\"x\":" + std::to_string(e) + "}";
}
