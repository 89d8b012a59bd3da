// Numbers and operators as the specification names them.
#pragma once
#include <stator/symbolic/symbolic.hpp>
#include "mj.hpp"
#include <cfenv>
#include <cmath>
#include <sstream>
#ifndef FIELD_P
#define FIELD_P 10007L
#endif
inline std::string jconst(double v) {
  std::ostringstream os;
  if (std::isnan(v)) return "{\"k\":\"nan\"}";
  if (std::isinf(v)) return std::string("{\"k\":\"inf\",\"s\":") + (v > 0 ? "1" : "-1") + "}";
  int e; double m = std::frexp(v, &e); long mi = (long)std::ldexp(m, 53); e -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; ++e; }
  if (!mi) e = 0;
  long r = mj::modp(mi, FIELD_P);
  r = r * (e >= 0 ? mj::powp(2, e, FIELD_P) : mj::powp(mj::powp(2, -e, FIELD_P), FIELD_P - 2, FIELD_P)) % FIELD_P;
  char hx[64]; snprintf(hx, 64, "%.17g", v);
  os << "{\"k\":\"c\",\"r\":" << r;
  if (e >= 0 && e <= 20 && std::labs(mi) < (1L << 20) && std::labs(mi) * (1L << e) < (1L << 20)) os << ",\"n\":" << mi * (1L << e) << ",\"d\":1";
  else if (e < 0 && e >= -20 && std::labs(mi) < (1L << 20)) os << ",\"n\":" << mi << ",\"d\":" << (1L << -e);
  os << ",\"x\":\"" << hx << "\"}";
  return os.str();
}
inline std::string opname(sym::detail::Sine) { return "sin"; }
inline std::string opname(sym::detail::Cosine) { return "cos"; }
inline std::string opname(sym::detail::Exp) { return "exp"; }
inline std::string opname(sym::detail::Log) { return "ln"; }
inline std::string opname(sym::detail::Absolute) { return "abs"; }
inline std::string opname(sym::detail::Arbsign) { return "arb"; }
inline std::string opname(sym::detail::Negate) { return "neg"; }
inline std::string opname(sym::detail::Add) { return "+"; }
inline std::string opname(sym::detail::Subtract) { return "-"; }
inline std::string opname(sym::detail::Multiply) { return "*"; }
inline std::string opname(sym::detail::Divide) { return "/"; }
inline std::string opname(sym::detail::Power) { return "^"; }
inline std::string opname(sym::detail::Equality) { return "="; }
inline std::string opname(sym::detail::ArrayAccess) { return "idx"; }
inline std::string opname(sym::detail::Units) { return "units"; }
inline std::string opname(sym::detail::Uncertainty) { return "unc"; }
// texts travel as arrays of one-character names
inline std::string jtext(const std::string &s) {
  std::string r = "["; char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) r += ",";
    if (s[i] == '\xc2' && i + 1 < s.size() && s[i + 1] == '\xb1') { r += "\"+-\""; ++i; }
    else if ((unsigned char)s[i] >= 0x80) { snprintf(b, 8, "\"<%02x>\"", (unsigned char)s[i]); r += b; }
    else r += mj::esc(std::string(1, s[i]));
  }
  return r + "]";
}
