// Coefficients as residues (and their bits, for the rounding arbiter)
#pragma once
#include <cfenv>
#include <cmath>
#include <string>
#include "mj.hpp"
inline long residue(double v) {
  if (!std::isfinite(v)) return -3;
  int e; double m = std::frexp(v, &e); long mi = (long)std::ldexp(m, 53); e -= 53;
  long r = mj::modp(mi, 10007L);
  return r * (e >= 0 ? mj::powp(2, e, 10007L) : mj::powp(mj::powp(2, -e, 10007L), 10007L - 2, 10007L)) % 10007L;
}
template<class M> std::string adout(const M& r) {
  int fi = std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_INVALID | FE_DIVBYZERO) != 0;
  std::string a = ",\"fi\":" + std::to_string(fi) + ",\"r\":[", b = "],\"v\":[";
  for (long k = 0; k < r.size(); ++k) { char h[40]; snprintf(h, 40, "%.17g", r[k]); a += (k ? "," : "") + std::to_string(residue(r[k])); b += std::string(k ? "," : "") + "\"" + h + "\""; }
  return a + b + "]";
}
