// Shared by the polynomial harnesses: exact transport of numbers and dispatch over template orders.
#pragma once
#include <stator/symbolic/symbolic.hpp>
#include "mj.hpp"
#include <iostream>
#include <fstream>
#include <cmath>
#include <cfenv>
#ifndef FIELD_P
#define FIELD_P 10007L
#endif
using namespace sym;
static const long INFP = 20001, INFM = 20002, NANV = 20003;
// residue of a finite double modulo FIELD_P
inline long res(double v) {
  if (std::isnan(v)) return NANV;
  if (std::isinf(v)) return v > 0 ? INFP : INFM;
  int e; double m = std::frexp(v, &e); long mi = (long)std::ldexp(m, 53); e -= 53;
  long r = mj::modp(mi, FIELD_P);
  return r * (e >= 0 ? mj::powp(2, e, FIELD_P) : mj::powp(mj::powp(2, -e, FIELD_P), FIELD_P - 2, FIELD_P)) % FIELD_P;
}
inline double num(const mj::V &c) { return c.t != mj::V::ARR ? c.n : std::ldexp(c.a.at(0).n / c.a.at(1).n, c.a.size() == 3 ? (int)c.a[2].n : 0); }
template <size_t N, class R = double> Polynomial<N, R> mk(const mj::V &c) { Polynomial<N, R> f; for (size_t i = 0; i <= N; ++i) f[i] = R(num(c.a.at(i))); return f; }
template <class It> std::string seq(It b, It e) { std::string s = "["; bool first = true; for (; b != e; ++b) { if (!first) s += ","; first = false; s += std::to_string(res(double(*b))); } return s + "]"; }
template <size_t N, class R> std::string pj(const Polynomial<N, R> &f) { return seq(f.begin(), f.end()); }
template <size_t N> struct O { static constexpr size_t v = N; };
template <size_t LO, size_t HI, class F> void withN(size_t n, F f) {
  if constexpr (LO <= HI) { if (n == LO) f(O<LO>()); else withN<LO + 1, HI>(n, f); }
  else throw std::runtime_error("order out of range"); }
inline void clr() { std::feclearexcept(FE_ALL_EXCEPT); }
inline std::string fl() { return std::string(",\"fi\":") + (std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_INVALID) ? "1" : "0"); }
void run(const mj::V &c, std::string &out);
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); std::ofstream os(argv[2], std::ios::app);
  long skip = argc > 3 ? atol(argv[3]) : 0; std::string line; long n = 0;
  while (std::getline(in, line)) {
    if (n++ < skip) continue;
    std::string out = "{\"i\":" + std::to_string(n - 1);
    try { mj::V c = mj::parse(line); run(c, out); }
    catch (stator::Exception &e) { out += ",\"exc\":\"stator\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    catch (std::exception &e) { out += ",\"exc\":\"std\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    os << out << "}" << std::endl;
  }
}
