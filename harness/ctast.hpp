// Projection of compile-time expressions (types) to the specification's expression values.
#pragma once
#include "opnames.hpp"
template <std::intmax_t n, std::intmax_t d> std::string ctj(const sym::C<n, d>&) { return "{\"k\":\"c\",\"n\":" + std::to_string(n) + ",\"d\":" + std::to_string(d) + "}"; }
template <class T, typename = typename std::enable_if<std::is_arithmetic<T>::value>::type> std::string ctj(const T& v) { return jconst(double(v)); }
template <sym::conststr N, class... A> std::string ctj(const sym::Var<N, A...>&) { return "{\"k\":\"v\",\"s\":" + mj::esc(std::string(N)) + "}"; }
template <class A, class Op> std::string ctj(const sym::UnaryOp<A, Op>& u);
template <class L, class Op, class R> std::string ctj(const sym::BinaryOp<L, Op, R>& b);
template <size_t N, class T, class V> std::string ctj(const sym::Polynomial<N, T, V>& p);
template <class A, class Op> std::string ctj(const sym::UnaryOp<A, Op>& u) { return "{\"k\":\"u\",\"o\":\"" + opname(Op()) + "\",\"a\":" + ctj(u._arg) + "}"; }
template <class L, class Op, class R> std::string ctj(const sym::BinaryOp<L, Op, R>& b) {
  return "{\"k\":\"b\",\"o\":\"" + opname(Op()) + "\",\"l\":" + ctj(b._l) + ",\"r\":" + ctj(b._r) + "}"; }
template <size_t N, class T, class V> std::string ctj(const sym::Polynomial<N, T, V>& p) {   // Horner's form
  std::string v = ctj(V()), r = ctj(p[N]);
  for (size_t i = N; i-- > 0;) r = "{\"k\":\"b\",\"o\":\"+\",\"l\":" + ctj(p[i]) + ",\"r\":{\"k\":\"b\",\"o\":\"*\",\"l\":" + v + ",\"r\":" + r + "}}";
  return r;
}
inline int fiflag() { return std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_INVALID | FE_DIVBYZERO) != 0; }
template <class T> std::string ctout(const T& r) { int fi = fiflag(); return ",\"fi\":" + std::to_string(fi) + ",\"r\":" + ctj(r); }
#ifdef WITH_RUNTIME
#include "ast.hpp"
inline std::string rtout(const sym::Expr& r) { int fi = fiflag(); return ",\"fi\":" + std::to_string(fi) + ",\"r\":" + jast(r); }
// texts of a compile-time expression, and what the parser reads from them
template <class T> std::string txout(const T& e) {
  std::string s = sym::repr(e), f = sym::repr<stator::ReprConfig<stator::Force_parenthesis>>(e), l = sym::repr<stator::ReprConfig<stator::Latex_output>>(e);
  std::string out = ",\"s\":" + jtext(s) + ",\"f\":" + jtext(f) + ",\"l\":" + jtext(l);
  std::feclearexcept(FE_ALL_EXCEPT);
  try { sym::Expr a(s), b(f); out += ",\"r\":" + jast(a) + ",\"rf\":" + jast(b); } catch (stator::Exception &) { out += ",\"bexc\":1"; }
  return out + ",\"c\":" + ctj(e) + ",\"fi\":" + std::to_string(fiflag());
}
#endif
