// AST (the specification's expression values) <-> sym::Expr.  Construction uses the public operators only;
// projection uses the library's visitor interface (as the python bindings do).
#pragma once
#include <stator/symbolic/runtime.hpp>
#include "mj.hpp"
#include "opnames.hpp"
#include <cmath>
#include <cfenv>
#include <algorithm>
#include <sstream>
std::string jast(const sym::Expr &e);
struct ToJson : public sym::detail::VisitorHelper<ToJson, std::string> {
  std::string apply(const double &v) { return jconst(v); }
  std::string apply(const sym::VarRT &v) { return "{\"k\":\"v\",\"s\":" + mj::esc(v.getName()) + "}"; }
  template <class Op> std::string apply(const sym::UnaryOp<sym::Expr, Op> &u) { return "{\"k\":\"u\",\"o\":\"" + opname(Op()) + "\",\"a\":" + jast(u.getArg()) + "}"; }
  template <class Op> std::string apply(const sym::BinaryOp<sym::Expr, Op, sym::Expr> &b) {
    return "{\"k\":\"b\",\"o\":\"" + opname(Op()) + "\",\"l\":" + jast(b.getLHS()) + ",\"r\":" + jast(b.getRHS()) + "}"; }
  std::string apply(const sym::ArrayRT &a) { std::string r = "{\"k\":\"arr\",\"x\":["; bool f = true; for (const auto &i : a) { if (!f) r += ","; f = false; r += jast(i); } return r + "]}"; }
  std::string apply(const sym::DictRT &d) {
    std::vector<std::string> v; for (const auto &i : d) v.push_back("[" + jast(i.first) + "," + jast(i.second) + "]");
    std::sort(v.begin(), v.end()); std::string r = "{\"k\":\"dict\",\"m\":["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]}"; }
};
inline std::string jast(const sym::Expr &e) { if (!e) return "{\"k\":\"null\"}"; ToJson v; return e->visit(v); }

inline sym::Expr build(const mj::V &j) {
  using namespace sym;
  const std::string &k = j["k"].s;
  if (k == "c") return Expr(j.has("txt") ? strtod(j["txt"].s.c_str(), 0) : j.has("n") ? double(j["n"].n) / j["d"].n : strtod(j["x"].s.c_str(), 0));
  if (k == "v") return Expr(VarRT::create(j["s"].s));
  if (k == "inf") return Expr(j["s"].n * std::numeric_limits<double>::infinity());
  if (k == "nan") return Expr(std::numeric_limits<double>::quiet_NaN());
  if (k == "u") { Expr a = build(j["a"]); const std::string &o = j["o"].s;
    if (o == "sin") return Expr(sin(a)); if (o == "cos") return Expr(cos(a)); if (o == "exp") return Expr(exp(a));
    if (o == "ln") return Expr(log(a)); if (o == "abs") return Expr(abs(a)); if (o == "arb") return Expr(arbsign(a)); if (o == "neg") return Expr(-a); }
  if (k == "b") { Expr l = build(j["l"]), r = build(j["r"]); const std::string &o = j["o"].s;
    if (o == "+") return Expr(l + r); if (o == "-") return Expr(l - r); if (o == "*") return Expr(l * r); if (o == "/") return Expr(l / r);
    if (o == "^") return Expr(pow(l, r)); if (o == "=") return Expr(equality(l, r)); if (o == "idx") return l[r];
    if (o == "units") return Expr(units(l, r)); if (o == "unc") return Expr(uncertainty(l, r)); }
  if (k == "arr") { auto p = ArrayRT::create(); for (auto &i : j["x"].a) p->push_back(build(i)); return p; }
  if (k == "dict") { auto p = DictRT::create(); auto &d = *p; for (auto &i : j["m"].a) { Expr key = build(i.a.at(0)); d[key] = build(i.a.at(1)); } return p; }
  throw std::runtime_error("bad ast kind " + k);
}
