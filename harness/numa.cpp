// C19: iterative root polishers and bracketing methods under scripted functions; evaluation error bounds.
#include "poly.hpp"
#include <vector>
namespace nm = stator::numeric;
static const double U = 1048576.0;
static std::string at(double x) {
  if (std::isnan(x)) return "[2000000001,0]";
  double y = x * U; if (y > 1e9) return "[1000000000,1]"; if (y < -1e9) return "[-1000000000,1]";
  double t = std::floor(y); return "[" + std::to_string((long)t) + "," + (y > t ? "1" : "0") + "]"; }
struct Runaway {};
static double vv(const mj::V &c) { if (c.t == mj::V::STR) return c.s == "nan" ? NAN : c.s == "inf" ? HUGE_VAL : -HUGE_VAL; return num(c); }
// A function of which only the sequence of answers at new points is given; points seen before get the answer given before.
struct Scripted {
  const mj::V &c; std::map<double, std::array<double, 3>> seen; size_t next = 0; std::string log; size_t calls = 0; double tail;
  Scripted(const mj::V &q) : c(q), tail(num(q["tail"])) {}
  std::array<double, 3> operator()(double x) {
    if (++calls > 5000) throw Runaway();
    auto it = seen.find(x); std::array<double, 3> v;
    if (it != seen.end()) v = it->second;
    else {
      const auto &s = c["script"].a;
      if (next < s.size()) { for (int i = 0; i < 3; ++i) v[i] = vv(s[next].a.at(i)); ++next; }
      else v = {{x - tail, 1, 0}};
      if (!std::isnan(x)) seen[x] = v; }
    if (calls <= 400) log += (log.empty() ? "[" : ",[") + at(x) + "," + std::to_string(std::signbit(v[0]) ? -1 : 1) + "," + (v[0] == 0 ? "0" : "1") + "]";
    return v; } };
void run(const mj::V &c, std::string &out) {
  const std::string &op = c["op"].s;
  if (op == "solve") {
    Scripted s(c); double x = vv(c["x0"]), lo = vv(c["lo"]), hi = vv(c["hi"]); size_t it = c["it"].i(); int dg = c["dg"].i(); bool ok = false; const std::string &m = c["m"].s;
    auto F3 = [&](double y) { return s(y); };
    auto F2 = [&](double y) { auto v = s(y); return std::array<double, 2>{{v[0], v[1]}}; };
    auto F1 = [&](double y) { return s(y)[0]; };
    try {
      if (m == "bisection") ok = nm::bisection(F1, x, lo, hi, it, dg);
      else if (m == "newton") ok = nm::newton_raphson(F2, x, lo, hi, it, dg);
      else ok = nm::halleys_method(F3, x, lo, hi, it, dg);
      out += std::string(",\"ok\":") + (ok ? "1" : "0") + ",\"x\":" + at(x);
    } catch (Runaway &) { out += ",\"runaway\":1"; }
    out += ",\"calls\":[" + s.log + "],\"n\":" + std::to_string(s.calls);
    return; }
  if (op == "step") {
    std::array<double, 3> st{{num(c["v"].a[0]), num(c["v"].a[1]), num(c["v"].a[2])}}; double x = num(c["x"]), lo = -1e6, hi = 1e6; std::string pts; bool fi = false;
    auto F = [&](double y) { if (std::fetestexcept(FE_INEXACT)) fi = true; pts += (pts.empty() ? "" : ",") + std::to_string(res(y)); return std::array<double, 3>{{st[0] / 2, 1, 0}}; };
    int r; const std::string &m = c["m"].s; clr();
    if (m == "newton") r = nm::newton_raphson_step(F, st, x, lo, hi, 1e-9);
    else if (m == "halley") r = nm::halley_step(F, st, x, lo, hi, 1e-9);
    else r = nm::schroeder_step(F, st, x, lo, hi, 1e-9);
    out += ",\"st\":" + std::to_string(r) + ",\"fi\":" + (fi ? "1" : "0") + ",\"pts\":[" + pts + "],\"x1\":" + std::to_string(res(x)) + ",\"lo1\":" + std::to_string(res(lo)) + ",\"hi1\":" + std::to_string(res(hi));
    return; }
  if (op == "bstep") {
    double lo = num(c["lo"]), hi = num(c["hi"]), x = num(c["x"]); std::array<double, 1> st{{1.0}};
    const double l0 = lo, h0 = hi, m0 = (lo + hi) / 2; bool stray = false;
    auto F = [&](double y) { double v = y == l0 ? c["v"].a[0].n : y == h0 ? c["v"].a[1].n : c["v"].a[2].n; if (y != l0 && y != h0 && y != m0) stray = true; return std::array<double, 1>{{v}}; };
    int r = nm::bisection_step(F, st, x, lo, hi, std::ldexp(1.0, 1 - (int)c["dg"].i()));
    out += ",\"st\":" + std::to_string(r) + ",\"x1\":" + at(x) + ",\"lo1\":" + at(lo) + ",\"hi1\":" + at(hi) + ",\"fv\":" + std::to_string((long)st[0]) + ",\"stray\":" + (stray ? "1" : "0");
    return; }
  if (op == "prec") {
    // f(x) exactly (113 bits suffice for what is generated), against f(x) in double
    const size_t n = c["f"].a.size() - 1; const double x = std::ldexp(c["x"].a[0].n, (int)c["x"].a[1].n);
    withN<0, 4>(n, [&](auto N) { Polynomial<N.v> f; __float128 e = 0, p = 1;
      for (size_t i = 0; i <= N.v; ++i) f[i] = std::ldexp(c["f"].a[i].a[0].n * 1073741824.0 + c["f"].a[i].a[1].n, (int)c["f"].a[i].a[2].n);
      for (size_t i = 0; i <= N.v; ++i) { e += p * (__float128)f[i]; p *= (__float128)x; }
      double v = sub(f, Var<>() = x), b = precision(f, x); __float128 d = (__float128)v - e; if (d < 0) d = -d;
      out += ",\"within\":" + std::string(d <= (__float128)b ? "1" : "0") + ",\"err\":" + (d > 0 ? "1" : "0") + ",\"nn\":" + (b >= 0 ? "1" : "0"); });
    return; }
  if (op == "digits") { double a = std::ldexp(c["a"].a[0].n, (int)c["a"].a[1].n), b = std::ldexp(c["b"].a[0].n, (int)c["b"].a[1].n);
    size_t s = subtraction_precision(a, b), t = addition_precision(a, b); const size_t inf = std::numeric_limits<size_t>::max();
    out += ",\"sub\":" + std::to_string(s == inf ? -1L : (long)s) + ",\"add\":" + std::to_string(t == inf ? -1L : (long)t);
    return; }
  throw std::runtime_error("bad op " + op);
}
