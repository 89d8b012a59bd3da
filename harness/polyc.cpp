// C17 and C18: roots, root counts, root bounds and isolating intervals.
#include "poly.hpp"
static double S = 1; static int E = 0;
// position of x on the integer grid of the specification: floor(x * S * 2^-E * 2^16) and whether it is beyond that floor
static std::string at(double x) {
  if (std::isnan(x)) return "[2000000001,0]";
  double y = std::ldexp(x, -E) * S * 65536.0;
  if (y > 1e9) return "[1000000000,1]";
  if (y < -1e9) return "[-1000000000,1]";
  double t = std::floor(y); return "[" + std::to_string((long)t) + "," + (y > t ? "1" : "0") + "]"; }
template <class V> std::string list(const V &v) { std::string s = "["; bool first = true; for (double x : v) { s += (first ? "" : ",") + at(x); first = false; } return s + "]"; }
template <class F> std::string guarded(F f) { try { return f(); } catch (stator::Exception &e) { return "[[2000000002,0]]"; } catch (std::exception &e) { return "[[2000000003,0]]"; } }
template <class V> std::string ivs(const V &v) { std::string s = "["; bool first = true; for (auto &p : v) { s += (first ? "[" : ",[") + at(p.first) + "," + at(p.second) + "]"; first = false; } return s + "]"; }
void run(const mj::V &c, std::string &out) {
  // the coefficients, exact in double precision
  std::vector<double> co{c["lead"].n};
  auto mul = [&](std::vector<double> g) { std::vector<double> h(co.size() + g.size() - 1, 0.0); for (size_t i = 0; i < co.size(); ++i) for (size_t j = 0; j < g.size(); ++j) h[i + j] += co[i] * g[j]; co = h; };
  S = c["s"].n; E = (int)c["e"].n; clr();
  for (auto &r : c["R"].a) mul({-r.n, S});
  for (auto &p : c["C"].a) mul({p.a[0].n * p.a[0].n + p.a[1].n * p.a[1].n, -2 * S * p.a[0].n, S * S});
  if (std::fetestexcept(FE_INEXACT)) { out += ",\"skip\":1"; return; }
  co.resize(co.size() + (size_t)c["pad"].n, 0.0);
  const size_t n = co.size() - 1; const std::string &op = c["op"].s;
  const int G = (int)c["g"].n;
  auto fill = [&](auto &f) { for (size_t i = 0; i <= n; ++i) { f[i] = std::ldexp(co[i], G - E * (int)i); if (f[i] == 0) f[i] = 0; } };
  auto pt = [&](const mj::V &v) { return v.n >= 1e6 ? HUGE_VAL : v.n <= -1e6 ? -HUGE_VAL : std::ldexp(v.n / (2 * S), E); };
  for (size_t i = 0; i <= n; ++i) if (co[i] != 0 && !std::isnormal(std::ldexp(co[i], G - E * (int)i))) { out += ",\"skip\":2"; return; }
  if (op == "roots") {
    withN<1, 7>(n, [&](auto N) { Polynomial<N.v> f; fill(f);
      out += ",\"r\":[" + guarded([&] { return list(solve_real_roots(f)); });
      if constexpr (N.v > 3) {
        out += "," + guarded([&] { return list(solve_real_roots<PolyRootBounder::STURM>(f)); });
        out += "," + guarded([&] { return list(solve_real_roots<PolyRootBounder::VCA>(f)); });
        out += "," + guarded([&] { return list(solve_real_roots<PolyRootBounder::VAS>(f)); }); }
      out += "]"; });
    return; }
  if (op == "factor") {
    // Bairstow's iteration from a starting point near a known factor
    auto fix = [](double x) { double y = std::floor(x * 65536.0 + 0.5); return std::isfinite(y) && std::fabs(y) < 2e9 ? std::to_string((long)y) : std::string("2000000001"); };
    withN<1, 7>(n, [&](auto N) { Polynomial<N.v> f; fill(f); out += ",\"r\":["; bool first = true;
      for (auto &t : c["t"].a) {
        const double q0 = t.a[0].n, q1 = t.a[1].n;
        Polynomial<2> guess{q0 + std::ldexp(std::fabs(q0) + 1, -11), q1 - std::ldexp(std::fabs(q1) + 1, -12), 1.0};
        if (!first) out += ","; first = false;
        out += guarded([&] { Polynomial<2> r = LinBairstowSolve(f, 1e-8 * (1 + std::fabs(q0) + std::fabs(q1)), guess); return "[" + fix(r[0]) + "," + fix(r[1]) + "," + fix(r[2]) + "]"; }); }
      out += "]"; });
    return; }
  withN<1, 7>(n, [&](auto N) { Polynomial<N.v> f; fill(f);
    if (op == "sturm") { clr(); auto ch = sturm_chain(f); out += fl() + ",\"r\":["; bool first = true;
      for (auto &iv : c["iv"].a) { out += (first ? "" : ",") + std::to_string(ch.roots(pt(iv.a[0]), pt(iv.a[1]))); first = false; } out += "]"; }
    else if (op == "count") { out += ",\"desc\":" + std::to_string(descartes_rule_of_signs(f)) + ",\"budan\":" + std::to_string(budan_01_test(f)) + ",\"ag\":["; bool first = true;
      for (auto &iv : c["iv"].a) { out += (first ? "" : ",") + std::to_string(alesina_galuzzi_test(f, pt(iv.a[0]), pt(iv.a[1]))); first = false; } out += "]"; }
    else if (op == "bounds") { out += ",\"ub\":" + at(LMQ_upper_bound(f)) + ",\"lb\":" + at(LMQ_lower_bound(f)); }
    else if (op == "isol") { out += ",\"vca\":" + guarded([&] { return ivs(VCA_real_root_bounds(f)); }) + ",\"vas\":" + guarded([&] { return ivs(VAS_real_root_bounds(f)); }); }
    else throw std::runtime_error("bad op " + op); });
}
