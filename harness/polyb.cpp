// C15 and C16: division, deflation and changes of variable.
#include "poly.hpp"
#define RES(expr) { clr(); auto r_ = (expr); out += fl() + ",\"r\":" + pj(r_); }
void run(const mj::V &c, std::string &out) {
  const std::string &op = c["op"].s; const size_t n = c["f"].a.size() - 1;
  if (op == "div") {
    const size_t m = c["g"].a.size() - 1;
    withN<1, 6>(n, [&](auto N) { withN<0, N.v - 1>(m, [&](auto M) {
      auto f = mk<N.v>(c["f"]); auto g = mk<M.v>(c["g"]);
      clr(); auto t = gcd(f, g); out += fl() + ",\"r\":" + pj(std::get<0>(t)) + ",\"rem\":" + pj(std::get<1>(t)) + ",\"qo\":" + std::to_string(std::get<0>(t).size() - 1) + ",\"ro\":" + std::to_string(std::get<1>(t).size() - 1);
    }); });
    return;
  }
  withN<1, 6>(n, [&](auto N) {
    auto f = mk<N.v>(c["f"]);
    const double k = c.has("k") ? num(c["k"]) : 0;
    if (op == "deflate") RES(deflate_polynomial(f, k))
    else if (op == "deflate0") RES(deflate_polynomial(f, Null()))
    else if (op == "shift") RES(shift_function(f, k))
    else if (op == "shift1") RES(shift_function(f, Unity()))
    else if (op == "reflect") RES(reflect_poly(f))
    else if (op == "scale") RES(scale_poly(f, k))
    else if (op == "invshift") RES(invert_taylor_shift(f))
    else if (op == "back") RES(shift_function(shift_function(f, k), -k))
    else if (op == "reflect2") RES(reflect_poly(reflect_poly(f)))
    else if (op == "unscale") RES(scale_poly(scale_poly(f, k), 1.0 / k))
    else if (op == "mobius") {
      MobiusTransform<double> M(1, 0, 0, 1); std::string ev; clr();
      for (auto &s : c["ops"].a) { const std::string &w = s["w"].s;
        if (w == "shift") { f = shift_function(f, num(s["k"])); M.shift(num(s["k"])); }
        else if (w == "scale") { f = scale_poly(f, num(s["k"])); M.scale(num(s["k"])); }
        else { f = invert_taylor_shift(f); M.invert_taylor_shift(); } }
      out += fl() + ",\"r\":" + pj(f) + ",\"m\":" + seq(M.begin(), M.end()) + ",\"ev\":[";
      bool first = true;
      for (double x : {0.0, 1.0, 2.0, 0.5, HUGE_VAL}) { clr(); double v = M.eval(x); bool ex = std::fetestexcept(FE_INEXACT); out += (first ? "" : ",") + std::to_string(ex ? 20005 : res(v)); first = false; }
      out += "]";
    }
    else throw std::runtime_error("bad op " + op);
  });
}
