// C14: ring operations, calculus and evaluation of polynomials.
#include "poly.hpp"
#define RES(expr) { clr(); auto r_ = (expr); out += fl() + ",\"r\":" + pj(r_); }
#define VAL(expr) { clr(); double r_ = (expr); out += fl() + ",\"r\":[" + std::to_string(res(r_)) + "]"; }
void run(const mj::V &c, std::string &out) {
  const std::string &op = c["op"].s; const size_t n = c["f"].a.size() - 1;
  static Var<> x; static constexpr char Y[] = "yy";
  if (c.has("g") && op != "inner") {
    const size_t m = c["g"].a.size() - 1;
    withN<0, 4>(n, [&](auto N) { withN<0, 4>(m, [&](auto M) {
      auto f = mk<N.v>(c["f"]); auto g = mk<M.v>(c["g"]);
      if (op == "add") RES(expand(f + g))
      else if (op == "sub") RES(expand(f - g))
      else if (op == "mul") RES(expand(f * g))
      else if (op == "imul") RES(expand(mk<N.v, int>(c["f"]) * g))
      else if (op == "iadd") RES(expand(f + mk<M.v, int>(c["g"])))
      else if (op == "isub") RES(expand(mk<N.v, int>(c["f"]) - g))
      else if (op == "compose") { if constexpr (N.v <= 3 && M.v <= 2) { if constexpr (N.v == 0) VAL(double(sub(f, Var<>() = g))) else RES(expand(sub(f, Var<>() = g))) } else throw std::runtime_error("order"); }
      else if (op == "eqp") { if constexpr (N.v == M.v) { bool a = f == g, b = f != g; out += std::string(",\"fi\":0,\"r\":[") + (a ? "1" : "0") + "," + (b ? "1" : "0") + "]"; } else throw std::runtime_error("order"); }
      else throw std::runtime_error("bad op");
    }); });
    return;
  }
  withN<0, 5>(n, [&](auto N) {
    auto f = mk<N.v>(c["f"]);
    const double k = c.has("k") ? num(c["k"]) : 0;
    if (op == "neg") RES(-f)
    else if (op == "id") RES(f)
    else if (op == "lsmul") RES(expand(k * f))
    else if (op == "rsmul") RES(expand(f * k))
    else if (op == "sdiv") RES(expand(f / k))
    else if (op == "lsadd") RES(expand(k + f))
    else if (op == "rsadd") RES(expand(f + k))
    else if (op == "lssub") RES(expand(k - f))
    else if (op == "rssub") RES(expand(f - k))
    else if (op == "xmul") RES(expand(x * f))
    else if (op == "mulx") RES(expand(f * x))
    else if (op == "pow2" || op == "pow3") { if constexpr (N.v <= 3) { if (op == "pow2") RES(expand(pow(f, C<2>()))) else RES(expand(pow(f, C<3>()))) } else throw std::runtime_error("order"); }
    else if (op == "deriv") { if constexpr (N.v > 0) RES(derivative(f, x)) else { clr(); Null z = derivative(f, x); out += fl() + ",\"r\":[0]"; } }
    else if (op == "derivy") { Null z = derivative(f, Var<Y>()); out += ",\"fi\":0,\"r\":[0]"; }
    else if (op == "suby") RES(sub(f, Var<Y>() = k))
    else if (op == "rename") { auto g = sub(f, x = Var<Y>()); out += ",\"fi\":0,\"r\":" + seq(g.begin(), g.end()); }
    else if (op == "eval") VAL(sub(f, x = k))
    else if (op == "evali") VAL(sub(mk<N.v, int>(c["f"]), x = k))
    else if (op == "evalf") VAL(sub(f, x = int(k)))
    else if (op == "eval0") VAL(sub(f, x = Null()))
    else if (op == "infp") VAL(sub(f, x = HUGE_VAL))
    else if (op == "infm") VAL(sub(f, x = -HUGE_VAL))
    else if (op == "taylor") { clr(); auto d = eval_derivatives<4>(f, k); out += fl() + ",\"r\":" + seq(d.begin(), d.end()); }
    else if (op == "taylor1") { clr(); auto d = eval_derivatives<1>(f, k); out += fl() + ",\"r\":" + seq(d.begin(), d.end()); }
    else if (op == "up") { Polynomial<7> g(f); RES(g) }
    else if (op == "orderup") RES(change_order<6>(f))
    else if (op == "orderdown") RES(change_order<1>(f))
    else if (op == "range") { Polynomial<6> g(f.begin(), f.end()); RES(g) }
    else if (op == "iter") { Polynomial<3> g; try { clr(); g = Polynomial<3>(f.begin(), f.end()); out += fl() + ",\"r\":" + pj(g); } catch (stator::Exception &) { out += ",\"fi\":0,\"r\":[20004]"; } }
    else if (op == "print") { clr(); std::string s = repr(f); out += ",\"fi\":0,\"t\":["; for (size_t i = 0; i < s.size(); ++i) { if (i) out += ","; out += mj::esc(std::string(1, s[i])); } out += "]"; }
    else throw std::runtime_error("bad op " + op);
  });
}
