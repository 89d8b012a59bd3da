// Automatic differentiation of run-time expressions: executes commands, records the coefficients.
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/ad.hpp>
#include <fstream>
#include <iostream>
#include <csignal>
#include "ast.hpp"
#include "adout.hpp"
static constexpr char NX[] = "x", NY[] = "y";
template<size_t Nd> std::string call(const sym::Expr& e, const std::string& x, double x0) {
  std::feclearexcept(FE_ALL_EXCEPT);
  if (x == "x") { sym::Var<NX> v; auto r = sym::ad<Nd>(e, v = x0); return adout(r); }
  sym::Var<NY> v; auto r = sym::ad<Nd>(e, v = x0); return adout(r);
}
int main(int argc, char** argv) {
  std::ifstream in(argv[1]); std::ofstream o(argv[2], std::ios::app); long skip = argc > 3 ? atol(argv[3]) : 0;
  std::string line; long i = -1;
  while (std::getline(in, line)) {
    if (++i < skip) continue;
    mj::V c = mj::parse(line); std::string out = "{\"i\":" + std::to_string(i);
    try {
      sym::Expr e = build(c["e"]); double x0 = double(c["n"].n) / c["d"].n;
      switch (c["nd"].i()) {
        case 0: out += call<0>(e, c["x"].s, x0); break;
        case 1: out += call<1>(e, c["x"].s, x0); break;
        case 3: out += call<3>(e, c["x"].s, x0); break;
        case 4: out += call<4>(e, c["x"].s, x0); break;
        default: out += call<6>(e, c["x"].s, x0);
      }
    } catch (stator::Exception& ex) { out += ",\"exc\":\"stator\""; }
    catch (std::exception& ex) { out += ",\"exc\":\"std\""; }
    o << out << "}\n"; o.flush();
  }
}
