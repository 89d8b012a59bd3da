// Executes specification actions on the real run-time expression library: one JSON command per line in,
// one JSON observation per line out.
#include "ast.hpp"
#include <iostream>
#include <fstream>
using namespace sym;
typedef stator::ReprConfig<stator::Force_parenthesis> FP;
typedef stator::ReprConfig<stator::Latex_output> LT;
typedef stator::ReprConfig<stator::Debug_output> DB;

// texts travel as arrays of one-character names; non-ASCII bytes are named "+-" (plus-minus sign) or <hh>
std::string text(const mj::V &t) {
  std::string r;
  for (auto &x : t.a) {
    const std::string &n = x.s;
    if (n == "+-") r += "\xc2\xb1";
    else if (n.size() > 1) for (size_t i = 0; i + 3 < n.size(); i += 4) r += char(strtoul(n.substr(i + 1, 2).c_str(), 0, 16));
    else r += n;
  }
  return r;
}

// the double as (hi*2^26 + lo) * 2^x, with hi*2^26 + lo of 53 bits unless the number is subnormal
std::string bits(double d) {
  int e; double m = std::frexp(d, &e); long mi = long(std::ldexp(m, 53)); e -= 53;
  if (!mi) e = -1074;
  while (e < -1074) { mi >>= 1; ++e; }
  return ",\"hi\":" + std::to_string(mi >> 26) + ",\"lo\":" + std::to_string(mi & ((1L << 26) - 1)) + ",\"x\":" + std::to_string(e);
}

void run(const mj::V &c, std::string &out) {
  const std::string &op = c["op"].s;
  std::feclearexcept(FE_ALL_EXCEPT);
  auto flags = [&]() { return std::string(",\"fi\":") + (std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_INVALID | FE_DIVBYZERO) ? "1" : "0"); };
  if (op == "build") { Expr e = build(c["e"]); out += flags() + ",\"r\":" + jast(e); }
  else if (op == "parse") { Expr e(c["s"].s); out += flags() + ",\"r\":" + jast(e); }
  else if (op == "parsecmp") { // read a formula; compare with the simplified tree the specification expects
    Expr w; bool have = false;
    if (c.has("e")) try { w = simplify(build(c["e"])); have = true; } catch (stator::Exception &) { out += ",\"wexc\":1"; }
    std::feclearexcept(FE_ALL_EXCEPT);
    Expr e(text(c["t"])); out += flags() + ",\"r\":" + jast(e);
    if (have) { bool eq = (e == w) && (w == e); out += std::string(",\"eq\":") + (eq ? "1" : "0"); if (!eq) out += ",\"w\":" + jast(w); } }
  else if (op == "num") { Expr e(text(c["t"])); out += bits(e.as<double>()); }
  else if (op == "numprint") {
    double d = std::ldexp(std::ldexp(double(c["hi"].n), 26) + double(c["lo"].n), int(c["x"].n));
    std::string s = repr(Expr(d)); out += ",\"s\":" + jtext(s) + bits(Expr(s).as<double>()); }
  else if (op == "print") {
    Expr e = build(c["e"]); std::string s = repr(e), f = repr<FP>(e), l = repr<LT>(e);
    out += ",\"s\":" + jtext(s) + ",\"f\":" + jtext(f) + ",\"l\":" + jtext(l);
    std::feclearexcept(FE_ALL_EXCEPT);
    try { Expr a(s), b(f); out += ",\"r\":" + jast(a) + ",\"rf\":" + jast(b); } catch (stator::Exception &) { out += ",\"bexc\":1"; }
    out += flags(); }
  else if (op == "simplify") { Expr e = build(c["e"]); out += ",\"e\":" + jast(e); std::feclearexcept(FE_ALL_EXCEPT); Expr r = simplify(e); out += flags() + ",\"r\":" + jast(r) + ",\"after\":" + jast(e); }
  else if (op == "sub") { Expr e = build(c["e"]), s = build(c["s"]); out += ",\"e\":" + jast(e) + ",\"sb\":" + jast(s); std::feclearexcept(FE_ALL_EXCEPT); Expr r = sub(e, s); out += flags() + ",\"r\":" + jast(r) + ",\"after\":" + jast(e) + ",\"safter\":" + jast(s); }
  else if (op == "deriv") { Expr e = build(c["e"]), x = build(c["x"]); out += ",\"e\":" + jast(e); std::feclearexcept(FE_ALL_EXCEPT); Expr r = derivative(e, x); out += flags() + ",\"r\":" + jast(r) + ",\"after\":" + jast(e); 
    if (c.has("simp")) out += ",\"rs\":" + jast(simplify(r)); }
  else if (op == "eq") { Expr a = build(c["a"]), b = build(c["b"]); std::hash<Expr> h; size_t ha = h(a), hb = h(b);
    Expr a2 = build(c["a"]);
    out += std::string(",\"ab\":") + ((a == b) ? "1" : "0") + ",\"ba\":" + ((b == a) ? "1" : "0") + ",\"ne\":" + ((a != b) ? "1" : "0")
      + ",\"hh\":" + (ha == hb ? "1" : "0") + ",\"stable\":" + (h(a) == ha && h(a2) == ha && a == a && a == a2 ? "1" : "0"); }
  else if (op == "session") {
    size_t K = c["k"].i(); std::vector<Expr> R(K + 1); std::hash<Expr> h;
    auto regs = [&]() { std::string o = "\"regs\":["; for (size_t r = 1; r <= K; ++r) { if (r > 1) o += ",";
      o += "{\"t\":" + jast(R[r]) + ",\"x\":" + (R[r] ? mj::esc(repr(R[r])) : "\"\"") + ",\"h\":\"" + (R[r] ? std::to_string(h(R[r])) : "") + "\"}"; } return o + "]"; };
    out += ",\"log\":[{" + regs() + "}";
    for (auto &q : c["steps"].a) {
      const std::string &a = q["a"].s; size_t to = q["to"].i(); std::string extra;
      out += ",{";
      std::feclearexcept(FE_ALL_EXCEPT);
      try {
        
        for (const char *n : {"i", "j"}) if (q.has(n) && !R.at(q[n].i())) throw 0;
        for (size_t n = 0; q.has("is") && n < q["is"].a.size(); ++n) if (!R.at(q["is"][n].i())) throw 0;
        auto I = [&](const char *n) -> Expr & { return R.at(q[n].i()); };
        if (a == "leaf") R[to] = build(q["e"]);
        else if (a == "un") { const std::string &o = q["o"].s; Expr x = I("i"); R[to] = o == "sin" ? Expr(sin(x)) : o == "exp" ? Expr(exp(x)) : o == "abs" ? Expr(abs(x)) : Expr(-x); }
        else if (a == "bin") { const std::string &o = q["o"].s; const Expr &l = I("i"), &r = I("j");
          R[to] = o == "+" ? Expr(l + r) : o == "-" ? Expr(l - r) : o == "*" ? Expr(l * r) : o == "/" ? Expr(l / r) : o == "^" ? Expr(pow(l, r)) : Expr(equality(l, r)); }
        else if (a == "arr") { auto p = ArrayRT::create(); for (auto &i : q["is"].a) p->push_back(R.at(i.i())); R[to] = p; }
        else if (a == "push") { auto p = ArrayRT::create(); p->resize(2); (*p)[0] = I("i"); (*p)[1] = Expr(VarRT::create("x")); p->push_back(I("i")); R[to] = p; }
        else if (a == "dict") { auto p = DictRT::create(); auto &d = *p; for (size_t i = 0; i < q["is"].a.size(); ++i) d[Expr(VarRT::create(q["ks"][i].s))] = R.at(q["is"][i].i()); R[to] = p; }
        else if (a == "simplify") R[to] = simplify(I("i"));
        else if (a == "deriv") R[to] = derivative(I("i"), Expr(VarRT::create(q["v"].s)));
        else if (a == "sub") R[to] = sub(I("i"), Expr(equality(Expr(VarRT::create(q["v"].s)), I("j"))));
        else if (a == "subdict") R[to] = sub(I("i"), I("j"));
        else if (a == "subd") { auto p = DictRT::create(); auto &d = *p; for (size_t i = 0; i < q["is"].a.size(); ++i) d[Expr(VarRT::create(q["ks"][i].s))] = R.at(q["is"][i].i()); R[to] = sub(I("i"), Expr(p)); }
        else if (a == "copy") R[to] = Expr(I("i"));
        else if (a == "drop") R[to] = Expr();
        else if (a == "read") { Expr &x = I("i"), &y = I("j"); bool e1 = x == y; std::string s1 = repr(x); size_t h1 = h(x); 
          bool e2 = x == y; extra = std::string(",\"again\":") + (e1 == e2 && s1 == repr(x) && h1 == h(x) && (e1 == (y == x)) ? "1" : "0"); }
        extra += flags();
      }
      catch (stator::Exception &) { extra += ",\"exc\":\"stator\""; }
      catch (std::exception &) { extra += ",\"exc\":\"std\""; }
      catch (int) { extra += ",\"skip\":1"; }  // the handle is empty: no operation to make
      out += regs() + extra + "}";
    }
    out += "]"; }
  else if (op == "hash") { Expr a = build(c["a"]); std::hash<Expr> h; size_t v = h(a); out += ",\"h\":" + mj::esc(std::to_string(v)); }
  else throw std::runtime_error("bad op " + op);
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]); std::ofstream os(argv[2], std::ios::app);
  long skip = argc > 3 ? atol(argv[3]) : 0; std::string line; long n = 0;
  while (std::getline(in, line)) {
    if (n++ < skip) continue;
    std::string out = "{\"i\":" + std::to_string(n - 1);
    try { mj::V c = mj::parse(line); run(c, out); }
    catch (stator::Exception &e) { out += ",\"exc\":\"stator\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    catch (std::exception &e) { out += ",\"exc\":\"std\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    os << out << "}" << std::endl;
  }
  return 0;
}
