// C23: shapes, their measures, and the indicator functions of pairs of them.
#include "poly.hpp"
#include <stator/geometry/box.hpp>
#include <stator/geometry/sphere.hpp>
#include <stator/geometry/plane.hpp>
#include <stator/geometry/point.hpp>
#include <stator/geometry/indicator.hpp>
#include "rats.hpp"
namespace geo = stator::geometry;
static constexpr char TN[] = "t";
// a value as a whole number of units of 1/u (or a number no model value equals)
static std::string in(double v, double u) { double x = v * u; if (!(std::fabs(x) < 2e9) || x != std::floor(x)) return "-2000000011"; return std::to_string((long)x); }
template <class S, size_t D> stator::Vector<S, D> vec(const mj::V &l, double u) { stator::Vector<S, D> r; for (size_t i = 0; i < D; ++i) r[i] = S(num(l.a.at(i)) / u); return r; }
template <class Vt> std::string vout(const Vt &v, double u) { std::string s = "["; for (long i = 0; i < (long)v.size(); ++i) s += (i ? "," : "") + in(double(v[i]), u); return s + "]"; }
template <class F> void dims(size_t d, F f) { switch (d) { case 1: f(O<1>()); break; case 2: f(O<2>()); break; case 3: f(O<3>()); break; case 4: f(O<4>()); break; case 5: f(O<5>()); break; default: throw std::runtime_error("dims"); } }
template <class F> void dims0(size_t d, F f) { switch (d) { case 0: f(O<0>()); break; case 6: f(O<6>()); break; case 7: f(O<7>()); break; case 8: f(O<8>()); break; case 9: f(O<9>()); break; case 10: f(O<10>()); break; default: dims(d, f); } }
template <class S> void box(const mj::V &c, std::string &out) {
  const double u = std::is_integral<S>::value ? 1 : 4;
  dims(c["mx"].a.size(), [&](auto N) { constexpr size_t D = N.v;
    geo::AABox<S, D> b(vec<S, D>(c["mx"], u), vec<S, D>(c["mn"], u));
    out += ",\"vol\":" + in(double(volume(b)), std::pow(u, double(D))) + ",\"area\":" + in(double(area(b)), std::pow(u, double(D - 1))) + ",\"ext\":" + vout(b.dimensions(), u) + ",\"hi\":" + vout(b.max(), u) + ",\"lo\":" + vout(b.min(), u); }); }
template <class S> void ball(const mj::V &c, std::string &out) {
  dims0(c["c"].a.size(), [&](auto N) { constexpr size_t D = N.v; const S r = S(num(c["r"]) / 4);
    geo::Ball<S, D> b(r, vec<S, D>(c["c"], 4)), z(r); geo::Point<S, D> p(vec<S, D>(c["c"], 4));
    out += ",\"vol\":" + jbits(double(volume(b))) + ",\"area\":" + jbits(double(area(b))) + ",\"uvol\":" + jbits(double(volume(geo::Ball<S, D>(S(1))))) + ",\"uarea\":" + jbits(double(area(geo::Ball<S, D>(S(1)))))
      + ",\"rad\":" + in(double(b.radius()), 4) + ",\"cen\":" + vout(b.center(), 4) + ",\"cen0\":" + vout(z.center(), 4) + ",\"pt\":[" + in(double(volume(p)), 1) + "," + in(double(area(p)), 1) + "],\"ptc\":" + vout(p.center(), 4); }); }
void plane(const mj::V &c, std::string &out) {
  dims(c["c"].a.size(), [&](auto N) { constexpr size_t D = N.v; auto ce = vec<double, D>(c["c"], 4), n = vec<double, D>(c["n"], 1);
    geo::Plane<double, D> p(ce, n, num(c["h"]) / 4), q(ce, n); geo::HalfSpace<double, D> h(ce, n);
    out += ",\"pc\":" + vout(p.center(), 4) + ",\"pn\":" + vout(p.normal(), 4) + ",\"ph\":" + in(p.thickness(), 4) + ",\"ph0\":" + in(q.thickness(), 4) + ",\"hc\":" + vout(h.center(), 4) + ",\"hn\":" + vout(h.normal(), 4); }); }
template <size_t D, class A, class B> void ind(const mj::V &c, const A &a, const B &b, bool half, std::string &out) {
  const double u = half ? 8 : 64; const std::string &k = c["dk"].s; double v; int hit;
  if (k == "null") { v = geo::indicator(a, b, sym::Null()); hit = geo::intersects(a, b) ? 1 : 0; }
  else if (k == "vec") { v = geo::indicator(a, b, vec<double, D>(c["v"], 4)); hit = v < 0; }
  else { v = 0; hit = 0;
    if constexpr (!std::is_same<A, geo::HalfSpace<double, D>>::value && !std::is_same<B, geo::HalfSpace<double, D>>::value) {
      sym::Var<TN> t; auto f = geo::indicator(a, b, vec<double, D>(c["v"], 4) + t * vec<double, D>(c["w"], 4)); v = sym::sub(f, t = num(c["t"]) / 2); hit = v < 0; }
    else throw std::runtime_error("line"); }
  out += ",\"val\":" + in(v, u) + ",\"hit\":" + std::to_string(hit); }
template <size_t D, class F> void obj(const mj::V &o, F f) {
  const std::string &k = o["k"].s; auto c = vec<double, D>(o["c"], 4);
  if (k == "ball") f(geo::Ball<double, D>(num(o["r"]) / 4, c)); else if (k == "point") f(geo::Point<double, D>(c)); else f(geo::HalfSpace<double, D>(c, vec<double, D>(o["n"], 1))); }
template <class T> struct isball { static constexpr bool v = false; };
template <class S, size_t D> struct isball<geo::Ball<S, D>> { static constexpr bool v = true; };
void run(const mj::V &c, std::string &out) {
  const std::string &op = c["op"].s;
  if (op == "box") { const std::string &t = c["ty"].s; if (t == "d") box<double>(c, out); else if (t == "f") box<float>(c, out); else box<int>(c, out); return; }
  if (op == "ball") { if (c["ty"].s == "d") ball<double>(c, out); else ball<float>(c, out); return; }
  if (op == "plane") return plane(c, out);
  if (op == "ind") { const bool half = c["a"]["k"].s == "half" || c["b"]["k"].s == "half";
    dims(c["a"]["c"].a.size(), [&](auto N) { obj<N.v>(c["a"], [&](const auto &a) { obj<N.v>(c["b"], [&](const auto &b) {
      typedef typename std::decay<decltype(a)>::type A; typedef typename std::decay<decltype(b)>::type B;
      if constexpr (isball<A>::v || isball<B>::v) ind<N.v>(c, a, b, half, out); else throw std::runtime_error("pair"); }); }); });
    return; }
  throw std::runtime_error("bad op " + op); }
