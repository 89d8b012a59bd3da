// C21: histories of operations over two arrays of one of the supported shapes and stores.
#include "poly.hpp"
#include <stator/symbolic/runtime.hpp>
#include <stator/symbolic/array.hpp>
template <size_t S, size_t D> using RM = Array<double, RowMajorAddressing<S, D>>;
template <size_t S> using LA = Array<double, LinearAddressing<S>>;
typedef std::vector<size_t> Dims;
// how each kind of array is made, addressed and read
template <class A> struct K;
inline double dbl(double v) { return v; }
inline double dbl(const Expr &v) { return v ? simplify(v).as<double>() : std::nan(""); }
template <size_t S, size_t D> struct K<RM<S, D>> {
  typedef RM<S, D> A; typedef typename A::Coords C;
  static C co(const Dims &d) { C c; if constexpr (D == -1u) c = C(d.begin(), d.end()); else { if (d.size() != D) throw std::runtime_error("rank"); for (size_t i = 0; i < D; ++i) c[i] = d[i]; } return c; }
  static Dims dims(const A &a) { auto d = a.getDimensions(); return Dims(d.begin(), d.end()); }
  template <class Acc> static void deepset(Acc acc, const Dims &c, size_t i, double x) { if (i == c.size()) acc = x; else deepset(acc[c[i]], c, i + 1, x); }
  template <class Acc, class R> static double deepget(Acc acc, const Dims &c, size_t i, R *) { if (i == c.size()) { R r = acc; return r; } return deepget(acc[c[i]], c, i + 1, (R *)0); }
  template <class B> static double get(B &a, const Dims &c, int how) {
    if (how == 1) { const C k = co(c); if constexpr (D == 1) return static_cast<B &>(a)[k]; else return a[k]; }
    if constexpr (D == 1) return a[c.at(0)]; else if constexpr (D == 2) return a[c.at(0)][c.at(1)]; else if constexpr (D == 3) return a[c.at(0)][c.at(1)][c.at(2)];
    else return deepget(a[c.at(0)], c, 1, (double *)0); }
  static void set(A &a, const Dims &c, int how, double x) {
    if (how == 1) { const C k = co(c); a[k] = x; return; }
    if constexpr (D == 1) a[c.at(0)] = x; else if constexpr (D == 2) a[c.at(0)][c.at(1)] = x; else if constexpr (D == 3) a[c.at(0)][c.at(1)][c.at(2)] = x;
    else deepset(a[c.at(0)], c, 1, x); }
};
template <size_t S> struct K<LA<S>> {
  typedef LA<S> A;
  static size_t co(const Dims &d) { return d.at(0); }
  static Dims dims(const A &a) { return Dims{a.getDimensions()}; }
  template <class B> static double get(B &a, const Dims &c, int) { return a[c.at(0)]; }
  static void set(A &a, const Dims &c, int, double x) { a[c.at(0)] = x; }
};
template <> struct K<ArrayRT> {
  static size_t co(const Dims &d) { return d.at(0); }
  static Dims dims(const ArrayRT &a) { return Dims{a.getDimensions()}; }
  template <class B> static double get(B &a, const Dims &c, int) { return dbl(a[c.at(0)]); }
  static void set(ArrayRT &a, const Dims &c, int, double x) { a[c.at(0)] = Expr(x); }
};
// a handle: run-time arrays live behind shared pointers
template <class A> struct H { A a; A &operator*() { return a; } void make(const Dims &d) { a = A(K<A>::co(d)); }
  template <class R> void take(R &&r) { a = r; } };
template <> struct H<ArrayRT> { std::shared_ptr<ArrayRT> p = ArrayRT::create(); ArrayRT &operator*() { return *p; } void make(const Dims &d) { p = ArrayRT::create(d.at(0)); }
  void take(const std::shared_ptr<ArrayRT> &r) { auto s = ArrayRT::create(); for (const auto &v : *r) s->push_back(simplify(v)); p = s; }
  template <class... A> void take(const Array<A...> &r) { p = ArrayRT::create(); for (const auto &v : r) (*p).push_back(simplify(Expr(v))); } };
template <class A> struct El { static double mk(double v) { return v; } };
template <> struct El<ArrayRT> { static Expr mk(double v) { return Expr(v); } };
template <class T> std::vector<T> nums(const mj::V &l) { std::vector<T> r; for (auto &x : l.a) r.push_back(T(num(x))); return r; }
template <class F, class T> void il(const std::vector<T> &l, F f) {
  switch (l.size()) { case 0: f(std::initializer_list<T>{}); break; case 1: f(std::initializer_list<T>{l[0]}); break; case 2: f({l[0], l[1]}); break; case 3: f({l[0], l[1], l[2]}); break;
    case 4: f({l[0], l[1], l[2], l[3]}); break; case 5: f({l[0], l[1], l[2], l[3], l[4]}); break; case 6: f({l[0], l[1], l[2], l[3], l[4], l[5]}); break; default: throw std::runtime_error("list"); } }
template <class A> std::string look(H<A> &h) {
  A &a = *h; const A &k = a; const Dims d = K<A>::dims(k); std::string s = "{\"d\":["; for (size_t i = 0; i < d.size(); ++i) s += (i ? "," : "") + std::to_string(d[i]);
  s += "],\"n\":" + std::to_string(k.size()) + ",\"e\":" + (k.empty() ? "1" : "0");
  auto walk = [&](auto b, auto e) { std::string t = "["; size_t n = 0; for (; b != e && n < 200; ++b, ++n) t += (n ? "," : "") + std::to_string(res(dbl(*b))); return t + "]"; };
  s += ",\"it\":[" + walk(k.begin(), k.end()) + "," + walk(a.begin(), a.end()) + "],\"ad\":[";
  bool any = !d.empty(); for (auto x : d) if (!x) any = false;
  for (int how = 0; how < 4; ++how) { s += how ? ",[" : "["; if (any) { Dims c(d.size(), 0); bool first = true; for (;;) {
      if (!first) s += ","; first = false; s += std::to_string(res(how & 2 ? K<A>::get(k, c, how & 1) : K<A>::get(a, c, how & 1)));
      size_t i = d.size(); while (i > 0 && ++c[i - 1] == d[i - 1]) { c[i - 1] = 0; --i; } if (!i) break; } } s += "]"; }
  return s + "]}"; }
template <class X, class Y> struct World {
  H<X> x; H<Y> y;
  template <class F> void on(long v, F f) { if (v == 0) f(x); else f(y); }
  static Dims dm(const mj::V &d) { Dims r; for (auto &q : d.a) r.push_back(q.i()); return r; }
  template <class A> void fills(H<A> &h, const mj::V &q) { if (q.has("f")) for (auto &p : q["f"].a) K<A>::set(*h, dm(p.a[0]), p.a[2].i(), num(p.a[1])); }
  template <class HA> using AT = typename std::decay<decltype(**(HA *)0)>::type;
  std::string step(const mj::V &q) {
    const std::string &a = q["a"].s; const long v = q.has("v") ? q["v"].i() : 0; bool refused = false; std::string r; clr();
    try {
      if (a == "new") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A; h.make(dm(q["d"])); fills(h, q); });
      else if (a == "resize") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A; (*h).resize(K<A>::co(dm(q["d"]))); fills(h, q); });
      else if (a == "newl") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A;
        if constexpr (std::is_same<A, ArrayRT>::value) il(nums<Expr>(q["l"]), [&](std::initializer_list<Expr> l) { h.take(ArrayRT::create(l)); });
        else if constexpr (std::is_same<typename A::Store, std::vector<double>>::value) il(nums<double>(q["l"]), [&](std::initializer_list<double> l) { h.take(A(K<A>::co(dm(q["d"])), l)); });
        else throw std::runtime_error("no list"); });
      else if (a == "newv") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A;
        if constexpr (std::is_same<A, LA<-1u>>::value) il(nums<double>(q["l"]), [&](std::initializer_list<double> l) { h.take(A(l)); }); else throw std::runtime_error("no list"); });
      else if (a == "push") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A;
        (*h).push_back(El<A>::mk(num(q["x"]))); });
      else if (a == "set") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A; K<A>::set(*h, dm(q["c"]), q["how"].i(), num(q["x"])); });
      else if (a == "addr") on(v, [&](auto &h) { typedef typename std::decay<decltype(*h)>::type A; const A &k = *h; double z = q["how"].i() ? K<A>::get(k, dm(q["c"]), 0) : K<A>::get(*h, dm(q["c"]), 0); r += ",\"z\":" + std::to_string(z); });
      else if (a == "copy") { if constexpr (std::is_same<X, Y>::value && !std::is_same<X, ArrayRT>::value) { if (v == 0) *x = *y; else *y = *x; } else throw std::runtime_error("no copy"); }
      else if (a == "eq") { const X &p = *x; const Y &s = *y; r += std::string(",\"eq\":[") + (p == p ? "1" : "0") + "," + (s == s ? "1" : "0") + "," + (p == s ? "1" : "0") + "," + (s == p ? "1" : "0") + "]"; }
      else if (a == "op") {
        const std::string &o = q["o"].s; const long l = q["l"].i(), rr = q["r"].i(); const double sc = q.has("s") ? num(q["s"]) : 0;
        auto app = [&](auto &dst, const auto &p, const auto &s) {
          if (o == "+") dst.take(p + s); else if (o == "-") dst.take(p - s); else if (o == "/") dst.take(p / s);
          else if constexpr (std::is_same<X, ArrayRT>::value) dst.take(p * s); else throw std::runtime_error("no product"); };
        const X &cx = *x; const Y &cy = *y;
        if (l == 0 && rr == 1) app(x, cx, cy); else if (l == 1 && rr == 0) app(y, cy, cx); else if (l == 0 && rr == 0) app(x, cx, cx); else if (l == 1 && rr == 1) app(y, cy, cy);
        else if (l == 0) app(x, cx, sc); else if (l == 1) app(y, cy, sc); else if (rr == 0) app(x, sc, cx); else app(y, sc, cy); }
      else throw std::logic_error("bad action " + a);
    } catch (stator::Exception &) { refused = true; }
    const std::string f = fl();
    return std::string("{\"re\":") + (refused ? "1" : "0") + f + r + ",\"st\":[" + look(x) + "," + look(y) + "]}"; }
};
template <class X, class Y> void hist(const mj::V &c, std::string &out) { World<X, Y> w; out += ",\"o\":["; bool f = true; for (auto &q : c["h"].a) { if (!f) out += ","; f = false; out += w.step(q); } out += "]"; }
void run(const mj::V &c, std::string &out) {
  const std::string &t = c["t"].s; std::string o;
  if (t == "D-D") hist<RM<-1u, -1u>, RM<-1u, -1u>>(c, o);
  else if (t == "D1-F1") hist<RM<-1u, 1>, RM<5, 1>>(c, o);
  else if (t == "D2-F2") hist<RM<-1u, 2>, RM<12, 2>>(c, o);
  else if (t == "F2-F2") hist<RM<12, 2>, RM<12, 2>>(c, o);
  else if (t == "D3-F3") hist<RM<-1u, 3>, RM<24, 3>>(c, o);
  else if (t == "L-LF") hist<LA<-1u>, LA<6>>(c, o);
  else if (t == "L-L") hist<LA<-1u>, LA<-1u>>(c, o);
  else if (t == "RT-RT") hist<ArrayRT, ArrayRT>(c, o);
  else throw std::runtime_error("bad type " + t);
  out += o; }
