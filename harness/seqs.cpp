// C20: histories of operations on StackVector, for several element types.
#include <stator/exception.hpp>
#include <stator/orphan/stack_vector.hpp>
#include "mj.hpp"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <tuple>
using stator::orphan::StackVector;
template <class T> struct El;
template <> struct El<int> { static int mk(long v) { return (int)v; } static long rd(const int &t) { return t; } };
template <> struct El<std::string> { static std::string mk(long v) { return "s" + std::to_string(v); } static long rd(const std::string &t) { return t.size() > 1 ? atol(t.c_str() + 1) : -12345; } };
template <> struct El<std::pair<int, int>> { static std::pair<int, int> mk(long v) { return {(int)v, (int)v + 1}; } static long rd(const std::pair<int, int> &t) { return t.second == t.first + 1 ? t.first : -12345; } };
template <> struct El<std::tuple<int, int>> { static std::tuple<int, int> mk(long v) { return std::tuple<int, int>((int)v, (int)v + 1); } static long rd(const std::tuple<int, int> &t) { return std::get<1>(t) == std::get<0>(t) + 1 ? std::get<0>(t) : -12345; } };
template <class It> std::string lst(It b, It e) { std::string s = "["; bool f = true; size_t n = 0; for (; b != e && n < 40; ++b, ++n) { if (!f) s += ","; f = false; s += std::to_string(El<typename std::decay<decltype(*b)>::type>::rd(*b)); } return s + "]"; }
template <class V, class T> V il(const std::vector<T> &l) {
  switch (l.size()) { case 0: { std::initializer_list<T> e; return V(e); } case 1: return V{l[0]}; case 2: return V{l[0], l[1]}; case 3: return V{l[0], l[1], l[2]};
    case 4: return V{l[0], l[1], l[2], l[3]}; case 5: return V{l[0], l[1], l[2], l[3], l[4]}; case 6: return V{l[0], l[1], l[2], l[3], l[4], l[5]}; case 7: return V{l[0], l[1], l[2], l[3], l[4], l[5], l[6]};
    case 8: return V{l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]}; }
  throw std::runtime_error("long list"); }
template <class T> struct Pool {
  StackVector<T, 2> a; StackVector<T, 4> b, c; StackVector<T, 7> d; StackVector<T, 0> e;
  template <class F> void with(long i, F f) { switch (i) { case 0: f(a); break; case 1: f(b); break; case 2: f(c); break; case 3: f(d); break; case 4: f(e); break; default: throw std::runtime_error("pool"); } }
  template <class V> std::string views(V &v) {
    const V &k = v; std::ostringstream os; os << k; std::vector<T> idx; for (size_t i = 0; i < k.size() && i < 40; ++i) idx.push_back(k[i]);
    const long bk = k.size() && k.size() <= 7 ? El<T>::rd(k.back()) : -1, bk2 = v.size() && v.size() <= 7 ? El<T>::rd(v.back()) : -1;
    return "{\"n\":" + std::to_string(k.size()) + ",\"emp\":" + (k.empty() ? "1" : "0") + ",\"fw\":[" + lst(idx.begin(), idx.end()) + "," + lst(v.begin(), v.end()) + "," + lst(k.begin(), k.end()) + "," + lst(k.cbegin(), k.cend())
      + "],\"bw\":[" + lst(v.rbegin(), v.rend()) + "," + lst(k.rbegin(), k.rend()) + "," + lst(k.crbegin(), k.crend()) + "],\"bk\":[" + std::to_string(bk) + "," + std::to_string(bk2) + "],\"pr\":" + mj::esc(os.str()) + "}"; }
  std::string state() { return "[" + lst(a.begin(), a.end()) + "," + lst(b.begin(), b.end()) + "," + lst(c.begin(), c.end()) + "," + lst(d.begin(), d.end()) + "," + lst(e.begin(), e.end()) + "]"; }
  std::string step(const mj::V &q) {
    const std::string &act = q["a"].s; const long t = q["v"].i(); std::string r; bool refused = false;
    try {
      if (act == "init") { std::vector<T> l; for (auto &x : q["l"].a) l.push_back(El<T>::mk(x.i())); with(t, [&](auto &v) { v = il<typename std::decay<decltype(v)>::type>(l); }); }
      else if (act == "push") with(t, [&](auto &v) { v.push_back(El<T>::mk(q["x"].i())); });
      else if (act == "pop") with(t, [&](auto &v) { T x = v.pop_back(); r += ",\"ret\":" + std::to_string(El<T>::rd(x)); });
      else if (act == "ext") with(t, [&](auto &v) { with(q["w"].i(), [&](auto &w) { v.extend(w); }); });
      else if (act == "copy") with(t, [&](auto &v) { with(q["w"].i(), [&](auto &w) {
        typedef typename std::decay<decltype(v)>::type V; typedef typename std::decay<decltype(w)>::type W;
        if constexpr (std::is_constructible<V, const W &>::value) { const W &cw = w; v = V(cw); } else throw std::runtime_error("no such copy"); }); });
      else if (act == "set") with(t, [&](auto &v) { const long i = q["k"].i(); const T x = El<T>::mk(q["x"].i());
        switch (q["how"].i()) { case 0: v[i] = x; break; case 1: *(v.begin() + i) = x; break; case 2: *(v.rbegin() + (v.size() - 1 - i)) = x; break; case 3: v.back() = x; break; case 4: *(v.end() - (v.size() - i)) = x; break; } });
      else if (act == "swap") std::swap(b, c);
      else if (act == "sort") with(t, [&](auto &v) { std::sort(v.begin(), v.end()); });
      else if (act == "eq") { const auto &x = b; const auto &y = c; r += std::string(",\"eq\":[") + (x == y ? "1" : "0") + "," + (y == x ? "1" : "0") + "," + (x != y ? "1" : "0") + "," + (x == x ? "1" : "0") + "]"; }
      else throw std::logic_error("bad action " + act);
    } catch (stator::Exception &) { refused = true; }
    std::string vw; with(t, [&](auto &v) { vw = views(v); });
    return "{\"re\":" + std::string(refused ? "1" : "0") + r + ",\"st\":" + state() + ",\"w\":" + vw + "}"; }
  void history(const mj::V &h, std::string &out) { out += ",\"o\":["; bool f = true; for (auto &q : h.a) { if (!f) out += ","; f = false; out += step(q); } out += "]"; }
};
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); std::ofstream os(argv[2], std::ios::app);
  long skip = argc > 3 ? atol(argv[3]) : 0; std::string line; long n = 0;
  while (std::getline(in, line)) {
    if (n++ < skip) continue;
    std::string out = "{\"i\":" + std::to_string(n - 1), body;
    try { mj::V c = mj::parse(line); const std::string &t = c["t"].s;
      if (t == "int") { Pool<int> p; p.history(c["h"], body); } else if (t == "str") { Pool<std::string> p; p.history(c["h"], body); }
      else if (t == "pair") { Pool<std::pair<int, int>> p; p.history(c["h"], body); } else { Pool<std::tuple<int, int>> p; p.history(c["h"], body); }
      out += body; }
    catch (std::exception &e) { out += ",\"exc\":\"std\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    os << out << "}" << std::endl;
  }
}
