// C25: histories of changes to XML documents, asked for everything they hold after each change; documents cut short.
#include <stator/xml.hpp>
#include "mj.hpp"
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
using namespace stator::xml;
static const char *NAMES[] = {"a", "ab", "b"}, *KEYS[] = {"k", "kk", "m"};
static std::string bad;
static void wrong(const std::string &w) { if (bad.find(mj::esc(w)) == std::string::npos) bad += (bad.empty() ? "" : ",") + mj::esc(w); }
template <class F> static bool refuses(F f) { try { f(); } catch (stator::Exception &) { return true; } catch (std::exception &) { } return false; }
template <class F> static std::string tried(F f) { try { return f(); } catch (stator::Exception &) { return "(error)"; } }
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.10g", d); return b; }
static const std::map<std::string, int> CH = {{"red", 1}, {"green", 2}};
static std::string attribute(const Node &n, const char *k) {
  const bool has = n.hasAttribute(k); if (n.hasAttribute(std::string(k)) != has) wrong("hasAttribute by string");
  if (!has) {
    if (!refuses([&] { n.getAttribute(k); })) wrong("missing attribute not refused");
    if (!refuses([&] { n.getAttribute(std::string(k)).getValue(); })) wrong("value of missing attribute not refused");
    if (!refuses([&] { n.getAttribute(std::string(k)).getPath(); })) wrong("path of missing attribute not refused");
    return "[]"; }
  Attribute a = n.getAttribute(k), b = n.getAttribute(std::string(k));
  if (!a.valid() || !b.valid()) wrong("attribute invalid");
  if (a.getName() != k) wrong("attribute name"); if (b.getValue() != a.getValue() || std::string(a) != a.getValue() || a.as<std::string>() != a.getValue()) wrong("attribute value");
  if (b.getPath() != a.getPath()) wrong("attribute path");
  return "[" + mj::esc(a.getValue()) + "," + mj::esc(tried([&] { return std::to_string(a.as<int>()); })) + "," + mj::esc(tried([&] { return num(a.as<double>()); })) + "," + mj::esc(tried([&] { return std::to_string(a.match(CH)); })) + "," + mj::esc(a.getPath()) + "]"; }
static std::string view(Node n);
template <class P> static std::string namesakes(P &parent, const char *nm, Node first, const std::string *ppath) {
  std::string s = "["; Node n = first, last = first; int count = 0; std::vector<std::string> fwd, bwd;
  for (; n.valid() && count < 40; ++n, ++count) { if (count) s += ","; s += view(n); fwd.push_back(n.getPath()); last = n; if (ppath) { if (n.getParent().getPath() != *ppath) wrong("parent"); } }
  if (!refuses([&] { ++n; }) || !refuses([&] { --n; })) wrong("stepping beyond the last not refused");
  for (n = last; n.valid() && bwd.size() < 40; --n) bwd.insert(bwd.begin(), n.getPath());
  if (fwd != bwd) wrong("stepping back");
  return s + "]"; }
static std::string view(Node n) {
  if (!n.valid()) wrong("invalid element");
  std::string s = "{\"nm\":" + mj::esc(n.getName()) + ",\"val\":" + mj::esc(n.getValue()) + ",\"path\":" + mj::esc(n.getPath()) + ",\"up\":[";
  try { Node u = n; for (int i = 0; i < 30; ++i) { u = u.getParent(); s += (i ? "," : "") + mj::esc(u.getPath()); } } catch (stator::Exception &) { }
  s += "],\"at\":[";
  if (std::string(n) != n.getValue()) wrong("value as string");
  for (int i = 0; i < 3; ++i) s += (i ? "," : "") + attribute(n, KEYS[i]);
  s += "],\"kids\":["; const std::string path = n.getPath();
  for (int i = 0; i < 3; ++i) {
    Node f = n.findNode(NAMES[i]); if (f.valid() != n.hasNode(NAMES[i])) wrong("hasNode");
    if (f.valid()) { if (n.getNode(NAMES[i]).getPath() != f.getPath() || n.getNode(std::string(NAMES[i])).getPath() != f.getPath()) wrong("getNode"); s += (i ? "," : "") + namesakes(n, NAMES[i], f, &path); }
    else { if (!refuses([&] { n.getNode(NAMES[i]); })) wrong("missing element not refused");
      if (!refuses([&] { n.getNode(std::string(NAMES[i])).getValue(); })) wrong("value of missing element not refused");
      if (!refuses([&] { f.getValue(); }) || !refuses([&] { f.getPath(); }) || !refuses([&] { f.hasNode("a"); }) || !refuses([&] { f.getNode("a"); }) || !refuses([&] { f.findNode("a"); }) || !refuses([&] { f.firstNode(); })
          || !refuses([&] { f.hasAttribute("k"); }) || !refuses([&] { f.getAttribute("k"); }) || !refuses([&] { ++f; }) || !refuses([&] { --f; })) wrong("use of missing element not refused");
      if (f.getParent().getPath() != path) wrong("parent of missing element");
      s += (i ? ",[]" : "[]"); } }
  Node f = n.firstNode(); if (f.valid() && f.getName() == "") { if (f.getValue() != n.getValue()) wrong("text element"); }
  s += "],\"first\":" + mj::esc(!f.valid() || f.getName() == "" ? "(none)" : f.getName()) + "}"; return s; }
static std::string roots(Document &d) {
  std::string s = "[";
  for (int i = 0; i < 3; ++i) { if (i) s += ",";
    std::unique_ptr<Node> f; try { f.reset(new Node(d.getNode(NAMES[i]))); } catch (stator::Exception &) { }
    if (f) { const std::string dp = f->getParent().getPath(); s += namesakes(d, NAMES[i], *f, &dp); } else s += "[]"; }
  return s + "]"; }
static std::string observe(Document &d) { bad.clear(); const std::string r = roots(d); std::ostringstream os; os << d; return "{\"roots\":" + r + ",\"pr\":" + mj::esc(os.str()) + ",\"bad\":[" + bad + "]}"; }
// the element at a place: step to it over the children of all names, which only firstNode and the order of creation give; so by name and count
struct Shadow { std::string nm; std::vector<Shadow> kids; };
static Shadow shadow(const mj::V &t) { Shadow s; s.nm = t["nm"].s; for (auto &k : t["kids"].a) s.kids.push_back(shadow(k)); return s; }
static Shadow &sat(Shadow &s, const mj::V &p) { Shadow *n = &s; for (auto &i : p.a) n = &n->kids.at(i.i() - 1); return *n; }
static Node at(Document &d, const Shadow &s, const mj::V &p) {
  const Shadow *n = &s; std::unique_ptr<Node> e;
  for (auto &i : p.a) { const Shadow &k = n->kids.at(i.i() - 1); int before = 0; for (long j = 0; j < i.i() - 1; ++j) before += n->kids[j].nm == k.nm;
    Node f = e ? e->getNode(k.nm.c_str()) : d.getNode(k.nm); while (before--) ++f; e.reset(new Node(f)); n = &k; }
  return *e; }
static void change(Document &d, Shadow &s, const mj::V &q) {
  const std::string &a = q["a"].s; const mj::V &p = q["p"];
  if (a == "add") { if (p.a.empty()) d.add_node(q["nm"].s); else at(d, s, p).add_node(q["nm"].s); sat(s, p).kids.push_back({q["nm"].s, {}}); return; }
  Node n = at(d, s, p);
  if (a == "attr") { const std::string &k = q["k"].s, &v = q["v"].s; switch (q["how"].i()) { case 1: n.add_attribute(k, atoi(v.c_str())); break; case 2: n.add_attribute(k, CH.at(v), CH); break; default: n.add_attribute(k, v); } }
  else if (a == "set") n = q["v"].s; else if (a == "app") n += q["v"].s; else throw std::logic_error("bad change"); }
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); std::ofstream os(argv[2], std::ios::app);
  long skip = argc > 3 ? atol(argv[3]) : 0; std::string line; long n = 0; const std::string file = std::string(argv[2]) + ".xml";
  while (std::getline(in, line)) {
    if (n++ < skip) continue;
    std::string out = "{\"i\":" + std::to_string(n - 1), body;
    try { mj::V c = mj::parse(line);
      { std::ofstream o(file, std::ios::trunc); o << c["text"].s; }
      if (c["op"].s == "cut") {
        try { Document d(file); body = ",\"res\":\"accepted\""; }
        catch (stator::Exception &e) { const std::string w = e.what(); const size_t a = w.find("at line "), b = w.find(", char ", a == std::string::npos ? 0 : a);
          body = ",\"res\":\"refused\",\"line\":" + std::to_string(a == std::string::npos ? -1 : atol(w.c_str() + a + 8)) + ",\"col\":" + std::to_string(b == std::string::npos ? -1 : atol(w.c_str() + b + 7)); }
        catch (std::exception &e) { body = ",\"res\":" + mj::esc(std::string("other error: ") + e.what()); } }
      else {
        std::unique_ptr<Document> d(c["from"].s == "build" ? new Document() : new Document(file)); Shadow s = shadow(c["tree"]);
        body = ",\"o\":[" + observe(*d); for (auto &q : c["h"].a) { change(*d, s, q); body += "," + observe(*d); } body += "]"; }
      out += body; }
    catch (std::exception &e) { out += ",\"exc\":\"std\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    os << out << "}" << std::endl;
  }
  unlink(file.c_str());
}
