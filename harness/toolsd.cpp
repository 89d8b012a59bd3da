// C26: texts and error messages.
#include <stator/exception.hpp>
#include <string>
#include <stator/string.hpp>
#include "mj.hpp"
#include <fstream>
#include <memory>
static std::string tail(const std::string &m) { const size_t p = m.find('\n'); return p == std::string::npos ? "(no first line)" : m.substr(p + 1); }
static std::string error(const mj::V &h) {
  std::unique_ptr<stator::Exception> e(new stator::Exception(37, "file.cpp", "function")); std::string ms = mj::esc(tail(e->what())); const std::string head = "Exception thrown in [function] (file.cpp:37)\n";
  bool where = true;
  for (auto &q : h.a) { const std::string &a = q["a"].s;
    if (a == "put") *e << q["x"].s; else if (a == "num") *e << (int)q["n"].i(); else if (a == "copy") e.reset(new stator::Exception(*e)); else if (a == "what") e->what();
    else { try { throw *e; } catch (std::exception &x) { e.reset(new stator::Exception(dynamic_cast<stator::Exception &>(x))); } }
    stator::Exception look(*e); ms += "," + mj::esc(tail(look.what())); where = where && std::string(look.what()).compare(0, head.size(), head) == 0; }
  // what the error itself says, last
  if (mj::esc(tail(e->what())) != ms.substr(ms.size() - std::min(ms.size(), mj::esc(tail(e->what())).size()))) where = false;
  return ",\"m\":[" + ms + "],\"where\":" + (where ? "1" : "0"); }
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); std::ofstream os(argv[2], std::ios::app);
  long skip = argc > 3 ? atol(argv[3]) : 0; std::string line; long n = 0;
  while (std::getline(in, line)) {
    if (n++ < skip) continue;
    std::string out = "{\"i\":" + std::to_string(n - 1), body;
    try { mj::V c = mj::parse(line);
      if (c["op"].s == "error") body = error(c["h"]);
      else { const std::string &x = c["x"].s, &ws = c["ws"].s, &f = c["from"].s, &t = c["to"].s; auto r = stator::search_replace(x, f, t);
        body = ",\"strip\":" + mj::esc(stator::strip(x, ws)) + ",\"strip0\":" + mj::esc(stator::strip(x)) + ",\"swap\":" + mj::esc(r.first) + ",\"n\":" + std::to_string(r.second) + ",\"fmt\":" + mj::esc(stator::string_format("%s/%d%%%s", x.c_str(), (int)r.second, f.c_str())); }
      out += body; }
    catch (std::exception &e) { out += ",\"exc\":\"std\",\"what\":" + mj::esc(std::string(e.what()).substr(0, 300)); }
    os << out << "}" << std::endl;
  }
}
