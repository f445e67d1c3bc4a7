#include "plan.h"

#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim {

Op& Op::Set(const std::string& k, const std::string& v) {
  for (auto& p : kv)
    if (p.first == k) {
      p.second = v;
      return *this;
    }
  kv.emplace_back(k, v);
  return *this;
}
Op& Op::SetD(const std::string& k, double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return Set(k, std::string(b));
}
bool Op::Has(const std::string& k) const {
  for (auto& p : kv)
    if (p.first == k) return true;
  return false;
}
std::string Op::Str(const std::string& k, const std::string& d) const {
  for (auto& p : kv)
    if (p.first == k) return p.second;
  return d;
}
long long Op::Int(const std::string& k, long long d) const {
  for (auto& p : kv)
    if (p.first == k) return (long long)strtoull(p.second.c_str() + (p.second[0] == '-'), 0, 10) *
                             (p.second[0] == '-' ? -1 : 1);
  return d;
}
double Op::Dbl(const std::string& k, double d) const {
  for (auto& p : kv)
    if (p.first == k) return strtod(p.second.c_str(), 0);
  return d;
}
std::string Op::Line() const {
  std::string s = name;
  for (auto& p : kv) s += " " + p.first + "=" + p.second;
  return s;
}
std::string Plan::Text() const {
  std::string s = "plan prop=" + prop + " seed=" + std::to_string(seed) + "\n";
  for (auto& o : ops) s += o.Line() + "\n";
  return s;
}
Plan Plan::Parse(const std::string& text) {
  Plan p;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    Op o(w);
    while (ls >> w) {
      size_t e = w.find('=');
      if (e == std::string::npos) continue;
      o.Set(w.substr(0, e), w.substr(e + 1));
    }
    if (o.name == "plan") {
      p.prop = o.Str("prop");
      p.seed = (unsigned long long)o.Int("seed");
    } else {
      p.ops.push_back(o);
    }
  }
  return p;
}

}  // namespace sim
