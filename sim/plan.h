// A simulated run is a plan: a list of operations and injected faults.  A plan
// is a pure function of (property, seed); execution is a pure function of the
// plan and the code under test.
#pragma once
#include <map>
#include <string>
#include <vector>

#include "rng.h"

namespace sim {

struct Op {
  std::string name;
  std::vector<std::pair<std::string, std::string>> kv;
  Op() {}
  explicit Op(const std::string& n) : name(n) {}
  Op& Set(const std::string& k, const std::string& v);
  Op& Set(const std::string& k, long long v) { return Set(k, std::to_string(v)); }
  Op& SetD(const std::string& k, double v);
  bool Has(const std::string& k) const;
  std::string Str(const std::string& k, const std::string& d = "") const;
  long long Int(const std::string& k, long long d = 0) const;
  double Dbl(const std::string& k, double d = 0) const;
  std::string Line() const;
};

struct Plan {
  std::string prop;
  unsigned long long seed = 0;
  std::vector<Op> ops;
  std::string Text() const;
  static Plan Parse(const std::string& text);
};

Plan MakePlan(const std::string& prop, unsigned long long seed, bool thorough);
bool KnownProperty(const std::string& prop);

}  // namespace sim
