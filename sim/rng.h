// Seeded PRNG: every choice of a simulated run derives from one integer.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstddef>
#include <vector>

namespace sim {

inline uint64_t Mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t Mix2(uint64_t a, uint64_t b) { return Mix(a ^ Mix(b)); }

class Rng {
 public:
  explicit Rng(uint64_t seed = 0) : s_(Mix(seed ^ 0xC0FFEEull)) {}
  uint64_t Next() {
    s_ += 0x9E3779B97F4A7C15ull;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // Uniform in [lo, hi].
  int Int(int lo, int hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int>(Next() % static_cast<uint64_t>(hi - lo + 1));
  }
  uint64_t U64(uint64_t n) { return n ? Next() % n : 0; }
  bool Chance(double p) { return Unit() < p; }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  double Uniform(double a, double b) { return a + (b - a) * Unit(); }
  double Normal() {
    double u = Unit(), v = Unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[U64(v.size())];
  }
  Rng Fork(uint64_t tag) { return Rng(Mix2(Next(), tag)); }

 private:
  uint64_t s_;
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void Bytes(const void* p, size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) {
      h ^= c[i];
      h *= 1099511628211ull;
    }
  }
  void U64(uint64_t v) { Bytes(&v, 8); }
  void D(double v) { Bytes(&v, 8); }
};

}  // namespace sim
