// Random numbers and hashes of the harness (not of the code under test).
#pragma once
#include <Eigen/Core>
#include <cstddef>
#include <cstdint>

// ------------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t u() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  int n(int k) { return (int)(u() % (uint64_t)k); }
  double d() { return (double)(u() >> 11) * (1.0 / 9007199254740992.0); }
  double r(double a, double b) { return a + (b - a) * d(); }
  bool p(double q) { return d() < q; }
  Eigen::Vector3d v(double a) { double x = r(-a, a), y = r(-a, a), z = r(-a, a); return Eigen::Vector3d(x, y, z); }
};
static inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
