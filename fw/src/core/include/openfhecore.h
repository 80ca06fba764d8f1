#pragma once
#include <cstdint>
#include <stdexcept>
namespace lbcrypto {
struct NativeInteger {
  uint64_t v = 0; NativeInteger() = default; NativeInteger(uint64_t x) : v(x) {}
  int64_t ConvertToInt() const { return (int64_t)v; }
  double ConvertToDouble() const { return (double)v; }
  NativeInteger Mod(NativeInteger m) const { return v % m.v; }
  friend NativeInteger operator+(NativeInteger a, NativeInteger b) { return a.v + b.v; }
  friend NativeInteger operator-(NativeInteger a, NativeInteger b) { return a.v - b.v; }
  friend NativeInteger operator*(NativeInteger a, NativeInteger b) { return a.v * b.v; }
  friend bool operator==(NativeInteger a, NativeInteger b) { return a.v == b.v; }
  friend bool operator!=(NativeInteger a, NativeInteger b) { return a.v != b.v; }
  friend bool operator<(NativeInteger a, NativeInteger b) { return a.v < b.v; }
  friend bool operator>(NativeInteger a, NativeInteger b) { return a.v > b.v; }
};
inline uint64_t mulm(uint64_t a, uint64_t b, uint64_t m) { return (unsigned __int128)a * b % m; }
inline bool MillerRabinPrimalityTest(NativeInteger n0) {
  uint64_t n = n0.v; if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % p == 0) return n == p; }
  uint64_t d = n - 1; int r = 0; while (!(d & 1)) d >>= 1, ++r;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = 1, b = a, e = d; while (e) { if (e & 1) x = mulm(x, b, n); b = mulm(b, b, n); e >>= 1; }
    if (x == 1 || x == n - 1) continue; bool ok = false;
    for (int i = 1; i < r && !ok; ++i) { x = mulm(x, x, n); ok = x == n - 1; }
    if (!ok) return false;
  }
  return true;
}
template <typename I> I NextPrime(const I &q, uint64_t m) { uint64_t n = q.v + m; while (!MillerRabinPrimalityTest(n)) { if (n + m < n) throw std::runtime_error("overflow"); n += m; } return n; }
template <typename I> I PreviousPrime(const I &q, uint64_t m) { uint64_t n = q.v - m; while (!MillerRabinPrimalityTest(n)) { if (n < m) throw std::runtime_error("underflow"); n -= m; } return n; }
template <typename I> I FirstPrime(uint32_t bits, uint64_t m) {
  if (bits > 60) throw std::runtime_error("FirstPrime: too many bits");
  uint64_t r = (uint64_t(1) << bits) % m, n = (uint64_t(1) << bits) + 1; if (r) n += m - r;
  while (!MillerRabinPrimalityTest(n)) n += m;
  return n;
}
template <typename I> I LastPrime(uint32_t bits, uint64_t m) {
  if (bits > 60) throw std::runtime_error("LastPrime: too many bits");
  uint64_t r = (uint64_t(1) << bits) % m, n = (uint64_t(1) << bits) + 1 - r; if (r == 0) n -= 0;
  if (n > (uint64_t(1) << bits)) n -= m;
  while (!MillerRabinPrimalityTest(n)) n -= m;
  return n;
}
}
using lbcrypto::NativeInteger;
