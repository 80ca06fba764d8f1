// A01 number-theoretic transforms, A02 modular arithmetic and math helpers, A03 log-domain arithmetic.
#include <boost/multiprecision/cpp_int.hpp>

#include "lib/Utils/APIntUtils.h"
#include "lib/Utils/LogArithmetic.h"
#include "lib/Utils/MathUtils.h"
#include "lib/Utils/Polynomial/NTT.h"
#include "llvm/ADT/SmallString.h"
#include "mon.h"
using namespace mlir::heir;
using llvm::APInt;
using mon::S;
using Big = boost::multiprecision::cpp_int;
typedef unsigned __int128 u128;

namespace {
std::string dec(const APInt &a) { llvm::SmallString<64> s; a.toStringUnsigned(s); return std::string(s.str()); }
Big big(const APInt &a) { return Big(dec(a)); }
APInt ap(unsigned w, const Big &v) { return APInt(w, v.str(), 10); }
std::string bs(const Big &b) { return b.str(); }
uint64_t mulm(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t)((u128)a * b % m); }
uint64_t powm(uint64_t a, uint64_t e, uint64_t m) {
  uint64_t r = 1 % m;
  for (a %= m; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m);
  return r;
}
// Deterministic for 64 bits (first twelve primes as bases), written independently of the code under test.
bool prime64(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
  uint64_t d = n - 1; int s = 0;
  while (!(d & 1)) d >>= 1, ++s;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = powm(a, d, n);
    bool ok = x == 1 || x == n - 1;
    for (int r = 1; r < s && !ok; ++r) ok = (x = mulm(x, x, n)) == n - 1;
    if (!ok) return false;
  }
  return true;
}
Big randBig(mon::Case &c, unsigned bits) {
  Big v = 0;
  for (unsigned i = 0; i < bits; i += 32) v = (v << 32) | Big((uint32_t)c.rng.next());
  return v & ((Big(1) << bits) - 1);
}
std::vector<uint64_t> primeFactors(uint64_t v) {
  std::vector<uint64_t> f;
  for (uint64_t d = 2; d <= v / d; ++d)
    if (v % d == 0) { f.push_back(d); while (v % d == 0) v /= d; }
  if (v > 1) f.push_back(v);
  return f;
}
// An operand that prefers the edges of [0, m).
uint64_t edge(mon::Case &c, uint64_t m) {
  switch (c.rng.in(0, 6)) {
    case 0: return 0;
    case 1: return m - 1;
    case 2: return 1 % m;
    case 3: return m / 2;
    case 4: return m - 1 - c.rng.next() % std::min<uint64_t>(m, 4);
    default: return c.rng.next() % m;
  }
}
// A random prime q = 1 mod m of the given size; 0 if none found quickly.
uint64_t friendly(mon::Case &c, int bits, uint64_t m) {
  uint64_t lo = bits == 64 ? 1ull << 63 : 1ull << (bits - 1), hi = bits == 64 ? ~0ull : (1ull << bits) - 1;
  if (m >= hi) return 0;
  for (int t = 0; t < 4000; ++t) {
    uint64_t k = (lo + c.rng.next() % (hi - lo + 1)) / m;
    if (k == 0) k = 1;
    u128 q = (u128)k * m + 1;
    if (q > hi || q < lo) continue;
    if (prime64((uint64_t)q)) return (uint64_t)q;
  }
  return 0;
}
// A primitive 2n-th root of unity modulo the prime q (n a power of two): any a with a^((q-1)/2) = -1.
uint64_t root2n(mon::Case &c, uint64_t q, uint64_t n) {
  while (true) {
    uint64_t r = powm(1 + c.rng.next() % (q - 1), (q - 1) / (2 * n), q);
    if (powm(r, n, q) == q - 1) return r;
  }
}
struct Ring { uint64_t n, q, psi; int bits; };
bool ring(mon::Case &c, Ring &r, int maxLog) {
  int lg = c.rng.chance(0.15) ? c.rng.in(0, 2) : c.rng.in(1, maxLog);
  r.n = 1ull << lg;
  r.bits = c.rng.chance(0.35) ? c.rng.pick({62, 63, 64, 64}) : c.rng.in(lg + 2, 64);
  r.q = friendly(c, r.bits, 2 * r.n);
  if (!r.q) return false;
  r.psi = root2n(c, r.q, r.n);
  return true;
}
std::vector<uint64_t> coeffs(mon::Case &c, const Ring &r) {
  std::vector<uint64_t> a(r.n);
  int mode = c.rng.in(0, 3);
  for (auto &x : a) x = mode == 0 ? r.q - 1 : mode == 1 ? edge(c, r.q) : c.rng.next() % r.q;
  if (mode == 3) for (auto &x : a) if (!c.rng.chance(0.1)) x = 0;
  return a;
}
std::string show(const std::vector<uint64_t> &a) {
  std::vector<uint64_t> h(a.begin(), a.begin() + std::min<size_t>(a.size(), 8));
  uint64_t z = 1469598103934665603ull;
  for (auto x : a) z = (z ^ x) * 1099511628211ull;
  return mon::str(h) + (a.size() > 8 ? "... #" + std::to_string(z) : "");
}
bool reduced(const std::vector<uint64_t> &a, uint64_t q) {
  for (auto x : a) if (x >= q) return false;
  return true;
}
}  // namespace

MON_FAMILY(A01_transform, 1500, 30000) {
  Ring r;
  if (!ring(c, r, c.thorough ? 9 : 7)) return c.skip();
  auto a = coeffs(c, r);
  c.describe(S() << "n=" << r.n << " q=" << r.q << " root=" << r.psi << " a=" << show(a));
  if (r.n == 1) c.trivial();
  c.event(r.bits >= 63 ? "top_bit_moduli" : "moduli");
  auto f = a;
  polynomial::nttInPlace(f, r.q, r.psi);
  if (!c.check(f.size() == r.n && reduced(f, r.q), "forward-not-reduced", [&] { return show(f); })) return;
  int lg = __builtin_ctzll(r.n);
  std::vector<uint64_t> pw(2 * r.n);
  pw[0] = 1;
  for (size_t i = 1; i < pw.size(); ++i) pw[i] = mulm(pw[i - 1], r.psi, r.q);
  for (uint64_t k = 0; k < r.n && r.n > 1; ++k) {
    uint64_t want = 0;
    for (uint64_t i = 0; i < r.n; ++i) want = (uint64_t)((want + (u128)a[i] * pw[i * (2 * k + 1) % (2 * r.n)]) % r.q);
    uint64_t slot = 0;
    for (int b = 0; b < lg; ++b) if (k >> b & 1) slot |= 1ull << (lg - 1 - b);
    if (!c.check(f[slot] == want, "forward-value", [&] { return S() << "evaluation at root^" << 2 * k + 1 << " should be " << want << ", slot " << slot << " has " << f[slot]; })) return;
  }
  auto g = f;
  polynomial::inttInPlace(g, r.q, r.psi);
  c.check(g == a, "inverse-of-forward", [&] { return S() << "got " << show(g); });
  auto h = a;
  polynomial::inttInPlace(h, r.q, r.psi);
  bool red = reduced(h, r.q);
  polynomial::nttInPlace(h, r.q, r.psi);
  c.check(red && h == a, "forward-of-inverse", [&] { return S() << "got " << show(h); });
}

MON_FAMILY(A01_product, 1500, 30000) {
  Ring r;
  if (!ring(c, r, c.thorough ? 9 : 7)) return c.skip();
  auto a = coeffs(c, r), b = coeffs(c, r);
  c.describe(S() << "n=" << r.n << " q=" << r.q << " root=" << r.psi << " a=" << show(a) << " b=" << show(b));
  if (r.n == 1) return c.trivial();
  std::vector<uint64_t> want(r.n, 0);
  for (uint64_t i = 0; i < r.n; ++i)
    for (uint64_t j = 0; j < r.n; ++j) {
      uint64_t p = mulm(a[i], b[j], r.q), k = (i + j) % r.n;
      if (i + j >= r.n && p) p = r.q - p;
      want[k] = (uint64_t)(((u128)want[k] + p) % r.q);
    }
  auto x = a, y = b;
  polynomial::nttInPlace(x, r.q, r.psi);
  polynomial::nttInPlace(y, r.q, r.psi);
  for (uint64_t i = 0; i < r.n; ++i) x[i] = mulm(x[i], y[i], r.q);
  polynomial::inttInPlace(x, r.q, r.psi);
  c.check(x == want, "negacyclic-product", [&] { return S() << "got " << show(x) << " want " << show(want); });
}

// Large rings: inverse and product with a sparse factor (monomial shifts), which stay cheap to check.
MON_FAMILY(A01_large, 60, 600) {
  int lg = c.rng.in(10, c.thorough ? 15 : 13);
  Ring r{1ull << lg, 0, 0, (int)c.rng.in(lg + 3, 64)};
  r.q = friendly(c, r.bits, 2 * r.n);
  if (!r.q) return c.skip();
  r.psi = root2n(c, r.q, r.n);
  auto a = coeffs(c, r);
  uint64_t s = c.rng.next() % r.n, k = edge(c, r.q);
  c.describe(S() << "n=" << r.n << " q=" << r.q << " root=" << r.psi << " a=" << show(a) << " times " << k << "x^" << s);
  std::vector<uint64_t> m(r.n, 0), x = a, want(r.n);
  m[s] = k;
  for (uint64_t i = 0; i < r.n; ++i) {
    uint64_t p = mulm(a[i], k, r.q);
    want[(i + s) % r.n] = i + s >= r.n && p ? r.q - p : p;
  }
  polynomial::nttInPlace(x, r.q, r.psi);
  auto back = x;
  polynomial::inttInPlace(back, r.q, r.psi);
  c.check(back == a, "inverse-of-forward", [&] { return S() << "got " << show(back); });
  polynomial::nttInPlace(m, r.q, r.psi);
  for (uint64_t i = 0; i < r.n; ++i) x[i] = mulm(x[i], m[i], r.q);
  polynomial::inttInPlace(x, r.q, r.psi);
  c.check(x == want, "negacyclic-product", [&] { return S() << "got " << show(x) << " want " << show(want); });
}

MON_FAMILY(A01_bits, 500, 5000) {
  int w = c.rng.in(0, 32);
  uint32_t n = (uint32_t)(c.rng.next() & (w == 32 ? 0xffffffffu : (1u << w) - 1));
  c.describe(S() << "reverseBits(" << n << "," << w << ")");
  uint32_t want = 0;
  for (int b = 0; b < w; ++b) if (n >> b & 1) want |= 1u << (w - 1 - b);
  uint32_t got = polynomial::reverseBits(n, w);
  c.check(got == want, "reverse-bits", [&] { return S() << "got " << got << " want " << want; });
}

namespace {
// A modulus of width w: small, power of two, top bit set, all ones, or random.
Big modulus(mon::Case &c, unsigned w) {
  Big top = Big(1) << w, m;
  switch (c.rng.in(0, 6)) {
    case 0: m = 2 + c.rng.in(0, 20); break;
    case 1: m = Big(1) << (unsigned)c.rng.in(0, w - 1); break;
    case 2: m = top - 1 - c.rng.in(0, 5); break;
    case 3: m = (top >> 1) + c.rng.in(0, 5); break;
    case 4: m = (top >> 1) | randBig(c, w - 1); break;
    default: m = randBig(c, c.rng.in(1, w)); break;
  }
  if (m >= top) m = top - 1;
  if (m < 1) m = 1;
  return m;
}
Big below(mon::Case &c, const Big &m) {
  switch (c.rng.in(0, 5)) {
    case 0: return m - 1;
    case 1: return m / 2;
    case 2: return m > 1 ? Big(1) : Big(0);
    default: return randBig(c, boost::multiprecision::msb(m) + 2) % m;
  }
}
unsigned width(mon::Case &c) { return c.rng.chance(0.3) ? c.rng.pick({64, 64, 63, 65, 32, 128}) : c.rng.in(2, c.rng.chance(0.2) ? 260 : 70); }
Big gcdB(Big a, Big b) { while (b != 0) { Big t = a % b; a = b; b = t; } return a; }
}  // namespace

MON_FAMILY(A02_inverse, 40000, 600000) {
  unsigned w = width(c);
  Big m = modulus(c, w), x = below(c, m);
  if (m == 1) return c.skip();
  c.describe(S() << "inverse of " << bs(x) << " modulo " << bs(m) << " at width " << w);
  Big g = gcdB(x, m), got = big(multiplicativeInverse(ap(w, x), ap(w, m)));
  c.event(g == 1 ? "invertible" : "not_invertible");
  if (g != 1) c.check(got == 0, "inverse-of-non-unit", [&] { return S() << "got " << bs(got); });
  else c.check(got > 0 && got < m && x * got % m == 1, "inverse", [&] { return S() << "got " << bs(got); });
}

MON_FAMILY(A02_power, 20000, 300000) {
  unsigned w = width(c), we = c.rng.pick<int>({2, 8, 33, 64, 100});
  Big m = modulus(c, w), a = randBig(c, w), e = c.rng.chance(0.2) ? Big(c.rng.in(0, 3)) : randBig(c, we), b = randBig(c, w);
  c.describe(S() << bs(a) << "^" << bs(e) << " and *" << bs(b) << " modulo " << bs(m) << " at width " << w);
  if (m == 1) c.event("modulus_one");
  Big got = big(modularExponentiation(ap(w, a), ap(we, e), ap(w, m))), want = boost::multiprecision::powm(a, e, m) % m;
  c.check(got == want, "exponentiation", [&] { return S() << "got " << bs(got) << " want " << bs(want); });
  got = big(modularMultiplication(ap(w, a), ap(w, b), ap(w, m)));
  c.check(got == a * b % m, "multiplication", [&] { return S() << "got " << bs(got); });
}

namespace {
const std::vector<std::string> &hardComposites() {
  static std::vector<std::string> v = {
      "2047", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051",
      "318665857834031151167461", "3317044064679887385961981", "561", "1105", "1729", "2465", "2821", "6601", "8911", "10585", "15841", "29341", "41041", "825265", "321197185",
      "5394826801", "232250619601", "9746347772161", "1436697831295441", "60977817398996785", "7156857700403137441", "1791562810662585767521", "87674969936234821377601",
      "18446744073709551615", "18446744073709551617", "340282366920938463463374607431768211457", "4295098369", "9", "25", "49", "121", "169", "5041"};
  return v;
}
const std::vector<std::string> &knownPrimes() {
  static std::vector<std::string> v = {"2", "3", "5", "7", "61", "67", "71", "73", "79", "2147483647", "2305843009213693951", "618970019642690137449562111", "162259276829213363391578010288127",
      "170141183460469231731687303715884105727", "18446744073709551557", "18446744073709551533", "9223372036854775837", "4294967291", "4294967311", "57896044618658097711785492504343953926634992332820282019728792003956564819949"};
  return v;
}
}  // namespace

MON_FAMILY(A02_prime_small, 300, 3000) {
  // every number of a block, against a sieve
  unsigned w = c.rng.in(2, 24);
  uint32_t top = 1u << w, lo = c.index == 0 || w < 9 ? 0 : c.rng.next() % top, hi = std::min(top, lo + (w < 13 ? 4096 : 600));
  c.describe(S() << "width " << w << " numbers " << lo << ".." << hi);
  for (uint32_t n = lo; n < hi; ++n) {
    bool want = n >= 2;
    for (uint32_t d = 2; d * d <= n && want; ++d) want = n % d != 0;
    bool got = isPrime(APInt(w, n));
    if (!c.check(got == want, "primality", [&] { return S() << n << " prime? got " << got; })) return;
  }
}

MON_FAMILY(A02_prime_large, 6000, 100000) {
  Big n;
  bool want;
  int k = c.rng.in(0, 6);
  if (k == 0) { n = Big(c.rng.pick(hardComposites())); want = false; }
  else if (k == 1) { n = Big(c.rng.pick(knownPrimes())); want = true; }
  else if (k == 2) { uint64_t v = c.rng.next() >> c.rng.in(0, 50); n = v | 1; want = prime64(v | 1); }
  else if (k == 3) { uint64_t p = friendly(c, c.rng.in(20, 64), 2); if (!p) return c.skip(); n = p; want = true; }
  else if (k == 4) {  // products and squares of primes
    uint64_t p = friendly(c, c.rng.in(8, 64), 2), q = c.rng.chance(0.3) ? p : friendly(c, c.rng.in(8, 64), 2);
    if (!p || !q) return c.skip();
    n = Big(p) * q; want = false;
  } else if (k == 5) {  // (a+1)(2a+1): frequent strong pseudoprimes
    uint64_t p = friendly(c, c.rng.in(10, 60), 4);
    if (!p) return c.skip();
    n = Big(p) * (2 * (Big(p) - 1) + 1); want = false;
    if (p < 4) return c.skip();
  } else {  // a proven prime above 64 bits: n = h q + 1, q prime > sqrt(n) (Pocklington)
    uint64_t q = friendly(c, 60, 2);
    n = 0;
    for (int t = 0; q && t < 400; ++t) {
      Big h = Big(2) * (c.rng.next() >> c.rng.in(8, 40)) + 2, m = h * q + 1;
      if (Big(q) * q <= m || boost::multiprecision::powm(Big(2), m - 1, m) != 1) continue;
      Big x = boost::multiprecision::powm(Big(2), h, m);
      if (gcdB(m, (x + m - 1) % m) == 1) { n = m; break; }
    }
    if (n == 0) return c.skip();
    want = true;
  }
  unsigned w = boost::multiprecision::msb(n) + 1 + (c.rng.chance(0.4) ? 0 : c.rng.in(0, 70));
  c.describe(S() << bs(n) << " at width " << w << " prime=" << want);
  c.event(want ? "primes" : "composites");
  bool got = isPrime(ap(w, n));
  c.check(got == want, "primality", [&] { return S() << "got " << got; });
}

MON_FAMILY(A02_factorize, 3000, 40000) {
  Big n = 1;
  std::set<Big> want;
  int k = c.rng.in(0, 3);
  if (k == 0) n = c.rng.in(0, 300);
  else if (k == 1) n = c.rng.next() >> c.rng.in(28, 60);
  else {
    int cnt = c.rng.in(1, 9);
    for (int i = 0; i < cnt; ++i) {
      uint64_t p = c.rng.pick<uint64_t>({2, 2, 2, 3, 3, 5, 7, 11, 13, 127, 251, 257, 2711, 65537, 7919});
      if (k == 3 || n * p < (Big(1) << 64)) n *= p;
    }
  }
  if (n > 1) {
    Big v = n;
    for (uint64_t d = 2; Big(d) * d <= v; ++d) if (v % d == 0) { want.insert(d); while (v % d == 0) v /= d; }
    if (v > 1) want.insert(v);
  }
  unsigned w = (n == 0 ? 1 : boost::multiprecision::msb(n) + 1) + (c.rng.chance(0.3) ? 0 : c.rng.in(0, 40));
  if (w < 2) w = 2;
  if (w > 64 && !want.empty()) c.event("wide");
  c.describe(S() << "factorize " << bs(n) << " at width " << w);
  auto f = factorize(ap(w, n));
  std::set<Big> got;
  for (auto &x : f) got.insert(big(x));
  c.check(got.size() == f.size(), "factor-repeated", "a factor is returned twice");
  c.check(got == want, "factors", [&] { S s; s << "got"; for (auto &x : got) s << " " << bs(x); return std::string(s); });
}

MON_FAMILY_T(A02_factorize_word, 0, 2, 400) {
  Big n(c.rng.pick<std::string>({"18446744073709551557", "18446744073709551533"}));
  unsigned w = c.rng.in(64, 70);
  c.describe(S() << "factorize the prime " << bs(n) << " at width " << w);
  auto f = factorize(ap(w, n));
  c.check(f.size() == 1 && big(f[0]) == n, "factors", "a prime is its only factor");
}

MON_FAMILY(A02_root, 4000, 60000) {
  uint64_t q;
  int k = c.rng.in(0, 3);
  if (k == 0) q = c.rng.in(0, 400);
  else if (k == 1) q = c.rng.pick<uint64_t>({2, 3, 5, 7, 17, 257, 65537, 12289, 7681, 8380417, 998244353, 3329});
  else { q = friendly(c, c.rng.in(4, 36), 1ull << c.rng.in(1, 12)); if (!q) return c.skip(); }
  unsigned w = 64 - __builtin_clzll(q | 1) + (c.rng.chance(0.4) ? 0 : c.rng.in(0, 40));
  if (w < 2) w = 2;
  bool p = prime64(q);
  c.describe(S() << "primitive root modulo " << q << " at width " << w);
  if (q > 2 && !p && (q & 1)) return c.skip();  // documented for primes
  auto r = findPrimitiveRoot(APInt(w, q));
  c.event(r ? "roots" : "no_root");
  if (!c.check(r.has_value() == p, "root-existence", [&] { return S() << "returned " << (r ? dec(*r) : "none"); }) || !p) return;
  uint64_t g = r->getZExtValue();
  bool ok = g >= 1 && g < q;
  for (uint64_t f : primeFactors(q - 1)) ok = ok && powm(g, (q - 1) / f, q) != 1;
  c.check(ok, "primitive-root", [&] { return S() << "got " << g; });
}

MON_FAMILY(A02_root2n, 4000, 60000) {
  int lg = c.rng.in(0, 14);
  uint64_t n = c.rng.chance(0.75) ? 1ull << lg : c.rng.in(1, 3000);
  uint64_t q = c.rng.chance(0.6) ? friendly(c, c.rng.in(3, 38), 2 * n) : friendly(c, c.rng.in(3, 30), 2);
  if (!q) return c.skip();
  unsigned w = 64 - __builtin_clzll(q) + (c.rng.chance(0.4) ? 0 : c.rng.in(0, 40));
  c.describe(S() << "primitive 2*" << n << "-th root modulo " << q << " at width " << w);
  bool want = (q - 1) % (2 * n) == 0;
  auto r = findPrimitive2nthRoot(APInt(w, q), n);
  c.event(want ? "has_root" : "has_none");
  if (!c.check(r.has_value() == want, "2n-root-existence", [&] { return S() << "returned " << (r ? dec(*r) : "none"); }) || !want) return;
  uint64_t v = r->getZExtValue();
  bool ok = v < q && powm(v, 2 * n, q) == 1;
  for (uint64_t f : primeFactors(2 * n)) ok = ok && powm(v, 2 * n / f, q) != 1;
  c.check(ok, "2n-root", [&] { return S() << "got " << v; });
}

MON_FAMILY(A02_helpers, 20000, 300000) {
  uint64_t v = c.rng.chance(0.4) ? (1ull << c.rng.in(0, 63)) + c.rng.in(-2, 2) : c.rng.next() >> c.rng.in(0, 62);
  if (v == 0 || v > 1ull << 63) v = 1;
  int64_t s = (int64_t)(c.rng.chance(0.3) ? -v : v);
  c.describe(S() << "powers of two of " << v << " and " << s);
  uint64_t np = 1;
  while (np < v) np <<= 1;
  c.check(nextPowerOfTwo(v) == np, "next-power-of-two", [&] { return S() << "got " << nextPowerOfTwo(v); });
  bool pw = false;
  for (int i = 0; i < 63; ++i) pw |= s == (int64_t)(1ull << i);
  c.check(isPowerOfTwo(s) == pw, "is-power-of-two", [&] { return S() << "got " << isPowerOfTwo(s); });
}

MON_FAMILY(A02_float, 20000, 300000) {
  using llvm::APFloat;
  double x = c.rng.chance(0.1) ? c.rng.pick({0.0, -0.0, 1.0, -1.0, 65504.0, 3.4e38, 1e-45, 1e308}) : std::ldexp(c.rng.real(-1, 1), c.rng.in(-200, 200));
  c.describe(S() << "convert " << mon::str(x));
  auto f = convertFloatToSemantics(APFloat(x), APFloat::IEEEsingle());
  volatile float want = (float)x;
  c.check(&f.getSemantics() == &APFloat::IEEEsingle() && f.bitwiseIsEqual(APFloat((float)want)), "double-to-single", "wrong value");
  auto d = convertFloatToSemantics(f, APFloat::IEEEdouble());
  c.check(&d.getSemantics() == &APFloat::IEEEdouble() && d.bitwiseIsEqual(APFloat((double)want)), "single-to-double", "wrong value");
  auto same = convertFloatToSemantics(APFloat(x), APFloat::IEEEdouble());
  c.check(same.bitwiseIsEqual(APFloat(x)), "identity", "wrong value");
  // half: the nearest representable, checked from the definition
  double small = std::ldexp(c.rng.real(-1, 1), c.rng.in(-12, 15));
  auto h = convertFloatToSemantics(APFloat(small), APFloat::IEEEhalf());
  double hv = convertFloatToSemantics(h, APFloat::IEEEdouble()).convertToDouble();
  int e;
  std::frexp(small, &e);
  double ulp = std::ldexp(1.0, std::max(e - 1, -14) - 10);
  c.check(&h.getSemantics() == &APFloat::IEEEhalf() && std::fabs(hv - small) <= ulp / 2 && hv / ulp == std::rint(hv / ulp), "double-to-half", [&] { return S() << mon::str(small) << " became " << mon::str(hv); });
}

MON_FAMILY(A02_erfinv, 20000, 300000) {
  double x = c.rng.chance(0.3) ? (c.rng.chance(0.5) ? 1 : -1) * (1 - std::ldexp(c.rng.real(0.5, 1), -c.rng.in(1, 52))) : c.rng.chance(0.2) ? std::ldexp(c.rng.real(-1, 1), -c.rng.in(1, 60)) : c.rng.real(-0.9999, 0.9999);
  c.describe(S() << "erfinv " << mon::str(x));
  double y = erfinv(x);
  // Newton on erf (erfc in the tails) in extended precision, started from the answer
  long double z = y;
  for (int i = 0; i < 4; ++i) {
    long double res = std::fabs(x) < 0.5 ? erfl(z) - (long double)x : x > 0 ? (1.0L - x) - erfcl(z) : erfcl(-z) - (1.0L + x);
    z -= res / (2.0L / sqrtl(3.14159265358979323846L) * expl(-z * z));
  }
  c.check(std::isfinite(y) && fabsl(y - z) <= 6e-7L * fabsl(z), "inverse-error-function", [&] { return S() << "got " << mon::str(y) << " want " << mon::str((double)z); });
  c.check(erfinv(-x) == -y, "odd", "not an odd function");
}

namespace {
double magnitude(mon::Case &c) {
  switch (c.rng.in(0, 8)) {
    case 0: return 0;
    case 1: return std::ldexp(c.rng.real(1, 2), c.rng.in(-1074, 1023));
    case 2: return std::ldexp(1.0, c.rng.in(-1000, 1000));
    case 3: return 1;
    default: return std::ldexp(c.rng.real(1, 2), c.rng.in(-60, 60));
  }
}
const double INF = std::numeric_limits<double>::infinity();
long double lg(long double v) { return v == 0 ? -(long double)INF : log2l(v); }
bool near(double got, long double want, double scale) {
  if (std::isnan(got)) return false;
  if (std::isinf((double)want) || std::isinf(got)) return (long double)got == want;
  return fabsl(got - want) <= 4e-16L * (std::fabs(scale) + 2);
}
}  // namespace

MON_FAMILY(A03_binary, 60000, 1000000) {
  double a = magnitude(c), b = c.rng.chance(0.2) ? a : c.rng.chance(0.2) ? a * std::ldexp(1.0, c.rng.in(-600, 600)) : magnitude(c);
  if (c.rng.chance(0.03)) a = INF;
  if (c.rng.chance(0.03)) b = INF;
  if (std::isinf(b) && !std::isinf(a) && c.rng.chance(0.5)) b = 3;
  c.describe(S() << mon::str(a) << " with " << mon::str(b));
  auto A = Log2Arithmetic::of(a), B = Log2Arithmetic::of(b);
  double sc = std::max(std::isfinite(A.getLog2Value()) ? std::fabs(A.getLog2Value()) : 0, std::isfinite(B.getLog2Value()) ? std::fabs(B.getLog2Value()) : 0);
  c.check(near(A.getLog2Value(), lg(a), sc), "of", [&] { return S() << "log2 is " << mon::str(A.getLog2Value()); });
  long double sum = (long double)a + b;
  auto P = A + B, Q = B + A;
  c.check(near(P.getLog2Value(), lg(sum), sc), "add", [&] { return S() << "log2 of the sum is " << mon::str(P.getLog2Value()) << " want " << mon::str((double)lg(sum)); });
  c.check(P == Q, "add-commutes", "a+b and b+a differ");
  c.check(!(P < A) && !(P < B), "add-shrinks", "a sum is less than an operand");
  bool defined = !((a == 0 && std::isinf(b)) || (b == 0 && std::isinf(a)));
  if (defined) {
    auto M = A * B;
    long double want = lg(a) + lg(b);
    c.check(near(M.getLog2Value(), want, 2 * sc), "multiply", [&] { return S() << "log2 of the product is " << mon::str(M.getLog2Value()) << " want " << mon::str((double)want); });
    c.check(M == B * A, "multiply-commutes", "a*b and b*a differ");
  }
  long double la = lg(a), lb = lg(b);
  if (a == b || fabsl(la - lb) > 1e-11L) {
    c.check((A < B) == (a < b) && (B < A) == (b < a), "order", [&] { return S() << (A < B) << (B < A); });
    c.check((A == B) == (a == b), "equality", "wrong equality");
  }
  double v = A.getValue();
  c.check(a == 0 ? v == 0 : std::isinf(a) ? v == a : std::fabs(v - a) <= a * 1e-12 + 5e-324, "value", [&] { return S() << "round trip gives " << mon::str(v); });
}

// Long mixed histories, including magnitudes no double can hold, against exact sums of scaled values.
MON_FAMILY(A03_history, 10000, 150000) {
  int n = c.rng.in(2, 40);
  Log2Arithmetic x;
  long double m = 0;  // value = m * 2^e
  int64_t e = 0;
  S d;
  auto norm = [&](long double &f, int64_t &g) { if (f == 0) { g = 0; return; } int k; f = frexpl(f, &k); g += k; };
  double scale = 2;
  c.check(x == Log2Arithmetic::of(0), "default-is-zero", "the default value is not zero");
  for (int i = 0; i < n; ++i) {
    double v = magnitude(c);
    if (c.rng.chance(0.3) && v != 0) {
      d << " *" << mon::str(v);
      x = x * Log2Arithmetic::of(v);
      m *= v; norm(m, e);
    } else {
      d << " +" << mon::str(v);
      x = x + Log2Arithmetic::of(v);
      long double f = v; int64_t g = 0;
      norm(f, g);
      if (m == 0) { m = f; e = g; }
      else if (f != 0) {
        int64_t top = std::max(e, g);
        m = (top - e > 16000 ? 0 : ldexpl(m, (int)(e - top))) + (top - g > 16000 ? 0 : ldexpl(f, (int)(g - top)));
        e = top; norm(m, e);
      }
    }
    if (m != 0) scale = std::max(scale, std::fabs((double)(log2l(m) + e)));
  }
  c.describe(d);
  long double want = m == 0 ? -(long double)INF : log2l(m) + (long double)e;
  c.check(m == 0 ? std::isinf(x.getLog2Value()) && x.getLog2Value() < 0 : fabsl(x.getLog2Value() - want) <= 1e-15L * n * (scale + 2000), "history", [&] { return S() << "log2 is " << mon::str(x.getLog2Value()) << " want " << mon::str((double)want); });
}
MON_MAIN()
