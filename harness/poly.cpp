// P01-P03: polynomial evaluation circuits, polynomial algebra and function approximation.
#include <numbers>
#include "dagref.h"
#include "lib/Utils/Approximation/CaratheodoryFejer.h"
#include "lib/Utils/Approximation/Chebyshev.h"
#include "lib/Utils/Polynomial/ChebyshevDecomposition.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Polynomial.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
using namespace ref;
using namespace mlir::heir::polynomial;
using namespace mlir::heir::approximation;
using llvm::APFloat; using llvm::APInt; using llvm::SmallVector;
using mon::S;
namespace mlir::heir::approximation { size_t standardChop(SmallVector<APFloat> coeffs, double tol); }

namespace {
using D = LiteralDouble;
using LD = long double;
struct Obs { LD v; int depth; };  // depth -1: constant
// Independent observation of a scalar circuit: value, depth and number of non-scalar multiplications.
struct Circuit {
  std::map<const void *, Obs> memo;
  int mults = 0, nodes = 0;
  Obs run(const Ptr<D> &n) {
    if (!n) throw Bad{"null node"};
    auto it = memo.find(n.get());
    if (it != memo.end()) return it->second;
    ++nodes;
    Obs o = std::visit([&](const auto &x) -> Obs {
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, ConstantScalarNode> || std::is_same_v<X, SplatNode>) return {(LD)x.value, -1};
      else if constexpr (std::is_same_v<X, LeafNode<D>>) return {(LD)x.value.getValue(), 0};
      else if constexpr (std::is_same_v<X, AddNode<D>>) { auto a = run(x.left), b = run(x.right); return {a.v + b.v, std::max(a.depth, b.depth)}; }
      else if constexpr (std::is_same_v<X, SubtractNode<D>>) { auto a = run(x.left), b = run(x.right); return {a.v - b.v, std::max(a.depth, b.depth)}; }
      else if constexpr (std::is_same_v<X, MultiplyNode<D>>) {
        auto a = run(x.left), b = run(x.right);
        if (a.depth < 0 || b.depth < 0) return {a.v * b.v, std::max(a.depth, b.depth)};
        ++mults;
        return {a.v * b.v, std::max(a.depth, b.depth) + 1};
      } else if constexpr (std::is_same_v<X, PowerNode<D>>) {
        auto a = run(x.base);
        LD r = 1; int lg = 0;
        for (size_t i = 0; i < x.exponent; ++i) r *= a.v;
        while ((1ull << lg) < x.exponent) ++lg;
        if (a.depth < 0 || x.exponent == 0) return {r, -1};
        mults += lg;
        return {r, a.depth + lg};
      } else throw Bad{"unexpected node in a polynomial circuit"};
    }, n->node_variant);
    return memo[n.get()] = o;
  }
};
int lg2(int64_t n) { int l = 0; while ((1ll << l) < n) ++l; return l; }
LD chebT(int64_t n, LD x) { LD a = 1, b = x; if (n == 0) return 1; for (int64_t i = 1; i < n; ++i) { LD t = 2 * x * b - a; a = b; b = t; } return b; }
template <class V> LD chebEval(const V &c, LD x) { LD s = 0, a = 1, b = x; for (size_t i = 0; i < c.size(); ++i) { s += (LD)c[i] * a; LD t = 2 * x * b - a; a = b; b = t; } return s; }
double coef(mon::Case &c) {
  switch (c.rng.in(0, 9)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return std::ldexp(c.rng.real(-1, 1), -c.rng.in(0, 60));
    case 4: return std::ldexp(c.rng.real(-1, 1), c.rng.in(0, 40));
    case 5: case 6: return c.rng.in(-10, 10);
    default: return c.rng.real(-1, 1);
  }
}
DagType dtype(mon::Case &c, std::string &name) {
  switch (c.rng.in(0, 2)) {
    case 0: name = "f64"; return DagType::floatTy(64);
    case 1: name = "tensor"; return DagType::floatTensor(64, {8});
    default: name = "f32"; return DagType::floatTy(32);
  }
}
double point(mon::Case &c, double r) { return c.rng.chance(0.15) ? c.rng.pick({0.0, 1.0, -1.0, 0.5, -0.5}) : c.rng.real(-r, r); }

void monomialCircuit(mon::Case &c, bool ps) {
  int deg = c.rng.chance(0.2) ? c.rng.in(0, 5) : c.rng.in(0, c.thorough ? 300 : 90);
  double dens = c.rng.pick({1.0, 1.0, 0.5, 0.1, 0.03});
  std::map<int64_t, double> co;
  for (int i = 0; i <= deg; ++i) if (c.rng.chance(dens)) co[i] = coef(c);
  if (!c.rng.chance(0.1)) co[deg] = coef(c);
  std::string tn;
  DagType t = dtype(c, tn);
  double x = point(c, deg < 20 ? 3 : 1.1);
  S d; d << "x=" << x << " " << tn; for (auto &[e, v] : co) d << " " << v << "x^" << e;
  c.describe(d);
  if (co.size() < 2) c.trivial();
  auto leaf = Node<D>::leaf(D(x));
  auto dag = ps ? patersonStockmeyerMonomialPolynomialEvaluation<D>(leaf, co, t) : hornerMonomialPolynomialEvaluation<D>(leaf, co, t);
  std::string key = ps ? "patersonStockmeyer" : "horner";
  LD want = 0, mag = 0;
  for (auto &[e, v] : co) { LD p = std::pow((LD)x, (LD)e); if (e == 0) p = 1; want += v * p; mag += std::fabs(v * p); }
  Circuit k;
  Obs o;
  try { o = k.run(dag); } catch (Bad &b) { c.fail(key + ":ill-formed", b.what); return; }
  c.event("circuit-nodes", k.nodes);
  c.check(std::fabs(o.v - want) <= 1e-17L * (deg + 4) * 20 * mag, key + ":value", [&] { return S() << "circuit gives " << (double)o.v << " polynomial is " << (double)want; });
  int64_t top = co.empty() ? 0 : co.rbegin()->first;
  if (ps) {
    int bound = 2 * (int)std::ceil(std::sqrt((double)top)) + 2;
    c.check(k.mults <= bound, key + ":multiplications", [&] { return S() << k.mults << " non-scalar multiplications for degree " << top << " (bound " << bound << ")"; });
  } else c.check(k.mults <= std::max<int64_t>(top, 0), key + ":multiplications", [&] { return S() << k.mults << " multiplications for degree " << top; });
}
}  // namespace

MON_FAMILY(P01_horner, 6000, 60000) { monomialCircuit(c, false); }
MON_FAMILY(P01_patersonStockmeyer, 8000, 80000) { monomialCircuit(c, true); }

MON_FAMILY(P01_chebyshev, 12000, 120000) {
  int deg = c.rng.chance(0.2) ? c.rng.in(0, 6) : c.rng.in(0, c.thorough ? 400 : 150);
  double dens = c.rng.pick({1.0, 1.0, 0.5, 0.1, 0.03});
  std::vector<double> co(deg + 1);
  for (double &v : co) if (c.rng.chance(dens)) v = coef(c);
  if (c.rng.chance(0.05)) co.clear();
  if (co.size() && c.rng.chance(0.15)) std::fill(co.begin() + c.rng.in(0, co.size() - 1), co.end(), 0.0);
  if (co.size() && c.rng.chance(0.1)) std::fill(co.begin(), co.begin() + c.rng.in(0, co.size() - 1), 0.0);
  double thr = c.rng.pick({kMinCoeffs, kMinCoeffs, 0.0, 1e-9, 1e-3, 0.5});
  std::string tn;
  DagType t = dtype(c, tn);
  double x = point(c, 1);
  c.describe(S() << "x=" << x << " " << tn << " threshold=" << thr << " coefficients " << co);
  if (co.size() < 2) c.trivial();
  auto dag = patersonStockmeyerChebyshevPolynomialEvaluation<D>(D(x), co, thr, t);
  LD want = chebEval(co, x), l1 = 0;
  // conditioning: total weight of the coefficients of the same kind of split, in long double
  int64_t d = (int64_t)co.size() - 1, k = 1;
  if (d > 0) k = 1ll << optimalSplit(std::bit_width((uint64_t)d));
  std::vector<LD> p(co.begin(), co.end());
  int parts = 0;
  for (LD v : p) l1 += std::fabs(v);
  while (!p.empty()) {
    ++parts;
    std::vector<LD> q((int64_t)p.size() > k ? p.size() - k : 0);
    for (int64_t i = (int64_t)p.size() - 1; i >= k; --i) {
      if (i == k) q[0] += p[i];
      else { q[i - k] += 2 * p[i]; p[std::abs(i - 2 * k)] -= p[i]; }
      p[i] = 0;
    }
    for (LD v : p) l1 += std::fabs(v);
    p = q;
  }
  LD tol = (LD)thr * (co.size() + 2 * k) + 1e-15L * (co.size() + 8) * l1 + 1e-300L;
  if (!dag) { c.check(std::fabs(want) <= tol, "chebyshev:nothing", [&] { return S() << "no circuit, but the value is " << (double)want; }); return; }
  Circuit ci;
  Obs o;
  try { o = ci.run(dag); } catch (Bad &b) { c.fail("chebyshev:ill-formed", b.what); return; }
  c.event("circuit-nodes", ci.nodes);
  c.check(std::fabs(o.v - want) <= tol, "chebyshev:value", [&] { return S() << "circuit gives " << (double)o.v << " polynomial is " << (double)want << " tolerance " << (double)tol; });
  if (d >= 1) {
    int depth = lg2(d + 1) + 1, m = (int)std::ceil(3 * std::sqrt(d + 1.0)) + lg2(d + 1) + 3;
    c.check(o.depth <= depth, "chebyshev:depth", [&] { return S() << "depth " << o.depth << " for degree " << d << " (bound " << depth << ")"; });
    c.check(ci.mults <= m, "chebyshev:multiplications", [&] { return S() << ci.mults << " non-scalar multiplications for degree " << d << " (bound " << m << ")"; });
  }
}
MON_FAMILY(P01_decomposition, 6000, 60000) {
  int n = c.rng.in(0, 80), k = c.rng.in(1, c.rng.chance(0.3) ? 90 : 20);
  std::vector<double> co(n);
  bool ints = c.rng.chance(0.5);
  for (double &v : co) v = ints ? c.rng.in(-9, 9) : coef(c);
  c.describe(S() << "k=" << k << " " << co);
  if (n < k) c.trivial();
  auto dec = decompose(co, k);
  c.check(dec.generatorDegree == k, "decompose:degree", "generator degree differs");
  LD l1 = 0;
  for (auto &q : dec.coeffs) { c.check((int)q.size() <= k, "decompose:parts", [&] { return S() << "part of " << q.size() << " coefficients for generator degree " << k; }); for (double v : q) l1 += std::fabs(v); }
  for (double v : co) l1 += std::fabs(v);
  for (int i = 0; i < 4; ++i) {
    LD x = point(c, 1), tk = chebT(k, x), got = 0;
    for (size_t j = dec.coeffs.size(); j-- > 0;) got = got * tk + chebEval(dec.coeffs[j], x);
    LD want = chebEval(co, x);
    c.check(std::fabs(got - want) <= 1e-14L * (n + 4) * l1 + 1e-300L, "decompose:value", [&] { return S() << "at " << (double)x << " the decomposition gives " << (double)got << " the polynomial " << (double)want; });
  }
}
MON_FAMILY(P01_bases, 1500, 15000) {
  int k = c.rng.in(0, c.rng.chance(0.1) ? 300 : 70);
  double x = point(c, 1);
  std::string tn;
  DagType t = dtype(c, tn);
  c.describe(S() << "k=" << k << " x=" << x << " " << tn);
  auto leaf = Node<D>::leaf(D(x));
  auto look = [&](const Ptr<D> &n, LD want, int64_t i, const char *what) {
    Circuit ci;
    Obs o;
    try { o = ci.run(n); } catch (Bad &b) { c.fail(std::string(what) + ":ill-formed", b.what); return; }
    c.check(std::fabs(o.v - want) <= 1e-16L * (i * i + 10) , std::string(what) + ":value", [&] { return S() << what << " " << i << " is " << (double)o.v << " expected " << (double)want; });
    if (i >= 1) c.check(o.depth <= lg2(i), std::string(what) + ":depth", [&] { return S() << what << " " << i << " has depth " << o.depth; });
  };
  auto pw = computePowers<D>(leaf, k, t);
  c.check((int)pw.size() >= k + 1, "powers:count", "too few powers");
  for (int i = 0; i <= k && i < (int)pw.size(); ++i) { LD w = 1; for (int j = 0; j < i; ++j) w *= x; look(pw[i], w, i, "powers"); }
  auto cv = computeChebyshevPolynomialValues<D>(D(x), k, t);
  c.check((int)cv.size() >= k + 1, "values:count", "too few values");
  for (int i = 0; i <= k && i < (int)cv.size(); ++i) look(cv[i], chebT(i, x), i, "values");
  auto rp = genChebyshevPowersRecursive<D>(leaf, k, t);
  for (int i = 0; i <= k; ++i) {
    if (!c.check(rp.count(i), "recursive:count", "missing degree")) break;
    look(rp[i], chebT(i, x), i, "recursive");
  }
  for (int64_t n = 2; n <= k; ++n) { auto [a, b] = splitDegree(n); c.check(a + b == n && a > 0 && b > 0, "split", [&] { return S() << n << " split into " << a << " and " << b; }); }
}

// ------------------------------------------------------------------ P02
namespace {
using IM = std::map<uint64_t, uint64_t>;
IM norm(const IM &m) { IM o; for (auto &[e, v] : m) if (v) o[e] = v; return o; }
S showI(const IM &m) { S s; s << "{"; for (auto &[e, v] : m) s << " " << (int64_t)v << "x^" << e; s << " }"; return s; }
IM genI(mon::Case &c, bool big) {
  IM m;
  int n = c.rng.in(0, 6), maxe = c.rng.pick({3, 8, 20, big ? 1000 : 40});
  for (int i = 0; i < n; ++i) {
    uint64_t v = c.rng.chance(0.2) ? c.rng.next() : (uint64_t)c.rng.in(-5, 5);
    if (v) m[c.rng.in(0, maxe)] = v;
  }
  return m;
}
IntPolynomial toI(mon::Case &c, const IM &m) {
  SmallVector<IntMonomial> t;
  std::vector<std::pair<uint64_t, uint64_t>> v(m.begin(), m.end());
  c.rng.shuffle(v);
  for (auto &[e, k] : v) t.push_back(IntMonomial((int64_t)k, e));
  auto r = IntPolynomial::fromMonomials(t);
  if (mlir::failed(r)) { c.fail("int:fromMonomials", "distinct exponents rejected"); return IntPolynomial::zero(); }
  return *r;
}
// Reads a polynomial, checking the canonical order.
IM readI(mon::Case &c, const IntPolynomial &p, const char *what, bool nonzero = true) {
  IM m;
  bool first = true; uint64_t last = 0;
  for (auto &t : p.getTerms()) {
    uint64_t e = t.getExponent().getZExtValue();
    if (!first) c.check(e > last, S() << what << ":order", "terms not in strictly increasing exponent order");
    first = false; last = e;
    if (nonzero) c.check(!t.getCoefficient().isZero(), S() << what << ":zero-term", "term with zero coefficient");
    m[e] += t.getCoefficient().getZExtValue();
  }
  return norm(m);
}
IM addI(const IM &a, const IM &b, uint64_t k = 1) { IM r = a; for (auto &[e, v] : b) r[e] += v * k; return norm(r); }
IM mulI(const IM &a, const IM &b) { IM r; for (auto &[e, v] : a) for (auto &[f, w] : b) r[e + f] += v * w; return norm(r); }
}  // namespace

MON_FAMILY(P02_int, 20000, 300000) {
  IM a = genI(c, false), b = c.rng.chance(0.15) ? a : genI(c, false);
  if (c.rng.chance(0.3)) for (auto &[e, v] : a) if (c.rng.chance(0.5)) b[e] = -v;
  c.describe(S() << showI(a) << " and " << showI(b));
  if (a.empty() || b.empty()) c.trivial();
  auto p = toI(c, a), q = toI(c, b);
  auto cmp = [&](const IM &got, const IM &want, const char *k) { c.check(got == want, k, [&] { return S() << k << ": got " << showI(got) << " expected " << showI(want); }); };
  cmp(readI(c, p, "int:make"), a, "int:make");
  cmp(readI(c, p.add(q), "int:add"), addI(a, b), "int:add");
  cmp(readI(c, p.sub(q), "int:sub"), addI(a, b, -1), "int:sub");
  uint64_t k = c.rng.in(-9, 9);
  if (k) cmp(readI(c, p.scale(APInt(64, k, true)), "int:scale", false), addI({}, a, k), "int:scale");
  int sh = c.rng.in(0, 50);
  { IM w; for (auto &[e, v] : a) w[e + sh] = v; cmp(readI(c, p.monomialMul(sh), "int:shift"), w, "int:shift"); }
  cmp(readI(c, p.naiveMul(q), "int:mul"), mulI(a, b), "int:mul");
  c.check((p == q) == (a == b) && (p != q) == (a != b), "int:equality", "equality disagrees with the terms");
  if (a == b) c.check(hash_value(p) == hash_value(q), "int:hash", "equal polynomials hash differently");
  c.check(p.isZero() == a.empty() && (bool)p == !a.empty(), "int:isZero", "isZero");
  if (!a.empty()) {
    c.check(p.getDegree() == a.rbegin()->first, "int:degree", "degree");
    auto dv = p.getDenseCoefficientVector();
    bool ok = dv.size() == a.rbegin()->first + 1;
    for (size_t i = 0; ok && i < dv.size(); ++i) ok = dv[i].getZExtValue() == (a.count(i) ? a[i] : 0);
    c.check(ok, "int:dense", "dense coefficients differ");
    std::vector<int64_t> cv;
    for (auto &d : dv) cv.push_back(d.getSExtValue());
    for (int i = c.rng.in(0, 2); i > 0; --i) cv.push_back(0);
    cmp(readI(c, IntPolynomial::fromCoefficients(cv), "int:fromCoefficients"), a, "int:fromCoefficients");
    SmallVector<IntMonomial> dup(p.getTerms().begin(), p.getTerms().end());
    dup.insert(dup.begin() + c.rng.in(0, dup.size()), IntMonomial(c.rng.in(-3, 3), c.rng.pick(std::vector<uint64_t>{a.begin()->first, a.rbegin()->first})));
    c.check(mlir::failed(IntPolynomial::fromMonomials(dup)), "int:duplicates", "duplicate exponents accepted");
    SmallVector<IntMonomial> z(p.getTerms().begin(), p.getTerms().end());
    for (int i = c.rng.in(1, 3); i > 0; --i) z.insert(z.begin() + c.rng.in(0, z.size()), IntMonomial(0, c.rng.in(0, 60)));
    IntPolynomial zp(z);
    zp.canonicalize();
    c.check(zp == p, "int:canonicalize", "canonicalize does not just drop zero terms");
    if (a.rbegin()->first <= 20) {
      IM w, pw{{0, 1}};
      uint64_t at = 0;
      for (auto &[e, v] : a) { while (at < e) { pw = mulI(pw, b); ++at; } w = addI(w, pw, v); }
      cmp(readI(c, p.compose(q), "int:compose"), w, "int:compose");
    }
  }
  std::string text; llvm::raw_string_ostream os(text); p.print(os);
  S want; bool first = true;
  for (auto &[e, v] : a) { if (!first) want << " + "; first = false; if (v != 1 || e == 0) want << (int64_t)v; if (e >= 1) want << "x"; if (e > 1) want << "**" << e; }
  c.check(text == std::string(want), "int:print", [&] { return S() << "printed " << text << " expected " << std::string(want); });
}

namespace {
using FM = std::map<uint64_t, double>;
FM genF(mon::Case &c) {
  FM m;
  int n = c.rng.in(0, 6), maxe = c.rng.pick({3, 8, 20, 40});
  for (int i = 0; i < n; ++i) { double v = std::ldexp((double)c.rng.in(-64, 64), -(int)c.rng.in(0, 5)); if (v) m[c.rng.in(0, maxe)] = v; }
  return m;
}
FloatPolynomial toF(mon::Case &c, const FM &m) {
  SmallVector<FloatMonomial> t;
  std::vector<std::pair<uint64_t, double>> v(m.begin(), m.end());
  c.rng.shuffle(v);
  for (auto &[e, k] : v) t.push_back(FloatMonomial(k, e));
  auto r = FloatPolynomial::fromMonomials(t);
  if (mlir::failed(r)) { c.fail("float:fromMonomials", "distinct exponents rejected"); return FloatPolynomial::zero(); }
  return *r;
}
FM readF(mon::Case &c, const FloatPolynomial &p, const char *what) {
  FM m; bool first = true; uint64_t last = 0;
  for (auto &t : p.getTerms()) {
    uint64_t e = t.getExponent().getZExtValue();
    if (!first) c.check(e > last, S() << what << ":order", "terms not in strictly increasing exponent order");
    first = false; last = e;
    double v = t.getCoefficient().convertToDouble();
    if (v) m[e] += v;
  }
  return m;
}
FM addF(const FM &a, const FM &b, double k = 1) { FM r = a; for (auto &[e, v] : b) { r[e] += v * k; if (!r[e]) r.erase(e); } return r; }
FM mulF(const FM &a, const FM &b) { FM r; for (auto &[e, v] : a) for (auto &[f, w] : b) r[e + f] += v * w; FM o; for (auto &[e, v] : r) if (v) o[e] = v; return o; }
S showF(const FM &m) { S s; s << "{"; for (auto &[e, v] : m) s << " " << v << "x^" << e; s << " }"; return s; }
LD evalF(const FloatPolynomial &p, LD x) { LD s = 0; for (auto &t : p.getTerms()) { LD w = 1; for (uint64_t i = t.getExponent().getZExtValue(); i > 0; --i) w *= x; s += t.getCoefficient().convertToDouble() * w; } return s; }
}  // namespace
MON_FAMILY(P02_float, 20000, 300000) {  // dyadic coefficients: every operation is exact
  FM a = genF(c), b = c.rng.chance(0.15) ? a : genF(c);
  if (c.rng.chance(0.3)) for (auto &[e, v] : a) if (c.rng.chance(0.5)) b[e] = -v;
  c.describe(S() << showF(a) << " and " << showF(b));
  if (a.empty() || b.empty()) c.trivial();
  auto p = toF(c, a), q = toF(c, b);
  auto cmp = [&](const FM &got, const FM &want, const char *k) { c.check(got == want, k, [&] { return S() << k << ": got " << showF(got) << " expected " << showF(want); }); };
  cmp(readF(c, p.add(q), "float:add"), addF(a, b), "float:add");
  cmp(readF(c, p.sub(q), "float:sub"), addF(a, b, -1), "float:sub");
  double k = std::ldexp((double)c.rng.in(-9, 9), -2);
  if (k) { FM w; for (auto &[e, v] : a) w[e] = v * k; cmp(readF(c, p.scale(APFloat(k)), "float:scale"), w, "float:scale"); }
  cmp(readF(c, p.naiveMul(q), "float:mul"), mulF(a, b), "float:mul");
  c.check((p == q) == (a == b), "float:equality", "equality disagrees with the terms");
  if (!a.empty() && a.rbegin()->first <= 5 && (b.empty() || b.rbegin()->first <= 8)) {
    FM w, pw{{0, 1}};
    uint64_t at = 0;
    for (auto &[e, v] : a) { while (at < e) { pw = mulF(pw, b); ++at; } w = addF(w, pw, v); }
    FM g = readF(c, p.compose(q), "float:compose");
    double la = 0, lb = 0, m = 1; for (auto &[e, v] : a) la += std::fabs(v); for (auto &[e, v] : b) lb += std::fabs(v);
    for (uint64_t i = 0; i < a.rbegin()->first; ++i) m *= std::max(1.0, lb);
    for (auto &[e, v] : g) w[e] -= v;  // rounding only
    double worst = 0; for (auto &[e, v] : w) worst = std::max(worst, std::fabs(v));
    c.check(worst <= 1e-13 * m * la, "float:compose", [&] { return S() << "coefficients off by " << worst << " in " << showF(g); });
  }
  std::vector<double> cv;
  if (!a.empty()) { cv.assign(a.rbegin()->first + 1, 0); for (auto &[e, v] : a) cv[e] = v; }
  c.check(FloatPolynomial::fromCoefficients(cv) == p, "float:fromCoefficients", "fromCoefficients differs from fromMonomials");
}
MON_FAMILY(P02_chebyshev, 10000, 150000) {
  int n = c.rng.in(c.rng.chance(0.1) ? 0 : 1, c.rng.chance(0.3) ? 5 : 25);
  std::vector<double> co(n);
  for (double &v : co) v = c.rng.chance(0.2) ? 0 : c.rng.chance(0.5) ? (double)c.rng.in(-8, 8) : c.rng.real(-1, 1);
  double a = c.rng.chance(0.2) ? c.rng.pick({1.0, -1.0, 0.5, 2.0}) : c.rng.real(-1, 1), b = c.rng.chance(0.3) ? 0 : c.rng.real(-1, 1) * (1 - std::min(1.0, std::fabs(a)));
  if (a == 0) a = 1;
  c.describe(S() << co << " composed with " << a << "x+" << b);
  if (n < 2) c.trivial();
  ChebyshevPolynomial p{llvm::ArrayRef<double>(co)};
  bool zero = co.empty() || (co.size() == 1 && co[0] == 0);
  c.check(p.isZero() == zero, "cheb:isZero", "isZero");
  c.check(p.getDegree() == (zero ? 0 : co.size() - 1), "cheb:degree", "degree");
  LD l1 = 0; for (double v : co) l1 += std::fabs(v);
  auto std_ = p.toStandardBasis();
  readF(c, std_, "cheb:toStandardBasis");
  LD grow = 1; for (int i = 0; i < n; ++i) grow *= 2.5L;  // coefficients of T_n grow like (1+sqrt 2)^n
  for (int i = 0; i < 3; ++i) {
    LD x = point(c, 1), w = chebEval(co, x), g = evalF(std_, x);
    c.check(std::fabs(g - w) <= 1e-15L * (n + 4) * grow * l1, "cheb:toStandardBasis", [&] { return S() << "at " << (double)x << " monomial form " << (double)g << " Chebyshev form " << (double)w; });
  }
  auto q = p.compose(*FloatPolynomial::fromMonomials(b == 0 ? SmallVector<FloatMonomial>{FloatMonomial(a, 1)} : SmallVector<FloatMonomial>{FloatMonomial(b, 0), FloatMonomial(a, 1)}));
  std::vector<double> qc; for (auto &t : q.getTerms()) qc.push_back(t.convertToDouble());
  c.check(qc.size() <= co.size(), "cheb:compose-degree", "degree grew");
  LD ga = std::max(1.0, std::fabs(a) + std::fabs(b)), g2 = 1; for (int i = 0; i < n; ++i) g2 *= ga + std::sqrt(ga * ga - 1) + 0.05L;
  for (int i = 0; i < 4; ++i) {
    LD x = point(c, 1), y = (LD)a * x + b, w = chebEval(co, y), g = chebEval(qc, x);
    c.check(std::fabs(g - w) <= 1e-14L * (n + 4) * (n + 4) * g2 * (l1 + 1), "cheb:compose", [&] { return S() << "at " << (double)x << " composition gives " << (double)g << " expected " << (double)w; });
  }
  SmallVector<FloatPolynomial> ts;
  ChebyshevPolynomial::getChebyshevPolynomials(n, ts);
  if (c.check((int)ts.size() == n, "cheb:basis-size", [&] { return S() << ts.size() << " polynomials for " << n; }))
    for (int i = 0; i < n; ++i) {  // exact: integer coefficients
      LD g = evalF(ts[i], 3), w = chebT(i, 3);
      if (i <= 20) c.check(g == w, "cheb:basis", [&] { return S() << "T_" << i << "(3) is " << (double)g << " expected " << (double)w; });
      c.check(!ts[i].isZero() && (int)ts[i].getDegree() == i, "cheb:basis-degree", "degree of a basis polynomial");
    }
  static mlir::MLIRContext *ctx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
  auto arr = p.getCoefficientsArrayAttr(ctx);
  bool ok = (int)arr.size() == n;
  for (int i = 0; ok && i < n; ++i) ok = mlir::cast<mlir::FloatAttr>(arr[i]).getValueAsDouble() == co[i];
  c.check(ok, "cheb:attribute", "coefficients differ in the attribute");
}

// ------------------------------------------------------------------ P03
namespace {
struct Fn { std::string name; std::function<double(double)> f; bool smooth; };
Fn fn(mon::Case &c) {
  double a = c.rng.real(0.3, 3), b = c.rng.real(-1, 1);
  S p; p << "(" << a << "," << b << ")";
  std::string q = p;
  switch (c.rng.in(0, 9)) {
    case 0: return {"exp" + q, [=](double x) { return std::exp(a * x + b); }, true};
    case 1: return {"sin" + q, [=](double x) { return std::sin(2 * a * x + b); }, true};
    case 2: return {"runge" + q, [=](double x) { return 1 / (1 + a * a * (x - b) * (x - b)); }, true};
    case 3: return {"tanh" + q, [=](double x) { return std::tanh(a * x + b); }, true};
    case 4: return {"logistic" + q, [=](double x) { return 1 / (1 + std::exp(-a * x - b)); }, true};
    case 5: return {"cosh" + q, [=](double x) { return std::cosh(a * x); }, true};
    case 6: return {"abs" + q, [=](double x) { return std::fabs(x - b); }, false};
    case 7: return {"relu" + q, [=](double x) { return std::max(0.0, a * x + b); }, false};
    case 8: return {"sqrt" + q, [=](double x) { return std::sqrt(1.2 + std::sin(x)) * a; }, true};
    default: return {"gauss" + q, [=](double x) { return std::exp(-a * x * x) + b; }, true};
  }
}
std::vector<double> dbl(llvm::ArrayRef<APFloat> v) { std::vector<double> o; for (auto &t : v) o.push_back(t.convertToDouble()); return o; }
LD maxErr(const std::vector<double> &co, const std::function<double(double)> &f, LD &scale) {
  LD e = 0; scale = 0;
  for (int i = 0; i <= 400; ++i) { double x = std::cos(std::numbers::pi * i / 400); LD v = f(x); scale = std::max(scale, std::fabs(v)); e = std::max(e, std::fabs(chebEval(co, x) - v)); }
  return e;
}
}  // namespace
MON_FAMILY(P03_points, 300, 3000) {
  int n = c.rng.in(0, c.rng.chance(0.2) ? 400 : 40);
  c.describe(S() << n << " points");
  SmallVector<APFloat> r;
  getChebyshevPoints(n, r);
  auto v = dbl(r);
  if (!c.check((int)v.size() == n, "points:count", "number of points")) return;
  for (int i = 0; i < n; ++i) {
    double w = n == 1 ? 0 : -std::cos(std::numbers::pi * i / (n - 1));
    c.check(std::fabs(v[i] - w) < 1e-14, "points:value", [&] { return S() << "point " << i << " of " << n << " is " << v[i]; });
    c.check(v[i] == -v[n - 1 - i], "points:symmetry", "points not symmetric");
  }
}
MON_FAMILY(P03_interpolate, 2500, 20000) {
  int n = c.rng.in(1, c.rng.chance(0.2) ? 120 : 30), m = c.rng.in(1, n);
  std::vector<double> co(m);
  int sym = c.rng.in(0, 3);
  for (int i = 0; i < m; ++i) co[i] = (sym == 1 && i % 2) || (sym == 2 && i % 2 == 0) ? 0 : c.rng.real(-1, 1);
  c.describe(S() << n << " points of " << co);
  if (n < 2) c.trivial();
  SmallVector<APFloat> pts, vals, out;
  getChebyshevPoints(n, pts);
  LD l1 = 0; for (double v : co) l1 += std::fabs(v);
  for (auto &p : pts) vals.push_back(APFloat((double)chebEval(co, p.convertToDouble())));
  interpolateChebyshev(vals, out);
  auto g = dbl(out);
  if (!c.check((int)g.size() == n, "interpolate:count", "number of coefficients")) return;
  for (int i = 0; i < n; ++i) c.check(std::fabs(g[i] - (i < m ? co[i] : 0)) <= 1e-13 * (l1 + 1), "interpolate:coefficient", [&] { return S() << "coefficient " << i << " is " << g[i] << " expected " << (i < m ? co[i] : 0); });
}
MON_FAMILY(P03_smart, 500, 5000) {
  Fn f = fn(c);
  double tol = c.rng.pick({1e-16, 1e-12, 1e-8, 1e-4}), mag = std::ldexp(1.0, c.rng.in(0, 2) ? 0 : c.rng.in(-40, 40));
  c.describe(S() << f.name << " times " << mag << " tolerance " << tol);
  auto go = [&](double k) { SmallVector<APFloat> o; interpolateChebyshevWithSmartDegreeSelection([&](const APFloat &x) { return APFloat(k * f.f(x.convertToDouble())); }, o, tol); return dbl(o); };
  auto g = go(mag);
  c.check(g.size() >= 1 && g.size() <= 130, "smart:degree", [&] { return S() << g.size() << " coefficients"; });
  LD scale, e = maxErr(g, [&](double x) { return mag * f.f(x); }, scale);
  c.event("coefficients", g.size());
  // the chop keeps everything above tol^(2/3) relative to the largest coefficient
  if (f.smooth) c.check(e <= scale * (200 * std::pow((LD)tol, 2.0L / 3) + 1e-9L), "smart:error", [&] { return S() << g.size() << " coefficients, error " << (double)e << " of scale " << (double)scale; });
  auto h = go(1);
  c.check(h.size() == g.size(), "smart:scale", [&] { return S() << g.size() << " coefficients for the scaled function, " << h.size() << " for the function"; });
}
MON_FAMILY(P03_chop, 3000, 30000) {
  int n = c.rng.in(1, 140);
  double rate = c.rng.real(0, 3), floor_ = std::pow(10, -c.rng.in(6, 18)), tol = c.rng.pick({1e-16, 1e-12, 1e-8, 1e-4, 1.0});
  bool zt = c.rng.chance(0.2);
  std::vector<double> v(n);
  for (int i = 0; i < n; ++i) { double e = std::exp(-rate * i); v[i] = (zt && e < floor_ ? 0 : std::max(e, floor_)) * c.rng.real(-1, 1); }
  if (c.rng.chance(0.02)) std::fill(v.begin(), v.end(), 0);
  c.describe(S() << "tolerance " << tol << " " << v);
  if (n < 17) c.trivial();
  SmallVector<APFloat> a; for (double x : v) a.push_back(APFloat(x));
  size_t k = standardChop(a, tol);
  c.check(k >= (tol >= 1 || n > 0 ? 1 : 0) && k <= (size_t)n, "chop:range", [&] { return S() << "cut at " << k << " of " << n; });
  // documented: never chopped below 17 coefficients, nor unless the tail falls below tol^(1/3)
  double mx = 0, tail = 0; for (double x : v) mx = std::max(mx, std::fabs(x));
  for (size_t i = k; i < v.size(); ++i) tail = std::max(tail, std::fabs(v[i]));
  if (tol < 1 && mx > 0) {
    if (n < 17) c.check(k == (size_t)n, "chop:short", "short series chopped");
    c.check(k >= (size_t)n || tail <= mx * std::pow(tol, 1.0 / 3) * 1.0001, "chop:tail", [&] { return S() << "cut at " << k << ", dropping " << tail << " of " << mx; });
    SmallVector<APFloat> b; for (double x : v) b.push_back(APFloat(std::ldexp(x, 20)));
    size_t k2 = standardChop(b, tol);
    c.check(k2 == k, "chop:scale", [&] { return S() << "cut at " << k << " but at " << k2 << " after scaling"; });
  }
}
MON_FAMILY(P03_caratheodoryFejer, 700, 7000) {
  Fn f = fn(c);
  bool unit = c.rng.chance(0.4);
  double lo = unit ? -1 : c.rng.real(-5, 4), hi = unit ? 1 : lo + c.rng.real(0.2, 4);
  int deg = c.rng.in(1, 20);
  bool poly = c.rng.chance(0.2);
  std::vector<double> pc;
  if (poly) { for (int i = c.rng.in(0, deg); i >= 0; --i) pc.push_back(c.rng.real(-1, 1)); double m = (lo + hi) / 2, h = (hi - lo) / 2; f = {"polynomial " + mon::str(pc), [=](double x) { return (double)chebEval(pc, ((LD)x - m) / h); }, true}; }
  c.describe(S() << f.name << " on [" << lo << "," << hi << "] degree " << deg);
  auto r = caratheodoryFejerApproximation([&](const APFloat &x) { return APFloat(f.f(x.convertToDouble())); }, deg, lo, hi);
  auto g = dbl(r.getTerms());
  c.check((int)g.size() <= deg + 1, "cf:degree", [&] { return S() << g.size() << " coefficients for degree " << deg; });
  double m = (lo + hi) / 2, h = (hi - lo) / 2;
  auto fs = [&](double t) { return f.f(m + h * t); };
  LD scale, e = maxErr(g, fs, scale);
  if (poly) { c.check(e <= 1e-11L * (scale + 1), "cf:exact", [&] { return S() << "error " << (double)e << " on a polynomial of that degree"; }); return; }
  if (!f.smooth) return;  // only the degree is promised
  // the Chebyshev projection of that degree is within a small factor of the best approximation; CF is at least as good
  std::vector<double> tr(deg + 1);
  int N = 300;
  for (int k = 0; k <= deg; ++k) { LD s = 0; for (int j = 0; j < N; ++j) { LD th = std::numbers::pi_v<LD> * (j + 0.5L) / N; s += fs((double)std::cos(th)) * std::cos(k * th); } tr[k] = (double)(s * (k ? 2 : 1) / N); }
  LD s2, et = maxErr(tr, fs, s2);
  c.event("approximations");
  c.check(e <= et * 1.5L + 2e-9L * scale, "cf:error", [&] { return S() << "error " << (double)e << ", truncated series " << (double)et; });
  // de la Vallee Poussin: deg+2 alternating extrema of the error bound the best error from below
  std::vector<LD> ext;
  for (int i = 0; i <= 3000; ++i) { double x = std::cos(std::numbers::pi * i / 3000); LD d = chebEval(g, x) - fs(x); if (ext.empty() || (d > 0) != (ext.back() > 0)) ext.push_back(d); else if (std::fabs(d) > std::fabs(ext.back())) ext.back() = d; }
  LD lower = 0;
  for (int i = 0; i + deg + 2 <= (int)ext.size(); ++i) { LD mn = 1e300L; for (int j = i; j < i + deg + 2; ++j) mn = std::min(mn, std::fabs(ext[j])); lower = std::max(lower, mn); }
  double lim = f.name[0] == 'e' && deg >= 2 ? 1.02 : deg >= 2 ? 1.4 : 1.7;
  if (e > 1e-8L * scale) c.check(e <= lim * lower, "cf:near-best", [&] { return S() << "error " << (double)e << " but alternation only shows " << (double)lower << " (" << ext.size() << " alternating extrema)"; });
}
MON_MAIN()
