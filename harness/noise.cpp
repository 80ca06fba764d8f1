// N01 noise models (formulas, relations, simulated encryption), N02 encryption parameters.
#include <boost/multiprecision/cpp_int.hpp>

#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.h"
#include "lib/Parameters/BGV/Params.h"
#include "lib/Parameters/CKKS/Params.h"
#include "lib/Parameters/RLWESecurityParams.h"
#include "mon.h"
using namespace mlir::heir;
using mon::S;
using Big = boost::multiprecision::cpp_int;
typedef long double LD;
typedef unsigned __int128 u128;

// lib/Utils/Utils.cpp needs the full dialects; only used for printing.
namespace mlir::heir {
std::string doubleToString2Prec(double v) { char b[64]; snprintf(b, sizeof b, "%.2f", v); return b; }
}
// The scheme attribute's accessors live with the dialect, which is not linked here; N02 reads parameters another way.
namespace mlir::heir::bgv {
int SchemeParamAttr::getLogN() const { abort(); }
::mlir::DenseI64ArrayAttr SchemeParamAttr::getQ() const { abort(); }
::mlir::DenseI64ArrayAttr SchemeParamAttr::getP() const { abort(); }
int64_t SchemeParamAttr::getPlaintextModulus() const { abort(); }
BGVEncryptionType SchemeParamAttr::getEncryptionType() const { abort(); }
BGVEncryptionTechnique SchemeParamAttr::getEncryptionTechnique() const { abort(); }
}

namespace {
using Scheme = bgv::SchemeParam;
using Local = bgv::LocalParam;

struct P {  // one parameter set, readable by the reference formulas
  LD n, t, std0 = 3.2L;
  int level, cur, dnum;
  std::vector<double> logqi, logpi;
  std::vector<int64_t> pi;
  bool pk, ext;
  std::string s() const {
    return S() << "n=" << (long)n << " t=" << (int64_t)t << " level=" << level << " at=" << cur << " dnum=" << dnum << " logqi=" << logqi << " logpi=" << logpi << " pi=" << pi << " pk=" << pk << " ext=" << ext;
  }
  Scheme scheme() const {
    if (pi.empty()) return Scheme(RLWESchemeParam((int)n, level, logqi, dnum, logpi, pk, ext), (int64_t)t);
    std::vector<int64_t> qi;
    for (double l : logqi) qi.push_back((int64_t)std::exp2(l));
    return Scheme(RLWESchemeParam((int)n, level, logqi, qi, dnum, logpi, pi, pk, ext), (int64_t)t);
  }
};
P params(mon::Case &c) {
  P p;
  p.n = std::exp2(c.rng.in(10, 17));
  p.t = c.rng.chance(0.6) ? (LD)c.rng.pick<int64_t>({2, 3, 17, 257, 65537, 786433, 536903681, 4295294977, 1032193, 35184372121601, 1152921504606830593}) : (LD)(c.rng.next() >> c.rng.in(4, 62) | 2);
  p.level = c.rng.in(0, 12);
  p.cur = c.rng.in(0, p.level);
  p.dnum = c.rng.chance(0.7) ? computeDnum(p.level) : c.rng.in(1, 4);
  for (int i = 0; i <= p.level; ++i) p.logqi.push_back(c.rng.chance(0.5) ? c.rng.in(20, 60) : c.rng.real(20, 60));
  double mx = *std::max_element(p.logqi.begin(), p.logqi.end());
  int k = (p.level + p.dnum) / p.dnum;
  bool concrete = c.rng.chance(0.5);
  for (int i = 0; i < k; ++i) {
    p.logpi.push_back(std::min(60.0, mx + c.rng.real(0, 1)));
    if (concrete) { p.pi.push_back((int64_t)std::exp2(p.logpi.back()) | 1); p.logpi.back() = std::log2((double)p.pi.back()); }
  }
  p.pk = c.rng.chance(0.5);
  p.ext = c.rng.chance(0.4);
  return p;
}
// A noise state of about 2^e, and its exact value.
struct V { NoiseState st; LD v; };
V state(mon::Case &c, double lo, double hi, int deg = 0) {
  if (c.rng.chance(0.08)) return {NoiseState::of(0.0, deg), 0};
  double e = c.rng.real(lo, hi);
  int k = (int)std::floor(e / 2);
  double a = std::exp2(e - k);
  NoiseState s = NoiseState::of(a, deg) * NoiseState::of(std::exp2(k));
  return {s, (LD)a * exp2l(k)};
}
bool is(const NoiseState &s, LD want, double tol = 1e-9) {
  if (!s.isKnown()) return false;
  double g = s.getValue();
  if (want == 0) return std::isinf(g) && g < 0;
  LD w = log2l(want);
  return std::isfinite(g) && fabsl(g - w) <= tol * std::max<LD>(1, fabsl(w) * 1e-3L);
}
std::string show(const NoiseState &s, LD want) { return S() << "log2 is " << mon::str(s.getValue()) << " want " << mon::str((double)log2l(want)); }

// --- the documented formulas, one struct per model -----------------------------------------------------------
const LD VS = 2.0L / 3.0L;  // variance of a uniform ternary secret
LD digits(const P &p, int lv) { return std::ceil((double)(lv + 1) / p.dnum) + 1; }
LD Q(const P &p) { LD s = 0; for (double l : p.logqi) s += l; return exp2l(s); }
LD sumLog(const P &p, int upto) { LD s = 0; for (int i = 0; i <= upto; ++i) s += p.logqi[i]; return s; }
LD erfinvRef(LD oneMinus) {  // inverse of erf at 1 - oneMinus
  LD lo = 0, hi = 12;
  for (int i = 0; i < 200; ++i) { LD m = (lo + hi) / 2; (erfcl(m) > oneMinus ? lo : hi) = m; }
  return lo;
}
LD varianceBound(const P &p, LD var) {  // failure probability 2^-32 over all n coefficients
  LD one = -expm1l(log1pl(-exp2l(-32)) / p.n);
  return 0.5L * (1 + log2l(var)) + log2l(erfinvRef(one));
}

template <bool WORST> struct BgvBound {
  using Model = bgv::NoiseByBoundCoeffModel;
  static Model make() { return Model(WORST ? NoiseModelVariant::WORST_CASE : NoiseModelVariant::AVERAGE_CASE); }
  static constexpr const char *name = WORST ? "bgv-bound-worst" : "bgv-bound-average";
  static constexpr bool variance = false, plusOne = true;
  static LD d(const P &p) { return WORST ? p.n : 2 * sqrtl(p.n); }
  static LD dms(const P &p) { return WORST ? p.n : 4 * sqrtl(p.n); }
  static LD B(const P &p) { return 6 * p.std0; }
  static LD sk(const P &p) { return B(p); }
  static LD pub(const P &p) { return B(p) * (1 + 2 * d(p)); }
  static LD ms(const P &p, LD v) { return v / exp2l(p.logqi[p.cur]) + (1 + dms(p)) / 2; }
  static LD enc(const P &p) { return p.ext ? ms(p, pub(p)) : p.pk ? pub(p) : sk(p); }
  static LD cst(const P &) { return 0; }
  static LD add(LD a, LD b) { return a + b + 1; }
  static LD mul(const P &p, LD a, LD b, int, int) { return d(p) * p.t * a * b + (a + b + 1) * (p.n * p.t / 2); }
  static LD relin(const P &p, LD v) { return v + digits(p, p.cur) * d(p) * B(p) / 2 + (1 + dms(p)) / 2; }
  static LD total(const P &p) { return sumLog(p, p.cur) - 1; }
  static LD bound(const P &p, LD v) { return log2l(v * p.t); }
};
struct BgvVar {
  using Model = bgv::NoiseByVarianceCoeffModel;
  static Model make() { return Model(); }
  static constexpr const char *name = "bgv-variance";
  static constexpr bool variance = true, plusOne = false;
  static LD ve(const P &p) { return p.std0 * p.std0; }
  static LD sk(const P &p) { return p.t * p.t * ve(p); }
  static LD pub(const P &p) { return p.t * p.t * (2 * p.n * VS + 1) * ve(p); }
  static LD cst(const P &p) { return p.t * p.t / 12; }
  static LD ms(const P &p, LD v) { return v / exp2l(2 * p.logqi[p.cur]) + cst(p) * (1 + VS * p.n); }
  static LD enc(const P &p) { return p.ext ? ms(p, pub(p)) : p.pk ? pub(p) : sk(p); }
  static LD add(LD a, LD b) { return a + b; }
  static LD mul(const P &p, LD a, LD b, int, int) { return a * b * p.n; }
  static LD relin(const P &p, LD v) { return v + p.t * p.t / 12 * digits(p, p.cur) * p.n * ve(p) + cst(p) * (1 + VS * p.n); }
  static LD total(const P &p) { return sumLog(p, p.cur) - 1; }
  static LD bound(const P &p, LD v) { return varianceBound(p, v); }
};
struct BgvCan {
  using Model = bgv::NoiseCanEmbModel;
  static Model make() { return Model(); }
  static constexpr const char *name = "bgv-canonical";
  static constexpr bool variance = false, plusOne = false;
  static LD ve(const P &p) { return p.std0 * p.std0; }
  static LD bscale(const P &p) { return 6 * p.t * sqrtl(p.n / 12 * (1 + p.n * VS)); }
  static LD bks(const P &p) { return 6 * p.t * p.n * sqrtl(ve(p) / 12); }
  static LD sk(const P &p) { return 6 * p.t * sqrtl(p.n * (1.0L / 12 + ve(p))); }
  static LD pub(const P &p) { return 6 * p.t * sqrtl(p.n * (1.0L / 12 + 2 * p.n * ve(p) * VS + ve(p))); }
  static LD cst(const P &p) { return p.t * p.n / 2; }
  static LD ms(const P &p, LD v) { return v / exp2l(p.logqi[p.cur]) + bscale(p); }
  static LD enc(const P &p) { return p.ext ? ms(p, pub(p)) : p.pk ? pub(p) : sk(p); }
  static LD add(LD a, LD b) { return a + b; }
  static LD mul(const P &, LD a, LD b, int, int) { return a * b; }
  static LD relin(const P &p, LD v) {
    LD prod = 1, mx = 0;
    for (size_t i = 0; i < p.logpi.size(); ++i) {
      LD x = p.pi.empty() ? exp2l(p.logpi[i]) : (LD)p.pi[i];
      prod *= x; mx = std::max(mx, x);
    }
    return v + sqrtl((LD)p.dnum * (p.cur + 1)) * powl(mx, std::ceil((double)p.cur / p.dnum)) * bks(p) / prod + sqrtl(p.logpi.size()) * bscale(p);
  }
  static LD total(const P &p) { return sumLog(p, p.cur) - 1; }
  static LD bound(const P &, LD v) { return log2l(v); }
};
template <bool WORST> struct BfvBound {
  using Model = bfv::NoiseByBoundCoeffModel;
  static Model make() { return Model(WORST ? NoiseModelVariant::WORST_CASE : NoiseModelVariant::AVERAGE_CASE); }
  static constexpr const char *name = WORST ? "bfv-bound-worst" : "bfv-bound-average";
  static constexpr bool variance = false, plusOne = true;
  static LD d(const P &p) { return WORST ? p.n : 2 * sqrtl(p.n); }
  static LD dms(const P &p) { return WORST ? p.n : 4 * sqrtl(p.n); }
  static LD B(const P &p) { return 6 * p.std0; }
  static LD sk(const P &p) { return B(p); }
  static LD pub(const P &p) { return B(p) * (1 + 2 * d(p)); }
  static LD enc(const P &p) { return p.ext ? (1 + dms(p)) / 2 : p.pk ? pub(p) : sk(p); }
  static LD cst(const P &) { return 0; }
  static LD add(LD a, LD b) { return a + b + 1; }
  static LD mul(const P &p, LD a, LD b, int, int) { return a * b * d(p) * p.t / Q(p) + (a + b) * (d(p) * p.t / 2) * (4 + dms(p)) + (1 + dms(p) + d(p) * dms(p)) / 2; }
  static LD relin(const P &p, LD v) { return v + digits(p, p.level) * d(p) * B(p) / 2 + (1 + dms(p)) / 2; }
  static LD total(const P &p) { return sumLog(p, p.level) - log2l(p.t) - 1; }
  static LD bound(const P &, LD v) { return log2l(v); }
};
struct BfvVar {
  using Model = bfv::NoiseByVarianceCoeffModel;
  static Model make() { return Model(); }
  static constexpr const char *name = "bfv-variance";
  static constexpr bool variance = true, plusOne = false;
  static LD ve(const P &p) { return p.std0 * p.std0; }
  static LD sk(const P &p) { return ve(p); }
  static LD pub(const P &p) { return ve(p) * (2 * p.n * VS + 1); }
  static LD enc(const P &p) { return p.ext ? (1 + p.n * VS) / 12 : p.pk ? pub(p) : sk(p); }
  static LD cst(const P &) { return 0; }
  static LD add(LD a, LD b) { return a + b; }
  static LD mul(const P &p, LD a, LD b, int da, int db) {
    LD q = Q(p), r = a * b * p.n * p.t * p.t / q / q + (a + b) * p.n * p.t * p.t / 12;
    if (a != 0 && b != 0) r += (a * (da + 1) + b * (db + 1)) * (1 + p.n * VS) / 12 * p.n * p.t * p.t;
    return r;
  }
  static LD relin(const P &p, LD v) { return v + p.t * p.t * digits(p, p.level) / 12 * p.n * ve(p) + (1 + p.n * VS) / 12; }
  static LD total(const P &p) { return sumLog(p, p.level) - log2l(p.t) - 1; }
  static LD bound(const P &p, LD v) { return varianceBound(p, v); }
};
struct BfvCan {
  using Model = bfv::NoiseCanEmbModel;
  static Model make() { return Model(); }
  static constexpr const char *name = "bfv-canonical";
  static constexpr bool variance = false, plusOne = false;
  static LD ve(const P &p) { return p.std0 * p.std0; }
  static LD bscale(const P &p) { return 6 * sqrtl(p.n / 12 * (1 + p.n * VS)); }
  static LD sk(const P &p) { return 6 * sqrtl(p.n * ve(p)); }
  static LD pub(const P &p) { return 6 * sqrtl(p.n * (2 * p.n * ve(p) * VS + ve(p))); }
  static LD cst(const P &p) { return p.t * sqrtl(p.n / 12); }
  static LD ms(const P &p, LD v) { return v / exp2l(p.logqi[p.cur]) + bscale(p); }
  static LD enc(const P &p) { return p.ext ? ms(p, pub(p)) : p.pk ? pub(p) : sk(p); }
  static LD add(LD a, LD b) { return a + b; }
  static LD mul(const P &p, LD a, LD b, int, int) { return a * b * p.t / Q(p) + (a + b) * p.t * bscale(p); }
  static LD relin(const P &, LD v) { return v; }
  static LD total(const P &p) { return sumLog(p, p.cur) - log2l(p.t) - 1; }
  static LD bound(const P &, LD v) { return log2l(v); }
};
template <class F> constexpr bool hasMs = !std::is_same_v<typename F::Model, bfv::NoiseByBoundCoeffModel> && !std::is_same_v<typename F::Model, bfv::NoiseByVarianceCoeffModel>;
template <class F> constexpr bool isBfvVar = std::is_same_v<typename F::Model, bfv::NoiseByVarianceCoeffModel>;

template <class F> void formulas(mon::Case &c) {
  P p = params(c);
  auto m = F::make();
  double cap = std::min<double>(4000, (F::variance ? 2 : 1) * (double)sumLog(p, p.level));
  int da = c.rng.in(0, 6), db = c.rng.in(0, 6);
  V a = state(c, -5, cap, da), b = state(c, -5, cap, db);
  c.describe(S() << F::name << " " << p.s() << " a=2^" << mon::str((double)log2l(a.v)) << " b=2^" << mon::str((double)log2l(b.v)));
  Scheme sp = p.scheme();
  Local lp(&sp, p.cur, 2);
  c.event(F::name);
  auto key = [&](const char *k) { return std::string(F::name) + "-" + k; };
  auto expect = [&](const char *k, const NoiseState &got, LD want) { return c.check(is(got, want), key(k), [&] { return show(got, want); }); };
  auto e = m.evalEncrypt(lp);
  expect("encrypt", e, F::enc(p));
  expect("constant", m.evalConstant(lp), F::cst(p));
  expect("add", m.evalAdd(a.st, b.st), F::add(a.v, b.v));
  auto mul = m.evalMul(lp, a.st, b.st);
  expect("multiply", mul, F::mul(p, a.v, b.v, da, db));
  auto rl = m.evalRelinearize(lp, a.st);
  expect("relinearize", rl, F::relin(p, a.v));
  if constexpr (hasMs<F>) expect("modreduce", m.evalModReduce(lp, a.st), F::ms(p, a.v));
  if constexpr (isBfvVar<F>) {
    c.check(mul.getDegree() == std::max(da, db) + (a.v != 0 && b.v != 0), key("degree"), [&] { return S() << "degree " << mul.getDegree(); });
    c.check(e.getDegree() == (p.ext || p.pk ? 1 : 0), key("degree-fresh"), [&] { return S() << "degree " << e.getDegree(); });
    c.check(rl.getDegree() == da && m.evalAdd(a.st, b.st).getDegree() == std::max(da, db), key("degree-kept"), "addition and relinearization keep the degree");
  }
  double tot = m.toLogTotal(lp), bound = a.v == 0 ? 0 : m.toLogBound(lp, a.st);
  c.check(fabsl(tot - F::total(p)) < 1e-9, key("total"), [&] { return S() << "got " << mon::str(tot) << " want " << mon::str((double)F::total(p)); });
  if (a.v != 0) {
    // the inverse error function is only single precision in the tails
    c.check(fabsl(bound - F::bound(p, a.v)) < (F::variance ? 0.02 : 1e-9), key("bound"), [&] { return S() << "got " << mon::str(bound) << " want " << mon::str((double)F::bound(p, a.v)); });
    c.check(std::fabs(m.toLogBudget(lp, a.st) - (tot - bound)) < 1e-9, key("budget"), "the budget is not total minus bound");
  }
}

// More noise in, bigger ring, lower modulus: never less noise out; operand order does not matter.
template <class F> void relations(mon::Case &c) {
  P p = params(c);
  auto m = F::make();
  double cap = std::min<double>(3000, (double)sumLog(p, p.level));
  V a = state(c, -5, cap, 1), b = state(c, -5, cap, 1);
  double f = std::exp2(c.rng.real(0, 30));
  NoiseState big = (a.v == 0 ? NoiseState::of(1.0, 1) : a.st) * f;
  c.describe(S() << F::name << " " << p.s() << " a=2^" << mon::str((double)log2l(a.v)) << " b=2^" << mon::str((double)log2l(b.v)) << " grown by " << mon::str(f));
  Scheme sp = p.scheme();
  Local lp(&sp, p.cur, 2);
  auto key = [&](const char *k) { return std::string(F::name) + "-" + k; };
  auto le = [&](const char *k, const NoiseState &x, const NoiseState &y) { c.check(x.getValue() <= y.getValue() + 1e-9, key(k), [&] { return S() << mon::str(x.getValue()) << " > " << mon::str(y.getValue()); }); };
  le("add-monotone", m.evalAdd(a.st, b.st), m.evalAdd(big, b.st));
  le("multiply-monotone", m.evalMul(lp, a.st, b.st), m.evalMul(lp, big, b.st));
  le("relinearize-monotone", m.evalRelinearize(lp, a.st), m.evalRelinearize(lp, big));
  le("relinearize-shrinks", a.st, m.evalRelinearize(lp, a.st));
  le("add-shrinks", a.st, m.evalAdd(a.st, b.st));
  if constexpr (hasMs<F>) le("modreduce-monotone", m.evalModReduce(lp, a.st), m.evalModReduce(lp, big));
  auto close = [](const NoiseState &x, const NoiseState &y) { return x.getValue() == y.getValue() || std::fabs(x.getValue() - y.getValue()) < 1e-9; };
  c.check(close(m.evalAdd(a.st, b.st), m.evalAdd(b.st, a.st)), key("add-commutes"), "differs");
  c.check(close(m.evalMul(lp, a.st, b.st), m.evalMul(lp, b.st, a.st)), key("multiply-commutes"), "differs");
  if (a.v != 0) c.check(m.toLogBudget(lp, a.st) >= m.toLogBudget(lp, big) - 1e-9, key("budget-monotone"), "more noise leaves more budget");
  P q = p;
  q.n *= 2;
  Scheme sq = q.scheme();
  Local lq(&sq, q.cur, 2);
  le("encrypt-ring", m.evalEncrypt(lp), m.evalEncrypt(lq));
  le("multiply-ring", m.evalMul(lp, a.st, b.st), m.evalMul(lq, a.st, b.st));
  le("relinearize-ring", m.evalRelinearize(lp, a.st), m.evalRelinearize(lq, a.st));
  q = p;
  q.t *= 2;
  Scheme st = q.scheme();
  Local lt(&st, q.cur, 2);
  le("multiply-plaintext", m.evalMul(lp, a.st, b.st), m.evalMul(lt, a.st, b.st));
  le("encrypt-plaintext", m.evalEncrypt(lp), m.evalEncrypt(lt));
  c.check(m.toLogTotal(lt) <= m.toLogTotal(lp) + 1e-9, key("total-plaintext"), "a larger plaintext modulus allows more noise");
}
}  // namespace

MON_FAMILY(N01_formula, 20000, 300000) {
  switch (c.index % 8) {
    case 0: return formulas<BgvBound<true>>(c);
    case 1: return formulas<BgvBound<false>>(c);
    case 2: return formulas<BgvVar>(c);
    case 3: return formulas<BgvCan>(c);
    case 4: return formulas<BfvBound<true>>(c);
    case 5: return formulas<BfvBound<false>>(c);
    case 6: return formulas<BfvVar>(c);
    default: return formulas<BfvCan>(c);
  }
}
MON_FAMILY(N01_relation, 10000, 150000) {
  switch (c.index % 8) {
    case 0: return relations<BgvBound<true>>(c);
    case 1: return relations<BgvBound<false>>(c);
    case 2: return relations<BgvVar>(c);
    case 3: return relations<BgvCan>(c);
    case 4: return relations<BfvBound<true>>(c);
    case 5: return relations<BfvBound<false>>(c);
    case 6: return relations<BfvVar>(c);
    default: return relations<BfvCan>(c);
  }
}

MON_FAMILY(N01_state, 10000, 150000) {
  int da = c.rng.in(0, 9), db = c.rng.in(0, 9), dc = c.rng.in(0, 9);
  V a = state(c, -40, 900, da), b = state(c, -40, 900, db), z = state(c, -40, 900, dc);
  c.describe(S() << "a=2^" << mon::str((double)log2l(a.v)) << "," << da << " b=2^" << mon::str((double)log2l(b.v)) << "," << db);
  auto s = a.st + b.st, m = a.st * b.st, j = NoiseState::join(a.st, b.st);
  c.check(is(s, a.v + b.v) && s.getDegree() == std::max(da, db), "state-sum", [&] { return show(s, a.v + b.v); });
  c.check(is(m, a.v * b.v) && m.getDegree() == std::max(da, db), "state-product", [&] { return show(m, a.v * b.v); });
  double k = c.rng.real(0, 1e6);
  c.check(is(a.st + k, a.v + k) && is(a.st * k, a.v * k), "state-scalar", "adding or multiplying a number is wrong");
  c.check(is(a.st * (int)7, a.v * 7) && is(a.st + (int)7, a.v + 7), "state-int", "adding or multiplying an integer is wrong");
  c.check(is(j, std::max(a.v, b.v)) && j.getDegree() == std::max(da, db), "join", [&] { return show(j, std::max(a.v, b.v)); });
  auto eq = [](const NoiseState &x, const NoiseState &y) { return x == y && !(x != y); };
  c.check(eq(j, NoiseState::join(b.st, a.st)) && eq(NoiseState::join(a.st, a.st), a.st), "join-lattice", "join is not commutative or not idempotent");
  c.check(eq(NoiseState::join(j, z.st), NoiseState::join(a.st, NoiseState::join(b.st, z.st))), "join-associative", "join is not associative");
  auto u = NoiseState::uninitialized();
  c.check(!u.isKnown() && !u.isInitialized() && eq(NoiseState::join(u, a.st), a.st) && eq(NoiseState::join(a.st, u), a.st) && eq(NoiseState::join(u, u), u), "join-bottom", "the uninitialized state is not neutral");
  c.check((a.st == b.st) == (a.v == b.v && da == db), "state-equality", "equality does not compare value and degree");
  c.check(a.st.withNewDegree(dc).getDegree() == dc && a.st.withNewDegree(dc).getValue() == a.st.getValue(), "with-degree", "changing the degree changes something else");
  std::string t = a.st.toString();
  if (a.v != 0) c.check(t.find(std::to_string(a.st.getValue())) != std::string::npos && t.find(", " + std::to_string(da)) != std::string::npos, "state-text", t.c_str());
}

// --- simulated BGV and BFV: real noise against the worst-case (and canonical) bounds ---------------------------
namespace {
typedef std::vector<Big> Poly;
Big cmod(Big x, const Big &q) { x %= q; if (x < 0) x += q; if (2 * x > q) x -= q; return x; }
void red(Poly &a, const Big &q) { for (auto &x : a) x = cmod(x, q); }
Poly mulP(const Poly &a, const Poly &b) {
  size_t n = a.size();
  Poly r(n, 0);
  for (size_t i = 0; i < n; ++i) if (a[i] != 0)
    for (size_t j = 0; j < n; ++j) { if (i + j < n) r[i + j] += a[i] * b[j]; else r[i + j - n] -= a[i] * b[j]; }
  return r;
}
Poly addP(const Poly &a, const Poly &b) { Poly r = a; for (size_t i = 0; i < r.size(); ++i) r[i] += b[i]; return r; }
Poly scaleP(const Poly &a, const Big &k) { Poly r = a; for (auto &x : r) x *= k; return r; }
Big norm(const Poly &a) { Big m = 0; for (auto &x : a) { Big y = x < 0 ? Big(-x) : x; if (y > m) m = y; } return m; }
Big roundDiv(const Big &a, const Big &b) { Big q = (2 * (a < 0 ? Big(-a) : a) + b) / (2 * b); return a < 0 ? Big(-q) : q; }  // nearest, ties away from zero
LD ld(const Big &b) { return b.convert_to<LD>(); }

struct Sim {
  mon::Case &c;
  int n; int64_t t; bool bgv;
  std::vector<Big> q; Big P; std::vector<Big> qs;  // qs[l] = q0..ql
  Poly s; Poly pk0, pk1;
  int alpha;
  struct Digit { Big D, hat; Poly b, a; };
  std::map<int, std::vector<Digit>> ksk;  // per level
  Poly uniform(const Big &m) { Poly r(n); for (auto &x : r) { Big v = 0; for (Big k = 1; k < m; k <<= 32) v = (v << 32) | Big((uint32_t)c.rng.next()); x = cmod(v, m); } return r; }
  Poly gauss() {
    Poly r(n);
    for (auto &x : r) { double g; do { double u = c.rng.real(1e-18, 1), v = c.rng.unit(); g = 3.2 * std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v); } while (std::fabs(g) > 19.2); x = (long)std::lrint(g); }
    return r;
  }
  Poly ternary() { Poly r(n); for (auto &x : r) x = c.rng.in(-1, 1); return r; }
  Sim(mon::Case &c, int n, int64_t t, bool bgv, int levels, int dnum) : c(c), n(n), t(t), bgv(bgv) {
    int bits = c.rng.in(40, 55);
    Big acc = 1;
    for (int i = 0; i < levels; ++i) {
      Big x;
      auto ok = [&] { if (x <= 1 || gcdB(x, t) != 1) return false; for (auto &y : q) if (gcdB(x, y) != 1) return false; return true; };
      do { x = (Big(1) << (bits - 1)) + (c.rng.next() >> (65 - bits)); x = x / t * t + 1; if (x % 2 == 0) x += t; } while (!ok());
      q.push_back(x); acc *= x; qs.push_back(acc);
    }
    alpha = (levels + dnum - 1) / dnum;
    P = 1;
    for (int i = 0; i < alpha; ++i) { Big x; do { x = (Big(1) << bits) + (c.rng.next() >> (65 - bits)) * 2 + 1; } while (gcdB(x, acc) != 1 || gcdB(x, P) != 1 || gcdB(x, t) != 1); P *= x; }
    s = ternary();
    Big Qm = qs.back();
    pk1 = uniform(Qm);
    pk0 = addP(scaleP(mulP(pk1, s), -1), scaleP(gauss(), bgv ? t : 1));
    red(pk0, Qm);
  }
  static Big gcdB(Big a, Big b) { while (b != 0) { Big r = a % b; a = b; b = r; } return a; }
  static Big inv(Big a, const Big &m) { Big r0 = m, r1 = a % m, t0 = 0, t1 = 1; while (r1 != 0) { Big k = r0 / r1, r2 = r0 - k * r1, t2 = t0 - k * t1; r0 = r1; r1 = r2; t0 = t1; t1 = t2; } return cmod(t0, m); }
  struct Ct { Poly c0, c1; int lv; Poly m; };
  Poly message() { Poly m(n); int k = c.rng.in(0, 2); for (auto &x : m) x = cmod(Big(k == 0 ? (uint64_t)t / 2 : c.rng.next() % (uint64_t)t), t); return m; }
  Ct encrypt(bool pk) {
    Ct r; r.lv = q.size() - 1; r.m = message();
    const Big &Qm = qs.back();
    Poly msg = r.m;
    if (!bgv) for (auto &x : msg) x = roundDiv(x * Qm, t);
    Big ts = bgv ? t : 1;
    if (pk) {
      Poly u = ternary();
      r.c0 = addP(addP(mulP(u, pk0), scaleP(gauss(), ts)), msg);
      r.c1 = addP(mulP(u, pk1), scaleP(gauss(), ts));
    } else {
      r.c1 = uniform(Qm);
      r.c0 = addP(addP(scaleP(mulP(s, r.c1), -1), scaleP(gauss(), ts)), msg);
    }
    red(r.c0, Qm); red(r.c1, Qm);
    return r;
  }
  Poly phase(const Ct &x) { Poly p = addP(x.c0, mulP(s, x.c1)); red(p, qs[x.lv]); return p; }
  // infinity norm of the noise (BGV: e in m + t e; BFV: v in (Q/t) m + v)
  LD noise(const Ct &x) {
    Poly p = phase(x);
    LD best = 0;
    for (int i = 0; i < n; ++i) {
      if (bgv) { Big d = p[i] - x.m[i]; if (d % t != 0) return INFINITY; d /= t; best = std::max(best, fabsl(ld(d))); }
      else { Big d = cmod(p[i] * t - qs[x.lv] * x.m[i], qs[x.lv] * t); best = std::max(best, fabsl(ld(d)) / t); }
    }
    return best;
  }
  LD phaseNorm(const Ct &x) { return ld(norm(phase(x))); }
  Poly mred(Poly m) { for (auto &x : m) x = cmod(x, t); return m; }
  Ct add(const Ct &a, const Ct &b) { Ct r{addP(a.c0, b.c0), addP(a.c1, b.c1), a.lv, mred(addP(a.m, b.m))}; red(r.c0, qs[a.lv]); red(r.c1, qs[a.lv]); return r; }
  struct Ct3 { Poly c0, c1, c2; int lv; Poly m; };
  Ct3 mul(const Ct &a, const Ct &b) {
    Ct3 r{mulP(a.c0, b.c0), addP(mulP(a.c0, b.c1), mulP(a.c1, b.c0)), mulP(a.c1, b.c1), a.lv, mred(mulP(a.m, b.m))};
    for (Poly *p : {&r.c0, &r.c1, &r.c2}) { if (!bgv) for (auto &x : *p) x = roundDiv(x * t, qs[a.lv]); red(*p, qs[a.lv]); }
    return r;
  }
  Ct mulConst(const Ct &a, const Poly &k) {
    Ct r{mulP(a.c0, k), mulP(a.c1, k), a.lv, mred(mulP(a.m, k))};
    red(r.c0, qs[a.lv]); red(r.c1, qs[a.lv]);
    return r;
  }
  LD noise3(const Ct3 &x) {
    Poly p = addP(addP(x.c0, mulP(s, x.c1)), mulP(mulP(s, s), x.c2));
    red(p, qs[x.lv]);
    Ct y{p, Poly(n, 0), x.lv, x.m};
    return noise(y);
  }
  Big modDownDelta(const Big &x, const Big &p) {  // delta = x mod p, delta = 0 mod t (BGV), |delta| <= p t / 2
    Big d = cmod(x, p);
    if (!bgv) return d;
    return d + p * cmod(-d * inv(p, t), t);
  }
  Ct relin(const Ct3 &x) {
    const Big &Ql = qs[x.lv];
    Big QP = Ql * P;
    auto &ks = ksk[x.lv];
    if (ks.empty()) {
      Poly s2 = mulP(s, s);
      for (int j = 0; j * alpha <= x.lv; ++j) {
        Digit d; d.D = 1;
        for (int i = j * alpha; i < (j + 1) * alpha && i <= x.lv; ++i) d.D *= q[i];
        d.hat = Ql / d.D; d.hat *= inv(d.hat, d.D);
        d.a = uniform(QP);
        d.b = addP(addP(scaleP(mulP(d.a, s), -1), scaleP(gauss(), bgv ? t : 1)), scaleP(s2, P * d.hat));
        red(d.b, QP);
        ks.push_back(d);
      }
    }
    Poly u(n, 0), v(n, 0);
    for (auto &d : ks) { Poly w = x.c2; red(w, d.D); u = addP(u, mulP(w, d.b)); v = addP(v, mulP(w, d.a)); }
    red(u, QP); red(v, QP);
    for (Poly *p : {&u, &v}) for (auto &y : *p) y = (y - modDownDelta(y, P)) / P;
    // BGV: the division by P scales the plaintext by P^-1 mod t; scale the key-switching part back is not needed because the keys carry P
    Ct r{addP(x.c0, u), addP(x.c1, v), x.lv, x.m};
    red(r.c0, Ql); red(r.c1, Ql);
    return r;
  }
  Ct modReduce(const Ct &x) {
    Ct r = x;
    const Big &d = q[x.lv];
    for (Poly *p : {&r.c0, &r.c1}) for (auto &y : *p) y = (y - modDownDelta(y, d)) / d;
    r.lv--;
    r.m = mred(scaleP(x.m, inv(d, t)));
    red(r.c0, qs[r.lv]); red(r.c1, qs[r.lv]);
    return r;
  }
};
}  // namespace

MON_FAMILY_T(N01_simulate, 240, 4000, 60) {
  bool bgv = c.rng.chance(0.5), pk = c.rng.chance(0.6);
  int n = 1 << c.rng.in(3, c.thorough ? 7 : 5), levels = c.rng.in(1, 6), dnum = computeDnum(levels - 1);
  int64_t t = c.rng.pick<int64_t>({2, 3, 17, 257, 65537});
  std::string prog;
  Sim sim(c, n, t, bgv, levels, dnum);
  std::vector<double> logqi, logpi(sim.alpha, 56);
  for (auto &x : sim.q) logqi.push_back((double)log2l(ld(x)));
  Scheme sp(RLWESchemeParam(n, levels - 1, logqi, dnum, logpi, pk, false), t);
  bgv::NoiseByBoundCoeffModel gm(NoiseModelVariant::WORST_CASE);
  bfv::NoiseByBoundCoeffModel fm(NoiseModelVariant::WORST_CASE);
  bgv::NoiseCanEmbModel gc;
  struct Val { Sim::Ct ct; NoiseState st, can; };
  S d;
  d << (bgv ? "bgv" : "bfv") << " n=" << n << " t=" << t << " levels=" << levels << " pk=" << pk << ":";
  c.describe(d);
  std::vector<Val> vals;
  auto L = [&](int lv) { return Local(&sp, lv, 2); };
  auto watch = [&](const char *op, LD actual, const NoiseState &st, int lv, LD phase, const NoiseState *can) {
    c.describe(d);
    LD bound = exp2l(st.getValue());
    LD room = ld(sim.qs[lv]) / 2;
    if (bgv ? bound * t + t >= room : bound * t >= room) { c.event("bound_exceeds_modulus"); return false; }
    c.event(std::string(bgv ? "bgv_" : "bfv_") + op);
    if (!c.check(actual <= bound * (1 + 1e-9L), std::string(bgv ? "bgv" : "bfv") + "-underestimate-" + op, [&] { return S() << "actual noise 2^" << mon::str((double)log2l(actual)) << ", model 2^" << mon::str((double)log2l(bound)); })) return false;
    if (bgv) {  // the budget is what decides decryption
      c.check(gm.toLogBudget(L(lv), st) > 0, "budget-positive", "a noise that fits has no budget");
      if (can && exp2l(can->getValue()) < room) c.check(phase <= exp2l(gc.toLogBound(L(lv), *can)) * (1 + 1e-9L), std::string("bgv-canonical-underestimate-") + op, [&] { return S() << "actual phase 2^" << mon::str((double)log2l(phase)) << ", model 2^" << mon::str(can->getValue()); });
    } else c.check(fm.toLogBudget(L(lv), st) > 0, "budget-positive", "a noise that fits has no budget");
    return true;
  };
  for (int i = 0; i < 3; ++i) {
    Val v{sim.encrypt(pk), {}, {}};
    int lv = v.ct.lv;
    v.st = bgv ? gm.evalEncrypt(L(lv)) : fm.evalEncrypt(L(lv));
    v.can = gc.evalEncrypt(L(lv));
    d << " enc";
    if (!watch("encrypt", sim.noise(v.ct), v.st, lv, sim.phaseNorm(v.ct), &v.can)) return;
    vals.push_back(v);
  }
  int steps = c.rng.in(2, 10);
  for (int k = 0; k < steps; ++k) {
    size_t i = c.rng.in(0, vals.size() - 1);
    std::vector<size_t> same;
    for (size_t j = 0; j < vals.size(); ++j) if (vals[j].ct.lv == vals[i].ct.lv) same.push_back(j);
    size_t j = c.rng.pick(same);
    int lv = vals[i].ct.lv, op = c.rng.in(0, 4);
    Val v = vals[i];
    const char *name;
    if (op == 0) {
      name = "add";
      v.ct = sim.add(vals[i].ct, vals[j].ct);
      v.st = bgv ? gm.evalAdd(vals[i].st, vals[j].st) : fm.evalAdd(vals[i].st, vals[j].st);
      v.can = gc.evalAdd(vals[i].can, vals[j].can);
    } else if (op == 1 || op == 2) {
      name = "relinearize";
      auto x = sim.mul(vals[i].ct, vals[j].ct);
      v.st = bgv ? gm.evalMul(L(lv), vals[i].st, vals[j].st) : fm.evalMul(L(lv), vals[i].st, vals[j].st);
      v.can = gc.evalMul(L(lv), vals[i].can, vals[j].can);
      d << " mul(" << i << "," << j << ")";
      if (!watch("multiply", sim.noise3(x), v.st, lv, 0, nullptr)) continue;
      v.ct = sim.relin(x);
      v.st = bgv ? gm.evalRelinearize(L(lv), v.st) : fm.evalRelinearize(L(lv), v.st);
      v.can = gc.evalRelinearize(L(lv), v.can);
    } else if (op == 3) {
      name = "constant";
      Poly m = sim.message();
      v.ct = sim.mulConst(vals[i].ct, m);
      auto cst = bgv ? gm.evalConstant(L(lv)) : fm.evalConstant(L(lv));
      v.st = bgv ? gm.evalMul(L(lv), vals[i].st, cst) : fm.evalMul(L(lv), vals[i].st, cst);
      v.can = gc.evalMul(L(lv), vals[i].can, gc.evalConstant(L(lv)));
    } else {
      if (!bgv || lv == 0) continue;
      name = "modreduce";
      v.ct = sim.modReduce(vals[i].ct);
      v.st = gm.evalModReduce(L(lv), vals[i].st);
      v.can = gc.evalModReduce(L(lv), vals[i].can);
    }
    d << " " << name << "(" << i << "," << j << ")";
    if (!watch(name, sim.noise(v.ct), v.st, v.ct.lv, sim.phaseNorm(v.ct), &v.can)) continue;
    vals.push_back(v);
  }
}

// --- N02 ------------------------------------------------------------------------------------------------------
namespace {
// Bossuat et al., "Security Guidelines for Implementing Homomorphic Encryption" (ia.cr/2024/463), ternary secret, 128 bits classical.
const std::vector<std::pair<int, int>> TABLE = {{1 << 10, 26}, {1 << 11, 53}, {1 << 12, 106}, {1 << 13, 214}, {1 << 14, 430}, {1 << 15, 868}, {1 << 16, 1747}, {1 << 17, 3523}};
int ringFor(double logPQ, int minDim) {
  for (auto [n, q] : TABLE) if (n >= minDim && q >= logPQ) return n;
  return 0;
}
uint64_t mulm(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t)((u128)a * b % m); }
bool prime64(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
  uint64_t d = n - 1; int s = 0;
  while (!(d & 1)) d >>= 1, ++s;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = 1, b = a, e = d;
    for (; e; e >>= 1, b = mulm(b, b, n)) if (e & 1) x = mulm(x, b, n);
    bool ok = x == 1 || x == n - 1;
    for (int r = 1; r < s && !ok; ++r) ok = (x = mulm(x, x, n)) == n - 1;
    if (!ok) return false;
  }
  return true;
}
int dnumFor(int level) { return level > 3 ? 3 : level > 0 ? 2 : 1; }
void chain(mon::Case &c, const RLWESchemeParam &p, int minDim, std::vector<int64_t> banned, bool perDigit) {
  std::set<int64_t> seen(banned.begin(), banned.end());
  double logPQ = 0;
  auto one = [&](int64_t v, double lg) {
    c.check(prime64(v), "not-prime", [&] { return S() << v; });
    c.check(v % (2ll * p.getRingDim()) == 1, "not-ntt-friendly", [&] { return S() << v << " modulo 2*" << p.getRingDim(); });
    c.check(seen.insert(v).second, "repeated-modulus", [&] { return S() << v; });
    c.check(std::fabs(lg - std::log2((double)v)) < 1e-9, "log-modulus", [&] { return S() << mon::str(lg) << " for " << v; });
    logPQ += std::log2((double)v);
  };
  if (!c.check(p.getQi().size() == p.getLogqi().size() && p.getPi().size() == p.getLogpi().size(), "sizes", "moduli and their logarithms differ in number")) return;
  c.check((int)p.getLogqi().size() == p.getLevel() + 1, "level", [&] { return S() << p.getLogqi().size() << " moduli, level " << p.getLevel(); });
  for (size_t i = 0; i < p.getQi().size(); ++i) one(p.getQi()[i], p.getLogqi()[i]);
  for (size_t i = 0; i < p.getPi().size(); ++i) one(p.getPi()[i], p.getLogpi()[i]);
  int n = p.getRingDim();
  c.check(n >= minDim, "ring-too-small-for-slots", [&] { return S() << n << " < " << minDim; });
  int cap = 0;
  for (auto [d, q] : TABLE) if (d == n) cap = q;
  c.check(logPQ <= cap + 1 && cap, "insecure", [&] { return S() << "log PQ " << mon::str(logPQ) << " with ring dimension " << n; });
  // the special moduli must cover every digit of Q
  double logP = 0, digit = 0;
  for (double l : p.getLogpi()) logP += l;
  int alpha = ((int)p.getLogqi().size() + p.getDnum() - 1) / p.getDnum();
  for (size_t j = 0; j < p.getLogqi().size(); j += alpha) {
    double s = 0;
    for (size_t i = j; i < std::min(j + alpha, p.getLogqi().size()); ++i) s += p.getLogqi()[i];
    digit = std::max(digit, s);
  }
  double logQ = 0;
  for (double l : p.getLogqi()) logQ += l;
  if (!perDigit) digit = logQ / p.getDnum();  // documented: P > Q / dnum
  c.event("modulus_chains");
  c.event("primes_checked", p.getQi().size() + p.getPi().size());
  c.check(logP > digit - 1, "special-modulus-too-small", [&] { return S() << "log P " << mon::str(logP) << " < largest digit " << mon::str(digit); });
}
}  // namespace

MON_FAMILY(N02_table, 4000, 60000) {
  // every total size in turn, then random minima
  int logPQ = c.index < 3524 ? (int)c.index : (int)c.rng.in(0, 3523);
  int minDim = c.rng.chance(0.3) ? 0 : c.rng.chance(0.5) ? 1 << c.rng.in(0, 17) : c.rng.in(1, 131072);
  c.describe(S() << "logPQ=" << logPQ << " minRingDim=" << minDim);
  int want = ringFor(logPQ, minDim), got = computeRingDim(logPQ, minDim);
  c.check(got == want, "ring-dimension", [&] { return S() << "got " << got << " want " << want; });
}
MON_FAMILY(N02_conservative, 2000, 20000) {
  int level = c.rng.in(0, 40), slots = 1 << c.rng.in(0, 16);
  if (c.rng.chance(0.3)) slots = c.rng.in(1, 65536);
  bool pk = c.rng.chance(0.5), ext = c.rng.chance(0.5);
  int64_t t = c.rng.pick<int64_t>({17, 65537, 4295294977});
  int dn = dnumFor(level), total = 60 * (level + 1 + (level + dn) / dn);
  if (!ringFor(total, 2 * slots)) return c.skip();
  c.describe(S() << "conservative level=" << level << " slots=" << slots << " t=" << t);
  auto p = Scheme::getConservativeSchemeParam(level, t, slots, pk, ext);
  c.check(p.getRingDim() == ringFor(total, 2 * slots), "conservative-ring", [&] { return S() << p.getRingDim() << " for " << total << " bits"; });
  c.check(p.getLevel() == level && (int)p.getLogqi().size() == level + 1 && p.getDnum() == dn && computeDnum(level) == dn, "conservative-levels", "wrong number of levels or digits");
  c.check((int)p.getLogpi().size() * dn >= level + 1, "conservative-special", "special moduli do not cover a digit");
  for (double l : p.getLogqi()) c.check(l == 60, "conservative-size", "moduli are not 60 bits");
  c.check(p.getPlaintextModulus() == t && p.getUsePublicKey() == pk && p.isEncryptionTechniqueExtended() == ext, "conservative-options", "options are not recorded");
}
MON_FAMILY(N02_concrete_bgv, 1500, 20000) {
  int k = c.rng.in(1, 25);
  std::vector<double> lg;
  int base = c.rng.in(15, 58);
  for (int i = 0; i < k; ++i) lg.push_back(c.rng.chance(0.6) ? base : c.rng.in(10, 58));
  int slots = 1 << c.rng.in(0, 14);
  int64_t t = c.rng.pick<int64_t>({0, 17, 65537, 786433, 4295294977, 536903681});
  bool pk = c.rng.chance(0.5), ext = c.rng.chance(0.5);
  c.describe(S() << "concrete logqi=" << lg << " slots=" << slots << " t=" << t);
  double sum = 0, mx = 20;
  for (double l : lg) { sum += std::max(l, 20.0) + 2; mx = std::max(mx, l); }
  int dn = dnumFor(k - 1);
  if (!ringFor(sum + (mx + 2) * ((k + dn - 1) / dn), 2 * slots)) return c.skip();
  auto p = Scheme::getConcreteSchemeParam(lg, t, slots, pk, ext);
  chain(c, p, 2 * slots, t ? std::vector<int64_t>{t} : std::vector<int64_t>{}, true);
  c.check(p.getQi().size() == lg.size() && p.getDnum() == dn, "levels-requested", "wrong number of levels or digits");
  for (size_t i = 0; i < lg.size() && i < p.getLogqi().size(); ++i)
    c.check(p.getLogqi()[i] >= std::max(lg[i], 20.0), "modulus-too-small", [&] { return S() << "level " << i << " asked for " << lg[i] << " bits, got " << mon::str(p.getLogqi()[i]); });
  c.check(p.getPlaintextModulus() == t && p.getUsePublicKey() == pk && p.isEncryptionTechniqueExtended() == ext, "options", "options are not recorded");
}
MON_FAMILY(N02_concrete_ckks, 1000, 12000) {
  int scale = c.rng.in(25, 58), first = c.rng.chance(0.2) ? std::min(scale, 58) : c.rng.in(scale + 1, 60), k = c.rng.in(0, 20), slots = 1 << c.rng.in(0, 14);
  bool pk = c.rng.chance(0.5), ext = c.rng.chance(0.5), red = c.rng.chance(0.5);
  c.describe(S() << "ckks first=" << first << " scale=" << scale << " levels=" << k << " slots=" << slots << " reduced=" << red);
  if (!ringFor((first + (scale + 1) * k) * 1.6 + 122, 2 * slots)) return c.skip();
  // enough primes of that size for the largest ring this can end up with
  if (scale < 34) return c.skip();
  auto p = ckks::SchemeParam::getConcreteSchemeParam(first, scale, k, slots, pk, ext, red);
  chain(c, p, 2 * slots, {}, false);
  c.check((int)p.getQi().size() == k + 1, "ckks-levels", [&] { return S() << p.getQi().size() << " moduli for " << k << " scale moduli"; });
  // rescaling moduli stay near the scale
  for (int i = 1; i <= k && i < (int)p.getLogqi().size(); ++i)
    c.check(std::fabs(p.getLogqi()[i] - scale) < 0.5, "ckks-scale-drift", [&] { return S() << "modulus " << i << " has " << mon::str(p.getLogqi()[i]) << " bits"; });
  c.check(std::fabs(p.getLogqi()[0] - first) < 0.5, "ckks-first-modulus", [&] { return S() << mon::str(p.getLogqi()[0]) << " bits"; });
  c.check(p.getLogDefaultScale() == scale && p.getUsePublicKey() == pk && p.isEncryptionTechniqueExtended() == ext, "options", "options are not recorded");
}
MON_FAMILY(N02_find_prime, 3000, 40000) {
  int bits = c.rng.in(20, 59), n = 1 << c.rng.in(10, 17);
  std::vector<int64_t> have;
  c.describe(S() << "find primes of " << bits << " bits for ring dimension " << n);
  int cnt = c.rng.in(1, 12);
  for (int i = 0; i < cnt; ++i) {
    int64_t p = findPrime(bits, n, have);
    bool ok = prime64(p) && p % (2ll * n) == 1 && std::find(have.begin(), have.end(), p) == have.end() && (p >> bits) >= 1;
    if (!c.check(ok, "found-prime", [&] { return S() << "number " << i << ": " << p; })) return;
    have.push_back(p);
  }
}
MON_MAIN()
