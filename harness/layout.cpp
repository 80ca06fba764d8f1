// L01 packing layouts, L02 convolution layouts, L03 moving layouts through operations.
#include <numeric>

#include "lib/Utils/Layout/Convolution.h"
#include "lib/Utils/Layout/Evaluate.h"
#include "lib/Utils/Layout/Hoisting.h"
#include "lib/Utils/Layout/IslConversion.h"
#include "lib/Utils/Layout/Utils.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
#include "mon.h"
using namespace mlir;
using namespace mlir::heir;
using mlir::presburger::IntegerRelation;
using mlir::presburger::PresburgerSpace;
using mlir::presburger::VarKind;
using mon::S;
typedef std::vector<int64_t> V;
typedef std::pair<V, V> Pt;
typedef std::set<Pt> Rel;

namespace {
MLIRContext &ctx() {
  static MLIRContext *c = [] { auto *x = new MLIRContext(MLIRContext::Threading::DISABLED); return x; }();
  return *c;
}
RankedTensorType ty(const V &shape) { return RankedTensorType::get(shape, IntegerType::get(&ctx(), 32)); }
int64_t prod(const V &v) { int64_t p = 1; for (auto x : v) p *= x; return p; }
int64_t pow2(int64_t x) { int64_t p = 1; while (p < x) p *= 2; return p; }
int64_t mod(int64_t a, int64_t m) { int64_t r = a % m; return r < 0 ? r + m : r; }
int64_t fdiv(int64_t a, int64_t m) { return (a - mod(a, m)) / m; }
std::string show(const Rel &r, size_t n = 12) {
  S s;
  s << r.size() << " points:";
  for (auto &p : r) { if (!n--) { s << " ..."; break; } s << " " << p.first << "->" << p.second; }
  return s;
}
std::string diff(const Rel &want, const Rel &got) {
  Rel a, b;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::inserter(a, a.end()));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::inserter(b, b.end()));
  return S() << "missing " << show(a) << "; unexpected " << show(b);
}
// The points of a relation as the code under test enumerates them.
Rel points(mon::Case &c, const IntegerRelation &r, const char *what = "points") {
  if (r.isEmpty()) return {};  // enumeration is defined for bounded, non-empty relations
  PointPairCollector col(r.getNumDomainVars(), r.getNumRangeVars());
  enumeratePoints(r, col);
  Rel out(col.points.begin(), col.points.end());
  c.check(out.size() == col.points.size(), std::string("duplicate-") + what, [&] { return S() << col.points.size() << " points enumerated, " << out.size() << " of them distinct"; });
  c.event("points", out.size());
  return out;
}
// The points of a relation in a box, by membership tests only.
Rel slowPoints(const IntegerRelation &r, const V &lo, const V &hi) {
  Rel out;
  V p = lo;
  size_t nd = r.getNumDomainVars();
  for (size_t i = 0; i < p.size(); ++i) if (lo[i] > hi[i]) return out;
  while (true) {
    if (r.containsPointNoLocal(p)) out.insert({V(p.begin(), p.begin() + nd), V(p.begin() + nd, p.end())});
    int d = (int)p.size() - 1;
    for (; d >= 0; --d) { if (++p[d] <= hi[d]) break; p[d] = lo[d]; }
    if (d < 0) return out;
  }
}
template <class F> void box(const V &shape, F f) {
  if (prod(shape) == 0) return;
  V p(shape.size(), 0);
  while (true) {
    f(p);
    int d = (int)p.size() - 1;
    for (; d >= 0; --d) { if (++p[d] < shape[d]) break; p[d] = 0; }
    if (d < 0) return;
  }
}
int64_t flat(const V &p, const V &shape) { int64_t f = 0; for (size_t i = 0; i < p.size(); ++i) f = f * shape[i] + p[i]; return f; }
V shapeOf(mon::Case &c, int rank, int64_t cap, int64_t maxDim = 12) {
  while (true) {
    V s;
    for (int i = 0; i < rank; ++i) s.push_back(c.rng.chance(0.2) ? 1 : c.rng.in(1, maxDim));
    if (prod(s) <= cap) return s;
  }
}
Rel composeRel(const Rel &a, const Rel &b) {  // x -a-> y -b-> z
  std::map<V, std::vector<V>> m;
  for (auto &p : b) m[p.first].push_back(p.second);
  Rel out;
  for (auto &p : a) { auto it = m.find(p.second); if (it != m.end()) for (auto &z : it->second) out.insert({p.first, z}); }
  return out;
}
Rel inverseRel(const Rel &a) { Rel o; for (auto &p : a) o.insert({p.second, p.first}); return o; }
bool slotsUnique(const Rel &r) { std::set<V> s; for (auto &p : r) if (!s.insert(p.second).second) return false; return true; }

// ------------------------------------------------------------ reference layouts
Rel refRowMajor(const V &shape, int64_t slots) {
  Rel r;
  int64_t padded = pow2(prod(shape));
  box(shape, [&](const V &p) {
    int64_t f = flat(p, shape);
    for (int64_t s = f % slots % padded; s < slots; s += padded) r.insert({p, {f / slots, s}});
  });
  return r;
}
Rel refDiagonal(const V &shape, int64_t slots) {
  Rel r;
  int64_t pr = pow2(shape[0]), pc = pow2(shape[1]);
  for (int64_t ct = 0; ct < std::min(pr, pc); ++ct)
    for (int64_t s = 0; s < slots; ++s) {
      int64_t row = s % pr, col = (ct + s) % pc;
      if (row < shape[0] && col < shape[1]) r.insert({{row, col}, {ct, s}});
    }
  return r;
}
Rel refCyclic(const V &shape, int64_t slots) {  // bicyclic / tricyclic
  Rel r;
  int64_t cts = (prod(shape) + slots - 1) / slots;
  for (int64_t ct = 0; ct < cts; ++ct)
    for (int64_t s = 0; s < slots; ++s) {
      V p;
      for (auto d : shape) p.push_back((ct * slots + s) % d);
      r.insert({p, {ct, s}});
    }
  return r;
}
Rel refBicyclicDiag(const V &shape, int64_t dim, int64_t stride, int64_t slots) {
  Rel r;
  int64_t n = shape[dim], p = shape[1 - dim];
  for (int64_t d = 0; d < n; ++d)
    for (int64_t s = 0; s < slots; ++s) {
      int64_t con = mod(s + d * stride, n), fr = s % p;
      r.insert({dim == 0 ? V{con, fr} : V{fr, con}, {d, s}});
    }
  return r;
}
Rel refPerRow(const V &shape, int64_t slots) {
  Rel r;
  int64_t pc = pow2(shape[1]);
  for (int64_t i = 0; i < shape[0]; ++i)
    for (int64_t s = 0; s < slots; ++s) if (s % pc < shape[1]) r.insert({{i, s % pc}, {i, s}});
  return r;
}
int64_t slotsFor(mon::Case &c, int64_t lo, int64_t hi) {
  int64_t s = pow2(lo);
  while (s < hi && c.rng.chance(0.4)) s *= 2;
  return s;
}

// Common checks on a layout with known points.
void checkLayout(mon::Case &c, const IntegerRelation &rel, const Rel &want, const V &shape, bool total = true) {
  Rel got = points(c, rel);
  c.check(got == want, "layout-points", [&] { return diff(want, got); });
  if (got != want) return;
  c.check(slotsUnique(got), "slot-collision", [&] { return "two elements share a slot: " + show(got); });
  if (total) {
    std::set<V> dom;
    for (auto &p : got) dom.insert(p.first);
    c.check((int64_t)dom.size() == prod(shape), "element-lost", [&] { return S() << dom.size() << " of " << prod(shape) << " elements are placed"; });
  }
  c.check(relationSize(rel) == (int64_t)want.size(), "relation-size", [&] { return S() << "relationSize " << relationSize(rel) << " but " << want.size() << " points"; });
  // packing and unpacking
  int64_t n = prod(shape);
  std::vector<int> data(n);
  for (auto &x : data) x = c.rng.in(1, 1 << 30);
  std::vector<std::vector<int>> packed, out;
  std::vector<std::vector<int>> m2;
  std::vector<std::vector<std::vector<int>>> m3;
  int64_t cts = 0, slots = 0;
  for (auto &p : want) { cts = std::max(cts, p.second[0] + 1); slots = std::max(slots, p.second[1] + 1); }
  switch (shape.size()) {
    case 1: packed = evaluateLayoutOnVector<int>(rel, data); break;
    case 2:
      m2.assign(shape[0], std::vector<int>(shape[1]));
      for (int64_t i = 0; i < n; ++i) m2[i / shape[1]][i % shape[1]] = data[i];
      packed = evaluateLayoutOnMatrix<int>(rel, m2);
      break;
    case 3:
      m3.assign(shape[0], std::vector<std::vector<int>>(shape[1], std::vector<int>(shape[2])));
      for (int64_t i = 0; i < n; ++i) m3[i / (shape[1] * shape[2])][i / shape[2] % shape[1]][i % shape[2]] = data[i];
      packed = evaluateLayoutOnTensor<int>(rel, m3);
      break;
    default:
      packed = evaluateLayout<int>(rel, [&](const V &p) { return data[flat(p, shape)]; }, c.rng.chance(0.5) ? std::nullopt : std::optional<SmallVector<int64_t>>(SmallVector<int64_t>{cts, slots}));
  }
  c.check((int64_t)packed.size() >= cts, "packed-shape", [&] { return S() << packed.size() << " ciphertexts packed, " << cts << " used"; });
  std::vector<std::vector<int>> ref(packed.size(), std::vector<int>(packed.empty() ? 0 : packed[0].size(), 0));
  bool fits = true;
  for (auto &p : want) {
    if (p.second[0] >= (int64_t)ref.size() || p.second[1] >= (int64_t)ref[0].size()) { fits = false; continue; }
    ref[p.second[0]][p.second[1]] = data[flat(p.first, shape)];
  }
  c.check(fits && ref == packed, "packed-values", [&] { return std::string("packed tensor differs from the layout"); });
  if (!total || ref != packed) return;
  std::vector<int> back(n, -1);
  switch (shape.size()) {
    case 1: back = unpackLayoutToVector<int>(rel, packed, shape); break;
    case 2: { auto r = unpackLayoutToMatrix<int>(rel, packed, shape); for (int64_t i = 0; i < n; ++i) back[i] = r[i / shape[1]][i % shape[1]]; break; }
    case 3: { auto r = unpackLayoutTo3DTensor<int>(rel, packed, shape); for (int64_t i = 0; i < n; ++i) back[i] = r[i / (shape[1] * shape[2])][i / shape[2] % shape[1]][i % shape[2]]; break; }
    case 4: {
      auto r = unpackLayoutTo4DTensor<int>(rel, packed, shape);
      for (int64_t i = 0; i < n; ++i) back[i] = r[i / (shape[1] * shape[2] * shape[3])][i / (shape[2] * shape[3]) % shape[1]][i / shape[3] % shape[2]][i % shape[3]];
      break;
    }
    default: unpackLayout<int>(rel, packed, [&](const V &p, int v) { back[flat(p, shape)] = v; });
  }
  c.check(back == data, "round-trip", [&] { return S() << "unpacked " << back << " from packed " << data; });
}

// ------------------------------------------------------------ L01
MON_FAMILY(L01_rowmajor, 700, 12000) {
  int rank = c.rng.in(1, 4);
  V shape = shapeOf(c, rank, c.thorough ? 1200 : 300, rank == 1 ? 300 : 12);
  int64_t slots = int64_t(1) << c.rng.in(0, 9);
  c.describe(S() << "row major " << shape << " slots " << slots);
  IntegerRelation r = getRowMajorLayoutRelation(ty(shape), slots);
  checkLayout(c, r, refRowMajor(shape, slots), shape);
  c.check(isRelationRowMajor(ty(shape), slots, r), "predicate-self", "isRelationRowMajor rejects the row-major layout");
}
MON_FAMILY(L01_rowmajor_huge, 300, 3000) {  // the last elements of tensors too big to enumerate
  int64_t slots = int64_t(1) << c.rng.in(8, 16);
  V shape = c.rng.chance(0.5) ? V{c.rng.in(1 << 10, 1 << 13) | 1, c.rng.in(1 << 12, 1 << 14) | 1} : V{c.rng.in(1 << 16, 1 << 20), c.rng.in(16, 128)};
  if (c.rng.chance(0.5)) shape = V{slots * c.rng.in((1 << 24) / slots, (1 << 26) / slots) + c.rng.in(0, 2)};
  c.describe(S() << "row major " << shape << " slots " << slots);
  IntegerRelation r = getRowMajorLayoutRelation(ty(shape), slots);
  V last;
  for (auto d : shape) last.push_back(d - 1);
  for (int k = 0; k < 3; ++k) {
    V p = last;
    if (k) for (auto &x : p) x = c.rng.in(0, x);
    int64_t f = flat(p, shape);
    V q = p;
    q.push_back(f / slots); q.push_back(f % slots);
    c.check(bool(r.containsPointNoLocal(q)), "element-lost", [&] { return S() << "element " << p << " has no slot"; });
    if (f % slots == 0 && f / slots) { q[q.size() - 1] = slots - 1; q[q.size() - 2]--; c.check(!r.containsPointNoLocal(q), "element-misplaced", [&] { return S() << "element " << p << " also at " << q; }); }
  }
}
MON_FAMILY(L01_diagonal, 500, 8000) {
  int64_t slots = int64_t(1) << c.rng.in(0, 6);
  V shape{c.rng.in(1, std::min<int64_t>(slots, 16)), c.rng.in(1, std::min<int64_t>(slots, 16))};
  c.describe(S() << "diagonal " << shape << " slots " << slots);
  IntegerRelation r = getDiagonalLayoutRelation(ty(shape), slots);
  checkLayout(c, r, refDiagonal(shape, slots), shape);
  c.check(isRelationSquatDiagonal(ty(shape), slots, r), "predicate-self", "isRelationSquatDiagonal rejects the diagonal layout");
}
MON_FAMILY(L01_bicyclic, 400, 6000) {
  V shape;
  do shape = V{c.rng.in(1, 13), c.rng.in(1, 13)}; while (std::gcd(shape[0], shape[1]) != 1);
  int64_t slots = c.rng.chance(0.7) ? int64_t(1) << c.rng.in(1, 8) : prod(shape) * c.rng.in(1, 2);
  c.describe(S() << "bicyclic " << shape << " slots " << slots);
  IntegerRelation r = getBicyclicLayoutRelation(ty(shape), slots);
  checkLayout(c, r, refCyclic(shape, slots), shape);
  c.check(isRelationBicyclic(ty(shape), slots, r) == (shape[0] > 1 && shape[1] > 1), "predicate-self", "isRelationBicyclic misjudges the bicyclic layout");
}
MON_FAMILY(L01_tricyclic, 250, 4000) {
  V shape;
  do shape = V{c.rng.in(1, 7), c.rng.in(1, 9), c.rng.in(1, 9)}; while (std::gcd(shape[0], shape[1]) != 1 || std::gcd(shape[1], shape[2]) != 1 || std::gcd(shape[0], shape[2]) != 1 || prod(shape) > 320);
  int64_t slots = c.rng.chance(0.7) ? int64_t(1) << c.rng.in(2, 8) : prod(shape) * c.rng.in(1, 2);
  c.describe(S() << "tricyclic " << shape << " slots " << slots);
  IntegerRelation r = getTricyclicLayoutRelation(ty(shape), slots);
  checkLayout(c, r, refCyclic(shape, slots), shape);
  c.check(isRelationTricyclic(ty(shape), slots, r) == (shape[0] > 1 && shape[1] > 1 && shape[2] > 1), "predicate-self", "isRelationTricyclic misjudges the tricyclic layout");
}
MON_FAMILY(L01_bicyclic_diag, 300, 4000) {
  V shape{c.rng.in(1, 9), c.rng.in(1, 9)};
  int64_t dim = c.rng.in(0, 1), stride = c.rng.in(0, 12), slots = c.rng.in(1, 48);
  c.describe(S() << "bicyclic diagonal " << shape << " contraction " << dim << " stride " << stride << " slots " << slots);
  IntegerRelation r = getBicyclicDiagonalRelation(ty(shape), dim, stride, slots);
  checkLayout(c, r, refBicyclicDiag(shape, dim, stride, slots), shape, false);
}
MON_FAMILY(L01_perrow, 300, 4000) {
  int64_t slots = int64_t(1) << c.rng.in(0, 6);
  V shape{c.rng.in(1, 10), c.rng.in(1, slots)};
  c.describe(S() << "per row " << shape << " slots " << slots);
  IntegerRelation r = getPerRowLayoutRelation(ty(shape), slots);
  checkLayout(c, r, refPerRow(shape, slots), shape);
  c.check(isRelationPerRow(ty(shape), slots, r), "predicate-self", "isRelationPerRow rejects the per-row layout");
}
MON_FAMILY(L01_replicate, 250, 3000) {
  int64_t slots = c.rng.in(1, 80), period = c.rng.in(1, slots);
  c.describe(S() << "periodic replication slots " << slots << " period " << period);
  Rel want;
  for (int64_t s = 0; s < slots; ++s) want.insert({{0, s % period}, {0, s}});
  Rel got = points(c, getPeriodicReplicationRelation(1, slots, period));
  c.check(got == want, "layout-points", [&] { return diff(want, got); });
}

// A random layout of one of the known kinds, with its points.
struct Known { std::string kind; IntegerRelation r; Rel pts; V shape; int64_t slots; };
Known anyKnown(mon::Case &c, int rank, const V &shape, int64_t slots) {
  auto sp = IntegerRelation(PresburgerSpace::getRelationSpace());
  std::vector<int> kinds{0};
  if (rank == 2) {
    if (slots >= pow2(std::max(shape[0], shape[1]))) kinds.push_back(1);
    if (std::gcd(shape[0], shape[1]) == 1) kinds.push_back(2);
    if (slots >= pow2(shape[1])) kinds.push_back(3);
  }
  if (rank == 3 && std::gcd(shape[0], shape[1]) == 1 && std::gcd(shape[1], shape[2]) == 1 && std::gcd(shape[0], shape[2]) == 1) kinds.push_back(4);
  switch (c.rng.pick(kinds)) {
    case 1: return {"diagonal", getDiagonalLayoutRelation(ty(shape), slots), refDiagonal(shape, slots), shape, slots};
    case 2: return {"bicyclic", getBicyclicLayoutRelation(ty(shape), slots), refCyclic(shape, slots), shape, slots};
    case 3: return {"perrow", getPerRowLayoutRelation(ty(shape), slots), refPerRow(shape, slots), shape, slots};
    case 4: return {"tricyclic", getTricyclicLayoutRelation(ty(shape), slots), refCyclic(shape, slots), shape, slots};
    default: return {"rowmajor", getRowMajorLayoutRelation(ty(shape), slots), refRowMajor(shape, slots), shape, slots};
  }
}
// Predicates never accept a layout with other points, and recognise the layout however it is written.
MON_FAMILY(L01_predicates, 800, 12000) {
  int rank = c.rng.in(1, 3);
  V shape = shapeOf(c, rank, 64, 7), shape2 = shape;
  int64_t slots = int64_t(1) << c.rng.in(0, 6), slots2 = slots;
  if (c.rng.chance(0.5)) { int i = c.rng.in(0, rank - 1); shape2[i] = std::max<int64_t>(1, shape2[i] + c.rng.in(-1, 1)); }
  if (c.rng.chance(0.3)) slots2 = int64_t(1) << c.rng.in(0, 6);
  Known a = anyKnown(c, rank, shape, slots), b = anyKnown(c, rank, shape2, slots2);
  int how = c.rng.in(0, 2);
  c.describe(S() << a.kind << shape << "/" << slots << " against " << b.kind << shape2 << "/" << slots2 << " written " << how);
  IntegerRelation r = a.r;
  if (how == 1) { isl_ctx *ic = isl_ctx_alloc(); r = convertBasicMapToRelation(convertRelationToBasicMap(a.r, ic)); }
  if (how == 2) { r.simplify(); r.removeRedundantConstraints(); }
  Rel pr = points(c, r);
  c.check(pr == a.pts, "rewritten-points", [&] { return diff(a.pts, pr); });
  bool same = a.pts == b.pts;
  bool eq = isRelationEqual(r, b.r);
  c.event(same ? "pairs_equal" : "pairs_different");
  c.check(!eq || same, "equal-but-different", [&] { return "isRelationEqual accepts different relations: " + diff(a.pts, b.pts); });
  if (a.kind == b.kind && shape == shape2 && slots == slots2) c.check(eq, "not-recognised", [&] { return std::string("isRelationEqual rejects the same layout"); });
  c.check(!succeeded(tryProveUnequalByVolume(a.r, b.r)) || !(a.kind == b.kind && same && shape == shape2 && slots == slots2), "volume-proof", "a layout proven unequal to itself");
  auto t2 = ty(shape2);
  c.check(!isRelationRowMajor(t2, slots2, r) || pr == refRowMajor(shape2, slots2), "predicate-rowmajor", "isRelationRowMajor accepts another layout");
  if (rank == 2) {
    if (slots2 >= pow2(std::max(shape2[0], shape2[1]))) c.check(!isRelationSquatDiagonal(t2, slots2, r) || pr == refDiagonal(shape2, slots2), "predicate-diagonal", "isRelationSquatDiagonal accepts another layout");
    if (slots2 >= pow2(shape2[1])) c.check(!isRelationPerRow(t2, slots2, r) || pr == refPerRow(shape2, slots2), "predicate-perrow", "isRelationPerRow accepts another layout");
  }
  if (rank >= 2) {
    bool cop = true;
    for (int i = 0; i < rank; ++i) for (int j = 0; j < i; ++j) cop &= std::gcd(shape2[i], shape2[j]) == 1;
    bool got = rank == 2 ? isRelationBicyclic(t2, slots2, r) : isRelationTricyclic(t2, slots2, r);
    c.check(!got || (cop && pr == refCyclic(shape2, slots2)), "predicate-cyclic", "a cyclic predicate accepts another layout");
  }
  c.check(!isRelationBicyclic(ty({2, 3, 5}), slots, r) && !isRelationTricyclic(ty({2, 3}), slots, r), "predicate-rank", "a cyclic predicate ignores the rank");
}

// Random relations with known points: bounded domain, each range variable a linear expression, its quotient or remainder.
struct Made { std::string text; Rel pts; int nd, nr; V lo, hi; };
std::string lin(const V &k, const std::vector<std::string> &x) {
  S s;
  s << k.back();
  for (size_t i = 0; i + 1 < k.size(); ++i) s << " + " << k[i] << x[i];
  return s;
}
Made make1(mon::Case &c, int nd, int nr, int64_t cap) {
  Made m;
  m.nd = nd; m.nr = nr;
  std::vector<std::string> d, names;
  V hi;
  int64_t vol = 1;
  for (int i = 0; i < nd; ++i) {
    int64_t h = c.rng.in(0, 5);
    while (vol * (h + 1) > cap) h--;
    vol *= h + 1;
    m.lo.push_back(c.rng.chance(0.85) ? 0 : c.rng.in(-3, 3));
    m.hi.push_back(m.lo.back() + h);
    d.push_back("i" + std::to_string(i));
  }
  S t;
  t << "{ [";
  for (int i = 0; i < nd; ++i) t << (i ? ", " : "") << d[i];
  t << "] -> [";
  for (int i = 0; i < nr; ++i) t << (i ? ", " : "") << "o" << i;
  t << "] : 1 = 1";
  for (int i = 0; i < nd; ++i) t << " and " << m.lo[i] << " <= " << d[i] << " <= " << m.hi[i];
  struct Out { V k; int mode; int64_t m, rep; };
  std::vector<Out> outs;
  for (int j = 0; j < nr; ++j) {
    Out o;
    for (int i = 0; i < nd; ++i) o.k.push_back(c.rng.in(-2, 5));
    o.k.push_back(c.rng.in(-3, 6));
    o.mode = c.rng.in(0, 3);
    o.m = c.rng.in(1, 8);
    o.rep = o.m * c.rng.in(1, 3);
    std::string e = "(" + lin(o.k, d) + ")", v = "o" + std::to_string(j);
    if (o.mode == 0) t << " and " << v << " = " << e;
    if (o.mode == 1) t << " and " << v << " = floor(" << e << "/" << o.m << ")";
    if (o.mode == 2) t << " and " << v << " = " << e << " mod " << o.m;
    if (o.mode == 3) t << " and (" << v << " - " << e << ") mod " << o.m << " = 0 and 0 <= " << v << " < " << o.rep;
    outs.push_back(o);
  }
  V gate;
  int64_t gm = 0;
  if (nd && c.rng.chance(0.3)) {
    for (int i = 0; i < nd; ++i) gate.push_back(c.rng.in(-2, 3));
    gate.push_back(c.rng.in(0, 4));
    gm = c.rng.in(2, 4);
    t << " and (" << lin(gate, d) << ") mod " << gm << " = 0";
  }
  t << " }";
  m.text = t;
  V ext;
  for (int i = 0; i < nd; ++i) ext.push_back(m.hi[i] - m.lo[i] + 1);
  box(ext, [&](const V &q) {
    V p = q;
    for (int i = 0; i < nd; ++i) p[i] += m.lo[i];
    auto val = [&](const V &k) { int64_t s = k.back(); for (int i = 0; i < nd; ++i) s += k[i] * p[i]; return s; };
    if (gm && mod(val(gate), gm)) return;
    std::vector<V> im{{}};
    for (auto &o : outs) {
      V vs;
      int64_t e = val(o.k);
      if (o.mode == 0) vs = {e};
      if (o.mode == 1) vs = {fdiv(e, o.m)};
      if (o.mode == 2) vs = {mod(e, o.m)};
      if (o.mode == 3) for (int64_t x = mod(e, o.m); x < o.rep; x += o.m) vs.push_back(x);
      std::vector<V> nx;
      for (auto &a : im) for (auto x : vs) { V b = a; b.push_back(x); nx.push_back(b); }
      im = nx;
    }
    for (auto &a : im) m.pts.insert({p, a});
  });
  return m;
}
Made make(mon::Case &c, int nd, int nr, int64_t cap) {
  while (true) { Made m = make1(c, nd, nr, cap); if (!m.pts.empty()) return m; }
}
// IntegerRelation::simplify of the installed LLVM drops points of some relations (it forgets to scale columns while
// eliminating); cases where it does that by itself are not judged.
bool simplifySound(mon::Case &c, const IntegerRelation &r, unsigned offset, const V &at, const Rel &want) {
  IntegerRelation x(r);
  for (size_t i = 0; i < at.size(); ++i) { SmallVector<int64_t> e(x.getNumCols(), 0); e[offset + i] = 1; e.back() = -at[i]; x.addEquality(e); }
  x.simplify();
  for (auto &p : want) { V v = p.first; v.insert(v.end(), p.second.begin(), p.second.end()); if (x.isEmpty() || !x.containsPointNoLocal(v)) { c.event("llvm_simplify_unsound"); return false; } }
  Rel got = points(c, x);
  if (got != want) { c.event("llvm_simplify_unsound"); return false; }
  return true;
}
MON_FAMILY(L01_queries, 900, 14000) {
  int nd = c.rng.in(1, 3), nr = c.rng.in(1, 2);
  Made m = make(c, nd, nr, 40);
  c.describe(m.text);
  auto got = getIntegerRelationFromIslStr(m.text);
  if (!c.check(succeeded(got), "isl-parse", "valid isl text rejected")) return;
  IntegerRelation r = got.value();
  c.check((int)r.getNumDomainVars() == nd && (int)r.getNumRangeVars() == nr, "isl-space", "wrong number of variables");
  Rel ps = points(c, r);
  c.check(ps == m.pts, "enumerate", [&] { return diff(m.pts, ps); });
  V lo = m.lo, hi = m.hi;
  V rl(nr, 0), rh(nr, 0);
  for (auto &p : m.pts) for (int i = 0; i < nr; ++i) { rl[i] = std::min(rl[i], p.second[i]); rh[i] = std::max(rh[i], p.second[i]); }
  for (int i = 0; i < nr; ++i) { lo.push_back(rl[i] - 1); hi.push_back(rh[i] + 1); }
  int64_t vol = 1;
  for (size_t i = 0; i < lo.size(); ++i) vol *= hi[i] - lo[i] + 1;
  if (vol < 400) { Rel sl = slowPoints(r, lo, hi); c.event("membership_tests", vol); c.check(sl == m.pts, "conversion", [&] { return diff(m.pts, sl); }); }
  // back and forth through isl
  isl_ctx *ic = isl_ctx_alloc();
  IntegerRelation rt = convertBasicMapToRelation(convertRelationToBasicMap(r, ic));
  Rel prt = points(c, rt);
  c.check(prt == m.pts, "round-trip-isl", [&] { return diff(m.pts, prt); });
  c.check(relationSize(r) == (int64_t)m.pts.size(), "relation-size", [&] { return S() << "relationSize " << relationSize(r) << " but " << m.pts.size() << " points"; });
  std::set<V> range;
  for (auto &p : m.pts) range.insert(p.second);
  {
    PointCollector col;
    getRangePoints(r, col);
    std::set<V> g(col.points.begin(), col.points.end());
    c.check(g == range && col.points.size() == range.size(), "range-points", [&] { return S() << col.points.size() << " range points, expected " << range.size(); });
  }
  V any = anyRangePoint(r);
  c.check(range.empty() ? any.empty() : range.count(any) == 1, "any-range-point", [&] { return S() << "anyRangePoint gave " << any << " of " << range.size(); });
  // dense on a box of the range
  V ext;
  bool nonneg = true;
  for (int i = 0; i < nr; ++i) { ext.push_back(rh[i] + 1 + (c.rng.chance(0.2) ? 1 : 0)); nonneg &= rl[i] >= 0; }
  if (!m.pts.empty()) {
    bool dense = nonneg && (int64_t)range.size() == prod(ext);
    c.event(dense ? "dense" : "not_dense");
    c.check(isDenseLayout(r, ty(ext)) == dense, "dense", [&] { return S() << "isDenseLayout of " << ext << " should be " << dense; });
  }
  if (nr == 2 && nonneg) {
    PointCollector col;
    getCtComplementPoints(r, col, ty({ext[0], std::max<int64_t>(1, ext[1])}));
    std::vector<V> want;
    for (int64_t k = 0; k < ext[0]; ++k) { bool used = false; for (auto &p : range) used |= p[0] == k; if (!used) want.push_back({k}); }
    c.check(col.points == want, "ct-complement", [&] { return S() << col.points.size() << " unused ciphertexts, expected " << want.size(); });
  }
  // fixing variables
  {
    V at;
    for (int i = 0; i < nd; ++i) at.push_back(c.rng.in(m.lo[i], m.hi[i]));
    Rel want;
    for (auto &p : m.pts) if (p.first == at) want.insert(p);
    IntegerRelation f = fixDomainVars(r, at);
    Rel g = points(c, f);
    c.check(g == want || !simplifySound(c, r, 0, at, want), "fix-domain", [&] { return S() << "at " << at << " " << diff(want, g); });
  }
  if (!range.empty()) {
    V at = *std::next(range.begin(), c.rng.in(0, range.size() - 1));
    Rel want;
    for (auto &p : m.pts) if (p.second == at) want.insert(p);
    IntegerRelation f = fixRangeVars(r, at);
    Rel g = points(c, f);
    c.check(g == want || !simplifySound(c, r, nd, at, want), "fix-range", [&] { return S() << "at " << at << " " << diff(want, g); });
  }
  // equality of two writings and of different relations
  c.check(isRelationEqual(r, r) , "equal-self", "a relation differs from itself");
  Made m2 = c.rng.chance(0.3) ? m : make(c, nd, nr, 40);
  auto r2 = getIntegerRelationFromIslStr(m2.text);
  c.check(!isRelationEqual(r, r2.value()) || m2.pts == m.pts, "equal-but-different", [&] { return m2.text + ": " + diff(m.pts, m2.pts); });
}
MON_FAMILY(L01_onetoone, 500, 8000) {
  int64_t n = c.rng.in(1, 12), a = c.rng.in(-3, 5), b = c.rng.in(-2, 8), mo = c.rng.in(1, 16), hi = mo * c.rng.in(1, 2), ct = c.rng.chance(0.8) ? 0 : 1;
  int mode = c.rng.in(0, 2);
  S t;
  t << "{ [i] -> [ct, slot] : 0 <= i < " << n << " and ct = " << ct;
  if (mode == 0) t << " and slot = (" << a << "i + " << b << ") mod " << mo << " }";
  if (mode == 1) t << " and slot = " << a << "i + " << b << " }";
  if (mode == 2) t << " and (slot - " << a << "i - " << b << ") mod " << mo << " = 0 and 0 <= slot < " << hi << " }";
  c.describe(t);
  auto r = getIntegerRelationFromIslStr(t).value();
  Rel ps = points(c, r);
  std::map<V, int> per;
  std::set<int64_t> used;
  bool one = ct == 0;
  for (auto &p : ps) { if (++per[p.first] > 1) one = false; if (!used.insert(p.second[1]).second) one = false; }
  c.event(one ? "one_to_one" : "not_one_to_one");
  bool got = isOneToOneSingleCiphertextPacking(r);
  c.check(got == one || (!got && ps.empty()), "one-to-one", [&] { return S() << "isOneToOneSingleCiphertextPacking says " << got << " of " << show(ps); });
}
MON_FAMILY(L01_constraints, 600, 8000) {
  int nd = c.rng.in(1, 2);
  Made m = make(c, nd, 1, 24);
  int64_t md = c.rng.in(1, 9), lo = c.rng.in(-4, 3), hi = lo + c.rng.in(0, 6);
  V k;
  for (int i = 0; i < nd + 1; ++i) k.push_back(c.rng.in(-4, 6));
  int64_t kc = c.rng.in(-9, 9), want = c.rng.in(0, md - 1), pos = c.rng.in(0, nd);
  bool eq = c.rng.chance(0.3), open = c.rng.chance(0.3);
  c.describe(S() << m.text << " mod " << md << " coefficients " << k << " + " << kc << " is " << want << " bounds [" << lo << "," << hi << "] at " << pos << " eq " << eq << " open " << open);
  IntegerRelation base = getIntegerRelationFromIslStr(m.text).value();
  auto all = [&](const Pt &p) { V v = p.first; v.insert(v.end(), p.second.begin(), p.second.end()); return v; };
  auto val = [&](const Pt &p) { V v = all(p); int64_t s = kc; for (int i = 0; i <= nd; ++i) s += k[i] * v[i]; return s; };
  {
    IntegerRelation r = base;
    SmallVector<int64_t> e(r.getNumCols(), 0);
    for (int i = 0; i <= nd; ++i) e[i] = k[i];
    e.back() = kc;
    unsigned v = addModConstraint(r, e, md);
    SmallVector<int64_t> q(r.getNumCols(), 0);
    q[v] = 1; q.back() = -want;
    r.addEquality(q);
    Rel w, g = points(c, r);
    for (auto &p : m.pts) if (mod(val(p), md) == want) w.insert(p);
    c.check(w == g, "mod-constraint", [&] { return diff(w, g); });
  }
  {
    IntegerRelation r = base;
    std::vector<std::pair<int64_t, int64_t>> pc;
    for (int i = 0; i <= nd; ++i) pc.push_back({i, k[i]});
    pc.push_back({(int64_t)r.getNumCols() - 1, kc});
    addConstraint(r, pc, eq);
    Rel w, g = points(c, r);
    for (auto &p : m.pts) if (eq ? val(p) == 0 : val(p) >= 0) w.insert(p);
    c.check(w == g, "add-constraint", [&] { return diff(w, g); });
  }
  {
    IntegerRelation r = base;
    addBounds(r, pos, lo, open ? std::nullopt : std::optional<int64_t>(hi));
    Rel w, g = points(c, r);
    for (auto &p : m.pts) if (all(p)[pos] >= lo && (open || all(p)[pos] <= hi)) w.insert(p);
    c.check(w == g, "add-bounds", [&] { return diff(w, g); });
  }
  {
    IntegerRelation r = base;
    prependPassthroughDim(r, lo, hi);
    Rel w, g = points(c, r);
    for (auto &p : m.pts) for (int64_t x = lo; x <= hi; ++x) { Pt q = p; q.first.insert(q.first.begin(), x); q.second.insert(q.second.begin(), x); w.insert(q); }
    c.check(w == g, "passthrough", [&] { return diff(w, g); });
  }
}

// ------------------------------------------------------------ L02
int64_t outDim(int64_t data, int64_t f, int64_t stride, int64_t pad) { return (data + 2 * pad - f) / stride + 1; }
struct Conv {
  int64_t F, C, H, W, fh, fw, sh, sw, pad, oh, ow;
  bool one;  // 1-D: H = fh = 1, no vertical padding
  std::vector<int> filter, data;
  V fshape() const { return one ? V{F, C, fw} : V{F, C, fh, fw}; }
  V dshape() const { return one ? V{1, C, W} : V{1, C, H, W}; }
  V oshape() const { return one ? V{1, F, ow} : V{1, F, oh, ow}; }
  std::string s() const { return S() << (one ? "1d" : "2d") << " filter " << fshape() << " data " << dshape() << " strides " << sh << "," << sw << " padding " << pad; }
  // Toeplitz matrix: row = flattened (f, oh, ow), column = flattened (c, h, w) -> index into filter, or -1.
  std::map<std::pair<int64_t, int64_t>, V> toeplitz() const {
    std::map<std::pair<int64_t, int64_t>, V> m;
    for (int64_t f = 0; f < F; ++f) for (int64_t y = 0; y < oh; ++y) for (int64_t x = 0; x < ow; ++x)
      for (int64_t ch = 0; ch < C; ++ch) for (int64_t a = 0; a < fh; ++a) for (int64_t b = 0; b < fw; ++b) {
        int64_t h = y * sh - (one ? 0 : pad) + a, w = x * sw - pad + b;
        if (h < 0 || h >= H || w < 0 || w >= W) continue;
        m[{(f * oh + y) * ow + x, (ch * H + h) * W + w}] = one ? V{f, ch, b} : V{f, ch, a, b};
      }
    return m;
  }
  std::vector<int64_t> result() const {
    std::vector<int64_t> r(F * oh * ow, 0);
    for (auto &[rc, p] : toeplitz()) r[rc.first] += (int64_t)filter[flat(p, fshape())] * data[rc.second];
    return r;
  }
};
Conv conv(mon::Case &c, bool one, bool multi, bool equalStrides, bool interchange) {
  Conv v;
  v.one = one;
  while (true) {
    v.sh = one ? 1 : c.rng.in(1, 3); v.sw = equalStrides && !one ? v.sh : c.rng.in(1, 3);
    v.pad = c.rng.chance(0.5) ? 0 : c.rng.in(1, 2);
    v.C = multi ? c.rng.in(1, 3) : 1;
    int64_t g = one ? v.sw : v.sh;
    v.F = !multi ? 1 : interchange ? (one ? g : g * g) * c.rng.in(1, g > 1 ? 1 + (g == 2) : 4) : c.rng.in(1, 4);
    v.H = one ? 1 : c.rng.in(1, 6); v.W = c.rng.in(1, one ? 12 : 6);
    v.fh = one ? 1 : c.rng.in(1, 3); v.fw = c.rng.in(1, one ? 5 : 3);
    if (v.H + 2 * (one ? 0 : v.pad) < v.fh || v.W + 2 * v.pad < v.fw || v.pad >= v.fw || (!one && v.pad >= v.fh)) continue;
    v.oh = one ? 1 : outDim(v.H, v.fh, v.sh, v.pad);
    v.ow = outDim(v.W, v.fw, v.sw, v.pad);
    if (v.F * v.oh * v.ow <= 130 && v.C * v.H * v.W <= 130 && (int64_t)v.toeplitz().size() <= (c.thorough ? 1500 : 500)) break;
  }
  v.filter.resize(v.F * v.C * v.fh * v.fw);
  for (auto &x : v.filter) x = c.rng.in(-9, 9);
  v.data.resize(v.C * v.H * v.W);
  for (auto &x : v.data) x = c.rng.in(-9, 9);
  return v;
}
// Filter element -> position in the Toeplitz matrix, as a relation.
Rel toeplitzRel(const Conv &v, int drop) {
  Rel r;
  for (auto &[rc, p] : v.toeplitz()) r.insert({V(p.begin() + drop, p.end()), {rc.first, rc.second}});
  return r;
}
MON_FAMILY(L02_single, 500, 8000) {
  bool one = c.rng.chance(0.4);
  Conv v = conv(c, one, false, false, false);
  c.describe(v.s());
  V fs = one ? V{v.fw} : V{v.fh, v.fw}, ds = one ? V{v.W} : V{v.H, v.W};
  IntegerRelation r = one ? get1dConvFilterRelation(ty(fs), ty(ds), v.sw, v.pad) : get2dConvFilterRelation(ty(fs), ty(ds), {v.sh, v.sw}, v.pad);
  Rel want = toeplitzRel(v, 2), got = points(c, r);
  c.check(want == got, "toeplitz", [&] { return diff(want, got); });
  auto t = one ? get1dConvFilterExpandedType(ty(fs), ty(ds), v.sw, v.pad) : get2dConvFilterExpandedType(ty(fs), ty(ds), v.pad, {v.sh, v.sw});
  c.check(t.getDimSize(0) == v.oh * v.ow && t.getDimSize(1) == v.H * v.W, "expanded-type", [&] { return S() << t.getDimSize(0) << "x" << t.getDimSize(1) << " expected " << v.oh * v.ow << "x" << v.H * v.W; });
}
MON_FAMILY(L02_multi, 300, 6000) {
  bool one = c.rng.chance(0.4);
  Conv v = conv(c, one, true, false, false);
  c.describe(v.s());
  IntegerRelation r = one ? get1dConvCwFcwFilterRelation(ty(v.fshape()), ty(v.dshape()), v.sw, v.pad) : get2dConvChwFchwFilterRelation(ty(v.fshape()), ty(v.dshape()), {v.sh, v.sw}, v.pad);
  Rel want = toeplitzRel(v, 0), got = points(c, r);
  c.check(want == got, "toeplitz", [&] { return diff(want, got); });
  auto t = one ? get1dConvCwFcwFilterExpandedType(ty(v.fshape()), ty(v.dshape()), v.sw, v.pad) : get2dConvChwFchwFilterExpandedType(ty(v.fshape()), ty(v.dshape()), v.pad, {v.sh, v.sw});
  c.check(t.getDimSize(0) == v.F * v.oh * v.ow && t.getDimSize(1) == v.C * v.H * v.W, "expanded-type", [&] { return S() << t.getDimSize(0) << "x" << t.getDimSize(1); });
}
// Depth-to-space permutation of the flattened output.
int64_t interchanged(int64_t idx, int64_t ch, int64_t h, int64_t w, int64_t g, bool one) {
  int64_t x = idx % w, y = idx / w % h, k = idx / (w * h);
  if (one) return (k / g) * (w * g) + x * g + k % g;
  int64_t X = x * g + k % g, Y = y * g + k % (g * g) / g, K = k / (g * g);
  return K * (h * g * w * g) + Y * (w * g) + X;
}
MON_FAMILY(L02_interchange, 150, 3000) {
  bool one = c.rng.chance(0.4);
  int64_t g = c.rng.in(1, 3), h = one ? 1 : c.rng.in(1, 4), w = c.rng.in(1, 5), ch = (one ? g : g * g) * c.rng.in(1, 3);
  c.describe(S() << "row interchange " << (one ? "1d" : "2d") << " c " << ch << " h " << h << " w " << w << " g " << g);
  Rel want;
  for (int64_t i = 0; i < ch * h * w; ++i) want.insert({{i}, {interchanged(i, ch, h, w, g, one)}});
  Rel got = points(c, one ? get1dConvRowInterchangeRelation(ch, w, g) : get2dConvRowInterchangeRelation(ch, h, w, g));
  c.check(want == got, "interchange", [&] { return diff(want, got); });
}
// The whole pipeline: pack the filter, multiply the packed input by diagonals, read the result through the result layout.
void pipeline(mon::Case &c, const Conv &v, const Rel &filterLayout, int64_t slots, const Rel &resultLayout, const V &ctPerm) {
  int64_t rows = v.F * v.oh * v.ow, cols = v.C * v.H * v.W, pr = pow2(rows), pc = pow2(cols), nd = std::min(pr, pc);
  std::vector<std::vector<int64_t>> M(nd, std::vector<int64_t>(slots, 0));
  std::set<V> seen;
  for (auto &p : filterLayout) {
    if (!c.check(p.second[0] >= 0 && p.second[0] < nd && p.second[1] >= 0 && p.second[1] < slots, "filter-bounds", [&] { return S() << "filter element " << p.first << " at " << p.second << " with " << nd << " diagonals of " << slots; })) return;
    if (!c.check(seen.insert(p.second).second, "filter-collision", [&] { return S() << "two filter elements at " << p.second; })) return;
    M[p.second[0]][p.second[1]] = v.filter[flat(p.first, v.fshape())];
  }
  // Row-major packed input, and a Halevi-Shoup product.
  std::vector<int64_t> x(slots, 0), y(slots, 0);
  for (int64_t s = 0; s < slots; ++s) if (s % pc < cols) x[s] = v.data[s % pc];
  for (int64_t d = 0; d < nd; ++d) for (int64_t s = 0; s < slots; ++s) y[s] += M[d][s] * x[(s + d) % slots];
  for (int64_t sh = pc / 2; sh >= nd && pc > nd; sh /= 2) {
    std::vector<int64_t> z(slots);
    for (int64_t s = 0; s < slots; ++s) z[s] = y[s] + y[(s + sh) % slots];
    y = z;
  }
  auto want = v.result();
  Rel expect;
  std::map<V, int> cover;
  for (auto &p : resultLayout) {
    cover[p.first]++;
    if (!c.check(p.second[0] == 0 && p.second[1] >= 0 && p.second[1] < slots, "result-bounds", [&] { return S() << "output " << p.first << " at " << p.second; })) return;
    int64_t i = flat(p.first, v.oshape());
    if (!c.check(y[p.second[1]] == want[i], "convolution", [&] { return S() << "output " << p.first << " at slot " << p.second[1] << " is " << y[p.second[1]] << ", expected " << want[i]; })) return;
    c.event("outputs_compared");
  }
  c.check((int64_t)cover.size() == rows, "result-lost", [&] { return S() << cover.size() << " of " << rows << " outputs have a slot"; });
  c.check(slotsUnique(resultLayout), "result-collision", "two outputs share a slot");
}
MON_FAMILY_T(L02_pipeline, 400, 9000, 60) {
  bool one = c.rng.chance(0.4), inter = c.rng.chance(0.5), single = !inter && c.rng.chance(0.2);
  Conv v = conv(c, one, !single, true, inter);
  if (single) { v.sh = v.sw = 1; v.oh = one ? 1 : outDim(v.H, v.fh, 1, v.pad); v.ow = outDim(v.W, v.fw, 1, v.pad); }
  int64_t rows = v.F * v.oh * v.ow, cols = v.C * v.H * v.W;
  int64_t slots = pow2(std::max(rows, cols)) << c.rng.in(0, 1);
  c.describe(S() << v.s() << " slots " << slots << " interchange " << inter << " single " << single);
  Rel filter, result;
  if (single) {
    V fs = one ? V{v.fw} : V{v.fh, v.fw}, ds = one ? V{v.W} : V{v.H, v.W};
    auto r = getConvFilterDiagonalizedRelation(ty(fs), ty(ds), v.pad, slots);
    if (!c.check(succeeded(r), "filter-failed", "no filter layout")) return;
    for (auto &p : points(c, r.value())) { V q{0, 0}; q.insert(q.end(), p.first.begin(), p.first.end()); filter.insert({q, p.second}); }
    c.check(isRelationConvFilterDiagonalized(ty(fs), ty(ds), v.pad, slots, r.value()), "predicate-self", "isRelationConvFilterDiagonalized rejects its own layout");
    auto other = getDiagonalLayoutRelation(ty({pow2(rows), pow2(cols)}), slots);
    c.check(!isRelationConvFilterDiagonalized(ty(fs), ty(ds), v.pad, slots, other) , "predicate-other", "isRelationConvFilterDiagonalized accepts a matrix layout");
  } else if (one) {
    auto r = get1dConvCwFcwFilterDiagonalizedRelation(ty(v.fshape()), ty(v.dshape()), v.sw, v.pad, slots, inter);
    if (!c.check(succeeded(r), "filter-failed", "no filter layout")) return;
    filter = points(c, r.value());
  } else {
    auto rs = get2dConvChwFchwFilterAsSequence(ty(v.fshape()), ty(v.dshape()), {v.sh, v.sw}, v.pad, slots, inter);
    if (!c.check(succeeded(rs), "filter-failed", "no filter layout")) return;
    c.check(rs.value().size() == (inter ? 5u : 4u), "sequence-length", "wrong number of steps");
    bool first = true;
    for (auto &r : rs.value()) { Rel p = points(c, r); filter = first ? p : composeRel(filter, p); first = false; }
  }
  if (one) result = points(c, get1dConvResultRelation(ty(v.oshape()), v.sw, v.pad, slots, inter));
  else {
    result = points(c, get2dConvResultRelation(ty(v.oshape()), {v.sh, v.sh}, v.pad, slots));
    if (inter) result = composeRel(result, points(c, get2dConvRowInterchangeLayoutRelation(ty(v.oshape()), {v.sh, v.sh}, slots)));
  }
  pipeline(c, v, filter, slots, result, {});
}
// Result layouts over several ciphertexts, against their formula.
MON_FAMILY(L02_result, 300, 4000) {
  bool one = c.rng.chance(0.4), inter = c.rng.chance(0.6);
  int64_t g = c.rng.in(1, 3), h = one ? 1 : c.rng.in(1, 4), w = c.rng.in(1, 5), ch = (one ? g : g * g) * c.rng.in(1, 3);
  int64_t n = ch * h * w, slots = int64_t(1) << c.rng.in(2, 8);
  V shape = one ? V{1, ch, w} : V{1, ch, h, w};
  c.describe(S() << "result layout " << shape << " stride " << g << " slots " << slots << " interchange " << inter);
  Rel want;
  box(shape, [&](const V &p) {
    int64_t i = flat(p, shape);
    if (inter) i = interchanged(i, ch, h, w, g, one);
    for (int64_t s = i % slots % pow2(n); s < slots; s += pow2(n)) want.insert({p, {i / slots, s}});
  });
  Rel got;
  if (one) got = points(c, get1dConvResultRelation(ty(shape), g, 0, slots, inter));
  else {
    got = points(c, get2dConvResultRelation(ty(shape), {g, g}, 0, slots));
    if (inter) got = composeRel(got, points(c, get2dConvRowInterchangeLayoutRelation(ty(shape), {g, g}, slots)));
  }
  c.check(want == got, "result-layout", [&] { return diff(want, got); });
}

// ------------------------------------------------------------ L03
// A random layout of a tensor: known kinds, or one with arbitrary strides, written through isl.
IntegerRelation anyLayout(mon::Case &c, const V &shape, int64_t slots, std::string &name) {
  int rank = shape.size();
  if (c.rng.chance(0.5)) { Known k = anyKnown(c, rank, shape, slots); name = k.kind; return k.r; }
  // a permuted, offset row-major packing, sometimes replicated
  std::vector<int> perm(rank);
  std::iota(perm.begin(), perm.end(), 0);
  c.rng.shuffle(perm);
  int64_t st = 1, n = prod(shape), off = c.rng.in(0, 3), p2 = pow2(n + off);
  S e;
  e << off;
  for (int i : perm) { e << " + " << st << "i" << i; st *= shape[i]; }
  S t;
  t << "{ [";
  for (int i = 0; i < rank; ++i) t << (i ? ", " : "") << "i" << i;
  t << "] -> [ct, slot] : 0 <= slot < " << slots;
  for (int i = 0; i < rank; ++i) t << " and 0 <= i" << i << " < " << shape[i];
  t << " and ct = floor((" << e << ")/" << slots << ")";
  if (p2 < slots && c.rng.chance(0.5)) t << " and (slot - (" << e << ")) mod " << p2 << " = 0 }";
  else t << " and slot = (" << e << ") mod " << slots << " }";
  name = t;
  return getIntegerRelationFromIslStr(t).value();
}
// Groups of a reassociation; every group has at most one dimension that is not 1.
std::vector<ReassociationIndices> unitGroups(mon::Case &c, V &big, V &small, bool allowAllUnit) {
  std::vector<ReassociationIndices> g;
  int n = c.rng.in(1, 3);
  for (int i = 0; i < n; ++i) {
    ReassociationIndices r;
    int k = c.rng.in(1, 3), main = c.rng.in(0, k - 1);
    int64_t d = allowAllUnit && c.rng.chance(0.2) ? 1 : c.rng.in(2, 5);
    for (int j = 0; j < k; ++j) { r.push_back(big.size()); big.push_back(j == main ? d : 1); }
    small.push_back(d);
    g.push_back(r);
  }
  return g;
}
std::string gs(const std::vector<ReassociationIndices> &g) { S s; for (auto &r : g) s << V(r.begin(), r.end()); return s; }
MON_FAMILY(L03_unit_reshape, 1000, 7000) {
  V big, small;
  auto g = unitGroups(c, big, small, true);
  bool scalar = prod(big) == 1 && c.rng.chance(0.5);
  if (scalar) { g.clear(); small.clear(); }
  int64_t slots = int64_t(1) << c.rng.in(2, 6);
  std::string name, name2;
  IntegerRelation lb = anyLayout(c, big, slots, name);
  c.describe(S() << "collapse " << big << " to " << small << " by " << gs(g) << " of " << name);
  Rel pb = points(c, lb), want;
  for (auto &p : pb) want.insert({small.empty() ? V{} : V(), p.second});
  want.clear();
  auto shrink = [&](const V &p) { V q; for (auto &r : g) { int64_t x = 0; for (auto i : r) x += p[i]; q.push_back(x); } return q; };
  for (auto &p : pb) want.insert({shrink(p.first), p.second});
  IntegerRelation col = collapseDimensions(lb, ty(big), g);
  if (!c.check(col.getNumDomainVars() == small.size(), "collapse-rank", [&] { return S() << "collapsed layout has " << col.getNumDomainVars() << " dimensions, the result " << small.size(); })) return;
  Rel got = points(c, col);
  c.check(want == got, "collapse", [&] { return diff(want, got); });
  IntegerRelation ls = getRowMajorLayoutRelation(ty(small), slots);
  if (small.empty()) ls = getIntegerRelationFromIslStr(S() << "{ [] -> [ct, slot] : ct = 0 and 0 <= slot < " << slots << " }").value();
  Rel ps;
  if (small.empty()) for (int64_t s = 0; s < slots; ++s) ps.insert({V{}, V{0, s}});
  else { if (c.rng.chance(0.5)) { ls = anyLayout(c, small, slots, name2); } ps = points(c, ls); }
  IntegerRelation ex = expandDimensions(ls, ty(big), g);
  c.check(ex.getNumDomainVars() == big.size(), "expand-rank", "wrong rank");
  Rel w2, g2 = points(c, ex);
  box(big, [&](const V &p) { V q = shrink(p); for (auto it = ps.lower_bound({q, V{}}); it != ps.end() && it->first == q; ++it) w2.insert({p, it->second}); });
  c.check(w2 == g2, "expand", [&] { return S() << "of " << name2 << ": " << diff(w2, g2); });
}
MON_FAMILY(L03_collapse, 400, 6000) {
  int rank = c.rng.in(1, 4);
  V src = shapeOf(c, rank, 120, 6), dst;
  std::vector<ReassociationIndices> g;
  for (int i = 0; i < rank;) {
    int k = c.rng.in(1, rank - i);
    ReassociationIndices r;
    int64_t d = 1;
    for (int j = 0; j < k; ++j, ++i) { r.push_back(i); d *= src[i]; }
    g.push_back(r);
    dst.push_back(d);
  }
  c.describe(S() << "collapsed relation " << src << " by " << gs(g));
  Rel want, got = points(c, getCollapsedRelation(ty(src), ty(dst), g));
  box(src, [&](const V &p) { V q; for (auto &r : g) { int64_t x = 0; for (auto i : r) x = x * src[i] + p[i]; q.push_back(x); } want.insert({p, q}); });
  c.check(want == got, "collapsed-relation", [&] { return diff(want, got); });
}
MON_FAMILY(L03_slices, 1200, 8000) {
  int rank = c.rng.in(1, 4);
  V shape, small, off, sz, st;
  for (int i = 0; i < rank; ++i) {
    int64_t n = c.rng.in(1, 7), s = c.rng.in(1, n), t = s > 1 ? c.rng.in(1, (n - 1) / (s - 1)) : c.rng.in(1, 3), o = c.rng.in(0, n - 1 - (s - 1) * t);
    shape.push_back(n); sz.push_back(s); st.push_back(t); off.push_back(o);
    if (s > 1) small.push_back(s);
  }
  if (prod(sz) > 150 || prod(shape) > 600) { c.skip(); return; }
  c.describe(S() << "slice of " << shape << " offsets " << off << " sizes " << sz << " strides " << st);
  auto sv = [](const V &v) { return SmallVector<int64_t>(v.begin(), v.end()); };
  Rel want;
  box(small, [&](const V &p) { V q; int k = 0; for (int i = 0; i < rank; ++i) q.push_back(off[i] + (sz[i] > 1 ? p[k++] * st[i] : 0)); want.insert({p, q}); });
  auto ins = getSliceInsertionRelation(ty(small), ty(shape), sv(off), sv(sz), sv(st));
  auto ext = getSliceExtractionRelation(ty(shape), ty(small), sv(off), sv(sz), sv(st));
  if (!c.check(succeeded(ins) && succeeded(ext), "slice-failed", "no slice relation")) return;
  if (!small.empty()) {
    Rel gi = points(c, ins.value());
    c.check(want == gi, "insertion", [&] { return diff(want, gi); });
  }
  Rel ge = points(c, ext.value()), wi = inverseRel(want);
  c.check(wi == ge, "extraction", [&] { return diff(wi, ge); });
}
MON_FAMILY(L03_padding, 400, 5000) {
  int rank = c.rng.in(1, 4);
  V un = shapeOf(c, rank, 80, 5), pad, low;
  for (int i = 0; i < rank; ++i) { low.push_back(c.rng.in(0, 2)); pad.push_back(un[i] + low[i] + c.rng.in(0, 2)); }
  c.describe(S() << "padding " << un << " to " << pad << " low " << low);
  Rel want, got = points(c, getPaddingRelation(ty(pad), ty(un), low));
  box(un, [&](const V &p) { V q = p; for (int i = 0; i < rank; ++i) q[i] += low[i]; want.insert({q, p}); });
  c.check(want == got, "padding", [&] { return diff(want, got); });
}
MON_FAMILY(L03_shift, 400, 5000) {
  int nd = c.rng.in(1, 3), nr = c.rng.in(1, 2);
  Made m = make(c, nd, nr, 40);
  int pos = c.rng.in(0, nd + nr - 1);
  int64_t by = c.rng.in(-9, 9);
  c.describe(S() << "shift variable " << pos << " by " << by << " in " << m.text);
  IntegerRelation r = shiftVar(getIntegerRelationFromIslStr(m.text).value(), pos, by);
  Rel want, got = points(c, r);
  for (auto p : m.pts) { (pos < nd ? p.first[pos] : p.second[pos - nd]) += by; want.insert(p); }
  c.check(want == got, "shift", [&] { return diff(want, got); });
}
MON_FAMILY(L03_matvec, 800, 6000) {
  int64_t slots = int64_t(1) << c.rng.in(2, 5);
  V mat{c.rng.in(1, std::min<int64_t>(slots, 8)), c.rng.in(1, std::min<int64_t>(slots, 8))}, vec{mat[1]};
  bool diag = c.rng.chance(0.7);
  std::string n1, n2;
  int64_t k = c.rng.in(0, slots - 1), p2 = pow2(vec[0]);
  auto lay = [&](std::string &name) {
    if (c.rng.chance(0.4)) {  // as a layout attribute stores it
      name = "rowmajor";
      isl_ctx *ic = isl_ctx_alloc();
      return convertBasicMapToRelation(convertRelationToBasicMap(getRowMajorLayoutRelation(ty(vec), slots), ic));
    }
    S t;
    int64_t sh = c.rng.in(0, slots - 1), mul = c.rng.chance(0.5) ? 1 : 2 * c.rng.in(0, slots / 2 - 1) + 1;
    t << "{ [i] -> [ct, slot] : ct = 0 and 0 <= i < " << vec[0] << " and 0 <= slot < " << slots;
    if (c.rng.chance(0.4)) t << " and (slot - i - " << sh << ") mod " << p2 << " = 0 }";
    else t << " and slot = (" << mul << "i + " << sh << ") mod " << slots << " }";
    name = t;
    return getIntegerRelationFromIslStr(t).value();
  };
  IntegerRelation from = lay(n1), to = lay(n2), m = diag ? getDiagonalLayoutRelation(ty(mat), slots) : mat[1] <= slots && c.rng.chance(0.5) ? getPerRowLayoutRelation(ty(mat), slots) : getRowMajorLayoutRelation(ty(mat), slots);
  (void)k;
  c.describe(S() << "matrix " << mat << " slots " << slots << " diagonal " << diag << " from " << n1 << " to " << n2);
  Rel pf = points(c, from), pt = points(c, to), pm = points(c, m);
  Rel repack = composeRel(inverseRel(pf), pt), want;
  std::map<int64_t, std::vector<int64_t>> mv;
  for (auto &p : repack) mv[p.first[1]].push_back(p.second[1]);
  for (auto &p : pm) for (auto s : mv[p.second[1]]) want.insert({p.first, {p.second[0], s}});
  Rel got = points(c, hoistConversionThroughMatvec(m, from, to));
  c.check(want == got, "hoist-matvec", [&] { return diff(want, got); });
}
MON_FAMILY(L03_insert_slice, 800, 6000) {
  int rank = c.rng.in(1, 4);
  V full, sz, slice;
  bool dropped = c.rng.chance(0.6), any = false;
  for (int i = 0; i < rank; ++i) {
    bool unit = c.rng.chance(0.5);
    int64_t d = c.rng.in(unit ? 1 : 2, 4);
    full.push_back(d);
    sz.push_back(unit ? 1 : d);
    if (!unit) { slice.push_back(d); any = true; }
    else if (!dropped) slice.push_back(1);
  }
  if (!any) { c.skip(); return; }
  int64_t slots = int64_t(1) << c.rng.in(2, 5);
  std::string name;
  IntegerRelation l = anyLayout(c, slice, slots, name);
  c.describe(S() << "insert slice " << sz << " into " << full << " with slice layout " << name << " slots " << slots << " dropped " << dropped);
  Rel ps = points(c, l);
  auto r = pushSliceLayoutThroughInsertSlice(SmallVector<int64_t>(sz.begin(), sz.end()), full, l);
  if (!c.check(succeeded(r), "push-failed", "no layout")) return;
  if (!c.check(r.value().getNumDomainVars() == full.size() && r.value().getNumRangeVars() == 2, "push-rank", [&] { return S() << r.value().getNumDomainVars() << " dimensions for a tensor of rank " << full.size(); })) return;
  Rel got = points(c, r.value());
  int64_t cts = 0, units = 1;
  for (auto &p : ps) cts = std::max(cts, p.second[0] + 1);
  for (int i = 0; i < rank; ++i) if (sz[i] == 1) units *= full[i];
  // Every slice keeps its own layout inside a block of ciphertexts; blocks are distinct and fill [0, units).
  std::map<V, Rel> blocks;
  for (auto &p : got) {
    V u, s;
    for (int i = 0; i < rank; ++i) { if (sz[i] == 1) u.push_back(p.first[i]); if (sz[i] != 1) s.push_back(p.first[i]); else if (!dropped) s.push_back(0); }
    blocks[u].insert({s, p.second});
  }
  c.check((int64_t)blocks.size() == units, "push-blocks", [&] { return S() << blocks.size() << " slices laid out of " << units; });
  std::set<int64_t> bases;
  for (auto &[u, b] : blocks) {
    int64_t base = b.begin()->second[0];
    for (auto &p : b) base = std::min(base, p.second[0]);
    int64_t lo = cts;
    for (auto &p : ps) lo = std::min(lo, p.second[0]);
    base -= lo;
    Rel w;
    for (auto &p : ps) w.insert({p.first, {p.second[0] + base, p.second[1]}});
    c.check(w == b, "push-slice", [&] { return S() << "slice " << u << ": " << diff(w, b); });
    c.check(base % cts == 0 && base >= 0 && base < units * cts && bases.insert(base).second, "push-base", [&] { return S() << "slice " << u << " starts at ciphertext " << base; });
  }
}
MON_FAMILY(L03_fold, 300, 4000) {
  int64_t slots = int64_t(1) << c.rng.in(2, 5), n = c.rng.in(1, std::min<int64_t>(slots, 8));
  V mat{c.rng.in(1, std::min<int64_t>(slots, 8)), slots};
  int64_t mul = 2 * c.rng.in(0, slots / 2 - 1) + 1, sh = c.rng.in(0, slots - 1);
  mat[1] = c.rng.in(n, std::min<int64_t>(slots, 10));
  bool diag = c.rng.chance(0.6);
  c.describe(S() << "fold slot = (" << mul << "i + " << sh << ") mod " << slots << " of " << n << " columns into matrix " << mat << " diagonal " << diag);
  auto p = getIntegerRelationFromIslStr(S() << "{ [i] -> [ct, slot] : ct = 0 and 0 <= i < " << n << " and slot = (" << mul << "i + " << sh << ") mod " << slots << " }").value();
  IntegerRelation m = diag ? getDiagonalLayoutRelation(ty(mat), slots) : getRowMajorLayoutRelation(ty(mat), slots);
  Rel pp = points(c, p), pm = points(c, m), want;
  for (auto &q : pm) for (auto &v : pp) if (v.second[1] == q.first[1]) want.insert({{q.first[0], v.first[0]}, q.second});
  IntegerRelation f = foldVectorPermutationIntoMatrixLayout(p, m);
  Rel got = points(c, f);
  c.check(want == got, "fold", [&] { return diff(want, got); });
}
MON_FAMILY(L03_diagonalize, 300, 4000) {
  Made m;
  Rel ps;
  int tries = 0;
  do { m = make(c, c.rng.in(1, 2), 2, 20); bool ok = !m.pts.empty(); for (auto &p : m.pts) for (auto x : p.second) ok &= x >= 0 && x <= 14; if (ok) break; } while (++tries < 200);
  if (tries == 200) { c.skip(); return; }
  auto r = getIntegerRelationFromIslStr(m.text).value();
  V b(2, 0);
  for (int i = 0; i < 2; ++i) {
    auto ub = r.getConstantBound64(presburger::BoundType::UB, r.getVarKindOffset(VarKind::Range) + i);
    if (!ub || *ub > 30) { c.skip(); return; }
    b[i] = *ub + 1;
  }
  int64_t slots = pow2(std::max(b[0], b[1])) << c.rng.in(0, 1);
  c.describe(S() << "diagonalize " << m.text << " bounds " << b << " slots " << slots);
  auto d = diagonalize2dMatrix(r, ty({1, 1}), slots);
  if (!c.check(succeeded(d), "diagonalize-failed", "no layout")) return;
  Rel want = composeRel(m.pts, refDiagonal(b, slots)), got = points(c, d.value());
  c.check(want == got, "diagonalize", [&] { return diff(want, got); });
}
}  // namespace
MON_MAIN()
