// M01 index flattening and affine/tensor shape helpers.
#include "lib/Transforms/MemrefToArith/Utils.h"
#include "lib/Utils/AffineMapUtils.h"
#include "lib/Utils/TargetUtils.h"
#include "lib/Utils/TensorUtils.h"
#include "mlir/Dialect/Affine/Analysis/AffineAnalysis.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Parser/Parser.h"
#include "mon.h"
using namespace mlir;
using mon::S;
typedef std::vector<int64_t> V;
typedef __int128 W;

namespace {
MLIRContext &ctx() {
  static MLIRContext *c = [] {
    auto *x = new MLIRContext(MLIRContext::Threading::DISABLED);
    x->loadDialect<affine::AffineDialect, memref::MemRefDialect, arith::ArithDialect, func::FuncDialect>();
    return x;
  }();
  return *c;
}
SmallVector<int64_t> sv(const V &v) { return SmallVector<int64_t>(v.begin(), v.end()); }
template <class T> V vec(const T &t) { return V(t.begin(), t.end()); }
int64_t prod(const V &v) { int64_t p = 1; for (auto x : v) p *= x; return p; }
V shape(mon::Case &c, int lo, int hi, int64_t cap) {
  for (;;) {
    V s;
    for (int i = 0, r = c.rng.in(lo, hi); i < r; ++i) s.push_back(c.rng.chance(0.2) ? 1 : c.rng.chance(0.2) ? int64_t(1) << c.rng.in(0, 10) : c.rng.in(1, 9));
    if (prod(s) <= cap) return s;
  }
}
// A shape whose number of elements may exceed 32 bits.
V bigShape(mon::Case &c) {
  V s;
  W p = 1;
  for (int i = 0, r = c.rng.in(1, 5); i < r; ++i) {
    int64_t d = c.rng.chance(0.3) ? c.rng.in(1, 5) : (int64_t(1) << c.rng.in(0, 31)) + c.rng.in(0, 3);
    if (p * d > (W(1) << 60)) d = 1;
    p *= d;
    s.push_back(d);
  }
  return s;
}
V index(mon::Case &c, const V &s) {
  V i;
  int how = c.rng.in(0, 3);
  for (auto d : s) i.push_back(how == 0 ? d - 1 : how == 1 && c.rng.chance(0.5) ? 0 : c.rng.in(0, d - 1));
  return i;
}
int64_t rowMajor(const V &s, const V &i) { int64_t f = 0; for (size_t k = 0; k < s.size(); ++k) f = f * s[k] + i[k]; return f; }
V unrank(const V &s, int64_t f) { V i(s.size()); for (int k = (int)s.size() - 1; k >= 0; --k) { i[k] = f % s[k]; f /= s[k]; } return i; }
// Strides of a (possibly padded) row-major nest.
V nestStrides(mon::Case &c, const V &s, int64_t cap) {
  V st(s.size());
  int64_t step = c.rng.chance(0.7) ? 1 : c.rng.in(1, 4);
  for (int k = (int)s.size() - 1; k >= 0; --k) {
    st[k] = step;
    step *= s[k];
    if (c.rng.chance(0.3) && step < cap) step += c.rng.in(0, 7);
  }
  return st;
}
// Evaluates an integer expression over + - * ( ) and names.
struct Expr {
  const std::string &t;
  const std::map<std::string, int64_t> &env;
  size_t p = 0;
  bool bad = false;
  void ws() { while (p < t.size() && isspace((unsigned char)t[p])) ++p; }
  int64_t atom() {
    ws();
    if (p < t.size() && t[p] == '(') { ++p; int64_t v = sum(); ws(); if (p < t.size() && t[p] == ')') ++p; else bad = true; return v; }
    if (p < t.size() && t[p] == '-') { ++p; return -atom(); }
    size_t b = p;
    while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) ++p;
    std::string n = t.substr(b, p - b);
    if (n.empty()) { bad = true; ++p; return 0; }
    if (isdigit((unsigned char)n[0])) return std::stoll(n);
    auto it = env.find(n);
    if (it == env.end()) { bad = true; return 0; }
    return it->second;
  }
  int64_t term() { int64_t v = atom(); for (ws(); p < t.size() && t[p] == '*'; ws()) { ++p; v *= atom(); } return v; }
  int64_t sum() {
    int64_t v = term();
    for (ws(); p < t.size() && (t[p] == '+' || t[p] == '-'); ws()) { bool m = t[p++] == '-'; int64_t w = term(); v = m ? v - w : v + w; }
    return v;
  }
  std::optional<int64_t> run() { int64_t v = sum(); ws(); if (bad || p != t.size()) return std::nullopt; return v; }
};
std::optional<int64_t> evalExpr(const std::string &t, const std::map<std::string, int64_t> &env) { return Expr{t, env}.run(); }
std::string ostr(std::optional<int64_t> v) { return v ? std::to_string(*v) : "no value"; }

MON_FAMILY(M01_flatten, 6000, 80000) {
  V s = shape(c, 1, 5, 4096), st = nestStrides(c, s, 1 << 20);
  int64_t off = c.rng.chance(0.5) ? 0 : c.rng.in(0, 1000);
  bool big = c.rng.chance(0.2);
  if (big) { for (auto &x : st) x *= int64_t(1) << c.rng.in(32, 32); off <<= c.rng.in(0, 25); }
  c.describe(S() << "shape " << s << " strides " << st << " offset " << off);
  int64_t n = prod(s);
  std::map<int64_t, V> seen;
  for (int64_t q = 0; q < n; q += (n > 256 ? c.rng.in(1, n / 64) : 1)) {
    V i = unrank(s, q);
    W w = off;
    for (size_t k = 0; k < s.size(); ++k) w += W(i[k]) * st[k];
    int64_t f = heir::flattenIndex(sv(i), sv(st), off);
    c.check(f == (int64_t)w, "flatten", [&] { return S() << i << " flattens to " << f << ", expected " << (int64_t)w; });
    auto ins = seen.insert({f, i});
    c.check(ins.second || ins.first->second == i, "flatten-not-distinct", [&] { return S() << i << " and " << ins.first->second << " share offset " << f; });
    V u = vec(heir::unflattenIndex(f, sv(st), off));
    // A dimension of extent one may share its stride with the next: only the offset is then determined.
    bool shared = false;
    for (size_t k = 1; k < s.size(); ++k) shared |= st[k - 1] == st[k];
    if (shared) {
      W b = off;
      for (size_t k = 0; k < u.size(); ++k) b += W(u[k]) * st[k];
      c.check(u.size() == s.size() && b == w, "unflatten", [&] { return S() << f << " unflattens to " << u << " instead of " << i; });
    } else c.check(u == i, "unflatten", [&] { return S() << f << " unflattens to " << u << " instead of " << i; });
  }
  c.event("indices", seen.size());
}
MON_FAMILY(M01_tensor, 6000, 80000) {
  V s = c.rng.chance(0.5) ? bigShape(c) : shape(c, 0, 5, 1 << 20);
  V i = index(c, s);
  c.describe(S() << "shape " << s << " index " << i);
  auto ty = RankedTensorType::get(sv(s), IntegerType::get(&ctx(), 32));
  int64_t want = rowMajor(s, i);
  int64_t got = heir::getFlattenedIndex(ty, sv(i));
  c.check(got == want, "tensor-flatten", [&] { return S() << "flattened to " << got << ", expected " << want; });
  V back = vec(heir::getIndicesFromRowMajorShape(want, sv(s)));
  c.check(back == i, "tensor-unflatten", [&] { return S() << want << " becomes " << back; });
  Block blk;
  Value v = blk.addArgument(IndexType::get(&ctx()), UnknownLoc::get(&ctx()));
  SmallVector<OpFoldResult> ofr;
  int64_t dyn = s.size() && c.rng.chance(0.4) ? c.rng.in(0, s.size() - 1) : -1;
  OpBuilder b(&ctx());
  for (size_t k = 0; k < s.size(); ++k) ofr.push_back((int64_t)k == dyn ? OpFoldResult(v) : OpFoldResult(b.getIndexAttr(i[k])));
  auto r = heir::getFlattenedIndex(ty, ofr);
  if (dyn >= 0) c.check(failed(r), "tensor-dynamic", [&] { return S() << "unknown index accepted"; });
  else c.check(succeeded(r) && *r == want, "tensor-ofr", [&] { return S() << "flattened to " << (failed(r) ? std::string("failure") : std::to_string(*r)) << ", expected " << want; });
  c.event(want > INT32_MAX ? "wide_offsets" : "narrow_offsets");
}
MON_FAMILY(M01_access, 1500, 15000) {
  V s = shape(c, 1, 4, 1 << 12);
  V i = index(c, s);
  // %k is unknown; %c is a constant
  int64_t cv = c.rng.in(0, 3);
  std::string idx;
  bool known = true, literal = true;
  for (size_t k = 0; k < s.size(); ++k) {
    if (k) idx += ", ";
    int64_t rest = i[k] - cv;
    switch (c.rng.in(0, 5)) {
      case 0: case 1: idx += std::to_string(i[k]); break;
      case 2: if (i[k] % 2 == 0) { idx += std::to_string(i[k] / 2) + " * 2"; break; } [[fallthrough]];
      case 3: if (rest >= 0) { idx += "%c + " + std::to_string(rest); literal = false; break; } idx += std::to_string(i[k]); break;
      case 4: if (c.rng.chance(0.3)) { idx += "%k"; known = false; break; } [[fallthrough]];
      default: idx += std::to_string(i[k] * 3 + 1) + " floordiv 3";
    }
  }
  std::string dims;
  for (auto d : s) dims += std::to_string(d) + "x";
  bool store = c.rng.chance(0.5);
  std::string op = store ? "affine.store %x, %m[" + idx + "] : memref<" + dims + "i32>" : "%l = affine.load %m[" + idx + "] : memref<" + dims + "i32>";
  std::string src = "func.func @f(%m : memref<" + dims + "i32>, %x : i32) {\n %c = arith.constant " + std::to_string(cv) + " : index\n affine.for %k = 0 to 1 {\n " + op + "\n }\n return\n}\n";
  c.describe(S() << op << " with %c = " << cv);
  auto mod = parseSourceString<ModuleOp>(src, ParserConfig(&ctx()));
  if (!mod) { c.fail("harness-parse", src); return; }
  Operation *acc = nullptr;
  mod->walk([&](Operation *o) { if (isa<affine::AffineLoadOp, affine::AffineStoreOp>(o)) acc = o; });
  affine::MemRefAccess a(acc);
  auto m = heir::materialize(a);
  auto ty = cast<MemRefType>(a.memref.getType());
  auto f = heir::getFlattenedAccessIndex(a, ty);
  c.check(m.has_value() == f.has_value(), "access-consistent", "materialize and getFlattenedAccessIndex disagree");
  if (!known) c.check(!m, "access-unknown", "an index that depends on a loop variable was materialized");
  else if (literal) c.check(m.has_value(), "access-literal", "a literal index was not materialized");
  if (m && known) {
    V got(m->begin(), m->end());
    c.check(got == i, "access-index", [&] { return S() << "materialized " << got << " instead of " << i; });
    c.check(f && (int64_t)*f == rowMajor(s, i), "access-flat", [&] { return S() << "flattened to " << (f ? (int64_t)*f : -1) << " instead of " << rowMajor(s, i); });
  }
  c.event(m ? "materialized" : "unknown");
}
struct RandExpr {
  AffineExpr e;
  std::function<int64_t(const V &)> f;
};
int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q - (a % b != 0 && (a % b < 0) != (b < 0)); }
RandExpr randExpr(mon::Case &c, int dims, int depth) {
  if (depth == 0 || c.rng.chance(0.2)) {
    if (dims && c.rng.chance(0.7)) { int d = c.rng.in(0, dims - 1); return {getAffineDimExpr(d, &ctx()), [d](const V &v) { return v[d]; }}; }
    int64_t k = c.rng.in(-20, 40);
    return {getAffineConstantExpr(k, &ctx()), [k](const V &) { return k; }};
  }
  auto a = randExpr(c, dims, depth - 1);
  int64_t k = c.rng.in(1, 17), m = c.rng.in(-5, 9);
  switch (c.rng.in(0, 5)) {
    case 0: return {a.e % k, [f = a.f, k](const V &v) { int64_t x = f(v); return x - fdiv(x, k) * k; }};
    case 1: return {a.e.floorDiv(k), [f = a.f, k](const V &v) { return fdiv(f(v), k); }};
    case 2: return {a.e.ceilDiv(k), [f = a.f, k](const V &v) { return -fdiv(-f(v), k); }};
    case 3: return {a.e * m, [f = a.f, m](const V &v) { return f(v) * m; }};
    default: {
      auto b = randExpr(c, dims, depth - 1);
      if (c.rng.chance(0.4)) return {a.e - b.e, [f = a.f, g = b.f](const V &v) { return f(v) - g(v); }};
      return {a.e + b.e, [f = a.f, g = b.f](const V &v) { return f(v) + g(v); }};
    }
  }
}
std::string mapStr(AffineMap m) { std::string s; llvm::raw_string_ostream o(s); m.print(o); return s; }
V evalMap(AffineMap m, const V &in) { SmallVector<int64_t> r; heir::evaluateStatic(m, sv(in), r); return vec(r); }
MON_FAMILY(M01_affine, 3000, 30000) {
  int dims = c.rng.in(0, 4), results = c.rng.in(1, 4);
  std::vector<RandExpr> es;
  SmallVector<AffineExpr> ex;
  for (int i = 0; i < results; ++i) { es.push_back(randExpr(c, dims, 4)); ex.push_back(es.back().e); }
  auto m = AffineMap::get(dims, 0, ex, &ctx());
  c.describe(mapStr(m));
  for (int t = 0; t < 12; ++t) {
    V in, want;
    for (int i = 0; i < dims; ++i) in.push_back(c.rng.in(-50, 100));
    for (auto &e : es) want.push_back(e.f(in));
    V got = evalMap(m, in);
    c.check(got == want, "affine-eval", [&] { return S() << "at " << in << " evaluates to " << got << ", expected " << want; });
  }
  SmallVector<int64_t> mapping;
  unsigned n = c.rng.in(1, 20);
  auto ok = heir::makeExplicit1DMapping(m, n, mapping);
  if (results != 1 || dims != 1) c.check(failed(ok), "explicit-mapping-shape", "accepted a map that is not one-dimensional");
  auto e1 = randExpr(c, 1, 3);
  auto m1 = AffineMap::get(1, 0, {e1.e}, &ctx());
  mapping.clear();
  if (c.check(succeeded(heir::makeExplicit1DMapping(m1, n, mapping)), "explicit-mapping-fails", [&] { return S() << "rejected " << mapStr(m1); })) {
    V want;
    for (unsigned i = 0; i < n; ++i) want.push_back(e1.f({(int64_t)i}));
    c.check(vec(mapping) == want, "explicit-mapping", [&] { return S() << mapStr(m1) << " on " << n << " points gives " << vec(mapping) << ", expected " << want; });
    V sorted = want;
    std::sort(sorted.begin(), sorted.end());
    bool perm = true;
    for (size_t i = 0; i < sorted.size(); ++i) perm &= sorted[i] == (int64_t)i;
    c.check(heir::isPermutation(mapping) == perm, "is-permutation", [&] { return S() << want << (perm ? " is" : " is not") << " a permutation"; });
    c.event(perm ? "permutations" : "non_permutations");
  }
  auto sym = AffineMap::get(1, 1, {getAffineDimExpr(0, &ctx()) + getAffineSymbolExpr(0, &ctx())}, &ctx());
  c.check(failed(heir::makeExplicit1DMapping(sym, n, mapping)), "explicit-mapping-symbol", "accepted a map with a symbol");
}
MON_FAMILY(M01_permutation, 1500, 20000) {
  V p = vec(heir::identity(c.rng.in(0, 40)));
  for (size_t i = 0; i < p.size(); ++i) c.check(p[i] == (int64_t)i, "identity", [&] { return S() << p; });
  c.rng.shuffle(p);
  bool perm = true;
  if (p.size() && c.rng.chance(0.6)) {
    int64_t x = c.rng.in(0, 3) == 0 ? (int64_t)p.size() : c.rng.in(0, 2) == 0 ? -c.rng.in(1, 3) : c.rng.in(0, p.size());
    p[c.rng.in(0, p.size() - 1)] = x;
    V q = p;
    std::sort(q.begin(), q.end());
    for (size_t i = 0; i < q.size(); ++i) perm &= q[i] == (int64_t)i;
  }
  c.describe(S() << p);
  c.check(heir::isPermutation(p) == perm, "is-permutation", [&] { return S() << (perm ? "is" : "is not") << " a permutation"; });
  std::string out, want;
  llvm::raw_string_ostream os(out);
  heir::printPermutation(ArrayRef<int64_t>(p), os);
  for (size_t i = 0; i < p.size(); ++i) want += std::to_string(i) + "->" + std::to_string(p[i]) + ",";
  out.erase(std::remove_if(out.begin(), out.end(), [](char ch) { return isspace((unsigned char)ch); }), out.end());
  c.check(out == want, "print-permutation", [&] { return std::string(out); });
}
bool sameOn(AffineMap a, AffineMap b, const V &s) {
  for (int64_t q = 0, n = prod(s); q < n; ++q) if (evalMap(a, unrank(s, q)) != evalMap(b, unrank(s, q))) return false;
  return true;
}
MON_FAMILY(M01_layout_maps, 1000, 12000) {
  bool diag = c.rng.chance(0.35);
  auto ty = [&](const V &s) { return RankedTensorType::get(sv(s), IntegerType::get(&ctx(), 16)); };
  V in, out;
  if (diag) {
    int a = c.rng.in(0, 4), b = c.rng.in(a, 5);
    out = {int64_t(1) << a, int64_t(1) << b};
    in = out;
  } else {
    in = shape(c, 1, 4, 200);
    out = shape(c, 1, 3, 400);
  }
  c.describe(S() << (diag ? "diagonal " : "row-major ") << in << " -> " << out);
  AffineMap m = diag ? heir::getDiagonalLayoutMap(ty(in), ty(out)) : heir::getRowMajorLayoutMap(ty(in), ty(out));
  auto want = [&](const V &i) {
    if (!diag) return unrank(out, rowMajor(in, i) % prod(out));
    int64_t n = out[0], mm = out[1], r = ((i[1] - i[0]) % n + n) % n;
    return V{r, ((i[1] - r) % mm + mm) % mm};
  };
  std::set<V> used;
  for (int64_t q = 0, n = prod(in); q < n; ++q) {
    V i = unrank(in, q), got = evalMap(m, i), w = want(i);
    c.check(got == w, diag ? "diagonal-map" : "row-major-map", [&] { return S() << i << " goes to " << got << ", expected " << w; });
    if (diag) c.check(got[1] % in[0] == i[0] && (got[0] + got[1]) % in[1] == i[1], "diagonal-inverse", [&] { return S() << got << " does not read " << i; });
    used.insert(got);
  }
  if (prod(in) <= prod(out)) c.check((int64_t)used.size() == prod(in), "layout-map-distinct", [&] { return S() << used.size() << " places for " << prod(in) << " elements"; });
  // Recognition
  auto recog = [&](AffineMap x) { return diag ? heir::isLayoutSquatDiagonal(ty(in), ty(out), x) : heir::isLayoutRowMajor(ty(in), ty(out), x); };
  // Simplifying a simplified map may change it once more: such a map need not be recognised.
  c.check(recog(m) || simplifyAffineMap(m) != m, "recognise-own", "the map of this layout is not recognised");
  SmallVector<AffineExpr> rs(m.getResults());
  size_t k = c.rng.in(0, rs.size() - 1);
  switch (c.rng.in(0, 3)) {
    case 0: rs[k] = rs[k] + c.rng.in(1, 3); break;
    case 1: rs[k] = (rs[k] + getAffineDimExpr(c.rng.in(0, in.size() - 1), &ctx())) % std::max<int64_t>(out[k], 1); break;
    case 2: std::swap(rs[k], rs[0]); break;
    default: rs[k] = rs[k] * 1;
  }
  auto x = AffineMap::get(in.size(), 0, rs, &ctx());
  if (recog(x)) { c.check(sameOn(m, x, in), "recognise-wrong", [&] { return S() << mapStr(x) << " is recognised but differs from " << mapStr(m); }); c.event("recognised"); }
  else c.event("not_recognised");
  if (diag) {
    c.check(!heir::isLayoutSquatDiagonal(ty({4}), ty(out), m) && !heir::isLayoutSquatDiagonal(ty(in), ty({8}), m), "recognise-rank", "a one-dimensional tensor is recognised as diagonal");
  }
}
MON_FAMILY(M01_reassociation, 3000, 30000) {
  int64_t rank = c.rng.in(1, 7);
  V pos;
  for (int64_t i = 0; i < rank; ++i) if (c.rng.chance(0.4)) pos.push_back(i);
  c.rng.shuffle(pos);
  c.describe(S() << "rank " << rank << " unit dims " << pos);
  auto r = heir::getReassociationForReshapeAtDim(rank, sv(pos));
  std::set<int64_t> unit(pos.begin(), pos.end());
  if ((int64_t)unit.size() == rank) { c.check(r.empty(), "reassociation-scalar", "an all-unit tensor does not collapse to a scalar"); return; }
  int64_t next = 0;
  c.check((int64_t)r.size() == rank - (int64_t)unit.size(), "reassociation-size", [&] { return S() << r.size() << " groups"; });
  for (auto &g : r) {
    int real = 0;
    for (auto d : g) { c.check(d == next, "reassociation-order", [&] { return S() << "dimension " << d << " where " << next << " was expected"; }); next = d + 1; real += !unit.count(d); }
    c.check(real == 1, "reassociation-group", [&] { return S() << "a group has " << real << " non-unit dimensions"; });
  }
  c.check(next == rank, "reassociation-covers", [&] { return S() << "dimensions from " << next << " are dropped"; });
}
struct Names {
  std::unique_ptr<Block> b = std::make_unique<Block>();
  std::vector<Value> v;
  std::map<std::string, int64_t> env;
  std::map<void *, std::string> name;
  std::map<void *, int64_t> val;
  void add(int64_t x) {
    Value a = b->addArgument(IndexType::get(&ctx()), UnknownLoc::get(&ctx()));
    std::string n = "v" + std::to_string(v.size());
    v.push_back(a);
    env[n] = x; name[a.getAsOpaquePointer()] = n; val[a.getAsOpaquePointer()] = x;
  }
  std::string operator()(Value x) { return name[x.getAsOpaquePointer()]; }
};
MON_FAMILY(M01_source_text, 4000, 40000) {
  bool big = c.rng.chance(0.2);
  V s = big ? bigShape(c) : shape(c, 0, 5, 1 << 20);
  V i = index(c, s), st;
  int64_t off = c.rng.chance(0.5) ? 0 : c.rng.in(1, 500);
  if (big) { st.assign(s.size(), 0); int64_t step = 1; for (int k = (int)s.size() - 1; k >= 0; --k) { st[k] = step; step *= s[k]; } }
  else st = nestStrides(c, s, 1 << 20);
  c.describe(S() << "shape " << s << " strides " << st << " offset " << off << " index " << i);
  Names n;
  for (auto x : i) n.add(x);
  auto i32 = IntegerType::get(&ctx(), 32);
  auto ty = RankedTensorType::get(sv(s), i32);
  auto mty = MemRefType::get(sv(s), i32, StridedLayoutAttr::get(&ctx(), off, sv(st)));
  ValueRange vr(n.v);
  auto toS = [&](Value v) { return n(v); };
  auto toI = [&](Value v) { return n.val[v.getAsOpaquePointer()]; };
  int64_t want = rowMajor(s, i), swant = off;
  for (size_t k = 0; k < s.size(); ++k) swant += i[k] * st[k];
  auto text = [&](const char *key, const std::string &t, int64_t w) {
    auto g = evalExpr(t, n.env);
    c.check(g && *g == w, key, [&] { return S() << "'" << t << "' evaluates to " << ostr(g) << ", expected " << w; });
    return t;
  };
  text("flat-expression", heir::flattenIndexExpression(ty, vr, toS), want);
  SmallVector<std::string> idx, sums;
  for (auto v : n.v) { idx.push_back(n(v)); sums.push_back(n(v) + " + 3 - 3"); }
  text("flat-expression-shape", heir::flattenIndexExpression(ArrayRef<int64_t>(s), idx), want);
  text("flat-expression-sums", heir::flattenIndexExpression(ArrayRef<int64_t>(s), sums), want);
  text("strided-expression", heir::flattenIndexExpressionSOP(mty, vr, toS), swant);
  int64_t f = heir::flattenedIndex(cast<ShapedType>((Type)ty), vr, toI);
  c.check(f == want, "flat-index", [&] { return S() << f << " expected " << want; });
  f = heir::flattenedIndex(mty, vr, toI);
  c.check(f == swant, "strided-index", [&] { return S() << f << " expected " << swant; });
  std::string comma, br;
  for (size_t k = 0; k < idx.size(); ++k) { comma += (k ? ", " : "") + idx[k]; br += "[" + idx[k] + "]"; }
  c.check(heir::commaSeparatedValues(vr, toS) == comma, "comma", [&] { return heir::commaSeparatedValues(vr, toS); });
  c.check(heir::bracketEnclosedValues(vr, toS) == br, "brackets", [&] { return heir::bracketEnclosedValues(vr, toS); });
  std::string nums;
  for (size_t k = 0; k < s.size(); ++k) nums += (k ? ", " : "") + std::to_string(s[k]);
  c.check(heir::commaSeparated(ArrayRef<int64_t>(s)) == nums && heir::initializerList(ArrayRef<int64_t>(s)) == "{" + nums + "}", "comma-numbers", [&] { return heir::commaSeparated(ArrayRef<int64_t>(s)); });
}
MON_FAMILY(M01_types, 1500, 15000) {
  std::vector<Type> ts;
  std::string want;
  std::set<void *> badTypes;
  S d;
  bool bad = false;
  int n = c.rng.in(0, 5);
  for (int i = 0; i < n; ++i) {
    int w = c.rng.in(1, 12);
    ts.push_back(IntegerType::get(&ctx(), w));
    bool b = w > 10;
    bad |= b;
    want += (i ? ", " : "") + ("t" + std::to_string(w));
    d << " i" << w;
  }
  c.describe(S() << "types" << d.b << " (more than 10 bits cannot be converted)");
  int calls = 0;
  auto r = heir::commaSeparatedTypes(TypeRange(ts), [&](Type t) -> FailureOr<std::string> {
    ++calls;
    unsigned w = t.getIntOrFloatBitWidth();
    if (w > 10) return failure();
    return "t" + std::to_string(w);
  });
  c.check(failed(r) == bad, "types-failure", [&] { return S() << (bad ? "failure not reported" : "failed"); });
  if (succeeded(r) && !bad) c.check(*r == want, "types-text", [&] { return S() << *r << " expected " << want; });
  c.event(bad ? "failing" : "converting");
  for (auto &[s, p, q] : std::vector<std::tuple<std::string, bool, std::string>>{{"__heir_debug", true, "__heir_debug"}, {"__heir_debug_7", true, "__heir_debug"}, {"heir_debug", false, "heir_debug"}, {"x__heir_debug", false, "x__heir_debug"}, {"__heir_debu", false, "__heir_debu"}})
    c.check(heir::isDebugPort(s) == p && heir::canonicalizeDebugPort(s) == q, "debug-port", [&] { return s; });
}
// Runs the emitted copy loops and compares every copied element.
MON_FAMILY(M01_extract_slice, 2000, 20000) {
  V s = shape(c, 1, 4, 600), off, size, stride;
  for (auto d : s) {
    int64_t o = c.rng.in(0, d - 1), k = c.rng.in(1, 3), z = c.rng.in(1, (d - 1 - o) / k + 1);
    off.push_back(o); stride.push_back(k); size.push_back(z);
  }
  V res;
  bool drop = c.rng.chance(0.5);
  for (auto z : size) if (!(drop && z == 1)) res.push_back(z);
  bool dynamic = c.rng.chance(0.5);
  c.describe(S() << "source " << s << " offsets " << off << " sizes " << size << " strides " << stride << " result " << res << (dynamic ? " named offsets" : ""));
  auto i32 = IntegerType::get(&ctx(), 32);
  auto st = RankedTensorType::get(sv(s), i32), rt = RankedTensorType::get(sv(res), i32);
  Names n;
  SmallVector<OpFoldResult> o;
  OpBuilder b(&ctx());
  for (auto x : off) {
    if (dynamic && c.rng.chance(0.5)) { n.add(x); o.push_back(n.v.back()); }
    else o.push_back(b.getIndexAttr(x));
  }
  auto ofs = [&](OpFoldResult f) -> std::string { if (auto a = dyn_cast<Attribute>(f)) return std::to_string(cast<IntegerAttr>(a).getInt()); return n(cast<Value>(f)); };
  auto iv = [](int i) { return "i" + std::to_string(i); };
  std::string text;
  llvm::raw_string_ostream so(text);
  raw_indented_ostream os(so);
  bool attrForm = c.rng.chance(0.5);
  if (attrForm) {
    heir::emitFlattenedExtractSlice(rt, st, "dst", "src", o, ArrayRef<int64_t>(size), ArrayRef<int64_t>(stride), ofs, iv,
        heir::LoopOpenerFn([](raw_indented_ostream &x, std::string v, int64_t z) { x << "for " << v << " " << z << " {\n"; }), os);
  } else {
    SmallVector<OpFoldResult> zs, ks;
    for (auto x : size) zs.push_back(b.getIndexAttr(x));
    for (auto x : stride) ks.push_back(b.getIndexAttr(x));
    heir::emitFlattenedExtractSlice(rt, st, "dst", "src", o, ArrayRef<OpFoldResult>(zs), ArrayRef<OpFoldResult>(ks), ofs, iv,
        heir::DynamicLoopOpenerFn([&](raw_indented_ostream &x, const std::string &v, OpFoldResult z) { x << "for " << v << " " << ofs(z) << " {\n"; }), os);
  }
  // Interpret
  std::vector<std::string> lines;
  { std::istringstream is(text); for (std::string l; std::getline(is, l);) { size_t p = l.find_first_not_of(" \t"); if (p != std::string::npos) lines.push_back(l.substr(p)); } }
  std::map<int64_t, int64_t> copied;
  std::string trouble;
  int64_t steps = 0;
  std::function<size_t(size_t, std::map<std::string, int64_t>)> run = [&](size_t at, std::map<std::string, int64_t> env) -> size_t {
    while (at < lines.size() && trouble.empty()) {
      auto &l = lines[at];
      if (l == "}") return at;
      if (l.rfind("for ", 0) == 0) {
        std::istringstream is(l);
        std::string f, v;
        int64_t z;
        is >> f >> v >> z;
        size_t end = at;
        for (int64_t k = 0; k < z; ++k) { env[v] = k; end = run(at + 1, env); }
        if (end >= lines.size() || lines[end] != "}") { trouble = "loop not closed"; return end; }
        env.erase(v);
        at = end + 1;
        continue;
      }
      size_t e = l.find("] = src[");
      if (l.rfind("dst[", 0) != 0 || e == std::string::npos || l.size() < 2 || l.substr(l.size() - 2) != "];") { trouble = "unexpected line: " + l; return at; }
      auto d = evalExpr(l.substr(4, e - 4), env), x = evalExpr(l.substr(e + 8, l.size() - 2 - e - 8), env);
      if (!d || !x) { trouble = "not an expression: " + l; return at; }
      if (copied.count(*d)) trouble = "slot written twice";
      copied[*d] = *x;
      ++steps;
      ++at;
    }
    return at;
  };
  run(0, n.env);
  c.check(trouble.empty(), "slice-loops", [&] { return S() << trouble << "\n" << text; });
  std::map<int64_t, int64_t> want;
  for (int64_t q = 0; q < prod(size); ++q) {
    V i = unrank(size, q), j(i);
    for (size_t k = 0; k < j.size(); ++k) j[k] = off[k] + i[k] * stride[k];
    want[q] = rowMajor(s, j);
  }
  c.check(copied == want, "slice-copy", [&] { return S() << "emitted loops copy the wrong elements:\n" << text; });
  c.event("copies", steps);
}
}  // namespace
MON_MAIN()
