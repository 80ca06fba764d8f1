// An interpreter for MLIR programs, independent of the passes under test: executes standard dialects and reports undefined behaviour.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/STLExtras.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/AffineMap.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/IntegerSet.h"
#include "mon.h"

namespace interp {
using namespace mlir;
using llvm::APInt;
using llvm::StringRef;
struct UB { std::string why; };
struct Unsupported { std::string op; };
struct Fuel {};

struct Val;
using Elems = std::vector<Val>;
struct Buffer { Elems data; bool freed = false; };
struct View {
  std::shared_ptr<Buffer> buf;
  std::vector<int64_t> pos; // position in buf of each element, row-major
};
struct Val {
  enum K : uint8_t { None, Poison, Int, Float, Tensor, Mem } k = None;
  APInt i;
  double f = 0;
  std::vector<int64_t> shape;
  std::shared_ptr<Elems> el;  // Tensor: never written through once shared
  std::shared_ptr<View> mem;
  static Val poison() { Val v; v.k = Poison; return v; }
  static Val integer(APInt x) { Val v; v.k = Int; v.i = std::move(x); return v; }
  static Val integer(unsigned w, int64_t x) { return integer(APInt(64, x, true).sextOrTrunc(w)); }
  static Val index(int64_t x) { return integer(64, x); }
  static Val real(double x) { Val v; v.k = Float; v.f = x; return v; }
  static Val tensor(std::vector<int64_t> s, Elems e) { Val v; v.k = Tensor; v.shape = std::move(s); v.el = std::make_shared<Elems>(std::move(e)); return v; }
  static Val memory(std::vector<int64_t> s, std::shared_ptr<View> m) { Val v; v.k = Mem; v.shape = std::move(s); v.mem = std::move(m); return v; }
  static Val newmem(std::vector<int64_t> s, Elems e) {
    auto m = std::make_shared<View>();
    m->buf = std::make_shared<Buffer>();
    m->buf->data = std::move(e);
    for (size_t k = 0; k < m->buf->data.size(); k++) m->pos.push_back(k);
    return memory(std::move(s), m);
  }
  int64_t idx(const char *what = "index") const {
    if (k == Poison) throw UB{std::string(what) + " is undefined"};
    if (k != Int) throw Unsupported{std::string(what) + " is not an integer"};
    return i.getSExtValue();
  }
  bool truth() const { return idx("condition") != 0; }
};
inline int64_t product(const std::vector<int64_t> &s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
inline std::string show(const Val &v, int depth = 0) {
  switch (v.k) {
    case Val::None: return "none";
    case Val::Poison: return "undef";
    case Val::Int: { llvm::SmallString<32> s; v.i.toStringSigned(s); return s.str().str(); }
    case Val::Float: return mon::str(v.f);
    default: break;
  }
  std::string o = v.k == Val::Mem ? "mem[" : "[";
  size_t n = v.k == Val::Mem ? v.mem->pos.size() : v.el->size();
  for (size_t k = 0; k < n && k < 40; k++) o += (k ? "," : "") + show(v.k == Val::Mem ? v.mem->buf->data[v.mem->pos[k]] : (*v.el)[k], depth + 1);
  return o + (n > 40 ? ",...]" : "]");
}
// does `got` refine `want`?  Undefined parts of `want` allow anything.  `tol`: relative tolerance for floats.
inline bool refines(const Val &want, const Val &got, double tol = 0) {
  if (want.k == Val::Poison) return true;
  if (want.k != got.k) return false;
  switch (want.k) {
    case Val::Int: return want.i.getBitWidth() == got.i.getBitWidth() && want.i == got.i;
    case Val::Float:
      if (std::isnan(want.f) || std::isnan(got.f)) return std::isnan(want.f) == std::isnan(got.f);
      if (want.f == got.f) return true;
      return std::fabs(want.f - got.f) <= tol * (1 + std::fabs(want.f));
    case Val::Tensor:
      if (want.shape != got.shape || want.el->size() != got.el->size()) return false;
      for (size_t k = 0; k < want.el->size(); k++) if (!refines((*want.el)[k], (*got.el)[k], tol)) return false;
      return true;
    case Val::Mem:
      if (want.shape != got.shape || want.mem->pos.size() != got.mem->pos.size()) return false;
      if (want.mem->buf->freed) return true;
      if (got.mem->buf->freed) return false;
      for (size_t k = 0; k < want.mem->pos.size(); k++)
        if (!refines(want.mem->buf->data[want.mem->pos[k]], got.mem->buf->data[got.mem->pos[k]], tol)) return false;
      return true;
    default: return true;
  }
}
// a deep copy, preserving sharing between the values copied together
struct Cloner {
  std::map<Buffer *, std::shared_ptr<Buffer>> seen;
  Val operator()(const Val &v) {
    if (v.k != Val::Mem) return v;
    auto m = std::make_shared<View>(*v.mem);
    auto &b = seen[v.mem->buf.get()];
    if (!b) {
      b = std::make_shared<Buffer>();
      b->freed = v.mem->buf->freed;
      for (auto &e : v.mem->buf->data) b->data.push_back((*this)(e));
    }
    m->buf = b;
    return Val::memory(v.shape, m);
  }
};

inline int64_t fdiv(int64_t a, int64_t b) { if (b <= 0) throw UB{"affine division by non-positive"}; return a >= 0 ? a / b : -((-a + b - 1) / b); }
inline int64_t evalExpr(AffineExpr e, const std::vector<int64_t> &d, const std::vector<int64_t> &s) {
  switch (e.getKind()) {
    case AffineExprKind::Constant: return cast<AffineConstantExpr>(e).getValue();
    case AffineExprKind::DimId: return d.at(cast<AffineDimExpr>(e).getPosition());
    case AffineExprKind::SymbolId: return s.at(cast<AffineSymbolExpr>(e).getPosition());
    default: break;
  }
  auto b = cast<AffineBinaryOpExpr>(e);
  int64_t x = evalExpr(b.getLHS(), d, s), y = evalExpr(b.getRHS(), d, s);
  switch (e.getKind()) {
    case AffineExprKind::Add: return x + y;
    case AffineExprKind::Mul: return x * y;
    case AffineExprKind::FloorDiv: return fdiv(x, y);
    case AffineExprKind::CeilDiv: return -fdiv(-x, y);
    default: return x - fdiv(x, y) * y;
  }
}

struct Interp {
  using Res = std::vector<Val>;
  using Handler = std::function<Res(Interp &, Operation *, const Res &)>;
  ModuleOp module;
  std::unordered_map<std::string, Handler> ext; // other dialects
  std::unordered_map<std::string, std::function<Res(Interp &, func::FuncOp, const Res &)>> externs;
  std::function<bool(Interp &, Attribute, Type, Val &)> extAttr;
  std::function<bool(Type, Val &)> extZero;
  int64_t fuel = 300000, steps = 0;
  llvm::DenseMap<Value, Val> env;
  std::vector<std::vector<int64_t>> loopIdx; // linalg.index
  std::map<std::string, Val> globals;
  std::vector<std::string> log;       // calls of external functions with what they were given
  std::vector<int64_t> trace;         // what an observer of control flow and addresses sees
  bool tracing = false;
  int depth = 0;
  explicit Interp(ModuleOp m) : module(m) { setup(); }

  void see(int64_t x) { if (tracing) trace.push_back(x); }
  Val get(Value v) {
    auto it = env.find(v);
    if (it == env.end()) throw Unsupported{"value without a definition executed"};
    return it->second;
  }
  static std::vector<int64_t> shapeOf(Type t) {
    auto s = cast<ShapedType>(t);
    for (auto d : s.getShape()) if (ShapedType::isDynamic(d)) throw Unsupported{"dynamic shape"};
    return s.getShape().vec();
  }
  static std::vector<int64_t> shapeWith(Type t, const Res &dyn) {
    std::vector<int64_t> r;
    size_t k = 0;
    for (auto d : cast<ShapedType>(t).getShape()) r.push_back(ShapedType::isDynamic(d) ? dyn.at(k++).idx("size") : d);
    for (auto x : r) if (x < 0 || x > 100000) throw UB{"negative or huge size"};
    return r;
  }
  static unsigned width(Type t) {
    if (isa<IndexType>(t)) return 64;
    if (auto i = dyn_cast<IntegerType>(t)) return i.getWidth();
    throw Unsupported{"width of " + str(t)};
  }
  template <class T> static std::string str(T t) { std::string s; llvm::raw_string_ostream o(s); o << t; return s; }
  static inline bool exactFloats = false; // compute f32 in double: for programs compared up to rounding
  static double rnd(Type t, double x) {
    if (exactFloats) return x;
    t = getElementTypeOrSelf(t);
    if (t.isF32()) return (double)(float)x;
    if (t.isF64()) return x;
    throw Unsupported{"float type"};
  }
  Val fromAttr(Attribute a, Type t) {
    Val out;
    if (extAttr && extAttr(*this, a, t, out)) return out;
    if (auto i = dyn_cast<IntegerAttr>(a)) return Val::integer(isa<IndexType>(i.getType()) ? i.getValue().sextOrTrunc(64) : i.getValue());
    if (auto f = dyn_cast<FloatAttr>(a)) return Val::real(rnd(f.getType(), f.getValueAsDouble()));
    if (auto d = dyn_cast<DenseElementsAttr>(a)) {
      Elems e;
      if (isa<FloatType>(d.getElementType())) for (APFloat f : d.getValues<APFloat>()) { bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); e.push_back(Val::real(f.convertToDouble())); }
      else for (APInt x : d.getValues<APInt>()) e.push_back(Val::integer(x));
      return Val::tensor(shapeOf(d.getType()), std::move(e));
    }
    throw Unsupported{"attribute " + str(a)};
  }
  static int64_t flat(const std::vector<int64_t> &shape, const std::vector<int64_t> &ix) {
    if (ix.size() != shape.size()) throw UB{"wrong number of indices"};
    int64_t f = 0;
    for (size_t k = 0; k < ix.size(); k++) {
      if (ix[k] < 0 || ix[k] >= shape[k]) throw UB{std::string(mon::S() << "index " << ix[k] << " out of bounds " << shape[k])};
      f = f * shape[k] + ix[k];
    }
    return f;
  }
  Val &cell(const Val &m, const std::vector<int64_t> &ix) {
    if (m.k == Val::Poison) throw UB{"undefined buffer"};
    if (m.mem->buf->freed) throw UB{"use after free"};
    for (auto x : ix) see(x);
    return m.mem->buf->data.at(m.mem->pos.at(flat(m.shape, ix)));
  }
  std::vector<int64_t> ints(ValueRange vs) { std::vector<int64_t> r; for (auto v : vs) r.push_back(get(v).idx()); return r; }
  Res gets(ValueRange vs) { Res r; for (auto v : vs) r.push_back(get(v)); return r; }
  std::vector<int64_t> ofr(ArrayRef<OpFoldResult> os) {
    std::vector<int64_t> r;
    for (auto o : os) { if (auto a = dyn_cast<Attribute>(o)) r.push_back(cast<IntegerAttr>(a).getInt()); else r.push_back(get(cast<Value>(o)).idx()); }
    return r;
  }
  std::vector<int64_t> applyMap(AffineMap m, const std::vector<int64_t> &ops) {
    std::vector<int64_t> d(ops.begin(), ops.begin() + m.getNumDims()), s(ops.begin() + m.getNumDims(), ops.end()), r;
    for (auto e : m.getResults()) r.push_back(evalExpr(e, d, s));
    return r;
  }

  // --- control
  struct End { Operation *op = nullptr; Res vals; };
  End region(Region &r, const Res &args) {
    if (++depth > 400) throw Fuel{};
    Block *b = &r.front();
    Res in = args;
    while (true) {
      if (in.size() != b->getNumArguments()) throw Unsupported{"block argument count"};
      for (auto [a, v] : llvm::zip(b->getArguments(), in)) env[a] = v;
      for (auto &op : *b) {
        if (++steps > fuel) throw Fuel{};
        if (op.hasTrait<OpTrait::IsTerminator>()) {
          StringRef n = op.getName().getStringRef();
          if (n == "cf.br") { in = gets(op.getOperands()); b = op.getSuccessor(0); goto next; }
          if (n == "cf.cond_br") {
            bool c = get(op.getOperand(0)).truth();
            see(c);
            auto br = cast<BranchOpInterface>(op);
            in = gets(br.getSuccessorOperands(c ? 0 : 1).getForwardedOperands());
            b = op.getSuccessor(c ? 0 : 1);
            goto next;
          }
          End e{&op, gets(op.getOperands())};
          depth--;
          return e;
        }
        exec(&op);
      }
      throw Unsupported{"block without terminator"};
    next:;
    }
  }
  void exec(Operation *op) {
    auto it = table.find(op->getName().getStringRef().str());
    Res out;
    if (it != table.end()) out = it->second(*this, op, gets(op->getOperands()));
    else if (auto e = ext.find(op->getName().getStringRef().str()); e != ext.end()) out = e->second(*this, op, gets(op->getOperands()));
    else if (auto l = dyn_cast<linalg::LinalgOp>(op)) out = linalgOp(l);
    else throw Unsupported{op->getName().getStringRef().str()};
    if (out.size() != op->getNumResults()) throw Unsupported{"result count of " + op->getName().getStringRef().str()};
    for (auto [r, v] : llvm::zip(op->getResults(), out)) env[r] = v;
  }
  Res call(StringRef name, const Res &args) {
    auto f = module.lookupSymbol<func::FuncOp>(name);
    if (!f) throw Unsupported{"call of missing " + name.str()};
    if (f.isDeclaration()) {
      if (auto e = externs.find(name.str()); e != externs.end()) return e->second(*this, f, args);
      std::string s = name.str() + "(";
      for (auto &a : args) s += show(a) + ";";
      uint64_t h = std::hash<std::string>()(s);
      log.push_back(s + ")");
      Res r;
      for (auto t : f.getResultTypes()) r.push_back(isa<FloatType>(t) ? Val::real((double)(h % 17)) : Val::integer(width(t), (int64_t)(h % 13)));
      return r;
    }
    // values of the caller may be overwritten by recursion: keep a private environment
    llvm::DenseMap<Value, Val> saved;
    std::swap(saved, env);
    End e = region(f.getBody(), args);
    std::swap(saved, env);
    return e.vals;
  }
  Val &global(StringRef name) {
    auto it = globals.find(name.str());
    if (it != globals.end()) return it->second;
    auto g = module.lookupSymbol<memref::GlobalOp>(name);
    if (!g) throw Unsupported{"missing global"};
    auto shape = shapeOf(g.getType());
    Elems e(product(shape), Val::poison());
    if (auto init = g.getInitialValue()) if (!isa<UnitAttr>(*init)) e = *fromAttr(*init, g.getType()).el;
    return globals[name.str()] = Val::newmem(shape, std::move(e));
  }
  Res linalgOp(linalg::LinalgOp op) {
    auto maps = op.getIndexingMapsArray();
    Res operands = gets(op->getOperands());
    std::vector<int64_t> ranges;
    for (auto r : op.getStaticLoopRanges()) { if (ShapedType::isDynamic(r)) throw Unsupported{"dynamic linalg"}; ranges.push_back(r); }
    int64_t nin = op.getNumDpsInputs(), nout = op.getNumDpsInits();
    Res outs;
    for (int64_t k = 0; k < nout; k++) {
      Val &v = operands[nin + k];
      if (v.k == Val::Tensor) v = Val::tensor(v.shape, *v.el);
      outs.push_back(v);
    }
    std::vector<int64_t> at(ranges.size(), 0);
    int64_t total = product(ranges);
    auto elem = [&](Val &v, AffineMap m) -> Val {
      if (v.k != Val::Tensor && v.k != Val::Mem) return v;
      auto ix = applyMap(m, at);
      if (v.k == Val::Mem) return cell(v, ix);
      return (*v.el)[flat(v.shape, ix)];
    };
    for (int64_t n = 0; n < total; n++) {
      int64_t q = n;
      for (size_t k = ranges.size(); k-- > 0;) { at[k] = q % ranges[k]; q /= ranges[k]; }
      Res in;
      for (int64_t k = 0; k < nin; k++) in.push_back(elem(operands[k], maps[k]));
      for (int64_t k = 0; k < nout; k++) in.push_back(elem(outs[k], maps[nin + k]));
      loopIdx.push_back(at);
      End e = region(op->getRegion(0), in);
      loopIdx.pop_back();
      for (int64_t k = 0; k < nout; k++) {
        auto ix = applyMap(maps[nin + k], at);
        if (outs[k].k == Val::Mem) cell(outs[k], ix) = e.vals[k];
        else (*outs[k].el)[flat(outs[k].shape, ix)] = e.vals[k];
      }
    }
    if (op->getNumResults() == 0) return {};
    return outs;
  }

  // --- tables
  std::unordered_map<std::string, Handler> table;
  using F1 = std::function<Val(const Res &, Operation *)>;
  static Val each(const Res &a, Operation *op, const F1 &fn) {
    bool agg = false;
    for (auto &x : a) { if (x.k == Val::Poison) return Val::poison(); if (x.k == Val::Tensor) agg = true; }
    if (!agg) return fn(a, op);
    const Val *m = nullptr;
    for (auto &x : a) if (x.k == Val::Tensor) { m = &x; break; }
    Elems out;
    for (size_t k = 0; k < m->el->size(); k++) {
      Res s;
      bool p = false;
      for (auto &x : a) { s.push_back(x.k == Val::Tensor ? (*x.el).at(k) : x); p |= s.back().k == Val::Poison; }
      out.push_back(p ? Val::poison() : fn(s, op));
    }
    return Val::tensor(m->shape, std::move(out));
  }
  void on(const char *n, Handler h) { table[n] = std::move(h); }
  void pure(const char *n, F1 f) { table[n] = [f](Interp &, Operation *op, const Res &a) -> Res { return {each(a, op, f)}; }; }
  void bin(const char *n, std::function<APInt(const APInt &, const APInt &)> f) {
    pure(n, [f](const Res &a, Operation *op) {
      APInt r = f(a[0].i, a[1].i);
      if (auto o = dyn_cast<arith::ArithIntegerOverflowFlagsInterface>(op)) {
        bool of = false;
        auto check = [&](bool sgn) {
          if (isa<arith::AddIOp>(op)) sgn ? (void)a[0].i.sadd_ov(a[1].i, of) : (void)a[0].i.uadd_ov(a[1].i, of);
          else if (isa<arith::SubIOp>(op)) sgn ? (void)a[0].i.ssub_ov(a[1].i, of) : (void)a[0].i.usub_ov(a[1].i, of);
          else if (isa<arith::MulIOp>(op)) sgn ? (void)a[0].i.smul_ov(a[1].i, of) : (void)a[0].i.umul_ov(a[1].i, of);
          return of;
        };
        if (o.hasNoSignedWrap() && check(true)) return Val::poison();
        if (o.hasNoUnsignedWrap() && check(false)) return Val::poison();
      }
      return Val::integer(r);
    });
  }
  void fbin(const char *n, std::function<double(double, double)> f) {
    pure(n, [f](const Res &a, Operation *op) { return Val::real(rnd(op->getResult(0).getType(), f(a[0].f, a[1].f))); });
  }
  static Type resElem(Operation *op) { return getElementTypeOrSelf(op->getResult(0).getType()); }
  static Val zeroOf(Type t) {
    t = getElementTypeOrSelf(t);
    if (isa<FloatType>(t)) return Val::real(0);
    return Val::integer(width(t), 0);
  }
  static Val reshaped(const Val &v, std::vector<int64_t> s) {
    if (product(s) != (int64_t)(v.k == Val::Mem ? v.mem->pos.size() : v.el->size())) throw Unsupported{"reshape size"};
    Val r = v;
    r.shape = std::move(s);
    return r;
  }
  // positions selected by offsets/sizes/strides in a row-major array
  static std::vector<int64_t> slice(const std::vector<int64_t> &shape, const std::vector<int64_t> &off, const std::vector<int64_t> &size, const std::vector<int64_t> &stride) {
    std::vector<int64_t> out;
    int64_t n = product(size);
    for (int64_t q0 = 0; q0 < n; q0++) {
      int64_t q = q0;
      std::vector<int64_t> ix(shape.size());
      for (size_t k = shape.size(); k-- > 0;) { ix[k] = off[k] + (q % size[k]) * stride[k]; q /= size[k]; }
      out.push_back(flat(shape, ix));
    }
    return out;
  }
  void setup() {
    using B = APInt;
    on("arith.constant", [](Interp &in, Operation *op, const Res &) -> Res { return {in.fromAttr(cast<arith::ConstantOp>(op).getValue(), op->getResult(0).getType())}; });
    on("func.constant", [](Interp &, Operation *, const Res &) -> Res { throw Unsupported{"func.constant"}; });
    bin("arith.addi", [](const B &a, const B &b) { return a + b; });
    bin("arith.subi", [](const B &a, const B &b) { return a - b; });
    bin("arith.muli", [](const B &a, const B &b) { return a * b; });
    bin("arith.andi", [](const B &a, const B &b) { return a & b; });
    bin("arith.ori", [](const B &a, const B &b) { return a | b; });
    bin("arith.xori", [](const B &a, const B &b) { return a ^ b; });
    bin("arith.maxsi", [](const B &a, const B &b) { return a.sgt(b) ? a : b; });
    bin("arith.minsi", [](const B &a, const B &b) { return a.slt(b) ? a : b; });
    bin("arith.maxui", [](const B &a, const B &b) { return a.ugt(b) ? a : b; });
    bin("arith.minui", [](const B &a, const B &b) { return a.ult(b) ? a : b; });
    auto nz = [](const B &b) { if (b.isZero()) throw UB{"division by zero"}; };
    auto so = [nz](const B &a, const B &b) { nz(b); if (a.isMinSignedValue() && b.isAllOnes()) throw UB{"signed division overflow"}; };
    bin("arith.divui", [nz](const B &a, const B &b) { nz(b); return a.udiv(b); });
    bin("arith.remui", [nz](const B &a, const B &b) { nz(b); return a.urem(b); });
    bin("arith.divsi", [so](const B &a, const B &b) { so(a, b); return a.sdiv(b); });
    bin("arith.remsi", [so](const B &a, const B &b) { so(a, b); return a.srem(b); });
    bin("arith.floordivsi", [so](const B &a, const B &b) { so(a, b); B q = a.sdiv(b), r = a.srem(b); if (!r.isZero() && r.isNegative() != b.isNegative()) q -= 1; return q; });
    bin("arith.ceildivsi", [so](const B &a, const B &b) { so(a, b); B q = a.sdiv(b), r = a.srem(b); if (!r.isZero() && r.isNegative() == b.isNegative()) q += 1; return q; });
    bin("arith.ceildivui", [nz](const B &a, const B &b) { nz(b); B q = a.udiv(b); if (!a.urem(b).isZero()) q += 1; return q; });
    auto shift = [this](const char *n, int kind) {
      pure(n, [kind](const Res &a, Operation *) {
        if (a[1].i.uge(a[0].i.getBitWidth())) return Val::poison();
        unsigned s = a[1].i.getZExtValue();
        return Val::integer(kind == 0 ? a[0].i.shl(s) : kind == 1 ? a[0].i.lshr(s) : a[0].i.ashr(s));
      });
    };
    shift("arith.shli", 0); shift("arith.shrui", 1); shift("arith.shrsi", 2);
    pure("arith.cmpi", [](const Res &a, Operation *op) {
      using P = arith::CmpIPredicate;
      const B &x = a[0].i, &y = a[1].i;
      bool r = false;
      switch (cast<arith::CmpIOp>(op).getPredicate()) {
        case P::eq: r = x == y; break; case P::ne: r = x != y; break; case P::slt: r = x.slt(y); break; case P::sle: r = x.sle(y); break;
        case P::sgt: r = x.sgt(y); break; case P::sge: r = x.sge(y); break; case P::ult: r = x.ult(y); break; case P::ule: r = x.ule(y); break;
        case P::ugt: r = x.ugt(y); break; case P::uge: r = x.uge(y); break;
      }
      return Val::integer(1, r);
    });
    pure("arith.cmpf", [](const Res &a, Operation *op) {
      using P = arith::CmpFPredicate;
      double x = a[0].f, y = a[1].f;
      bool u = std::isnan(x) || std::isnan(y), r = false;
      switch (cast<arith::CmpFOp>(op).getPredicate()) {
        case P::AlwaysFalse: r = false; break; case P::AlwaysTrue: r = true; break;
        case P::OEQ: r = !u && x == y; break; case P::OGT: r = !u && x > y; break; case P::OGE: r = !u && x >= y; break;
        case P::OLT: r = !u && x < y; break; case P::OLE: r = !u && x <= y; break; case P::ONE: r = !u && x != y; break; case P::ORD: r = !u; break;
        case P::UEQ: r = u || x == y; break; case P::UGT: r = u || x > y; break; case P::UGE: r = u || x >= y; break;
        case P::ULT: r = u || x < y; break; case P::ULE: r = u || x <= y; break; case P::UNE: r = u || x != y; break; case P::UNO: r = u; break;
      }
      return Val::integer(1, r);
    });
    on("arith.select", [](Interp &, Operation *op, const Res &a) -> Res {
      if (a[0].k == Val::Poison) return {Val::poison()};
      if (a[0].k == Val::Int) return {a[0].i.isZero() ? a[2] : a[1]};
      Elems e;
      for (size_t k = 0; k < a[0].el->size(); k++) { auto &c = (*a[0].el)[k]; e.push_back(c.k == Val::Poison ? c : c.i.isZero() ? (*a[2].el)[k] : (*a[1].el)[k]); }
      return {Val::tensor(a[0].shape, e)};
    });
    pure("arith.extui", [](const Res &a, Operation *op) { return Val::integer(a[0].i.zext(width(resElem(op)))); });
    pure("arith.extsi", [](const Res &a, Operation *op) { return Val::integer(a[0].i.sext(width(resElem(op)))); });
    pure("arith.trunci", [](const Res &a, Operation *op) {
      unsigned w = width(resElem(op));
      B r = a[0].i.trunc(w);
      return Val::integer(r);
    });
    pure("arith.index_cast", [](const Res &a, Operation *op) { return Val::integer(a[0].i.sextOrTrunc(width(resElem(op)))); });
    pure("arith.index_castui", [](const Res &a, Operation *op) { return Val::integer(a[0].i.zextOrTrunc(width(resElem(op)))); });
    on("arith.mulsi_extended", [](Interp &, Operation *op, const Res &a) -> Res {
      auto f = [&](bool hi) { return each(a, op, [hi](const Res &x, Operation *) { unsigned w = x[0].i.getBitWidth(); B p = x[0].i.sext(2 * w) * x[1].i.sext(2 * w); return Val::integer(hi ? p.extractBits(w, w) : p.trunc(w)); }); };
      return {f(false), f(true)};
    });
    on("arith.mului_extended", [](Interp &, Operation *op, const Res &a) -> Res {
      auto f = [&](bool hi) { return each(a, op, [hi](const Res &x, Operation *) { unsigned w = x[0].i.getBitWidth(); B p = x[0].i.zext(2 * w) * x[1].i.zext(2 * w); return Val::integer(hi ? p.extractBits(w, w) : p.trunc(w)); }); };
      return {f(false), f(true)};
    });
    on("arith.addui_extended", [](Interp &, Operation *op, const Res &a) -> Res {
      auto f = [&](bool hi) { return each(a, op, [hi](const Res &x, Operation *) { bool o; B p = x[0].i.uadd_ov(x[1].i, o); return hi ? Val::integer(1, o) : Val::integer(p); }); };
      return {f(false), f(true)};
    });
    fbin("arith.addf", [](double a, double b) { return a + b; });
    fbin("arith.subf", [](double a, double b) { return a - b; });
    fbin("arith.mulf", [](double a, double b) { return a * b; });
    fbin("arith.divf", [](double a, double b) { return a / b; });
    fbin("arith.remf", [](double a, double b) { return std::fmod(a, b); });
    auto fm = [](double a, double b, bool mx) { return std::isnan(a) || std::isnan(b) ? NAN : (mx ? std::fmax(a, b) : std::fmin(a, b)); };
    fbin("arith.maximumf", [fm](double a, double b) { return fm(a, b, true); });
    fbin("arith.minimumf", [fm](double a, double b) { return fm(a, b, false); });
    fbin("arith.maxnumf", [](double a, double b) { return std::fmax(a, b); });
    fbin("arith.minnumf", [](double a, double b) { return std::fmin(a, b); });
    fbin("math.powf", [](double a, double b) { return std::pow(a, b); });
    auto un = [this](const char *n, double (*f)(double)) { pure(n, [f](const Res &a, Operation *op) { return Val::real(rnd(op->getResult(0).getType(), f(a[0].f))); }); };
    un("arith.negf", [](double x) { return -x; });
    un("math.absf", [](double x) { return std::fabs(x); });
    un("math.exp", [](double x) { return std::exp(x); });
    un("math.tanh", [](double x) { return std::tanh(x); });
    un("math.sqrt", [](double x) { return std::sqrt(x); });
    un("math.sin", [](double x) { return std::sin(x); });
    un("math.cos", [](double x) { return std::cos(x); });
    pure("math.absi", [](const Res &a, Operation *) { return Val::integer(a[0].i.abs()); });
    pure("math.fpowi", [](const Res &a, Operation *op) { return Val::real(rnd(op->getResult(0).getType(), std::pow(a[0].f, (double)a[1].i.getSExtValue()))); });
    pure("math.ipowi", [](const Res &a, Operation *) {
      int64_t n = a[1].i.getSExtValue();
      if (n < 0 || n > 4096) throw Unsupported{"ipowi exponent"};
      B r(a[0].i.getBitWidth(), 1);
      for (int64_t k = 0; k < n; k++) r *= a[0].i;
      return Val::integer(r);
    });
    pure("arith.sitofp", [](const Res &a, Operation *op) { return Val::real(rnd(resElem(op), (double)a[0].i.getSExtValue())); });
    pure("arith.uitofp", [](const Res &a, Operation *op) { return Val::real(rnd(resElem(op), (double)a[0].i.getZExtValue())); });
    auto ftoi = [this](const char *n, bool sg) {
      pure(n, [sg](const Res &a, Operation *op) {
        unsigned w = width(resElem(op));
        double t = std::trunc(a[0].f), lo = sg ? -std::ldexp(1, w - 1) : 0, hi = std::ldexp(1, sg ? w - 1 : w);
        if (!(t >= lo && t < hi)) return Val::poison();
        return sg ? Val::integer(w, (int64_t)t) : Val::integer(APInt(64, (uint64_t)t).zextOrTrunc(w));
      });
    };
    ftoi("arith.fptosi", true); ftoi("arith.fptoui", false);
    pure("arith.extf", [](const Res &a, Operation *op) { return Val::real(rnd(resElem(op), a[0].f)); });
    pure("arith.truncf", [](const Res &a, Operation *op) { return Val::real(rnd(resElem(op), a[0].f)); });
    on("ub.poison", [](Interp &, Operation *, const Res &) -> Res { return {Val::poison()}; });

    // func
    on("func.call", [](Interp &in, Operation *op, const Res &a) -> Res { return in.call(cast<func::CallOp>(op).getCallee(), a); });
    // scf
    on("scf.if", [](Interp &in, Operation *op, const Res &a) -> Res {
      bool c = a[0].truth();
      in.see(c);
      Region &r = op->getRegion(c ? 0 : 1);
      if (r.empty()) return {};
      return in.region(r, {}).vals;
    });
    on("scf.for", [](Interp &in, Operation *op, const Res &a) -> Res {
      int64_t lo = a[0].idx("bound"), hi = a[1].idx("bound"), st = a[2].idx("step");
      if (st <= 0) throw UB{"non-positive step"};
      unsigned w = a[0].i.getBitWidth();
      Res carried(a.begin() + 3, a.end());
      for (int64_t i = lo; i < hi; i += st) {
        in.see(1);
        Res args{Val::integer(w, i)};
        args.insert(args.end(), carried.begin(), carried.end());
        carried = in.region(op->getRegion(0), args).vals;
      }
      in.see(0);
      return carried;
    });
    on("scf.while", [](Interp &in, Operation *op, const Res &a) -> Res {
      Res cur = a;
      while (true) {
        End e = in.region(op->getRegion(0), cur);
        bool go = e.vals[0].truth();
        in.see(go);
        Res rest(e.vals.begin() + 1, e.vals.end());
        if (!go) return rest;
        cur = in.region(op->getRegion(1), rest).vals;
      }
    });
    on("scf.execute_region", [](Interp &in, Operation *op, const Res &) -> Res { return in.region(op->getRegion(0), {}).vals; });
    // affine
    on("affine.for", [](Interp &in, Operation *op, const Res &) -> Res {
      auto f = cast<affine::AffineForOp>(op);
      auto lows = in.applyMap(f.getLowerBoundMap(), in.ints(f.getLowerBoundOperands())), his = in.applyMap(f.getUpperBoundMap(), in.ints(f.getUpperBoundOperands()));
      int64_t lo = *std::max_element(lows.begin(), lows.end()), hi = *std::min_element(his.begin(), his.end()), st = f.getStepAsInt();
      Res carried = in.gets(f.getInits());
      for (int64_t i = lo; i < hi; i += st) {
        in.see(1);
        Res args{Val::index(i)};
        args.insert(args.end(), carried.begin(), carried.end());
        carried = in.region(op->getRegion(0), args).vals;
      }
      in.see(0);
      return carried;
    });
    on("affine.if", [](Interp &in, Operation *op, const Res &) -> Res {
      auto f = cast<affine::AffineIfOp>(op);
      auto set = f.getIntegerSet();
      auto v = in.ints(op->getOperands());
      std::vector<int64_t> d(v.begin(), v.begin() + set.getNumDims()), s(v.begin() + set.getNumDims(), v.end());
      bool ok = true;
      for (unsigned k = 0; k < set.getNumConstraints(); k++) { int64_t x = evalExpr(set.getConstraint(k), d, s); ok &= set.isEq(k) ? x == 0 : x >= 0; }
      in.see(ok);
      Region &r = op->getRegion(ok ? 0 : 1);
      if (r.empty()) return {};
      return in.region(r, {}).vals;
    });
    on("affine.apply", [](Interp &in, Operation *op, const Res &) -> Res { auto f = cast<affine::AffineApplyOp>(op); return {Val::index(in.applyMap(f.getAffineMap(), in.ints(op->getOperands()))[0])}; });
    on("affine.min", [](Interp &in, Operation *op, const Res &) -> Res { auto r = in.applyMap(cast<affine::AffineMinOp>(op).getMap(), in.ints(op->getOperands())); return {Val::index(*std::min_element(r.begin(), r.end()))}; });
    on("affine.max", [](Interp &in, Operation *op, const Res &) -> Res { auto r = in.applyMap(cast<affine::AffineMaxOp>(op).getMap(), in.ints(op->getOperands())); return {Val::index(*std::max_element(r.begin(), r.end()))}; });
    on("affine.load", [](Interp &in, Operation *op, const Res &a) -> Res { auto l = cast<affine::AffineLoadOp>(op); return {in.cell(a[0], in.applyMap(l.getAffineMap(), in.ints(l.getMapOperands())))}; });
    on("affine.store", [](Interp &in, Operation *op, const Res &a) -> Res { auto l = cast<affine::AffineStoreOp>(op); in.cell(a[1], in.applyMap(l.getAffineMap(), in.ints(l.getMapOperands()))) = a[0]; return {}; });
    // memref
    auto alloc = [](Interp &in, Operation *op, const Res &a) -> Res { auto s = shapeWith(op->getResult(0).getType(), a); return {Val::newmem(s, Elems(product(s), Val::poison()))}; };
    on("memref.alloc", alloc); on("memref.alloca", alloc);
    on("memref.dealloc", [](Interp &, Operation *, const Res &a) -> Res { if (a[0].mem->buf->freed) throw UB{"double free"}; a[0].mem->buf->freed = true; return {}; });
    on("memref.load", [](Interp &in, Operation *op, const Res &a) -> Res { return {in.cell(a[0], in.ints(op->getOperands().drop_front(1)))}; });
    on("memref.store", [](Interp &in, Operation *op, const Res &a) -> Res { in.cell(a[1], in.ints(op->getOperands().drop_front(2))) = a[0]; return {}; });
    on("memref.copy", [](Interp &in, Operation *op, const Res &a) -> Res {
      if (a[0].mem->buf->freed || a[1].mem->buf->freed) throw UB{"use after free"};
      if (a[0].shape != a[1].shape) throw UB{"copy of different shapes"};
      Elems t;
      for (auto p : a[0].mem->pos) t.push_back(a[0].mem->buf->data[p]);
      for (size_t k = 0; k < t.size(); k++) a[1].mem->buf->data[a[1].mem->pos[k]] = t[k];
      return {};
    });
    on("memref.get_global", [](Interp &in, Operation *op, const Res &) -> Res { return {in.global(cast<memref::GetGlobalOp>(op).getName())}; });
    on("memref.cast", [](Interp &in, Operation *op, const Res &a) -> Res { return {a[0]}; });
    on("memref.subview", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto s = cast<memref::SubViewOp>(op);
      auto size = in.ofr(s.getMixedSizes());
      auto m = std::make_shared<View>();
      m->buf = a[0].mem->buf;
      for (auto p : slice(a[0].shape, in.ofr(s.getMixedOffsets()), size, in.ofr(s.getMixedStrides()))) m->pos.push_back(a[0].mem->pos[p]);
      auto rs = s.getType();
      return {Val::memory(rs.hasStaticShape() ? shapeOf(rs) : size, m)};
    });
    auto resh = [](Interp &, Operation *op, const Res &a) -> Res { return {reshaped(a[0], shapeOf(op->getResult(0).getType()))}; };
    on("memref.collapse_shape", resh); on("memref.expand_shape", resh);
    on("memref.dim", [](Interp &in, Operation *op, const Res &a) -> Res { auto i = a[1].idx(); if (i < 0 || i >= (int64_t)a[0].shape.size()) throw UB{"dim"}; return {Val::index(a[0].shape[i])}; });
    // tensor
    on("tensor.empty", [](Interp &in, Operation *op, const Res &a) -> Res { auto s = shapeWith(op->getResult(0).getType(), a); return {Val::tensor(s, Elems(product(s), Val::poison()))}; });
    on("tensor.extract", [](Interp &in, Operation *op, const Res &a) -> Res { auto ix = in.ints(op->getOperands().drop_front(1)); for (auto x : ix) in.see(x); if (a[0].k == Val::Poison) return {a[0]}; return {(*a[0].el)[flat(a[0].shape, ix)]}; });
    on("tensor.insert", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto ix = in.ints(op->getOperands().drop_front(2));
      for (auto x : ix) in.see(x);
      if (a[1].k == Val::Poison) return {a[1]};
      Elems e = *a[1].el;
      e[flat(a[1].shape, ix)] = a[0];
      return {Val::tensor(a[1].shape, std::move(e))};
    });
    on("tensor.from_elements", [](Interp &in, Operation *op, const Res &a) -> Res { return {Val::tensor(shapeOf(op->getResult(0).getType()), a)}; });
    on("tensor.splat", [](Interp &in, Operation *op, const Res &a) -> Res { auto s = shapeWith(op->getResult(0).getType(), Res(a.begin() + 1, a.end())); return {Val::tensor(s, Elems(product(s), a[0]))}; });
    on("tensor.dim", [](Interp &in, Operation *op, const Res &a) -> Res { auto i = a[1].idx(); if (i < 0 || i >= (int64_t)a[0].shape.size()) throw UB{"dim"}; return {Val::index(a[0].shape[i])}; });
    on("tensor.cast", [](Interp &in, Operation *op, const Res &a) -> Res { return {a[0]}; });
    on("tensor.collapse_shape", resh); on("tensor.expand_shape", resh); on("tensor.reshape", resh);
    on("tensor.extract_slice", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto s = cast<tensor::ExtractSliceOp>(op);
      auto size = in.ofr(s.getMixedSizes()), off = in.ofr(s.getMixedOffsets());
      for (auto x : off) in.see(x);
      Elems e;
      for (auto p : slice(a[0].shape, off, size, in.ofr(s.getMixedStrides()))) e.push_back((*a[0].el)[p]);
      return {Val::tensor(s.getType().hasStaticShape() ? shapeOf(s.getType()) : size, std::move(e))};
    });
    on("tensor.insert_slice", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto s = cast<tensor::InsertSliceOp>(op);
      auto off = in.ofr(s.getMixedOffsets());
      for (auto x : off) in.see(x);
      auto ps = slice(a[1].shape, off, in.ofr(s.getMixedSizes()), in.ofr(s.getMixedStrides()));
      Elems e = *a[1].el;
      if (ps.size() != a[0].el->size()) throw Unsupported{"insert_slice size"};
      for (size_t k = 0; k < ps.size(); k++) e[ps[k]] = (*a[0].el)[k];
      return {Val::tensor(a[1].shape, std::move(e))};
    });
    on("tensor.concat", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto shape = shapeOf(op->getResult(0).getType());
      int64_t dim = cast<tensor::ConcatOp>(op).getDim(), at = 0;
      Elems e(product(shape));
      for (auto &x : a) {
        std::vector<int64_t> off(shape.size(), 0), one(shape.size(), 1);
        off[dim] = at;
        auto ps = slice(shape, off, x.shape, one);
        for (size_t k = 0; k < ps.size(); k++) e[ps[k]] = (*x.el)[k];
        at += x.shape[dim];
      }
      return {Val::tensor(shape, std::move(e))};
    });
    on("tensor.generate", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto shape = shapeWith(op->getResult(0).getType(), a);
      Elems e;
      for (int64_t n = 0; n < product(shape); n++) {
        Res ix(shape.size());
        int64_t q = n;
        for (size_t k = shape.size(); k-- > 0;) { ix[k] = Val::index(q % shape[k]); q /= shape[k]; }
        e.push_back(in.region(op->getRegion(0), ix).vals[0]);
      }
      return {Val::tensor(shape, std::move(e))};
    });
    on("tensor.pad", [](Interp &in, Operation *op, const Res &a) -> Res {
      auto p = cast<tensor::PadOp>(op);
      auto lo = in.ofr(p.getMixedLowPad()), hi = in.ofr(p.getMixedHighPad());
      std::vector<int64_t> shape = a[0].shape;
      for (size_t k = 0; k < shape.size(); k++) shape[k] += lo[k] + hi[k];
      Elems e;
      for (int64_t n = 0; n < product(shape); n++) {
        Res ix(shape.size());
        std::vector<int64_t> src(shape.size());
        int64_t q = n;
        bool inside = true;
        for (size_t k = shape.size(); k-- > 0;) { int64_t c = q % shape[k]; q /= shape[k]; ix[k] = Val::index(c); src[k] = c - lo[k]; inside &= src[k] >= 0 && src[k] < a[0].shape[k]; }
        e.push_back(inside ? (*a[0].el)[flat(a[0].shape, src)] : in.region(op->getRegion(0), ix).vals[0]);
      }
      return {Val::tensor(shape, std::move(e))};
    });
    on("linalg.index", [](Interp &in, Operation *op, const Res &) -> Res { return {Val::index(in.loopIdx.back().at(cast<linalg::IndexOp>(op).getDim()))}; });
    // secrets are transparent
    auto id = [](Interp &, Operation *, const Res &a) -> Res { return {a[0]}; };
    on("secret.conceal", id); on("secret.reveal", id);
    on("secret.generic", [](Interp &in, Operation *op, const Res &a) -> Res { return in.region(op->getRegion(0), a).vals; });
    on("bufferization.to_tensor", [](Interp &in, Operation *op, const Res &a) -> Res { Elems e; for (auto p : a[0].mem->pos) e.push_back(a[0].mem->buf->data[p]); return {Val::tensor(a[0].shape, std::move(e))}; });
  }
};

struct Outcome {
  enum { Ok, Undefined, NotSupported, OutOfFuel } st = Ok;
  std::string why;
  std::vector<Val> results, args; // args: as left after the call (memory)
  std::vector<std::string> log;
  std::map<std::string, Val> globals;
  std::vector<int64_t> trace;
  int64_t steps = 0;
};
inline Outcome run(ModuleOp m, StringRef fn, const std::vector<Val> &args, std::function<void(Interp &)> extend = nullptr, bool tracing = false, int64_t fuel = 300000) {
  Outcome o;
  Cloner cl;
  for (auto &a : args) o.args.push_back(cl(a));
  Interp in(m);
  in.tracing = tracing;
  in.fuel = fuel;
  if (extend) extend(in);
  try { o.results = in.call(fn, o.args); }
  catch (UB &u) { o.st = Outcome::Undefined; o.why = u.why; }
  catch (Unsupported &u) { o.st = Outcome::NotSupported; o.why = u.op; }
  catch (Fuel &) { o.st = Outcome::OutOfFuel; o.why = "step limit"; }
  o.log = in.log; o.globals = in.globals; o.trace = in.trace; o.steps = in.steps;
  return o;
}
} // namespace interp
