// O05: programs lowered to a scheme, and to a library's API, are executed by machines that keep the level, scale, dimension and keys of every ciphertext.
#include "heiropt.h"
#include "interp.h"
#include <cmath>
#include <set>
#include "lib/Dialect/LWE/IR/LWEAttributes.h"
#include "lib/Dialect/LWE/IR/LWETypes.h"
#include "lib/Dialect/ModArith/IR/ModArithTypes.h"
#include "lib/Dialect/RNS/IR/RNSTypes.h"
#include "lib/Dialect/Lattigo/IR/LattigoAttributes.h"
#include "lib/Dialect/CKKS/IR/CKKSAttributes.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
using namespace mlir;
namespace lwe = mlir::heir::lwe;
using mon::S;
using interp::Val;
using interp::Elems;
using Res = interp::Interp::Res;
using interp::Interp;
using interp::Outcome;
#include "tensorgen.h"
#include "slots.h"

namespace {
struct Broken { std::string key, why; };
struct Ct { std::vector<double> f; std::vector<int64_t> i; bool pt = false; int64_t level = -1; double scale = -1; int64_t dim = 2, depth = 0; };
struct Decl { int64_t level = -1, dim = -1, scale = -1, t = 0; bool ct = false; };
Decl declared(Type ty) {
  Decl d;
  auto space = [&](lwe::PlaintextSpaceAttr p) {
    if (auto e = dyn_cast<lwe::InverseCanonicalEncodingAttr>(p.getEncoding())) d.scale = e.getScalingFactor();
    if (auto e = dyn_cast<lwe::FullCRTPackingEncodingAttr>(p.getEncoding())) d.scale = e.getScalingFactor();
    if (auto m = dyn_cast<heir::mod_arith::ModArithType>(p.getRing().getCoefficientType())) d.t = m.getModulus().getValue().getSExtValue();
  };
  if (auto c = dyn_cast<lwe::LWECiphertextType>(ty)) {
    d.ct = true;
    d.dim = c.getCiphertextSpace().getSize();
    auto k = c.getCiphertextSpace().getRing().getCoefficientType();
    if (auto r = dyn_cast<heir::rns::RNSType>(k)) d.level = r.getBasisTypes().size() - 1;
    else d.level = 0;
    space(c.getPlaintextSpace());
  } else if (auto p = dyn_cast<lwe::LWEPlaintextType>(ty)) space(p.getPlaintextSpace());
  return d;
}
int64_t inverse(int64_t a, int64_t t) { a %= t; if (a < 0) a += t; int64_t r = t, nr = a, x = 0, nx = 1; while (nr) { int64_t q = r / nr; std::swap(x, nx); nx -= q * x; std::swap(r, nr); nr -= q * r; } return x < 0 ? x + t : x; }
struct Machine {
  mon::Case &c;
  bool fl, sized = true;
  std::string scheme, backend;
  std::vector<Ct> ct;       // a value of ciphertext or plaintext type is an index here: operations in place are seen by everyone who holds it
  std::map<std::string, int64_t> seen;
  int64_t slots, logScale = 0, maxLevel = 0, mulDepth = -1, logN = 0;
  std::vector<double> q;
  std::set<int64_t> rotKeys, rotUsed;
  bool mulKey = false, bootKey = false;
  int64_t maxDepth = 0, minLevel = 1000;
  Machine(mon::Case &c, bool fl, std::string s, std::string b, int64_t slots) : c(c), fl(fl), scheme(s), backend(b), slots(slots) {}
  void must(bool ok, const char *key, const std::string &why) { c.event("conditions checked"); if (!ok) throw Broken{key, why}; }
  static std::string where(Operation *op) { std::string s = heiropt::text(op); return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }
  Ct &at(const Val &v) { if (v.k == Val::Poison) throw interp::UB{"an uninitialised ciphertext is used"}; return ct.at(v.idx("ciphertext")); }
  Val put(Ct x) { ct.push_back(std::move(x)); return Val::index(ct.size() - 1); }
  Ct arith(const Ct &a, const Ct &b, char o) {
    Ct r = a.pt ? b : a;
    r.pt = a.pt && b.pt;
    size_t n = std::max(a.f.size() + a.i.size(), b.f.size() + b.i.size());
    if (fl) { r.f.assign(n, 0); for (size_t k = 0; k < n; k++) { double x = a.f[k % a.f.size()], y = b.f[k % b.f.size()]; r.f[k] = o == '+' ? x + y : o == '-' ? x - y : x * y; } }
    else { r.i.assign(n, 0); for (size_t k = 0; k < n; k++) { uint64_t x = a.i[k % a.i.size()], y = b.i[k % b.i.size()]; r.i[k] = o == '+' ? x + y : o == '-' ? x - y : x * y; } }
    r.depth = std::max(a.depth, b.depth) + (o == '*');
    maxDepth = std::max(maxDepth, r.depth);
    return r;
  }
  Ct turn(const Ct &a, int64_t s) {
    Ct r = a;
    int64_t n = fl ? a.f.size() : a.i.size();
    for (int64_t k = 0; k < n; k++) { int64_t j = (((k + s) % n) + n) % n; if (fl) r.f[k] = a.f[j]; else r.i[k] = a.i[j]; }
    return r;
  }
  Ct encode(const Val &v) {
    Ct r;
    r.pt = true;
    const Elems *e = nullptr;
    Elems tmp;
    if (v.k == Val::Mem) { for (auto p : v.mem->pos) tmp.push_back(v.mem->buf->data[p]); e = &tmp; }
    else if (v.k == Val::Tensor) e = v.el.get();
    else { tmp.push_back(v); e = &tmp; }
    for (auto &x : *e) {
      if (x.k == Val::Poison) { if (fl) r.f.push_back(std::nan("")); else r.i.push_back(0x5bd1e995); continue; }
      if (fl) r.f.push_back(x.k == Val::Float ? x.f : (double)x.i.getSExtValue()); else r.i.push_back(x.idx("slot"));
    }
    return r;
  }
  Elems decode(const Ct &a, Type elt, int64_t n) {
    Elems e;
    int64_t have = fl ? a.f.size() : a.i.size();
    for (int64_t k = 0; k < n; k++) {
      if (fl) e.push_back(isa<IntegerType>(elt) ? Val::integer(cast<IntegerType>(elt).getWidth(), std::llround(a.f[k % have])) : Val::real(a.f[k % have]));
      else e.push_back(Val::integer(cast<IntegerType>(elt).getWidth(), a.i[k % have]));
    }
    return e;
  }
  // does a value have the level, dimension and scale its type declares?
  void agree(Operation *op, const Ct &x, Type ty) {
    Decl d = declared(ty);
    if (d.ct && d.level >= 0 && x.level >= 0 && scheme != "bfv") must(d.level == x.level, "type-level", S() << "the type declares level " << d.level << " but the value is at level " << x.level << ": " << where(op));
    if (d.ct && d.dim >= 0) must(d.dim == x.dim, "type-dimension", S() << "the type declares dimension " << d.dim << " but the value has " << x.dim << ": " << where(op));
    if (d.scale >= 0 && x.scale >= 0 && scheme != "bfv") must(d.scale == x.scale, "type-scale", S() << "the type declares scale " << d.scale << " but the value has " << x.scale << ": " << where(op));
  }
  std::set<std::string> kinds;
  void on(Interp &in, const std::string &n, std::function<Res(Interp &, Operation *, const Res &)> f) {
    in.ext[n] = [this, n, f](Interp &i, Operation *op, const Res &a) -> Res { seen[n]++; return f(i, op, a); };
  }
  Val finish(Operation *op, Ct r) { agree(op, r, op->getResult(0).getType()); minLevel = std::min(minLevel, r.level); return put(r); }
  static int64_t shift(Operation *op, const Res &a, unsigned operand) {
    if (auto s = op->getAttrOfType<IntegerAttr>("static_shift")) return s.getInt();
    if (a.size() <= operand) throw interp::Unsupported{"a rotation without an amount"};
    return a[operand].idx("rotation");
  }
  void schemeOps(Interp &in) {
    on(in, "lwe.rlwe_encode", [this](Interp &, Operation *op, const Res &a) -> Res {
      Ct r = encode(a[0]);
      r.scale = declared(op->getResult(0).getType()).scale;
      if (auto l = op->getAttrOfType<IntegerAttr>("level")) r.level = l.getInt();
      if (auto s = op->getAttrOfType<IntegerAttr>("scale")) must(s.getInt() == r.scale || scheme == "bfv", "encode-scale", S() << "encoded at scale " << s.getInt() << ": " << where(op));
      return {put(r)};
    });
    on(in, "lwe.rlwe_encrypt", [this](Interp &, Operation *op, const Res &a) -> Res {
      Ct r = at(a[0]);
      must(r.pt, "encrypt", where(op));
      r.pt = false; r.dim = 2; r.level = declared(op->getResult(0).getType()).level;
      maxLevel = std::max(maxLevel, r.level);
      return {finish(op, r)};
    });
    on(in, "lwe.trivial_encrypt", [this](Interp &, Operation *op, const Res &a) -> Res {
      Ct r = at(a[0]);
      r.pt = false; auto d = declared(op->getResult(0).getType()); r.dim = d.dim; r.level = d.level;
      return {finish(op, r)};
    });
    on(in, "lwe.rlwe_decrypt", [this](Interp &, Operation *op, const Res &a) -> Res {
      Ct r = at(a[0]);
      agree(op, r, op->getOperand(0).getType());
      must(r.level >= 0, "negative-level", where(op));
      r.pt = true;
      return {finish(op, r)};
    });
    on(in, "lwe.rlwe_decode", [this](Interp &, Operation *op, const Res &a) -> Res {
      Ct r = at(a[0]);
      agree(op, r, op->getOperand(0).getType());
      auto t = op->getResult(0).getType();
      if (auto s = dyn_cast<ShapedType>(t)) return {Val::tensor(s.getShape().vec(), decode(r, s.getElementType(), s.getNumElements()))};
      return {decode(r, t, 1)[0]};
    });
    for (std::string p : {"ckks", "bgv"}) {
      for (std::string o : {"add", "sub", "add_plain", "sub_plain"}) on(in, p + "." + o, [this, o](Interp &, Operation *op, const Res &a) -> Res {
        Ct x = at(a[0]), y = at(a[1]);
        bool plain = x.pt || y.pt;
        must(plain == (o.find("plain") != std::string::npos) && !(x.pt && y.pt), "operand-kinds", where(op));
        if (!plain && scheme != "bfv") must(x.level == y.level, "add-level", S() << "operands at levels " << x.level << " and " << y.level << ": " << where(op));
        if (plain && scheme != "bfv" && x.level >= 0 && y.level >= 0) must(x.pt ? x.level >= y.level : y.level >= x.level, "plain-level", S() << "a plaintext encoded at level " << (x.pt ? x.level : y.level) << " meets a ciphertext at level " << (x.pt ? y.level : x.level) << ": " << where(op));
        if (scheme != "bfv") must(x.scale == y.scale, "add-scale", S() << "operands at scales " << x.scale << " and " << y.scale << ": " << where(op));
        Ct r = arith(x, y, o[0] == 'a' ? '+' : '-');
        r.dim = plain ? (x.pt ? y.dim : x.dim) : std::max(x.dim, y.dim);
        r.pt = false;
        return {finish(op, r)};
      });
      for (std::string o : {"mul", "mul_plain"}) on(in, p + "." + o, [this, o](Interp &, Operation *op, const Res &a) -> Res {
        Ct x = at(a[0]), y = at(a[1]);
        bool plain = x.pt || y.pt;
        must(plain == (o == "mul_plain") && !(x.pt && y.pt), "operand-kinds", where(op));
        if (!plain && scheme != "bfv") must(x.level == y.level, "mul-level", S() << "operands at levels " << x.level << " and " << y.level << ": " << where(op));
        if (plain && scheme != "bfv" && x.level >= 0 && y.level >= 0) must(x.pt ? x.level >= y.level : y.level >= x.level, "plain-level", S() << "a plaintext encoded at level " << (x.pt ? x.level : y.level) << " meets a ciphertext at level " << (x.pt ? y.level : x.level) << ": " << where(op));
        Ct r = arith(x, y, '*');
        r.pt = false;
        r.dim = plain ? (x.pt ? y.dim : x.dim) : x.dim + y.dim - 1;
        r.scale = scheme == "ckks" ? x.scale + y.scale : x.scale;
        if (scheme == "bgv") { auto t = declared(op->getResult(0).getType()).t; if (t > 1) r.scale = (int64_t)((__int128)(int64_t)x.scale * (int64_t)y.scale % t); }
        return {finish(op, r)};
      });
      on(in, p + ".negate", [this](Interp &, Operation *op, const Res &a) -> Res { Ct r = at(a[0]); for (auto &v : r.f) v = -v; for (auto &v : r.i) v = -(uint64_t)v; return {finish(op, r)}; });
      for (std::string o : {"rotate", "rotate_cols"}) on(in, p + "." + o, [this](Interp &, Operation *op, const Res &a) -> Res {
        must(at(a[0]).dim == 2, "rotate-dimension", S() << "a ciphertext of dimension " << at(a[0]).dim << " is rotated: " << where(op));
        return {finish(op, turn(at(a[0]), shift(op, a, 1)))};
      });
      on(in, p + ".relinearize", [this](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = at(a[0]);
        auto from = op->getAttrOfType<DenseI32ArrayAttr>("from_basis"), to = op->getAttrOfType<DenseI32ArrayAttr>("to_basis");
        must(from.size() == r.dim, "relinearize-dimension", S() << "relinearized from " << from.size() << " but the value has dimension " << r.dim << ": " << where(op));
        r.dim = to.size();
        return {finish(op, r)};
      });
      for (std::string o : {"rescale", "modulus_switch"}) on(in, p + "." + o, [this](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = at(a[0]);
        must(r.level >= 1, "level-exhausted", S() << "a ciphertext at level " << r.level << " is rescaled: " << where(op));
        if (scheme == "bgv" || scheme == "bfv") {
          auto in = cast<lwe::LWECiphertextType>(op->getOperand(0).getType());
          auto rns = cast<heir::rns::RNSType>(in.getCiphertextSpace().getRing().getCoefficientType());
          auto t = declared(in).t;
          int64_t last = cast<heir::mod_arith::ModArithType>(rns.getBasisTypes()[r.level]).getModulus().getValue().getSExtValue();
          if (t > 1 && scheme == "bgv") r.scale = (int64_t)((__int128)(int64_t)r.scale * inverse(last % t, t) % t);
        } else r.scale -= logScale;
        r.level--;
        return {finish(op, r)};
      });
      on(in, p + ".level_reduce", [this](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = at(a[0]);
        int64_t n = op->getAttrOfType<IntegerAttr>("levelToDrop") ? op->getAttrOfType<IntegerAttr>("levelToDrop").getInt() : 1;
        must(r.level >= n, "level-exhausted", S() << n << " levels are dropped at level " << r.level << ": " << where(op));
        r.level -= n;
        return {finish(op, r)};
      });
      on(in, p + ".bootstrap", [this](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = at(a[0]);
        auto d = declared(op->getResult(0).getType());
        must(r.dim == 2, "bootstrap-dimension", where(op));
        must(d.level >= r.level, "bootstrap-level", S() << "bootstrapping lowers level " << r.level << " to " << d.level << ": " << where(op));
        must(d.level <= maxLevel, "bootstrap-level", S() << "bootstrapping raises to level " << d.level << " above the top level " << maxLevel << ": " << where(op));
        r.level = d.level; r.scale = d.scale; r.depth = 0;
        return {finish(op, r)};
      });
    }
  }
  void fast(Interp &in) {
    in.ext["scf.forall"] = [this](Interp &in, Operation *op, const Res &) -> Res {
      auto f = cast<scf::ForallOp>(op);
      auto lo = in.ofr(f.getMixedLowerBound()), hi = in.ofr(f.getMixedUpperBound()), st = in.ofr(f.getMixedStep());
      Res outs = in.gets(f.getOutputs());
      const Res initial = outs;
      std::vector<std::vector<int64_t>> its{{}};
      for (size_t k = 0; k < lo.size(); k++) { std::vector<std::vector<int64_t>> n; for (auto &i : its) for (int64_t x = lo[k]; x < hi[k]; x += st[k]) { n.push_back(i); n.back().push_back(x); } its = n; }
      c.rng.shuffle(its); // iterations run in any order
      c.event("parallel iterations", its.size());
      for (auto &i : its) {
        Res args;
        for (auto x : i) args.push_back(Val::index(x));
        args.insert(args.end(), initial.begin(), initial.end());
        auto e = in.region(f.getRegion(), args);
        for (auto &x : e.op->getRegion(0).front()) {
          auto s = dyn_cast<tensor::ParallelInsertSliceOp>(&x);
          if (!s) { if (x.hasTrait<OpTrait::IsTerminator>()) continue; throw interp::Unsupported{x.getName().getStringRef().str()}; }
          int64_t slot = -1;
          for (auto [k, b] : llvm::enumerate(f.getRegionIterArgs())) if (b == s.getDest()) slot = k;
          if (slot < 0) throw interp::Unsupported{"parallel insertion elsewhere"};
          auto off = in.ofr(s.getMixedOffsets()), size = in.ofr(s.getMixedSizes()), str = in.ofr(s.getMixedStrides());
          Val src = in.get(s.getSource());
          Elems el = *outs[slot].el;
          std::vector<int64_t> ix(off.size(), 0);
          for (size_t k = 0; k < src.el->size(); k++) {
            std::vector<int64_t> p;
            for (size_t d = 0; d < off.size(); d++) p.push_back(off[d] + ix[d] * str[d]);
            el.at(Interp::flat(outs[slot].shape, p)) = (*src.el)[k];
            for (int64_t d = off.size() - 1; d >= 0; d--) { if (++ix[d] < size[d]) break; ix[d] = 0; }
          }
          outs[slot] = Val::tensor(outs[slot].shape, el);
        }
      }
      return outs;
    };
  }
  void rotKey(Operation *op, int64_t s) {
    rotUsed.insert(s);
    c.event("rotations with a key");
    must(s == 0 || rotKeys.count(s), "rotation-key", S() << "no key was generated for rotation by " << s << ": " << where(op));
  }
  void depthOk(Operation *op, const Ct &r) {
    if (scheme == "bfv" || mulDepth < 0) return;
    must(r.depth <= mulDepth, "multiplicative-depth", S() << "the context supports depth " << mulDepth << " but depth " << r.depth << " is reached: " << where(op));
  }
  void openfheOps(Interp &in) {
    fast(in);
    on(in, "openfhe.gen_params", [this](Interp &, Operation *op, const Res &) -> Res { mulDepth = op->getAttrOfType<IntegerAttr>("mulDepth").getInt(); return {Val::index(0)}; });
    on(in, "openfhe.gen_context", [](Interp &, Operation *, const Res &) -> Res { return {Val::index(0)}; });
    on(in, "openfhe.gen_mulkey", [this](Interp &, Operation *, const Res &) -> Res { mulKey = true; return {}; });
    on(in, "openfhe.gen_rotkey", [this](Interp &, Operation *op, const Res &) -> Res { for (auto x : op->getAttrOfType<DenseI64ArrayAttr>("indices").asArrayRef()) rotKeys.insert(x); return {}; });
    on(in, "openfhe.setup_bootstrap", [](Interp &, Operation *, const Res &) -> Res { return {}; });
    on(in, "openfhe.gen_bootstrapkey", [this](Interp &, Operation *, const Res &) -> Res { bootKey = true; return {}; });
    for (std::string o : {"make_packed_plaintext", "make_ckks_packed_plaintext"}) on(in, "openfhe." + o, [this](Interp &, Operation *, const Res &a) -> Res { return {put(encode(a[1]))}; });
    on(in, "openfhe.encrypt", [this](Interp &, Operation *op, const Res &a) -> Res { Ct r = at(a[1]); must(r.pt, "encrypt", where(op)); r.pt = false; return {put(r)}; });
    on(in, "openfhe.decrypt", [this](Interp &, Operation *op, const Res &a) -> Res { Ct r = at(a[1]); must(!r.pt, "decrypt", where(op)); r.pt = true; return {put(r)}; });
    for (std::string o : {"decode", "decode_ckks"}) on(in, "openfhe." + o, [this](Interp &, Operation *op, const Res &a) -> Res {
      auto t = op->getResult(0).getType();
      if (auto s = dyn_cast<ShapedType>(t)) return {Val::tensor(s.getShape().vec(), decode(at(a[0]), s.getElementType(), s.getNumElements()))};
      return {decode(at(a[0]), t, 1)[0]};
    });
    for (std::string o : {"add", "sub", "add_plain", "sub_plain", "mul", "mul_no_relin", "mul_plain", "add_inplace", "sub_inplace", "add_plain_inplace", "sub_plain_inplace"}) on(in, "openfhe." + o, [this, o](Interp &, Operation *op, const Res &a) -> Res {
      Ct x = at(a[1]), y = at(a[2]);
      bool plain = o.find("plain") != std::string::npos, place = o.find("inplace") != std::string::npos, mul = o[0] == 'm';
      must(plain == (x.pt || y.pt) && !(x.pt && y.pt), "operand-kinds", where(op));
      Ct r = arith(x, y, mul ? '*' : o[0] == 'a' ? '+' : '-');
      r.pt = false;
      r.dim = plain ? (x.pt ? y.dim : x.dim) : mul ? x.dim + y.dim - 1 : std::max(x.dim, y.dim);
      if (o == "mul") { must(mulKey, "relinearization-key", where(op)); r.dim = 2; }
      if (mul) depthOk(op, r);
      if (place) { int64_t k = x.pt ? a[2].idx() : a[1].idx(); ct.at(k) = r; c.event("operations in place"); return {Val::index(k)}; }
      return {put(r)};
    });
    for (std::string o : {"square", "square_inplace"}) on(in, "openfhe." + o, [this, o](Interp &, Operation *op, const Res &a) -> Res {
      must(mulKey, "relinearization-key", where(op));
      Ct r = arith(at(a[1]), at(a[1]), '*'); r.dim = 2; depthOk(op, r);
      if (o != "square") { ct.at(a[1].idx()) = r; return {a[1]}; }
      return {put(r)};
    });
    for (std::string o : {"negate", "negate_inplace", "relin", "relin_inplace", "mod_reduce", "mod_reduce_inplace", "level_reduce", "level_reduce_inplace"}) on(in, "openfhe." + o, [this, o](Interp &, Operation *op, const Res &a) -> Res {
      Ct r = at(a[1]);
      if (o[0] == 'n') { for (auto &v : r.f) v = -v; for (auto &v : r.i) v = -(uint64_t)v; }
      if (o.substr(0, 5) == "relin") { must(mulKey, "relinearization-key", where(op)); r.dim = 2; }
      if (o.find("inplace") != std::string::npos) { ct.at(a[1].idx()) = r; c.event("operations in place"); return {a[1]}; }
      return {put(r)};
    });
    on(in, "openfhe.rot", [this](Interp &, Operation *op, const Res &a) -> Res {
      must(at(a[1]).dim == 2, "rotate-dimension", where(op));
      auto s = shift(op, a, 2); rotKey(op, s); return {put(turn(at(a[1]), s))};
    });
    on(in, "openfhe.fast_rotation_precompute", [this](Interp &, Operation *op, const Res &a) -> Res { must(at(a[1]).dim == 2, "rotate-dimension", where(op)); return {put(at(a[1]))}; });
    on(in, "openfhe.fast_rotation", [this](Interp &, Operation *op, const Res &a) -> Res {
      Ct x = at(a[1]), pre = at(a[3]);
      must(x.f == pre.f && x.i == pre.i, "stale-precomputation", S() << "the digits were computed from another value: " << where(op));
      must(x.dim == 2, "rotate-dimension", where(op));
      auto s = a[2].idx("rotation"); rotKey(op, s); return {put(turn(x, s))};
    });
    on(in, "openfhe.bootstrap", [this](Interp &, Operation *op, const Res &a) -> Res { must(bootKey, "bootstrap-key", where(op)); Ct r = at(a[1]); r.depth = 0; return {put(r)}; });
  }
  void lattigoOps(Interp &in) {
    fast(in);
    auto token = [](Interp &, Operation *op, const Res &) -> Res { return Res(op->getNumResults(), Val::index(0)); };
    for (std::string p : {"lattigo.ckks.", "lattigo.bgv.", "lattigo.rlwe."}) for (std::string o : {"new_encoder", "new_evaluator", "new_key_generator", "gen_key_pair", "new_evaluation_key_set", "new_encryptor", "new_decryptor", "new_bootstrapping_parameters_from_literal", "gen_evaluation_keys_bootstrapping", "new_bootstrapping_evaluator"}) on(in, p + o, token);
    for (std::string p : {"lattigo.ckks.", "lattigo.bgv."}) {
      on(in, p + "new_parameters_from_literal", [this](Interp &, Operation *op, const Res &) -> Res {
        auto lit = op->getAttr("paramsLiteral");
        DenseI64ArrayAttr Q;
        if (auto l = dyn_cast<heir::lattigo::CKKSParametersLiteralAttr>(lit)) { logN = l.getLogN(); Q = l.getQ(); }
        if (auto l = dyn_cast<heir::lattigo::BGVParametersLiteralAttr>(lit)) { logN = l.getLogN(); Q = l.getQ(); }
        if (Q) for (auto x : Q.asArrayRef()) q.push_back(std::log2((double)x));
        return {Val::index(0)};
      });
      on(in, p + "new_plaintext", [this](Interp &, Operation *op, const Res &) -> Res {
        Ct r; r.pt = true; if (fl) r.f.assign(slots, 0); else r.i.assign(slots, 0);
        r.level = q.empty() ? 1000 : (int64_t)q.size() - 1;
        if (auto l = op->getAttrOfType<IntegerAttr>("level")) { must(q.empty() || l.getInt() < (int64_t)q.size(), "plaintext-level", where(op)); r.level = l.getInt(); }
        return {put(r)};
      });
      on(in, p + "encode", [this](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = encode(a[1]);
        r.level = at(a[2]).level;
        r.scale = op->getAttrOfType<IntegerAttr>("scale") ? op->getAttrOfType<IntegerAttr>("scale").getInt() : 1;
        ct.at(a[2].idx()) = r;
        return {a[2]};
      });
      on(in, p + "decode", [this](Interp &, Operation *op, const Res &a) -> Res {
        auto s = cast<ShapedType>(op->getResult(0).getType());
        Elems e = decode(at(a[1]), s.getElementType(), s.getNumElements());
        if (a[2].k == Val::Mem) { for (size_t k = 0; k < e.size(); k++) a[2].mem->buf->data[a[2].mem->pos[k]] = e[k]; return {a[2]}; }
        return {Val::tensor(s.getShape().vec(), e)};
      });
      for (std::string o : {"add", "sub", "mul"}) for (bool place : {false, true}) on(in, p + o + (place ? "" : "_new"), [this, o, place](Interp &, Operation *op, const Res &a) -> Res {
        Ct x = at(a[1]), y = at(a[2]);
        must(!x.pt, "operand-kinds", where(op));
        Ct r = arith(x, y, o == "mul" ? '*' : o == "add" ? '+' : '-');
        r.pt = false;
        r.level = std::min(x.level, y.level);
        if (o == "mul") {
          if (!y.pt) must(x.dim + y.dim <= 4, "mul-dimension", S() << "operands of dimension " << x.dim << " and " << y.dim << " are multiplied: " << where(op));
          r.dim = y.pt ? x.dim : x.dim + y.dim - 1;
          if (scheme == "ckks") r.scale = x.scale + y.scale;
        } else {
          r.dim = y.pt ? x.dim : std::max(x.dim, y.dim);
          if (scheme == "ckks") must(std::fabs(x.scale - y.scale) < 0.5, "add-scale", S() << "operands at scales 2^" << x.scale << " and 2^" << y.scale << ": " << where(op));
        }
        if (place) { ct.at(a[3].idx()) = r; c.event("operations in place"); return {a[3]}; }
        return {put(r)};
      });
      for (std::string o : {"relinearize", "rescale"}) for (bool place : {false, true}) on(in, p + o + (place ? "" : "_new"), [this, o, place](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = at(a[1]);
        if (o == "relinearize") { must(mulKey, "relinearization-key", where(op)); must(r.dim == 3, "relinearize-dimension", S() << "a value of dimension " << r.dim << " is relinearized: " << where(op)); r.dim = 2; }
        else if (scheme != "bfv") {
          must(r.level >= 1, "level-exhausted", S() << "a ciphertext at level " << r.level << " is rescaled: " << where(op));
          if (scheme == "ckks" && !q.empty()) r.scale -= q.at(r.level);
          r.level--;
        }
        if (place) { ct.at(a[2].idx()) = r; c.event("operations in place"); return {a[2]}; }
        return {put(r)};
      });
      for (std::string o : {"rotate", "rotate_columns"}) for (bool place : {false, true}) on(in, p + o + (place ? "" : "_new"), [this, place](Interp &, Operation *op, const Res &a) -> Res {
        Ct x = at(a[1]);
        must(x.dim == 2, "rotate-dimension", S() << "a ciphertext of dimension " << x.dim << " is rotated: " << where(op));
        int64_t s = shift(op, a, place ? 3 : 2);
        int64_t n2 = int64_t(1) << (logN + 1), half = int64_t(1) << (logN - 1), g = 1, e = ((s % half) + half) % half;
        for (__int128 b = 5; e; e >>= 1, b = b * b % n2) if (e & 1) g = (int64_t)(g * b % n2);
        rotUsed.insert(s);
        c.event("rotations with a key");
        must(g == 1 || rotKeys.count(g), "rotation-key", S() << "no key was generated for rotation by " << s << " (Galois element " << g << "): " << where(op));
        Ct r = turn(x, s);
        if (place) { ct.at(a[2].idx()) = r; c.event("operations in place"); return {a[2]}; }
        return {put(r)};
      });
      on(in, p + "bootstrap", [this](Interp &, Operation *op, const Res &a) -> Res { Ct r = at(a[1]); r.depth = 0; r.level = 1000; return {put(r)}; });
    }
    on(in, "lattigo.rlwe.gen_relinearization_key", [this](Interp &, Operation *, const Res &) -> Res { mulKey = true; return {Val::index(0)}; });
    on(in, "lattigo.rlwe.gen_galois_key", [this](Interp &, Operation *op, const Res &) -> Res { rotKeys.insert(op->getAttrOfType<IntegerAttr>("galoisElement").getInt()); return {Val::index(0)}; });
    on(in, "lattigo.rlwe.encrypt", [this](Interp &, Operation *op, const Res &a) -> Res { Ct r = at(a[1]); must(r.pt, "encrypt", where(op)); r.pt = false; return {put(r)}; });
    on(in, "lattigo.rlwe.decrypt", [this](Interp &, Operation *op, const Res &a) -> Res { Ct r = at(a[1]); must(!r.pt, "decrypt", where(op)); r.pt = true; return {put(r)}; });
    for (bool place : {false, true}) {
      on(in, std::string("lattigo.rlwe.negate") + (place ? "" : "_new"), [this, place](Interp &, Operation *, const Res &a) -> Res {
        Ct r = at(a[1]); for (auto &v : r.f) v = -v; for (auto &v : r.i) v = -(uint64_t)v;
        if (place) { ct.at(a[2].idx()) = r; return {a[2]}; }
        return {put(r)};
      });
      on(in, std::string("lattigo.rlwe.drop_level") + (place ? "" : "_new"), [this, place](Interp &, Operation *op, const Res &a) -> Res {
        Ct r = at(a[1]);
        int64_t n = op->getAttrOfType<IntegerAttr>("levelToDrop") ? op->getAttrOfType<IntegerAttr>("levelToDrop").getInt() : 1;
        if (scheme != "bfv") must(r.level >= n, "level-exhausted", S() << n << " levels are dropped at level " << r.level << ": " << where(op));
        r.level -= n;
        if (place) { ct.at(a[2].idx()) = r; return {a[2]}; }
        return {put(r)};
      });
    }
  }
};
bool token(Type t) {
  if (auto s = dyn_cast<ShapedType>(t)) t = s.getElementType();
  if (isa<IntegerType, FloatType, IndexType>(t)) return false;
  StringRef n = t.getAbstractType().getName();
  return !n.ends_with("ciphertext") && !n.ends_with("plaintext");
}
struct Ran { std::string err, key; bool unsupported = false; std::vector<Val> results; };
Ran execute(ModuleOp m, const std::vector<Val> &args, Machine &M) {
  Ran out;
  std::map<int64_t, func::FuncOp> enc, dec;
  for (auto f : m.getOps<func::FuncOp>()) {
    auto look = [&](const char *n, std::map<int64_t, func::FuncOp> &t) {
      if (auto d = f->getAttrOfType<DictionaryAttr>(n)) if (d.getAs<StringAttr>("func_name") && d.getAs<StringAttr>("func_name").getValue() == "f") t[d.getAs<IntegerAttr>("index").getInt()] = f;
    };
    look("client.enc_func", enc); look("client.dec_func", dec);
  }
  if (auto p = m->getAttrOfType<heir::ckks::SchemeParamAttr>("ckks.schemeParam")) M.logScale = p.getLogDefaultScale();
  Interp in(m);
  in.fuel = 20000000;
  slotOps(in);
  M.schemeOps(in);
  if (M.backend == "openfhe") M.openfheOps(in);
  if (M.backend == "lattigo") M.lattigoOps(in);
  auto call = [&](func::FuncOp f, std::vector<Val> given) {
    std::vector<Val> a;
    size_t k = 0;
    for (auto t : f.getArgumentTypes()) {
      if (token(t)) a.push_back(Val::index(0));
      else {
        if (k >= given.size()) throw Broken{"signature", S() << f.getName().str() << " takes too many arguments"};
        Val v = given[k++];
        if (isa<MemRefType>(t) && v.k == Val::Tensor) v = Val::newmem(v.shape, *v.el);
        a.push_back(v);
      }
    }
    if (k != given.size()) throw Broken{"signature", S() << f.getName().str() << " takes too few arguments"};
    auto r = in.call(f.getName(), a);
    for (auto &v : r) if (v.k == Val::Mem) { Elems e; for (auto p : v.mem->pos) e.push_back(v.mem->buf->data[p]); v = Val::tensor(v.shape, e); }
    return r;
  };
  try {
    std::vector<func::FuncOp> setup;
    for (auto f : m.getOps<func::FuncOp>()) if (f.getName().contains("generate_crypto_context")) setup.push_back(f);
    for (auto f : m.getOps<func::FuncOp>()) if (f.getName().contains("configure")) setup.push_back(f);
    if (!M.backend.empty() && setup.empty()) throw Broken{"configure", "there is no configuration function"};
    for (auto f : setup) call(f, {});
    std::vector<Val> packed;
    for (size_t k = 0; k < args.size(); k++) {
      if (!enc.count(k)) { packed.push_back(args[k]); continue; }
      packed.push_back(call(enc[k], {args[k]}).at(0));
    }
    std::vector<Ct> before = M.ct;
    auto f = m.lookupSymbol<func::FuncOp>("f");
    if (!f) throw Broken{"signature", "the function disappeared"};
    auto res = call(f, packed);
    for (size_t k = 0; k < before.size() && M.backend != "openfhe"; k++) if (before[k].f != M.ct[k].f || before[k].i != M.ct[k].i || before[k].dim != M.ct[k].dim) throw Broken{"argument-changed", "the caller's ciphertext is overwritten"};
    for (size_t k = 0; k < res.size(); k++) {
      if (!dec.count(k)) { out.results.push_back(res[k]); continue; }
      out.results.push_back(call(dec[k], {res[k]}).at(0));
    }
  } catch (Broken &b) { out.key = b.key; out.err = b.why; }
  catch (interp::UB &u) { out.key = "undefined"; out.err = "undefined behaviour in the compiled program: " + u.why; }
  catch (interp::Unsupported &u) { out.err = "cannot execute " + u.op; out.unsupported = true; }
  catch (interp::Fuel &) { out.err = "the compiled program does not end"; out.unsupported = true; }
  catch (std::exception &x) { out.key = "malformed"; out.err = std::string("malformed program: ") + x.what(); }
  return out;
}
void checkScheme(mon::Case &c, const Prog &p, const std::string &pl, const std::string &scheme, const std::string &backend, int64_t slots, bool mustCompile) {
  auto &ctx = heiropt::ctx();
  heiropt::Quiet q(ctx);
  OwningOpRef<ModuleOp> before = parseSourceString<ModuleOp>(p.text, ParserConfig(&ctx));
  if (!before) { c.fail("generator", "invalid program: " + q.msgs); return; }
  auto f = before->lookupSymbol<func::FuncOp>("f");
  auto r = heiropt::compile(p.text, {pl});
  if (r.st == heiropt::Compiled::TooLong) { c.event("compilations stopped after a minute"); c.skip(); return; }
  if (r.st == heiropt::Compiled::Crashed) { c.event("compiler crashes"); if (mustCompile) c.fail("crash", "the compiler died: " + r.msgs.substr(0, 3000)); else c.skip(); return; }
  if (r.st == heiropt::Compiled::Refused) {
    c.event("programs refused");
    if (mustCompile && !foldsToPublic(*before, c.rng)) c.fail("refused", "the compiler refuses: " + r.msgs.substr(0, 3000)); else c.skip();
    return;
  }
  OwningOpRef<ModuleOp> after = parseSourceString<ModuleOp>(r.ir.back(), ParserConfig(&ctx));
  if (!after) { c.fail("reparse", "the output does not parse: " + q.msgs + r.ir.back().substr(0, 6000)); return; }
  c.event("programs compiled");
  for (auto &[k, n] : p.kinds) c.event("compiled with " + k, n);
  bool fl = scheme == "ckks";
  for (int t = 0; t < 2; t++) {
    std::vector<Val> in;
    for (auto ty : f.getArgumentTypes()) in.push_back(randomInput(c.rng, ty));
    auto want = interp::run(*before, "f", in, slotOps);
    if (want.st != Outcome::Ok) { c.fail("interpreter", "cannot execute the original: " + want.why); return; }
    Machine M(c, fl, scheme, backend, slots);
    auto got = execute(*after, in, M);
    if (got.unsupported) { c.fail("interpreter", got.err + "\n" + r.ir.back().substr(0, 12000)); return; }
    c.event("executions compared");
    for (auto &[n, k] : M.seen) c.event(n, k);
    c.event("multiplicative depth reached", M.maxDepth);
    auto all = [&] {
      std::string s = "\ninputs:";
      for (auto &v : in) s += " " + interp::show(v);
      s += "\nwanted:";
      for (auto &v : want.results) s += " " + interp::show(v);
      s += "\ngot:";
      for (auto &v : got.results) s += " " + interp::show(v);
      return s + "\ncompiled:\n" + r.ir.back().substr(0, 14000);
    };
    if (!got.err.empty()) { c.fail(got.key, got.err + all()); return; }
    bool ok = want.results.size() == got.results.size();
    for (size_t k = 0; ok && k < got.results.size(); k++) ok = interp::refines(want.results[k], got.results[k], 2e-3);
    if (!ok) { c.fail("changed", "the program returns something else" + all()); return; }
  }
}
std::string options(mon::Case &c, const std::string &s, const std::string &backend, int64_t slots) {
  mon::S o;
  o << "min-slot-count=" << slots << " enable-split-preprocessing=false";
  // bgv and bfv count additions with an analysis which has no fixed point on loops
  if (s == "ckks" && c.rng.chance(0.2)) o << " experimental-disable-loop-unroll=true";
  if (c.rng.chance(0.3)) o << " greedy-modulus-switch-after-mul=true";
  else if (c.rng.chance(0.3)) o << " greedy-modulus-switch-before-first-mul=true";
  if (s == "ckks") {
    if (c.rng.chance(0.3)) o << " scaling-mod-bits=" << c.rng.pick(std::vector<int>{38, 40, 42, 48, 50});
    if (c.rng.chance(0.3)) o << " first-mod-bits=" << c.rng.pick(std::vector<int>{52, 58, 60});
    if (c.rng.chance(0.25)) o << " greedy-level-budget=" << c.rng.in(3, 6) << " greedy-bootstrap-waterline=" << c.rng.in(1, 3);
  }
  if (s == "bgv" && c.rng.chance(0.3)) o << " plaintext-modulus=" << c.rng.pick(std::vector<int>{40961, 65537, 114689, 786433});
  if (c.rng.chance(0.15)) o << " use-public-key=false";
  if (c.rng.chance(0.15)) o << " codegen-strategy=" << c.rng.pick(std::vector<std::string>{"auto", "never-fold", "fold-when-possible"});
  return o;
}
void scheme(mon::Case &c, const std::string &s, const std::string &backend, bool must) {
  TOpt o;
  o.elementwise = true; o.linalg = c.rng.chance(0.4); o.shapes = c.rng.chance(0.3); o.loops = c.rng.chance(0.15);
  o.elt = s == "ckks" ? "f32" : "i16";
  o.depth = c.rng.in(1, c.rng.chance(0.3) ? 6 : 3);
  int64_t slots = o.slots = c.rng.pick(std::vector<int64_t>{16, 32, 64});
  auto p = TGen(c.rng, o).make();
  std::string pl = S() << "annotate-module{scheme=" << s << (backend.empty() ? "" : " backend=" + backend) << "},mlir-to-" << s << "{" << options(c, s, backend, slots) << "}";
  if (!backend.empty()) pl += std::string(",scheme-to-") + backend;
  c.describe(pl + "\n" + p.text);
  checkScheme(c, p, pl, s, backend, slots, must);
}
MON_FAMILY(O05_ckks, 60, 400) { scheme(c, "ckks", "", false); }
MON_FAMILY(O05_bgv, 60, 400) { scheme(c, "bgv", "", false); }
MON_FAMILY(O05_bfv, 40, 300) { scheme(c, "bfv", "", false); }
MON_FAMILY(O05_openfhe_ckks, 60, 400) { scheme(c, "ckks", "openfhe", false); }
MON_FAMILY(O05_openfhe_bgv, 40, 300) { scheme(c, "bgv", "openfhe", false); }
MON_FAMILY(O05_openfhe_bfv, 30, 200) { scheme(c, "bfv", "openfhe", false); }
MON_FAMILY(O05_lattigo_ckks, 60, 400) { scheme(c, "ckks", "lattigo", false); }
MON_FAMILY(O05_lattigo_bgv, 40, 300) { scheme(c, "bgv", "lattigo", false); }
MON_FAMILY(O05_lattigo_bfv, 30, 200) { scheme(c, "bfv", "lattigo", false); }
} // namespace
int main(int argc, char **argv) { Interp::exactFloats = true; heiropt::ctx(); return mon::monMain(argc, argv); }
