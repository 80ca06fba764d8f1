// E01: random modules are translated to Rust by the real emitters; the module itself is interpreted to obtain what the generated code must compute.
#include "interp.h"
#include <filesystem>
#include "lib/Dialect/Preprocessing/IR/PreprocessingDialect.h"
#include "lib/Dialect/TfheRust/IR/TfheRustDialect.h"
#include "lib/Dialect/TfheRust/IR/TfheRustOps.h"
#include "lib/Dialect/TfheRust/IR/TfheRustTypes.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolDialect.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolOps.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolTypes.h"
#include "lib/Analysis/Cpp/ConstQualifierAnalysis.h"
#include "lib/Analysis/SelectVariableNames/SelectVariableNames.h"
#include "lib/Dialect/KeyMgmt/IR/KeyMgmtDialect.h"
#include "lib/Utils/Tablegen/InPlaceOpInterface.h"
#include "lib/Target/Metadata/MetadataEmitter.h"
#include "lib/Target/TfheRust/TfheRustEmitter.h"
#include "lib/Target/TfheRust/Utils.h"
#include "lib/Target/TfheRustBool/TfheRustBoolEmitter.h"
#include "lib/Target/TfheRustHL/TfheRustHLEmitter.h"
#include "llvm/Support/JSON.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
using namespace mlir;
using mon::S;
using interp::Val;
namespace {
MLIRContext &ctx() {
  static MLIRContext *c = [] {
    auto *x = new MLIRContext(MLIRContext::Threading::DISABLED);
    x->loadDialect<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, memref::MemRefDialect, tensor::TensorDialect, scf::SCFDialect,
                   heir::tfhe_rust::TfheRustDialect, heir::tfhe_rust_bool::TfheRustBoolDialect, heir::preprocessing::PreprocessingDialect, heir::key_mgmt::KeyMgmtDialect>();
    return x;
  }();
  return *c;
}
struct Quiet {
  std::string msgs;
  ScopedDiagnosticHandler h;
  Quiet() : h(&ctx(), [this](Diagnostic &d) { msgs += d.str() + "\n"; return success(); }) {}
};
using mon::Rng;

unsigned euiBits(Type t) { int b = heir::tfhe_rust::getTfheRustBitWidth(getElementTypeOrSelf(t)); return b > 0 ? b : 1; }
bool isCt(Type t) { return t.hasTrait<heir::tfhe_rust::EncryptedInteger>() || isa<heir::tfhe_rust::EncryptedBoolType, heir::tfhe_rust_bool::EncryptedBoolType>(t); }
bool isKey(Type t) { return isa<heir::tfhe_rust::ServerKeyType, heir::tfhe_rust_bool::ServerKeyType, heir::tfhe_rust_bool::PackedServerKeyType>(t); }
bool isLut(Type t) { return isa<heir::tfhe_rust::LookupTableType>(t); }

// --- meaning of the encrypted dialects on cleartexts: an encrypted k-bit integer is an integer modulo 2^k (held in 64 bits)
Val ct(uint64_t x, Type t) { unsigned b = euiBits(t); return Val::integer(APInt(64, b >= 64 ? x : x & ((1ull << b) - 1))); }
using Res = interp::Interp::Res;
std::map<std::string, std::vector<int64_t>> resources; // contents of files written for the case
void extend(interp::Interp &in) {
  auto elementwise = [](const Val &a, const Val &b, Type t, auto f) -> Val {
    if (a.k != Val::Tensor) return ct(f(a.i.getZExtValue(), b.i.getZExtValue()), t);
    interp::Elems e;
    for (size_t k = 0; k < a.el->size(); k++) e.push_back(ct(f((*a.el)[k].i.getZExtValue(), (b.k == Val::Tensor ? (*b.el)[k] : b).i.getZExtValue()), t));
    return Val::tensor(a.shape, e);
  };
  auto bin = [&](const char *n, std::function<uint64_t(uint64_t, uint64_t)> f) {
    in.ext[n] = [f, elementwise](interp::Interp &, Operation *op, const Res &a) -> Res { return {elementwise(a[1], a[2], op->getResult(0).getType(), f)}; };
  };
  bin("tfhe_rust.bitand", [](uint64_t a, uint64_t b) { return a & b; });
  bin("tfhe_rust.bitor", [](uint64_t a, uint64_t b) { return a | b; });
  bin("tfhe_rust.bitxor", [](uint64_t a, uint64_t b) { return a ^ b; });
  bin("tfhe_rust.add", [](uint64_t a, uint64_t b) { return a + b; });
  bin("tfhe_rust.sub", [](uint64_t a, uint64_t b) { return a - b; });
  bin("tfhe_rust.mul", [](uint64_t a, uint64_t b) { return a * b; });
  bin("tfhe_rust_bool.and", [](uint64_t a, uint64_t b) { return a & b; });
  bin("tfhe_rust_bool.nand", [](uint64_t a, uint64_t b) { return 1 ^ (a & b); });
  bin("tfhe_rust_bool.or", [](uint64_t a, uint64_t b) { return a | b; });
  bin("tfhe_rust_bool.nor", [](uint64_t a, uint64_t b) { return 1 ^ (a | b); });
  bin("tfhe_rust_bool.xor", [](uint64_t a, uint64_t b) { return a ^ b; });
  bin("tfhe_rust_bool.xnor", [](uint64_t a, uint64_t b) { return 1 ^ a ^ b; });
  in.ext["tfhe_rust_bool.not"] = [elementwise](interp::Interp &, Operation *op, const Res &a) -> Res { return {elementwise(a[1], a[1], op->getResult(0).getType(), [](uint64_t x, uint64_t) { return 1 ^ x; })}; };
  in.ext["tfhe_rust_bool.gates_packed"] = [](interp::Interp &, Operation *op, const Res &a) -> Res {
    auto gates = cast<heir::tfhe_rust_bool::PackedOp>(op).getGates().getGates();
    interp::Elems e;
    for (size_t k = 0; k < a[1].el->size(); k++) {
      uint64_t x = (*a[1].el)[k].i.getZExtValue(), y = (*a[2].el)[k].i.getZExtValue(), r = 0;
      switch ((int)gates[k].getValue()) { case 0: r = x & y; break; case 1: r = 1 ^ (x & y); break; case 2: r = x | y; break; case 3: r = 1 ^ (x | y); break; case 4: r = x ^ y; break; default: r = 1 ^ x ^ y; }
      e.push_back(ct(r, op->getResult(0).getType()));
    }
    return {Val::tensor(a[1].shape, e)};
  };
  auto trivial = [](interp::Interp &in, Operation *op, const Res &a) -> Res {
    Type t = op->getResult(0).getType();
    if (a.size() > 1) {
      // a one-bit integer is a truth value; the sign of a wider one carries over
      return {ct(a[1].i.getBitWidth() == 1 ? a[1].i.getZExtValue() : (uint64_t)a[1].i.getSExtValue(), t)};
    }
    Attribute at = op->getAttr("valueAttr");
    if (auto i = dyn_cast<IntegerAttr>(at)) return {ct(i.getValue().getZExtValue(), t)};
    interp::Elems e;
    for (auto x : cast<ArrayAttr>(at)) e.push_back(ct(cast<IntegerAttr>(x).getValue().getZExtValue(), t));
    return {Val::tensor(interp::Interp::shapeOf(t), e)};
  };
  in.ext["tfhe_rust.create_trivial"] = trivial;
  in.ext["tfhe_rust_bool.create_trivial"] = trivial;
  in.ext["tfhe_rust.cast"] = [](interp::Interp &, Operation *op, const Res &a) -> Res { return {ct(a[1].i.getZExtValue(), op->getResult(0).getType())}; };
  in.ext["tfhe_rust.generate_lookup_table"] = [](interp::Interp &, Operation *op, const Res &) -> Res { return {Val::integer(APInt(64, cast<heir::tfhe_rust::GenerateLookupTableOp>(op).getTruthTable().getValue().getZExtValue()))}; };
  in.ext["tfhe_rust.apply_lookup_table"] = [](interp::Interp &, Operation *op, const Res &a) -> Res { return {ct((a[2].i.getZExtValue() >> a[1].i.getZExtValue()) & 1, op->getResult(0).getType())}; };
  in.ext["tfhe_rust.scalar_left_shift"] = [](interp::Interp &, Operation *op, const Res &a) -> Res { return {ct(a[1].i.getZExtValue() << op->getAttrOfType<IntegerAttr>("shiftAmount").getInt(), op->getResult(0).getType())}; };
  in.ext["tfhe_rust.scalar_right_shift"] = [](interp::Interp &, Operation *op, const Res &a) -> Res { return {ct(a[1].i.getZExtValue() >> op->getAttrOfType<IntegerAttr>("shiftAmount").getInt(), op->getResult(0).getType())}; };
  in.ext["preprocessing.load_resource"] = [](interp::Interp &, Operation *op, const Res &) -> Res {
    auto t = cast<ShapedType>(op->getResult(0).getType());
    interp::Elems e;
    for (auto x : resources.at(op->getAttrOfType<StringAttr>("path").getValue().str())) e.push_back(Val::integer(t.getElementType().getIntOrFloatBitWidth(), x));
    if (isa<MemRefType>(t)) return {Val::newmem(interp::Interp::shapeOf(t), e)};
    return {Val::tensor(interp::Interp::shapeOf(t), e)};
  };
}
bool setExtend = ([] {}(), true);

// --- generation
struct V { std::string n, t; std::string k; int loop; std::vector<int64_t> shape; };  // k: what the generated code holds: own(ed), ref(erence), arg, local (array kept in a map)...
struct Style { std::string api; bool levels = false; };
struct Gen {
  Rng &r;
  std::string api;    // short, levels, bool, packed, hl
  std::ostringstream o;
  int next = 0, indent = 2, loop = 0, loops = 0, budget = 0;
  std::vector<V> ct, tens, mems, locals, luts, ints, idx;
  std::vector<std::string> luts_;
  std::string ek;     // element type of ciphertexts
  std::string keyTy, key = "%sks";
  std::string globals;
  std::set<std::string> loaded;
  std::vector<std::string> ct0, argTypes;
  size_t mems0 = 0;
  bool callable = false;
  std::vector<std::pair<std::string, std::vector<std::string>>> *sigs = nullptr; // functions that may be called
  int nglob = 0;
  Gen(Rng &rr, std::string a) : r(rr), api(a) {}
  std::string fresh(const char *p = "v") { return S() << "%" << p << next++; }
  void line(const std::string &s) { o << std::string(indent, ' ') << s << "\n"; }
  const V *visible(const std::vector<V> &p) { if (p.empty()) return nullptr; return &p[r.next() % p.size()]; }
  std::string cst(int64_t v, const std::string &t = "index") { auto n = fresh("c"); line(S() << n << " = arith.constant " << v << " : " << t); return n; }
  std::string shp(const std::vector<int64_t> &s, const std::string &e) { std::string x; for (auto d : s) x += std::to_string(d) + "x"; return x + e; }
  std::string index(int64_t dim) {
    std::vector<std::string> c;
    for (auto &i : idx) if (i.shape[0] <= dim) c.push_back(i.n);
    if (!c.empty() && r.chance(0.6)) return r.pick(c);
    return cst(r.in(0, dim - 1));
  }
  std::string indices(const std::vector<int64_t> &s) { std::string x; for (auto d : s) x += (x.empty() ? "" : ", ") + index(d); return x; }
  std::string affineIndices(const std::vector<int64_t> &s) {
    std::string x;
    for (auto d : s) {
      std::vector<std::string> c;
      for (auto &i : idx) if (i.shape[0] <= d) c.push_back(i.n);
      x += S() << (x.empty() ? "" : ", ") << (!c.empty() && r.chance(0.6) ? r.pick(c) : std::to_string(r.in(0, d - 1)));
    }
    return x;
  }
  bool shortint() const { return api == "short" || api == "levels"; }
  bool boolean() const { return api == "bool" || api == "packed"; }
  void pushCt(const std::string &n, const std::string &k) { ct.push_back({n, ek, k, loop, {}}); }

  void stmt() {
    int pick = r.in(0, 99);
    if (shortint()) {
      if (pick < 12 || luts.empty()) { auto n = fresh(); line(S() << n << " = tfhe_rust.generate_lookup_table " << key << " {truthTable = " << r.in(0, 255) << " : ui8} : (" << keyTy << ") -> !tfhe_rust.lookup_table"); luts.push_back({n, "lut", "own", loop, {}}); return; }
      if (!ct.empty()) {
        auto &a = r.pick(ct); auto &b = r.pick(ct);
        if (pick < 30) { auto n = fresh(); line(S() << n << " = tfhe_rust.apply_lookup_table " << key << ", " << a.n << ", " << r.pick(luts).n << " : (" << keyTy << ", " << ek << ", !tfhe_rust.lookup_table) -> " << ek); pushCt(n, "lev"); return; }
        if (pick < 44) { auto n = fresh(); line(S() << n << " = tfhe_rust.add " << key << ", " << a.n << ", " << b.n << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek); pushCt(n, "lev"); return; }
        if (pick < 54) { auto n = fresh(); line(S() << n << " = tfhe_rust.scalar_left_shift " << key << ", " << a.n << " {shiftAmount = " << r.in(0, 2) << " : index} : (" << keyTy << ", " << ek << ") -> " << ek); pushCt(n, "lev"); return; }
        if (pick < 62) { auto n = fresh(); line(S() << n << " = tfhe_rust.bitand " << key << ", " << a.n << ", " << b.n << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek); pushCt(n, "own"); return; }
      }
    } else if (boolean()) {
      static const std::vector<std::string> gates = {"and", "nand", "or", "nor", "xor", "xnor"};
      std::vector<V> usable;
      for (auto &c : ct) if (api == "bool" || c.k != "arg") usable.push_back(c);
      if (pick < 45 && !usable.empty()) { auto n = fresh(); line(S() << n << " = tfhe_rust_bool." << r.pick(gates) << " " << key << ", " << r.pick(usable).n << ", " << r.pick(usable).n << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek); pushCt(n, "own"); return; }
      if (pick < 55 && !usable.empty()) { auto n = fresh(); line(S() << n << " = tfhe_rust_bool.not " << key << ", " << r.pick(usable).n << " : (" << keyTy << ", " << ek << ") -> " << ek); pushCt(n, "own"); return; }
    } else if (!ct.empty()) {
      static const std::vector<std::string> ops = {"bitand", "bitor", "bitxor", "add", "sub", "mul"};
      if (pick < 45) { auto n = fresh(); line(S() << n << " = tfhe_rust." << r.pick(ops) << " " << key << ", " << r.pick(ct).n << ", " << r.pick(ct).n << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek); pushCt(n, "own"); return; }
      if (pick < 53) { auto n = fresh(); line(S() << n << " = tfhe_rust.scalar_right_shift " << key << ", " << r.pick(ct).n << " {shiftAmount = " << r.in(0, 3) << " : index} : (" << keyTy << ", " << ek << ") -> " << ek); pushCt(n, "own"); return; }
      if (pick < 55) { // there and back through another width
        unsigned w = std::stoi(ek.substr(ek.find("eui") + 3)), x = r.pick({8u, 16u, 32u, 64u});
        std::string other = S() << "!tfhe_rust.eui" << x;
        auto a = fresh(), b = fresh(), n = fresh();
        line(S() << a << " = tfhe_rust.cast " << key << ", " << r.pick(ct).n << " : (" << keyTy << ", " << ek << ") -> " << other);
        line(S() << b << " = tfhe_rust." << r.pick(ops) << " " << key << ", " << a << ", " << a << " : (" << keyTy << ", " << other << ", " << other << ") -> " << other);
        line(S() << n << " = tfhe_rust.cast " << key << ", " << b << " : (" << keyTy << ", " << other << ") -> " << ek);
        (void)w; pushCt(n, "own"); return;
      }
      if (pick < 58 && sigs && !sigs->empty()) { // a function defined before
        auto &f = r.pick(*sigs);
        std::string ops = key, ts = keyTy;
        for (auto &t : f.second) {
          std::vector<V> c;
          for (auto &x : t == ek ? ct : tens) if (x.t == t || t == ek) c.push_back(x);
          if (c.empty()) return;
          ops += ", " + r.pick(c).n; ts += ", " + t;
        }
        auto n = fresh();
        line(S() << n << " = func.call @" << f.first << "(" << ops << ") : (" << ts << ") -> " << ek); pushCt(n, "own"); return;
      }
      if (pick < 60) { // an operation with a plain constant
        std::string w = "i" + ek.substr(ek.find("eui") + 3);
        auto c = cst(r.in(0, 100), w); auto n = fresh();
        line(S() << n << " = tfhe_rust." << r.pick({"add", "sub", "mul"}) << " " << key << ", " << r.pick(ct).n << ", " << c << " : (" << keyTy << ", " << ek << ", " << w << ") -> " << ek); pushCt(n, "own"); return;
      }
    }
    if (pick < 70) {
      if (!tens.empty() && r.chance(0.5)) {
        auto t = r.pick(tens); auto ix = indices(t.shape); auto n = fresh();
        line(S() << n << " = tensor.extract " << t.n << "[" << ix << "] : " << t.t); pushCt(n, "ref"); return;
      }
      if (!mems.empty()) {
        auto t = r.pick(mems); auto ix = indices(t.shape); auto n = fresh();
        if (api == "hl" && r.chance(0.5)) { ix = affineIndices(t.shape); line(S() << n << " = affine.load " << t.n << "[" << ix << "] : " << t.t); }
        else line(S() << n << " = memref.load " << t.n << "[" << ix << "] : " << t.t);
        pushCt(n, "ref"); return;
      }
    }
    if (pick < 76) {
      auto full = locals;
      std::vector<V> ready;
      for (auto &l : locals) if (l.k == "full") ready.push_back(l);
      if (!ready.empty()) {
        auto t = r.pick(ready); auto ix = indices(t.shape); auto n = fresh();
        loaded.insert(t.n);
        if (api == "hl" && r.chance(0.4)) line(S() << n << " = affine.load " << t.n << "[" << affineIndices(t.shape) << "] : " << t.t);
        else line(S() << n << " = memref.load " << t.n << "[" << ix << "] : " << t.t);
        pushCt(n, "rr"); return;
      }
    }
    if (pick < 84 && !boolean()) { // plaintext arithmetic
      if (!ints.empty() && r.chance(0.7)) {
        auto a = r.pick(ints); auto n = fresh();
        std::vector<V> same; for (auto &x : ints) if (x.t == a.t) same.push_back(x);
        int q = r.in(0, 3);
        unsigned w = std::stoi(a.t.substr(1));
        if (q == 0) line(S() << n << " = arith.andi " << a.n << ", " << r.pick(same).n << " : " << a.t);
        else if (q == 1) { auto c = cst(r.in(0, 127), a.t); line(S() << n << " = arith.andi " << a.n << ", " << c << " : " << a.t); }
        else { auto c = cst(r.in(0, w - 1), a.t); line(S() << n << " = arith." << (q == 2 ? "shli" : "shrsi") << " " << a.n << ", " << c << " : " << a.t); }
        ints.push_back({n, a.t, "own", loop, {}});
        return;
      }
    }
    if (pick < 90) {
      std::string v, t;
      if (boolean()) { v = cst(r.in(0, 1), "i1"); t = "i1"; }
      else if (api == "hl") { t = "i" + ek.substr(ek.find("eui") + 3); std::vector<V> same; for (auto &x : ints) if (x.t == t) same.push_back(x); v = same.empty() || r.chance(0.5) ? cst(r.in(0, 120), t) : r.pick(same).n; }
      else if (!ints.empty() && r.chance(0.7)) { auto a = r.pick(ints); v = a.n; t = a.t; if (r.chance(0.3)) { auto c = cst(1, t); auto m = fresh(), b = fresh(); line(S() << m << " = arith.andi " << v << ", " << c << " : " << t); line(S() << b << " = arith.trunci " << m << " : " << t << " to i1"); v = b; t = "i1"; } }
      else { t = r.pick({"i8", "i16", "i32", "i64", "i1"}); v = cst(t == "i1" ? r.in(0, 1) : r.in(0, 100), t); }
      auto n = fresh();
      line(S() << n << " = " << (boolean() ? "tfhe_rust_bool" : "tfhe_rust") << ".create_trivial " << key << ", " << v << " : (" << keyTy << ", " << t << ") -> " << ek);
      pushCt(n, "own");
      return;
    }
    if (pick < 95 && shortint() && !idx.empty()) { auto t = r.pick({"i8", "i16", "i32", "i64"}); auto n = fresh(); line(S() << n << " = arith.index_cast " << r.pick(idx).n << " : index to " << t); ints.push_back({n, t, "own", loop, {}}); return; }
    if (shortint() && r.chance(0.6)) { // constants kept by the module
      std::vector<int64_t> s; for (int k = r.in(1, 2); k--;) s.push_back(r.in(1, 3));
      int64_t total = 1; for (auto d : s) total *= d;
      std::string t = r.pick({"i8", "i16", "i32", "i64"}), g = S() << "@g" << nglob++ << "_" << next;
      std::string d;
      // dense nested
      std::function<std::string(size_t)> nest = [&](size_t k) -> std::string { if (k == s.size()) return std::to_string(r.in(-100, 100)); std::string x = "["; for (int64_t j = 0; j < s[k]; j++) x += (j ? ", " : "") + nest(k + 1); return x + "]"; };
      globals += S() << "memref.global constant " << g << " : memref<" << shp(s, t) << "> = dense<" << nest(0) << ">\n";
      auto m = fresh(), n = fresh();
      line(S() << m << " = memref.get_global " << g << " : memref<" << shp(s, t) << ">");
      auto ix = indices(s);
      line(S() << n << " = memref.load " << m << "[" << ix << "] : memref<" << shp(s, t) << ">");
      ints.push_back({n, t, "own", loop, {}});
    }
  }
  // a local array, every cell of which is written before it is read
  void localArray(bool returned, std::vector<V> &out) {
    std::vector<int64_t> s; for (int k = r.in(1, 2); k--;) s.push_back(r.in(1, 3));
    std::string t = S() << "memref<" << shp(s, ek) << ">", m = fresh("m");
    line(S() << m << " = memref.alloc() : " << t);
    V v{m, t, "filling", loop, s};
    auto cell = [&](const std::string &ix) {
      auto v = storable();
      line(S() << (api == "hl" && r.chance(0.4) && ix.find("%c") == std::string::npos ? "affine.store " : "memref.store ") << v << ", " << m << "[" << ix << "] : " << t);
    };
    if (r.chance(0.5)) {
      std::vector<std::string> ivs;
      std::vector<size_t> sizes = mark();
      for (auto d : s) { auto i = fresh("i"); line(S() << "affine.for " << i << " = 0 to " << d << " {"); indent += 2; loop++; ivs.push_back(i); idx.push_back({i, "index", "iv", loop, {d}}); }
      for (int k = r.in(0, 3); k--;) stmt();
      std::string ix; for (auto &i : ivs) ix += (ix.empty() ? "" : ", ") + i;
      cell(ix);
      for (size_t k = 0; k < s.size(); k++) { indent -= 2; line("}"); loop--; }
      reset(sizes);
    } else {
      int64_t total = 1; for (auto d : s) total *= d;
      for (int64_t q = 0; q < total; q++) {
        int64_t x = q; std::vector<int64_t> at(s.size());
        for (size_t k = s.size(); k-- > 0;) { at[k] = x % s[k]; x /= s[k]; }
        std::string ix; for (auto a : at) { auto c = cst(a); ix += (ix.empty() ? "" : ", ") + c; }
        cell(ix);
      }
    }
    v.k = "full";
    locals.push_back(v);
    out.push_back(v);
  }
  std::vector<size_t> mark() { return {ct.size(), tens.size(), mems.size(), locals.size(), luts.size(), ints.size(), idx.size()}; }
  void reset(const std::vector<size_t> &m) { auto cut = [](std::vector<V> &v, size_t n) { if (v.size() > n) v.erase(v.begin() + n, v.end()); }; cut(ct, m[0]); cut(tens, m[1]); cut(mems, m[2]); cut(locals, m[3]); cut(luts, m[4]); cut(ints, m[5]); cut(idx, m[6]); }
  // a value defined here whose only use is the store (ownership moves into the array), or a reference that is cloned
  std::string storable() {
    std::vector<std::string> c;
    for (auto &x : ct) if (x.k == "ref" || x.k == "arg" || (boolean() && x.k == "own") || (api == "hl" && x.k == "own") || (api == "levels" && x.k == "lev")) c.push_back(x.n);
    if (!c.empty() && r.chance(0.6)) return r.pick(c);
    auto n = fresh();
    if (boolean()) { auto b = cst(r.in(0, 1), "i1"); line(S() << n << " = tfhe_rust_bool.create_trivial " << key << ", " << b << " : (" << keyTy << ", i1) -> " << ek); }
    else {
      auto w = api == "hl" ? "i" + ek.substr(ek.find("eui") + 3) : std::string("i8");
      if (!ct.empty() && r.chance(0.7)) line(S() << n << " = tfhe_rust.bitand " << key << ", " << r.pick(ct).n << ", " << r.pick(ct).n << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek);
      else { auto b = cst(r.in(0, 7), w); line(S() << n << " = tfhe_rust.create_trivial " << key << ", " << b << " : (" << keyTy << ", " << w << ") -> " << ek); }
    }
    return n;
  }
  // a fresh value that nothing else uses
  std::string owned() {
    auto n = fresh(); auto w = "i" + ek.substr(ek.find("eui") + 3);
    if (!ct.empty() && r.chance(0.7)) line(S() << n << " = tfhe_rust.bitor " << key << ", " << r.pick(ct).n << ", " << r.pick(ct).n << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek);
    else { auto b = cst(r.in(-3, 7), w); line(S() << n << " = tfhe_rust.create_trivial " << key << ", " << b << " : (" << keyTy << ", " << w << ") -> " << ek); }
    return n;
  }
  void body(int n) {
    for (int k = 0; k < n; k++) {
      if (loop < 2 && loops < 3 && r.chance(0.1)) {
        loops++;
        auto sizes = mark();
        auto i = fresh("i"); int64_t lo = r.in(0, 2), hi = lo + r.in(0, 3);
        line(S() << "affine.for " << i << " = " << lo << " to " << hi << (shortint() && r.chance(0.3) ? " step 2" : "") << " {");
        indent += 2; loop++;
        idx.push_back({i, "index", "iv", loop, {hi}});
        body(r.in(1, 4));
        // let the outside see something of the loop
        std::vector<V> full; for (auto &l : locals) if (l.k == "full" && !loaded.count(l.n)) full.push_back(l);  // Rust keeps what was loaded borrowed
        if (!full.empty()) { auto &l = r.pick(full); auto ix = indices(l.shape); line(S() << "memref.store " << storable() << ", " << l.n << "[" << ix << "] : " << l.t); }
        indent -= 2; loop--;
        line("}");
        reset(sizes);
      } else if (api == "hl" && loop < 2 && loops < 4 && r.chance(0.1)) { // values carried around a loop
        loops++;
        int n = r.in(1, 2);
        std::vector<std::string> init, it, res, out;
        for (int k = 0; k < n; k++) { init.push_back(owned()); it.push_back(fresh("x")); res.push_back(fresh("r")); }
        auto sizes = mark();
        auto i = fresh("i"); int64_t lo = r.in(0, 2), hi = lo + r.in(0, 3);
        std::string bind, ts, rs;
        for (int k = 0; k < n; k++) { bind += (k ? ", " : "") + it[k] + " = " + init[k]; ts += (k ? ", " : "") + ek; rs += (k ? ", " : "") + res[k]; }
        line(S() << rs << " = affine.for " << i << " = " << lo << " to " << hi << " iter_args(" << bind << ") -> (" << ts << ") {");
        indent += 2; loop++;
        idx.push_back({i, "index", "iv", loop, {hi}});
        for (int k = r.in(0, 3); k--;) stmt();
        for (int k = 0; k < n; k++) { // each carried value is used up once
          auto y = fresh(); auto other = k && r.chance(0.5) ? out[k - 1] : owned();
          line(S() << y << " = tfhe_rust." << r.pick({"add", "sub", "bitxor", "mul"}) << " " << key << ", " << it[k] << ", " << other << " : (" << keyTy << ", " << ek << ", " << ek << ") -> " << ek);
          out.push_back(y);
        }
        std::string ys; for (int k = 0; k < n; k++) ys += (k ? ", " : "") + out[k];
        line("affine.yield " + ys + " : " + ts);
        indent -= 2; loop--;
        line("}");
        reset(sizes);
        for (auto &x : res) pushCt(x, "own");
      } else if (loop == 0 && r.chance(0.06)) { std::vector<V> x; localArray(false, x); }
      else stmt();
    }
  }
  // values that may be returned
  std::string function(const std::string &name) {
    o.str(""); ct.clear(); tens.clear(); mems.clear(); locals.clear(); luts.clear(); ints.clear(); idx.clear(); loaded.clear();
    loops = 0; indent = 2; loop = 0; next = 0;
    keyTy = boolean() ? (api == "packed" ? "!tfhe_rust_bool.server_key_enum" : "!tfhe_rust_bool.server_key") : "!tfhe_rust.server_key";
    std::string args = key + " : " + keyTy;
    int na = 0;
    auto arg = [&](const std::string &t) { std::string n = S() << "%a" << na++; args += ", " + n + " : " + t; return n; };
    for (int k = r.in(0, 3); k--;) pushCt(arg(ek), "arg");
    for (int k = r.in(0, 2); k--;) { std::vector<int64_t> s; for (int q = boolean() ? 1 : r.in(1, 2); q--;) s.push_back(r.in(1, 4)); std::string t = S() << "tensor<" << shp(s, ek) << ">"; tens.push_back({arg(t), t, "arg", 0, s}); }
    if (api != "packed") for (int k = r.in(0, 2); k--;) { std::vector<int64_t> s; for (int q = r.in(1, 2); q--;) s.push_back(r.in(1, 4)); std::string t = S() << "memref<" << shp(s, ek) << ">"; mems.push_back({arg(t), t, "arg", 0, s}); }
    if (shortint()) { for (int k = r.in(0, 2); k--;) { auto t = r.pick({"i8", "i16", "i32", "i64"}); ints.push_back({arg(t), t, "arg", 0, {}}); } if (r.chance(0.3)) luts.push_back({arg("!tfhe_rust.lookup_table"), "lut", "arg", 0, {}}); }
    ct0.clear(); mems0 = mems.size();
    for (auto &x : ct) ct0.push_back(ek), (void)x;
    for (auto &x : tens) ct0.push_back(x.t);
    body(r.in(2, 14));
    // results
    std::vector<std::pair<std::string, std::string>> res;
    int want = r.in(1, 3);
    std::set<std::string> used;
    while ((int)res.size() < want) {
      int q = r.in(0, 3);
      if (q == 0 || ct.empty()) {
        std::vector<V> x;
        V v;
        std::vector<V> full; for (auto &l : locals) if (l.k == "full" && !used.count(l.n)) full.push_back(l);
        if (!full.empty() && r.chance(0.7)) v = r.pick(full); else { localArray(true, x); v = x[0]; }
        used.insert(v.n); res.push_back({v.n, v.t});
      } else if (q == 1) {
        std::vector<V> c; for (auto &x : ct) if (x.k != "rr" && x.loop == 0 && !(boolean() && x.k == "arg") && !used.count(x.n)) c.push_back(x);
        if (c.empty()) continue;
        std::vector<int64_t> s{r.in(1, 3)}; if (!boolean() && api != "hl" && r.chance(0.5)) s.push_back(r.in(1, 3));
        int64_t total = 1; for (auto d : s) total *= d;
        auto n = fresh(); std::string ops; for (int64_t k = 0; k < total; k++) ops += (k ? ", " : "") + r.pick(c).n;
        std::string t = S() << "tensor<" << shp(s, ek) << ">";
        line(S() << n << " = tensor.from_elements " << ops << " : " << t);
        used.insert(n); res.push_back({n, t});
      } else {
        std::vector<V> c; for (auto &x : ct) if ((x.k == "own" || x.k == "lev" || x.k == "arg") && x.loop == 0 && !used.count(x.n)) c.push_back(x);
        if (c.empty()) { auto n = storable(); bool own = true; for (auto &x : ct) if (x.n == n && x.k != "own" && x.k != "lev") own = false; if (!own || used.count(n)) continue; used.insert(n); res.push_back({n, ek}); continue; }
        auto v = r.pick(c); used.insert(v.n); res.push_back({v.n, v.t});
      }
    }
    std::string rs, ts;
    for (auto &x : res) { rs += (rs.empty() ? "" : ", ") + x.first; ts += (ts.empty() ? "" : ", ") + x.second; }
    line("return " + rs + " : " + ts);
    argTypes.clear();
    for (auto &x : ct0) argTypes.push_back(x);
    callable = res.size() == 1 && res[0].second == ek && mems0 == 0;
    return S() << "func.func @" << name << "(" << args << ") -> (" << ts << ") {\n" << o.str() << "}\n";
  }
};

// --- running one case
std::string rustInt(const Val &v, const std::string &ty) { if (ty == "bool") return v.i.isZero() ? "false" : "true"; llvm::SmallString<40> s; v.i.toStringSigned(s); return "(" + s.str().str() + ty + ")"; }
struct Driver {
  std::string api;
  Rng &r;
  // a Rust expression building the value
  std::string ctE(const Val &v, Type t) {
    uint64_t x = v.i.getZExtValue();
    if (api == "hl") return S() << "tfhe::FheUint::<tfhe::FheUint" << euiBits(t) << "Id>::mk(" << x << ")";
    if (api == "bool" || api == "packed") return x ? "bct(true)" : "bct(false)";
    return S() << "sct(" << x << ")";
  }
  std::string elem(const Val &v, Type t) {
    if (isCt(t)) return ctE(v, t);
    unsigned w = t.getIntOrFloatBitWidth();
    if (w == 1) return rustInt(v, "bool");
    std::string ty = (api == "hl" ? "u" : "i") + std::to_string(w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64);
    if (api == "hl") { llvm::SmallString<40> s; v.i.toStringUnsigned(s); return s.str().str() + ty; }
    return rustInt(v, ty);
  }
  std::string nested(const Val &v, Type t, const std::vector<int64_t> &shape, size_t d, size_t &at) {
    auto get = [&](size_t k) -> const Val & { return v.k == Val::Mem ? v.mem->buf->data[v.mem->pos[k]] : (*v.el)[k]; };
    if (d == shape.size()) return elem(get(at++), t);
    std::string s = "[";
    for (int64_t k = 0; k < shape[d]; k++) s += (k ? ", " : "") + nested(v, t, shape, d + 1, at);
    return s + "]";
  }
  std::string expr(const Val &v, Type t) {
    if (isLut(t)) return S() << "sk.generate_lookup_table(|x| (" << v.i.getZExtValue() << " >> x) & 1)";
    if (auto s = dyn_cast<ShapedType>(t)) {
      size_t at = 0;
      std::vector<int64_t> shape = s.getShape().vec();
      bool flatVec = api == "bool" || api == "packed";
      if (flatVec) { std::vector<int64_t> one{s.getNumElements()}; return "vec!" + nested(v, s.getElementType(), one, 0, at); }
      return nested(v, s.getElementType(), shape, 0, at);
    }
    return elem(v, t);
  }
};
Val randomArg(Rng &r, Type t) {
  if (isKey(t)) return Val::integer(APInt(64, 0));
  if (isLut(t)) return Val::integer(APInt(64, r.in(0, 255)));
  if (isCt(t)) return ct(r.next(), t);
  if (isa<IntegerType>(t)) return Val::integer(t.getIntOrFloatBitWidth(), r.chance(0.5) ? r.in(-5, 9) : (int64_t)r.next());
  auto s = cast<ShapedType>(t);
  interp::Elems e;
  for (int64_t k = 0; k < s.getNumElements(); k++) e.push_back(randomArg(r, s.getElementType()));
  return isa<MemRefType>(t) ? Val::newmem(s.getShape().vec(), e) : Val::tensor(s.getShape().vec(), e);
}
void flat(const Val &v, Type t, std::vector<std::string> &o) {
  if (v.k == Val::Poison) { o.push_back("?"); return; }
  if (v.k == Val::Int) { llvm::SmallString<40> s; if (isCt(t) || isa<IntegerType>(t) == false || t.getIntOrFloatBitWidth() == 1) v.i.toStringUnsigned(s); else v.i.toStringSigned(s); o.push_back(s.str().str()); return; }
  size_t n = v.k == Val::Mem ? v.mem->pos.size() : v.el->size();
  for (size_t k = 0; k < n; k++) flat(v.k == Val::Mem ? v.mem->buf->data[v.mem->pos[k]] : (*v.el)[k], getElementTypeOrSelf(t), o);
}
LogicalResult emit(const std::string &api, ModuleOp m, llvm::raw_ostream &os) {
  if (api == "short") return heir::tfhe_rust::translateToTfheRust(m, os, false);
  if (api == "levels") return heir::tfhe_rust::translateToTfheRust(m, os, true);
  if (api == "hl") return heir::tfhe_rust::translateToTfheRustHL(m, os);
  return heir::tfhe_rust_bool::translateToTfheRustBool(m, os, api == "packed");
}
// names are unique in a function, integers in the module
void checkNames(mon::Case &c, ModuleOp m) {
  heir::SelectVariableNames names(m);
  std::map<int, Operation *> ints;
  m.walk([&](func::FuncOp f) {
    std::map<std::string, int> seen;
    auto one = [&](Value v) {
      std::string n = names.getNameForValue(v);
      c.event("names");
      c.check(!n.empty() && (isalpha(n[0]) || n[0] == '_') && llvm::all_of(n, [](char x) { return isalnum(x) || x == '_'; }), "name-form", [&] { return "not an identifier: " + n; });
      c.check(++seen[n] == 1, "name-clash", [&] { return "two values of " + f.getName().str() + " are called " + n; });
      c.check(names.getNameForValue(v) == n, "name-unstable", [&] { return n; });
      int i = names.getIntForValue(v);
      c.check(ints.emplace(i, f).second, "int-clash", [&] { return S() << "two values have number " << i; });
    };
    for (auto a : f.getArguments()) one(a);
    f.walk<WalkOrder::PreOrder>([&](Operation *op) {
      if (op == f) return;
      for (auto x : op->getResults()) one(x);
      for (auto &g : op->getRegions()) for (auto &b : g) for (auto a : b.getArguments()) one(a);
    });
  });
}
void run(mon::Case &c, const std::string &api, const std::string &mlir, const std::string &what, int calls, bool tight) {
  c.describe(S() << api << ": " << mlir);
  Quiet q;
  OwningOpRef<ModuleOp> mod = parseSourceString<ModuleOp>(mlir, &ctx());
  if (!mod || failed(verify(*mod))) { c.fail("harness", "generated program is not valid: " + q.msgs); return; }
  checkNames(c, *mod);
  std::string rust;
  { llvm::raw_string_ostream os(rust); if (failed(emit(api, *mod, os))) { c.event("refused"); c.check(!q.msgs.empty(), "silent-refusal", "translation failed without a message"); if (tight) c.fail("refused", "a supported program is refused: " + q.msgs); return; } }
  // a second translation in the same process must not depend on the first
  { std::string again; llvm::raw_string_ostream os(again); (void)emit(api, *mod, os); c.check(again == rust, "emission-unstable", "translating the same module twice gives different text"); }
  c.event("emitted");
  llvm::json::Array fnsJ;
  std::string drv;
  llvm::json::Array expects;
  int k = 0;
  Driver d{api, c.rng};
  for (auto f : mod->getOps<func::FuncOp>()) {
    for (int rep = 0; rep < calls; rep++) {
      std::vector<Val> args;
      for (auto t : f.getArgumentTypes()) args.push_back(randomArg(c.rng, t));
      std::string pre, list;
      for (size_t j = 0; j < args.size(); j++) {
        Type t = f.getArgumentTypes()[j];
        if (isKey(t)) { if (api != "hl") list += "&sk, "; continue; }
        pre += S() << "let a" << j << " = " << d.expr(args[j], t) << "; ";
        list += S() << (isa<IntegerType>(t) && (api == "short" || api == "levels") ? "" : "&") << "a" << j << ", ";
      }
      interp::Interp in(*mod);
      extend(in);
      std::vector<Val> res;
      try { res = in.call(f.getName(), args); } catch (interp::UB &u) { c.event("undefined"); continue; } catch (interp::Unsupported &u) { c.fail("harness", "cannot interpret " + u.op); return; } catch (interp::Fuel &) { continue; }
      std::vector<std::string> out;
      for (size_t j = 0; j < res.size(); j++) flat(res[j], f.getResultTypes()[j], out);
      llvm::json::Array e; for (auto &x : out) e.push_back(x);
      expects.push_back(std::move(e));
      unsigned bits = 0;
      f.walk([&](Operation *op) { for (auto v : op->getOperands()) if (isCt(getElementTypeOrSelf(v.getType()))) bits = std::max(bits, euiBits(v.getType())); });
      drv += S() << "  crate::call(id, " << k++ << ", || { let sk = key(" << bits << "); " << pre << " let r = " << f.getName().str() << "(" << list << "); crate::show(&r) });\n";
    }
  }
  std::string dir = getenv("E01_OUT") ? getenv("E01_OUT") : "";
  if (dir.empty()) return;
  llvm::json::Object o{{"family", c.family}, {"index", c.index}, {"api", api}, {"tight", tight}, {"what", what}, {"mlir", mlir}, {"rust", rust}, {"driver", drv}, {"expect", std::move(expects)}};
  if (!resources.empty()) {
    llvm::json::Object files;
    auto t = 8u;
    mod->walk([&](heir::preprocessing::LoadResourceOp l) {
      t = getElementTypeOrSelf(l.getResult().getType()).getIntOrFloatBitWidth() / 8;
      std::string hex;
      for (auto x : resources.at(l.getPath().str())) for (unsigned b = 0; b < t; b++) { char buf[3]; snprintf(buf, 3, "%02x", (unsigned)((uint64_t)x >> (8 * b)) & 255); hex += buf; }
      files[l.getPath().str()] = hex;
    });
    o["resources"] = std::move(files);
  }
  std::error_code ec;
  std::string path = S() << dir << "/" << c.family << "-" << c.index << ".json";
  llvm::raw_fd_ostream fo(path, ec);
  fo << llvm::json::Value(std::move(o)) << "\n";
}
std::string module(mon::Case &c, const std::string &api) {
  std::string all, globals;
  int nf = c.rng.in(1, 3);
  std::vector<std::pair<std::string, std::vector<std::string>>> sigs;
  std::string ek = api == "hl" ? c.rng.pick({"!tfhe_rust.eui8", "!tfhe_rust.eui16", "!tfhe_rust.eui32", "!tfhe_rust.eui64"}) : (api == "bool" || api == "packed") ? "!tfhe_rust_bool.eb" : c.rng.pick({"!tfhe_rust.eui3", "!tfhe_rust.eui3", "!tfhe_rust.eui2", "!tfhe_rust.eui4"});
  for (int k = 0; k < nf; k++) {
    Gen g(c.rng, api);
    g.ek = ek;
    g.nglob = 100 * k;
    if (api == "hl") g.sigs = &sigs;
    all += g.function(S() << "f" << k);
    if (g.callable) sigs.push_back({S() << "f" << k, g.argTypes});
    globals += g.globals;
  }
  return globals + all;
}
// --- programs at the edge of what the generators support: refused, rejected by the Rust compiler, or right
MON_FAMILY(E01_bounds, 60, 300) {
  auto &r = c.rng;
  std::string api = r.pick({"short", "levels", "bool", "packed", "hl"});
  bool b = api == "bool" || api == "packed";
  std::string ek = b ? "!tfhe_rust_bool.eb" : api == "hl" ? "!tfhe_rust.eui8" : "!tfhe_rust.eui3", d = b ? "tfhe_rust_bool" : "tfhe_rust", sk = api == "packed" ? "!tfhe_rust_bool.server_key_enum" : "!" + d + ".server_key";
  std::string op = S() << d << "." << (b ? r.pick({"xor", "and", "nor"}) : r.pick({"add", "bitand"}));
  int shape = r.in(0, 5), lo = r.in(0, 2), step = r.in(1, 3), hi = lo + r.in(0, 5);
  std::ostringstream o;
  o << "func.func @f0(%k : " << sk << ", %a : " << ek << ", %b : " << ek << ", %t : tensor<8x" << ek << ">" << (shape == 1 ? ", %n : i32" : "") << ") -> " << (shape == 3 ? ek : S() << "memref<8x" << ek << ">") << " {\n";
  auto opn = [&](const std::string &res, const std::string &x, const std::string &y) { return S() << res << " = " << op << " %k, " << x << ", " << y << " : (" << sk << ", " << ek << ", " << ek << ") -> " << ek << "\n"; };
  std::string init;
  for (int k = 0; k < 8; k++) init += S() << "%z" << k << " = arith.constant " << k << " : index\nmemref.store %a, %m[%z" << k << "] : memref<8x" << ek << ">\n";
  o << "%m = memref.alloc() : memref<8x" << ek << ">\n";
  if (shape != 3) o << init;
  std::string put = S() << "%e = tensor.extract %t[%i] : tensor<8x" << ek << ">\n" << std::string(opn("%s", "%e", "%b")) << "memref.store %s, %m[%i] : memref<8x" << ek << ">\n";
  if (shape == 0) o << "affine.for %i = " << lo << " to " << hi << " step " << step << " {\n" << put << "}\n";
  else if (shape == 1) o << "%d = arith.index_cast %n : i32 to index\naffine.for %i = 0 to min affine_map<()[s] -> (s, 8)>()[%d] {\n" << put << "}\n";
  else if (shape == 2) o << "affine.for %j = 0 to " << r.in(1, 4) << " {\naffine.for %i = affine_map<(d) -> (d)>(%j) to affine_map<(d) -> (d + " << r.in(1, 4) << ")>(%j) {\n" << put << "}\n}\n";
  else if (shape == 3) o << "%r = affine.for %i = " << lo << " to " << hi << " step " << step << " iter_args(%x = %a) -> (" << ek << ") {\n%e = tensor.extract %t[%i] : tensor<8x" << ek << ">\n" << std::string(opn("%s", "%x", "%e")) << "affine.yield %s : " << ek << "\n}\n";
  else if (shape == 4) o << "affine.for %j = 0 to 2 {\naffine.for %i = " << lo << " to " << hi << " {\n" << put << "}\n}\n";
  else o << "affine.for %i = " << hi << " to " << lo << " {\n" << put << "}\n";
  if (shape == 3) o << "return %r : " << ek << "\n}\n"; else o << "return %m : memref<8x" << ek << ">\n}\n";
  run(c, api, o.str(), "", 3, false);
}
MON_FAMILY(E01_integers, 80, 400) {
  auto &r = c.rng;
  // how generated code computes with public integers; what is known to differ is recorded under its own name
  std::string t = r.pick({"i8", "i16", "i32", "i64"}), api = r.pick({"short", "levels"});
  int w = std::stoi(t.substr(1)), kind = r.in(0, 3);
  std::ostringstream o;
  o << "func.func @f0(%k : !tfhe_rust.server_key, %x : " << t << ", %y : " << t << ") -> !tfhe_rust.eui4 {\n";
  std::string v = "%x", vt = t, what;
  if (kind == 0) { // constants only; their type is not printed
    o << "%c = arith.constant " << (w >= 32 && r.chance(0.3) ? (int64_t)(r.next() >> (66 - w)) : r.in(0, 120)) << " : " << t << "\n%s = arith.constant " << r.in(0, w - 1) << " : " << t << "\n%v0 = arith.shli %c, %s : " << t << "\n%q = arith.constant " << r.in(0, w - 1) << " : " << t << "\n%v = arith.shrsi %v0, %q : " << t << "\n";
    v = "%v"; what = "untyped-constants";
  } else if (kind == 1) {
    o << "%v = arith.trunci %x : " << t << " to i1\n"; v = "%v"; vt = "i1"; what = "trunc-to-bool";
    if (w == 1) what = "";
  } else if (kind == 2 && w > 8) {
    std::string to = w == 16 ? "i8" : w == 32 ? r.pick({"i8", "i16"}) : r.pick({"i8", "i16", "i32"});
    o << "%v1 = arith.trunci %x : " << t << " to " << to << "\n%q = arith.constant " << r.in(0, std::stoi(to.substr(1)) - 1) << " : " << to << "\n%v = arith.shrsi %v1, %q : " << to << "\n"; v = "%v"; vt = to;
  } else {
    o << "%q = arith.constant " << r.in(0, w - 1) << " : " << t << "\n%v0 = arith.shrsi %x, %q : " << t << "\n%v = arith.andi %v0, %y : " << t << "\n"; v = "%v";
  }
  o << "%e = tfhe_rust.create_trivial %k, " << v << " : (!tfhe_rust.server_key, " << vt << ") -> !tfhe_rust.eui4\n%f = tfhe_rust.bitand %k, %e, %e : (!tfhe_rust.server_key, !tfhe_rust.eui4, !tfhe_rust.eui4) -> !tfhe_rust.eui4\nreturn %f : !tfhe_rust.eui4\n}\n";
  run(c, api, o.str(), what, 6, kind >= 2);
}
MON_FAMILY(E01_resources, 24, 120) {
  auto &r = c.rng;
  resources.clear();
  std::ostringstream o;
  int n = r.in(1, 3);
  std::string t = r.pick({"i8", "i16", "i32", "i64"});
  int w = std::stoi(t.substr(1));
  o << "func.func @f0(%k : !tfhe_rust.server_key, %x : " << t << ") -> !tfhe_rust.eui4 {\n";
  std::string acc = "%x";
  for (int q = 0; q < n; q++) {
    std::vector<int64_t> s; for (int k = r.in(1, 3); k--;) s.push_back(r.in(1, 4));
    int64_t total = 1; std::string dims; for (auto d : s) { total *= d; dims += std::to_string(d) + "x"; }
    std::string path = S() << c.family << c.index << "_" << q << ".bin", ty = S() << "memref<" << dims << t << ">";
    std::vector<int64_t> data; for (int64_t k = 0; k < total; k++) data.push_back(APInt(64, r.next()).trunc(w).getSExtValue());
    resources[path] = data;
    o << "%m" << q << " = preprocessing.load_resource \"" << path << "\" : " << ty << "\n";
    std::string ix;
    for (size_t d = 0; d < s.size(); d++) { o << "%i" << q << "_" << d << " = arith.constant " << r.in(0, s[d] - 1) << " : index\n"; ix += S() << (d ? ", " : "") << "%i" << q << "_" << d; }
    o << "%l" << q << " = memref.load %m" << q << "[" << ix << "] : " << ty << "\n%n" << q << " = arith.andi " << acc << ", %l" << q << " : " << t << "\n";
    acc = r.chance(0.5) ? S() << "%n" << q : S() << "%l" << q;
  }
  o << "%e = tfhe_rust.create_trivial %k, " << acc << " : (!tfhe_rust.server_key, " << t << ") -> !tfhe_rust.eui4\nreturn %e : !tfhe_rust.eui4\n}\n";
  run(c, "short", o.str(), "", 3, true);
  resources.clear();
}
// --- signatures
llvm::json::Value typeJson(Type t) {
  if (auto i = dyn_cast<IntegerType>(t)) return llvm::json::Object{{"integer", llvm::json::Object{{"width", (int64_t)i.getWidth()}, {"is_signed", i.isSigned()}}}};
  auto m = cast<MemRefType>(t);
  llvm::json::Array s; for (auto d : m.getShape()) s.push_back(d);
  return llvm::json::Object{{"memref", llvm::json::Object{{"shape", std::move(s)}, {"element_type", typeJson(m.getElementType())}}}};
}
MON_FAMILY(E01_signatures, 200, 2000) {
  auto &r = c.rng;
  auto integer = [&] { return S() << r.pick({"i", "i", "si", "ui"}) << r.pick({1, 3, 8, 16, 32, 64, 128}); };
  bool odd = false;
  auto type = [&](bool allowOdd) -> std::string {
    if (allowOdd && r.chance(0.05)) { odd = true; return r.pick({"f32", "index", "tensor<4xi8>", "memref<2xf32>"}); }
    if (r.chance(0.5)) return integer();
    std::string s; for (int k = r.in(0, 3); k--;) s += std::to_string(r.in(1, 300)) + "x";
    return S() << "memref<" << s << std::string(integer()) << ">";
  };
  std::ostringstream o;
  bool allowOdd = r.chance(0.2);
  int nf = r.in(0, 4);
  llvm::json::Array fs;
  bool many = false;
  std::vector<std::pair<std::vector<std::string>, std::vector<std::string>>> sig;
  for (int k = 0; k < nf; k++) {
    std::vector<std::string> in, out;
    for (int q = r.in(0, 4); q--;) in.push_back(type(allowOdd));
    int no = r.chance(0.05) ? 2 : r.in(0, 1); if (no == 2) many = true;
    for (int q = no; q--;) out.push_back(type(allowOdd));
    o << "func.func private @" << (r.chance(0.5) ? "f" : "main_") << k << "(";
    for (size_t q = 0; q < in.size(); q++) o << (q ? ", " : "") << in[q];
    o << ") -> (";
    for (size_t q = 0; q < out.size(); q++) o << (q ? ", " : "") << out[q];
    o << ")\n";
    if (r.chance(0.3)) o << "memref.global constant @g" << k << " : memref<1xi8> = dense<1>\n";
  }
  c.describe("signatures: " + o.str());
  Quiet q;
  OwningOpRef<ModuleOp> mod = parseSourceString<ModuleOp>(o.str(), &ctx());
  if (!mod) { c.fail("harness", q.msgs); return; }
  // declarations have no arguments of their own: give them bodies
  for (auto f : mod->getOps<func::FuncOp>()) f.addEntryBlock();
  std::string text;
  llvm::raw_string_ostream os(text);
  bool ok = succeeded(heir::emitMetadata(*mod, os));
  c.event("signature_modules");
  if (odd || many) { c.check(!ok, "signature-accepted", [&] { return "a signature that cannot be described is accepted: " + text; }); return; }
  if (!c.check(ok, "signature-refused", [&] { return "refused: " + q.msgs; })) return;
  auto parsed = llvm::json::parse(text);
  if (!parsed) { llvm::consumeError(parsed.takeError()); c.fail("signature-not-json", text); return; }
  auto *arr = parsed->getAsObject() ? parsed->getAsObject()->getArray("functions") : nullptr;
  if (!c.check(arr && arr->size() == (size_t)nf, "signature-count", [&] { return text; })) return;
  int k = 0;
  for (auto f : mod->getOps<func::FuncOp>()) {
    auto &j = *(*arr)[k++].getAsObject();
    c.check(j.getString("name") && *j.getString("name") == f.getName(), "signature-name", [&] { return text; });
    auto *ps = j.getArray("params"), *rs = j.getArray("return_types");
    if (!c.check(ps && rs && ps->size() == f.getNumArguments() && rs->size() == f.getNumResults(), "signature-arity", [&] { return text; })) continue;
    for (size_t q = 0; q < ps->size(); q++) {
      auto *p = (*ps)[q].getAsObject();
      c.check(p && p->getInteger("index") == (int64_t)q && p->get("type") && *p->get("type") == typeJson(f.getArgumentTypes()[q]), "signature-type", [&] { return S() << "argument " << q << " of " << f.getName().str() << ": " << text; });
    }
    for (size_t q = 0; q < rs->size(); q++) c.check((*rs)[q] == typeJson(f.getResultTypes()[q]), "signature-type", [&] { return S() << "result of " << f.getName().str() << ": " << text; });
  }
}
// --- names of typed values, and which values may be called constant
struct InPlaceModel : heir::InPlaceOpInterface::ExternalModel<InPlaceModel, tensor::InsertOp> { int getInPlaceOperandIndex(Operation *) const { return 1; } };
MON_FAMILY(E01_qualifiers, 150, 1500) {
  static bool once = (tensor::InsertOp::attachInterface<InPlaceModel>(ctx()), true); (void)once;
  auto &r = c.rng;
  std::ostringstream o;
  std::vector<std::string> mems, tens, keys, ints;
  int next = 0;
  auto fresh = [&]() -> std::string { return S() << "%q" << next++; };
  auto kty = [&]() -> std::string { return S() << "!key_mgmt.rot_key<rotation_index = " << r.in(0, 3) << ">"; };
  int nf = r.in(1, 3);
  for (int f = 0; f < nf; f++) {
    mems.clear(); tens.clear(); ints.clear();
    std::string args;
    auto arg = [&](const std::string &t) { auto n = fresh(); args += (args.empty() ? "" : ", ") + std::string(n) + " : " + t; return n; };
    for (int k = r.in(0, 3); k--;) arg(kty());
    for (int k = r.in(1, 3); k--;) mems.push_back(arg("memref<4xi32>"));
    for (int k = r.in(1, 3); k--;) tens.push_back(arg("tensor<4xi32>"));
    ints.push_back(arg("i32"));
    o << "func.func @f" << f << "(" << args << ") {\n%c" << f << " = arith.constant 1 : index\n";
    std::string ix = S() << "%c" << f;
    std::function<void(int, int)> body = [&](int n, int depth) {
      auto m0 = mems, t0 = tens, i0 = ints;
      for (int k = 0; k < n; k++) {
        auto v = fresh();
        switch (r.in(0, 7)) {
        case 0: o << v << " = memref.alloc() : memref<4xi32>\n"; mems.push_back(v); break;
        case 1: o << "memref.store " << r.pick(ints) << ", " << r.pick(mems) << "[" << ix << "] : memref<4xi32>\n"; break;
        case 2: o << v << " = memref.load " << r.pick(mems) << "[" << ix << "] : memref<4xi32>\n"; ints.push_back(v); break;
        case 3: o << "memref.copy " << r.pick(mems) << ", " << r.pick(mems) << " : memref<4xi32> to memref<4xi32>\n"; break;
        case 4: o << v << " = tensor.insert " << r.pick(ints) << " into " << r.pick(tens) << "[" << ix << "] : tensor<4xi32>\n"; tens.push_back(v); break;
        case 5: o << v << " = arith.addi " << r.pick(ints) << ", " << r.pick(ints) << " : i32\n"; ints.push_back(v); break;
        case 6: o << v << " = tensor.extract " << r.pick(tens) << "[" << ix << "] : tensor<4xi32>\n"; ints.push_back(v); break;
        default: if (depth < 3) { auto x = fresh(), t = r.pick(tens); o << v << " = affine.for %i" << next++ << " = 0 to 3 iter_args(" << x << " = " << t << ") -> (tensor<4xi32>) {\n"; auto m1 = mems, t1 = tens, i1 = ints; tens.push_back(x); body(r.in(0, 3), depth + 1); o << "affine.yield " << r.pick(tens) << " : tensor<4xi32>\n}\n"; mems = m1; tens = t1; ints = i1; tens.push_back(v); }
        }
      }
    };
    body(r.in(2, 10), 0);
    o << "return\n}\n";
  }
  c.describe("qualifiers: " + o.str());
  Quiet q;
  OwningOpRef<ModuleOp> mod = parseSourceString<ModuleOp>(o.str(), &ctx());
  if (!mod) { c.fail("harness", q.msgs); return; }
  checkNames(c, *mod);
  heir::ConstQualifierAnalysis quals(*mod);
  auto one = [&](Value v) {
    bool changed = llvm::any_of(v.getUses(), [](OpOperand &u) {
      Operation *op = u.getOwner();
      unsigned n = u.getOperandNumber();
      return (isa<memref::StoreOp>(op) && n == 1) || (isa<memref::CopyOp>(op) && n == 1) || (isa<tensor::InsertOp>(op) && n == 1);
    });
    c.event(changed ? "values_changed" : "values_not_changed");
    c.check(!changed || !quals.canBeMarkedConst(v), "const-but-changed", [&] { std::string s; llvm::raw_string_ostream so(s); v.print(so); return "a value that is written to may be declared constant: " + s; });
    c.check(changed || quals.canBeMarkedConst(v), "const-lost", [&] { std::string s; llvm::raw_string_ostream so(s); v.print(so); return "a value that nothing writes to may not be declared constant: " + s; });
  };
  mod->walk([&](Operation *op) {
    for (auto x : op->getResults()) one(x);
    for (auto &g : op->getRegions()) for (auto &b : g) for (auto a : b.getArguments()) one(a);
  });
}
MON_FAMILY(E01_short, 150, 900) { run(c, "short", module(c, "short"), "", 3, true); }
MON_FAMILY(E01_levels, 150, 900) { run(c, "levels", module(c, "levels"), "", 3, true); }
MON_FAMILY(E01_bool, 150, 900) { run(c, "bool", module(c, "bool"), "", 3, true); }
MON_FAMILY(E01_packed, 100, 600) { run(c, "packed", module(c, "packed"), "", 3, true); }
MON_FAMILY(E01_hl, 150, 900) { run(c, "hl", module(c, "hl"), "", 3, true); }
} // namespace
MON_MAIN()
