// O02: the data-oblivious rewrites keep results, and leave nothing for an observer of branches, loops and indices to see.
#include "interp.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.h"
#include "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.h"
#include "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.h"
#include "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.h"
#include "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
using namespace mlir;
using namespace mlir::heir;
using mon::S;
using interp::Val;
using interp::Outcome;
#define INTERP_EXTRA_DIALECTS , heir::secret::SecretDialect
#include "passrun.h"

namespace {
struct V { std::string name, type; int64_t bound = 0; int64_t len = 0; bool secret = false; }; // bound: an index below it; len: a tensor of it
struct G {
  mon::Rng &r;
  bool wide;
  int budget;
  std::string out;
  int n = 0, ind = 2;
  std::vector<V> vs;
  int64_t iters = 1;
  bool used[8] = {};
  int ifs = 0;            // enclosing scf.if, scf.for and scf.while (guards are put in bounded loops)
  bool loopInIf = false;  // an scf.if is only rewritten when its body may be executed unconditionally
  bool impure = true;     // calls may be generated here
  G(mon::Rng &r, bool wide, int budget) : r(r), wide(wide), budget(budget) {}
  std::string v() { return "%v" + std::to_string(n++); }
  void line(const std::string &s) { out += std::string(ind, ' ') + s + "\n"; }
  V add(V x) { vs.push_back(x); return x; }
  std::string lit(const std::string &t) { return t == "i1" ? (r.chance(0.5) ? "true" : "false") : std::to_string(r.in(-6, 9)); }
  V cst(const std::string &t) { auto x = v(); line(x + " = arith.constant " + (t == "i1" ? lit(t) : lit(t) + " : " + t)); return add({x, t}); }
  V cidx(int64_t k) { auto x = v(); line(x + " = arith.constant " + std::to_string(k) + " : index"); return add({x, "index", k + 1}); }
  // wantSecret: -1 either, 0 public, 1 secret preferred
  V any(const std::string &t, int want = -1) {
    std::vector<V> c;
    for (auto &x : vs) if (x.type == t && !x.len && (want != 0 || !x.secret)) c.push_back(x);
    if (want == 1) { std::vector<V> d; for (auto &x : c) if (x.secret) d.push_back(x); if (!d.empty()) return r.pick(d); }
    if (c.empty() || r.chance(0.06)) return cst(t);
    if (r.chance(0.35)) return c.back();
    return r.pick(c);
  }
  std::string ity() { return r.pick(std::vector<std::string>{"i8", "i16", "i32"}); }
  V index(int64_t bound, int want = -1) {
    std::vector<V> c;
    for (auto &x : vs) if (x.type == "index" && x.bound && x.bound <= bound && (want != 0 || !x.secret)) c.push_back(x);
    if (!c.empty() && r.chance(0.6)) {
      if (want == 1) for (auto &x : c) if (x.secret && r.chance(0.5)) return x;
      return r.pick(c);
    }
    if (r.chance(0.25)) return cidx(r.in(0, bound - 1));
    auto s = any(ity(), want);
    auto a = v(), b = v(), m = v();
    line(a + " = arith.index_castui " + s.name + " : " + s.type + " to index");
    line(m + " = arith.constant " + std::to_string(bound) + " : index");
    line(b + " = arith.remui " + a + ", " + m + " : index");
    return add({b, "index", bound, 0, s.secret});
  }
  V cond(int want = -1) {
    if (r.chance(0.25)) for (auto &x : vs) if (x.type == "i1" && (want != 0 || !x.secret) && r.chance(0.5)) return x;
    auto t = ity();
    auto a = any(t, want), b = any(t, want == 0 ? 0 : -1);
    auto x = v();
    line(x + " = arith.cmpi " + r.pick(std::vector<std::string>{"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "uge"}) + ", " + a.name + ", " + b.name + " : " + t);
    return add({x, "i1", 0, 0, a.secret || b.secret});
  }
  void arith() {
    auto t = ity();
    auto x = v();
    switch (r.in(0, 5)) {
      case 0: case 1: case 2: {
        auto a = any(t), b = any(t);
        line(x + " = arith." + r.pick(std::vector<std::string>{"addi", "subi", "muli", "andi", "ori", "xori", "maxsi", "minui"}) + " " + a.name + ", " + b.name + " : " + t);
        add({x, t, 0, 0, a.secret || b.secret});
        break;
      }
      case 3: {
        auto q = cond();
        auto a = any(t), b = any(t);
        line(x + " = arith.select " + q.name + ", " + a.name + ", " + b.name + " : " + t);
        add({x, t, 0, 0, q.secret || a.secret || b.secret});
        break;
      }
      case 4: {
        std::string u = ity();
        auto a = any(u);
        int w = std::stoi(u.substr(1)), z = std::stoi(t.substr(1));
        if (w == z) break;
        line(x + (w < z ? (r.chance(0.5) ? " = arith.extsi " : " = arith.extui ") : " = arith.trunci ") + a.name + " : " + u + " to " + t);
        add({x, t, 0, 0, a.secret});
        break;
      }
      case 5: {
        std::vector<V> c;
        for (auto &q : vs) if (q.type == "index") c.push_back(q);
        if (c.empty()) break;
        auto a = r.pick(c);
        line(x + " = arith.index_cast " + a.name + " : index to " + t);
        add({x, t, 0, 0, a.secret});
      }
    }
    if (wide && r.chance(0.1)) {
      auto a = any(t), b = any(t), y = cst(t);
      auto d = v(), e = v();
      line(d + " = arith.ori " + b.name + ", " + y.name + " : " + t);
      line(e + " = arith.remui " + a.name + ", " + d + " : " + t);
      add({e, t, 0, 0, a.secret || b.secret});
    }
  }
  static std::string tt(int64_t len, const std::string &e) { return "tensor<" + std::to_string(len) + "x" + e + ">"; }
  V tensor() {
    std::vector<V> c;
    for (auto &x : vs) if (x.len) c.push_back(x);
    if (!c.empty() && !r.chance(0.08)) return r.chance(0.4) ? c.back() : r.pick(c);
    auto t = ity();
    int64_t len = r.in(1, 6);
    auto x = v();
    std::string s = x + " = tensor.from_elements ";
    bool sec = false;
    for (int64_t k = 0; k < len; k++) { auto e = any(t); }
    std::vector<V> es;
    for (int64_t k = 0; k < len; k++) es.push_back(any(t));
    for (int64_t k = 0; k < len; k++) { s += (k ? ", " : "") + es[k].name; sec |= es[k].secret; }
    line(s + " : " + tt(len, t));
    return add({x, t, 0, len, sec});
  }
  void extract() {
    auto t = tensor();
    auto i = index(t.len, 1);
    auto x = v();
    line(x + " = tensor.extract " + t.name + "[" + i.name + "] : " + tt(t.len, t.type));
    add({x, t.type, 0, 0, t.secret || i.secret});
  }
  void insert() {
    auto t = tensor();
    auto i = index(t.len, 1);
    auto s = any(t.type);
    auto x = v();
    line(x + " = tensor.insert " + s.name + " into " + t.name + "[" + i.name + "] : " + tt(t.len, t.type));
    add({x, t.type, 0, t.len, t.secret || i.secret || s.secret});
  }
  std::string ty(const V &x) { return x.len ? tt(x.len, x.type) : x.type; }
  V carried() { if (r.chance(0.3)) return tensor(); return any(ity()); }
  // a value of the same type as x
  V like(const V &x) {
    std::vector<V> c;
    for (auto &y : vs) if (y.type == x.type && y.len == x.len && (x.type != "index" || (y.bound && y.bound <= x.bound))) c.push_back(y);
    if (r.chance(0.5)) return c.back();
    return r.pick(c);
  }
  void body(int depth, int len) { for (int k = 0; k < len && budget > 0; k++) stmt(depth); }
  void branch(int depth) {
    auto q = cond(1);
    std::vector<V> res;
    for (int k = r.in(1, 2); k--;) res.push_back(carried());
    // mostly constants: what flows out only depends on the condition
    std::string names, types;
    for (size_t k = 0; k < res.size(); k++) { auto x = v(); names += (k ? ", " : "") + x; types += (k ? ", " : "") + ty(res[k]); }
    // the results
    std::vector<std::string> ns;
    for (size_t k = 0; k < res.size(); k++) ns.push_back("%v" + std::to_string(n - res.size() + k));
    line(names + " = scf.if " + q.name + " -> (" + types + ") {");
    bool sec = q.secret;
    for (int arm = 0; arm < 2; arm++) {
      auto saved = vs;
      ind += 2;
      ifs++;
      body(depth - 1, r.in(0, 4));
      ifs--;
      std::string y;
      std::vector<V> outv;
      for (auto &x : res) outv.push_back(!x.len && r.chance(0.3) ? cst(x.type) : like(x));
      for (size_t k = 0; k < outv.size(); k++) { y += (k ? ", " : "") + outv[k].name; sec |= outv[k].secret; }
      line("scf.yield " + y + " : " + types);
      ind -= 2;
      vs = saved;
      line(arm ? "}" : "} else {");
    }
    for (size_t k = 0; k < res.size(); k++) add({ns[k], res[k].type, 0, res[k].len, sec});
    used[0] |= q.secret;
  }
  // carried values are secret when they, the bounds or the enclosing values are; be conservative
  void sfor(int depth) {
    int64_t lower = r.in(0, 2), upper = lower + r.in(1, 4), step = r.chance(0.7) ? 1 : r.in(2, 3);
    if (iters * (upper - lower) > 40) return;
    loopInIf |= ifs > 0;
    auto bound = [&](bool up) -> V {
      if (r.chance(0.3)) return cidx(up ? upper : lower);
      // offset + something below the range
      auto i = index(upper - lower + 1, 1);
      auto o = cidx(lower);
      auto x = v();
      line(x + " = arith.addi " + i.name + ", " + o.name + " : index");
      return V{x, "index", 0, 0, i.secret};
    };
    V lo = bound(false), hi = bound(true);
    bool narrow = r.chance(0.15);
    std::string it = "index";
    if (narrow) {
      it = "i32";
      for (V *q : {&lo, &hi}) { auto x = v(); line(x + " = arith.index_cast " + q->name + " : index to i32"); q->name = x; }
    }
    auto st = v();
    bool dynStep = wide && r.chance(0.1);
    if (dynStep) { auto i = index(3, 0); auto o = cidx(1); line(st + " = arith.addi " + i.name + ", " + o.name + " : index"); if (narrow) { auto x = v(); line(x + " = arith.index_cast " + st + " : index to i32"); st = x; } }
    else line(st + " = arith.constant " + std::to_string(step) + " : " + it);
    std::vector<V> init;
    for (int k = r.in(1, 2); k--;) init.push_back(carried());
    bool sec = lo.secret || hi.secret;
    used[1] |= sec;
    auto iv = v();
    std::string hdr, types, names;
    std::vector<V> args;
    for (auto &x : init) { auto a = v(); args.push_back({a, x.type, 0, x.len, true}); hdr += (hdr.empty() ? "" : ", ") + a + " = " + x.name; types += (types.empty() ? "" : ", ") + ty(x); }
    std::vector<std::string> ns;
    for (size_t k = 0; k < init.size(); k++) { ns.push_back(v()); names += (k ? ", " : "") + ns.back(); }
    line(names + " = scf.for " + iv + " = " + lo.name + " to " + hi.name + " step " + st + " iter_args(" + hdr + ") -> (" + types + ") " + (narrow ? ": i32 " : "") + "{");
    auto saved = vs;
    auto it0 = iters;
    iters *= upper - lower;
    ind += 2;
    if (narrow) add({iv, "i32"}); else add({iv, "index", upper});
    for (auto &a : args) add(a);
    ifs++;
    body(depth - 1, r.in(1, 5));
    ifs--;
    std::string y;
    for (size_t k = 0; k < init.size(); k++) y += (k ? ", " : "") + like(init[k]).name;
    line("scf.yield " + y + " : " + types);
    ind -= 2;
    iters = it0;
    vs = saved;
    line("} {lower = " + std::to_string(lower) + " : index, upper = " + std::to_string(upper) + " : index}");
    for (size_t k = 0; k < init.size(); k++) add({ns[k], init[k].type, 0, init[k].len, true});
  }
  void swhile(int depth) {
    int64_t max = r.in(1, 4);
    if (iters * max > 40) return;
    loopInIf |= ifs > 0;
    // i counts up (public to start with) until it reaches a limit
    std::vector<V> init{cidx(0)};
    init[0].bound = max + 1;
    auto limit = index(max + 1, 1);
    for (int k = r.in(1, 3); k--;) init.push_back(carried());
    used[2] |= limit.secret;
    std::vector<V> before, after;
    std::string hdr, types, names, bn, an;
    std::vector<std::string> ns;
    for (size_t k = 0; k < init.size(); k++) {
      auto b = v(), a = v();
      ns.push_back(v());
      before.push_back({b, init[k].type, 0, init[k].len, true});
      after.push_back({a, init[k].type, k ? 0 : max, init[k].len, true});
      hdr += (k ? ", " : "") + b + " = " + init[k].name;
      types += (k ? ", " : "") + ty(init[k]);
      names += (k ? ", " : "") + ns.back();
      bn += (k ? ", " : "") + b;
      an += (k ? ", " : "") + a + ": " + ty(init[k]);
    }
    line(names + " = scf.while (" + hdr + ") : (" + types + ") -> (" + types + ") {");
    auto saved = vs;
    ind += 2;
    for (auto &b : before) add(b);
    // the bounded loop evaluates the condition in every iteration, so it has no effects
    impure = false;
    body(0, r.in(0, 2));
    impure = true;
    auto c1 = v();
    line(c1 + " = arith.cmpi slt, " + before[0].name + ", " + limit.name + " : index");
    std::string go = c1;
    if (r.chance(0.4)) { auto c2 = cond(); auto c3 = v(); line(c3 + " = arith.andi " + c1 + ", " + c2.name + " : i1"); go = c3; }
    if (wide && r.chance(0.3)) {
      // what is passed on is not what came in
      std::vector<V> pass = before;
      auto k = r.in(1, (int64_t)init.size() - 1);
      pass[k] = like(init[k]);
      bn = "";
      for (size_t q = 0; q < pass.size(); q++) bn += (q ? ", " : "") + pass[q].name;
    }
    line("scf.condition(" + go + ") " + bn + " : " + types);
    ind -= 2;
    line("} do {");
    vs = saved;
    line("^bb0(" + an + "):");
    ind += 2;
    auto it0 = iters;
    iters *= max;
    for (auto &a : after) add(a);
    ifs++;
    body(depth - 1, r.in(1, 4));
    ifs--;
    auto one = cidx(1);
    auto nx = v();
    line(nx + " = arith.addi " + after[0].name + ", " + one.name + " : index");
    std::string y = nx;
    for (size_t k = 1; k < init.size(); k++) y += ", " + like(init[k]).name;
    line("scf.yield " + y + " : " + types);
    ind -= 2;
    iters = it0;
    vs = saved;
    line("} attributes {max_iter = " + std::to_string(max) + " : i64}");
    for (size_t k = 0; k < init.size(); k++) add({ns[k], init[k].type, k ? 0 : max + 1, init[k].len, true});
  }
  void call() {
    auto a = any("i32");
    auto x = v();
    line(x + " = func.call @other(" + a.name + ") : (i32) -> i32");
    add({x, "i32", 0, 0, a.secret});
  }
  void stmt(int depth) {
    budget--;
    int k = r.in(0, 15);
    if (k < 5) arith();
    else if (k < 8) extract();
    else if (k < 10) insert();
    else if (wide && impure && k == 10) call();
    else if (depth <= 0) arith();
    else if (k < 13) branch(depth);
    else if (k < 15) sfor(depth);
    else swhile(depth);
  }
  struct Arg { V v; };
  std::vector<V> args;
  std::string program() {
    for (int k = r.in(1, 2); k--;) args.push_back({"%s" + std::to_string(k), ity(), 0, 0, true});
    for (int k = r.in(0, 2); k--;) args.push_back({"%p" + std::to_string(k), ity(), 0, 0, false});
    for (int k = r.in(1, 2); k--;) args.push_back({"%t" + std::to_string(k), ity(), 0, r.in(1, 6), r.chance(0.7)});
    if (r.chance(0.4)) args.push_back({"%i", "i1", 0, 0, true});
    bool generic = r.chance(0.5);
    std::string sig, ins, blk;
    for (auto &a : args) {
      bool wrap = generic && a.secret;
      sig += (sig.empty() ? "" : ", ") + a.name + ": " + (wrap ? "!secret.secret<" + ty(a) + ">" : ty(a)) + (!generic && a.secret ? " {secret.secret}" : "");
      // public values may be passed in or used from outside
      if (generic && (a.secret || r.chance(0.5))) {
        ins += (ins.empty() ? "" : ", ") + a.name + ": " + (a.secret ? "!secret.secret<" + ty(a) + ">" : ty(a));
        blk += (blk.empty() ? "" : ", ") + a.name + "b: " + ty(a);
        vs.push_back({a.name + "b", a.type, 0, a.len, a.secret});
      } else vs.push_back(a);
    }
    ind = generic ? 6 : 4;
    body(3, r.in(3, 9));
    std::vector<V> res;
    for (int k = r.in(1, 2); k--;) res.push_back(carried());
    // favour the last computed values
    for (size_t q = vs.size(); q-- > 0 && res.size() < 4;) if (vs[q].type != "index" && vs[q].type != "i1") res.push_back(vs[q]);
    std::string rn, rt, st, gn;
    for (size_t k = 0; k < res.size(); k++) {
      rn += (k ? ", " : "") + res[k].name;
      rt += (k ? ", " : "") + ty(res[k]);
      st += std::string(k ? ", " : "") + "!secret.secret<" + ty(res[k]) + ">";
      gn += std::string(k ? ", " : "") + "%g#" + std::to_string(k);
    }
    std::string s = "module {\n  func.func private @other(i32) -> i32\n  func.func @f(" + sig + ") -> (" + (generic ? st : rt) + ") {\n";
    if (generic) {
      s += "    %g:" + std::to_string(res.size()) + " = secret.generic(" + ins + ") {\n    ^bb0(" + blk + "):\n" + out + "      secret.yield " + rn + " : " + rt + "\n    } -> (" + st + ")\n    return " + gn + " : " + st + "\n";
    } else s += out + "    return " + rn + " : " + rt + "\n";
    return s + "  }\n}\n";
  }
};

Type plain(Type t) { if (auto s = dyn_cast<heir::secret::SecretType>(t)) return s.getValueType(); return t; }
// executions that leave the declared bounds of a loop are not judged
void bounded(interp::Interp &in) {
  auto was = in.table["scf.for"];
  in.table["scf.for"] = [was](interp::Interp &in, Operation *op, const interp::Interp::Res &a) {
    int64_t lo = a[0].idx("bound"), hi = a[1].idx("bound");
    if (lo < hi) {
      if (auto q = op->getAttrOfType<IntegerAttr>("lower"); q && lo < q.getInt()) throw interp::UB{"below the declared bound"};
      if (auto q = op->getAttrOfType<IntegerAttr>("upper"); q && hi > q.getInt()) throw interp::UB{"above the declared bound"};
    }
    return was(in, op, a);
  };
  in.table["scf.while"] = [](interp::Interp &in, Operation *op, const interp::Interp::Res &a) {
    interp::Interp::Res cur = a;
    auto max = op->getAttrOfType<IntegerAttr>("max_iter");
    for (int64_t k = 0;; k++) {
      auto e = in.region(op->getRegion(0), cur);
      bool go = e.vals[0].truth();
      in.see(go);
      interp::Interp::Res rest(e.vals.begin() + 1, e.vals.end());
      if (!go) return rest;
      if (max && k >= max.getInt()) throw interp::UB{"more iterations than declared"};
      cur = in.region(op->getRegion(1), rest).vals;
    }
  };
}

struct P { std::string name; std::function<std::unique_ptr<Pass>()> make; };
std::vector<P> all(bool allFor) {
  return {{"convert-secret-extract-to-static-extract", [] { return createConvertSecretExtractToStaticExtract(); }},
          {"convert-secret-insert-to-static-insert", [] { return createConvertSecretInsertToStaticInsert(); }},
          {"convert-secret-while-to-static-for", [] { return createConvertSecretWhileToStaticFor(); }},
          {"convert-secret-for-to-static-for", [=] { ConvertSecretForToStaticForOptions o; o.convertAllScfFor = allFor; return createConvertSecretForToStaticFor(o); }},
          {"convert-if-to-select", [] { return createConvertIfToSelect(); }}};
}

void oblivious(mon::Case &c, const std::string &src, const std::vector<V> &args, std::vector<P> passes, bool whole, bool mustConvert, bool mayRefuseIf) {
  std::string names;
  for (auto &p : passes) names += p.name + " ";
  c.describe(names + "\n" + src);
  Quiet q;
  ParserConfig pc(&ctx());
  OwningOpRef<ModuleOp> cur = parseSourceString<ModuleOp>(src, pc);
  if (!cur) { c.fail("generator", "invalid program: " + q.msgs + "\n" + src); return; }
  struct Run { int group; std::vector<Val> in; Outcome o; };
  std::vector<Run> runs;
  auto f = cur->lookupSymbol<func::FuncOp>("f");
  for (int g = 0; g < 2; g++) {
    std::vector<Val> base;
    for (auto t : f.getArgumentTypes()) base.push_back(randomVal(c.rng, plain(t)));
    for (int k = 0; k < 4; k++) {
      auto in = base;
      for (size_t a = 0; a < args.size(); a++) if (args[a].secret && k) in[a] = randomVal(c.rng, plain(f.getArgumentTypes()[a]));
      auto o = interp::run(*cur, "f", in, bounded, true);
      if (o.st == Outcome::NotSupported) { c.fail("interpreter", "cannot execute " + o.why); return; }
      if (o.st != Outcome::Ok) { c.event("executions dropped: " + (o.st == Outcome::OutOfFuel ? std::string("endless") : o.why)); continue; }
      runs.push_back({g, in, o});
    }
  }
  if (runs.empty()) { c.skip(); return; }
  bool leaky = false;
  for (auto &a : runs) for (auto &b : runs) leaky |= a.group == b.group && a.o.trace != b.o.trace;
  if (leaky) c.event("programs whose control or indices depend on secrets");
  q.msgs = "";
  for (auto &p : passes) {
    std::string prior = text(*cur);
    PassManager pm(&ctx());
    pm.enableVerifier(false);
    pm.addPass(p.make());
    bool ok = succeeded(pm.run(*cur));
    if (!ok) { if (mustConvert && !(mayRefuseIf && p.name == "convert-if-to-select" && q.msgs.find("cannot be safely hoisted") != std::string::npos)) c.fail("refused:" + p.name, "the pass failed: " + q.msgs + "\n" + prior); else c.event("programs refused"); return; }
    if (!c.check(succeeded(verify(*cur)), "invalid:" + p.name, [&] { return "the output does not verify: " + q.msgs + "\nbefore:\n" + prior + "\nafter:\n" + text(*cur); })) return;
    std::string now = text(*cur);
    if (now == prior) continue;
    c.event("programs changed by " + p.name);
    for (auto &r : runs) {
      auto got = interp::run(*cur, "f", r.in, bounded);
      if (got.st == Outcome::NotSupported) { c.fail("interpreter", "cannot execute " + got.why + " after " + p.name); return; }
      c.event("executions compared");
      auto d = differs(r.o, got);
      if (!c.check(d.empty(), "changed:" + p.name, [&] { return d + "\ninputs: " + showAll(r.in) + "\nbefore " + p.name + ":\n" + prior + "\nafter:\n" + now; })) return;
    }
  }
  if (!whole) return;
  // the converters say when they leave a secret-dependent construct alone
  bool said = q.msgs.find("annot") != std::string::npos || q.msgs.find("no support") != std::string::npos || q.msgs.find("has not been set") != std::string::npos;
  if (said) {
    if (mustConvert && !(mayRefuseIf && q.msgs.find("cannot be safely hoisted") != std::string::npos)) c.fail("refused", "a supported construct was left alone: " + q.msgs + "\n" + src + "\nafter:\n" + text(*cur)); else c.event("programs with refused constructs");
    return;
  }
  std::vector<std::vector<int64_t>> traces;
  for (auto &r : runs) traces.push_back(interp::run(*cur, "f", r.in, bounded, true, 3000000).trace);
  for (size_t a = 0; a < runs.size(); a++) for (size_t b = 0; b < a; b++) if (runs[a].group == runs[b].group) {
    c.event("traces compared");
    if (!c.check(traces[a] == traces[b], "leak", [&] { return "branches, loops or indices depend on secret inputs\ninputs 1: " + showAll(runs[a].in) + "\ninputs 2: " + showAll(runs[b].in) + "\nprogram:\n" + src + "\nafter:\n" + text(*cur); })) return;
  }
}
} // namespace

MON_FAMILY(O02_pipeline, 2500, 40000) {
  G g(c.rng, false, c.rng.in(6, 22));
  auto src = g.program();
  oblivious(c, src, g.args, all(true), true, true, g.loopInIf);
}
MON_FAMILY(O02_secret_only, 800, 12000) {
  G g(c.rng, false, c.rng.in(6, 18));
  auto src = g.program();
  oblivious(c, src, g.args, all(false), true, true, g.loopInIf);
}
MON_FAMILY(O02_wide, 1200, 20000) {
  G g(c.rng, true, c.rng.in(6, 22));
  auto src = g.program();
  oblivious(c, src, g.args, all(c.rng.chance(0.7)), true, false, false);
}
MON_FAMILY(O02_each, 1500, 20000) {
  G g(c.rng, c.rng.chance(0.3), c.rng.in(5, 18));
  auto src = g.program();
  auto ps = all(c.rng.chance(0.5));
  c.rng.shuffle(ps);
  ps.resize(c.rng.in(1, 5));
  oblivious(c, src, g.args, ps, false, false, false);
}
MON_MAIN()
