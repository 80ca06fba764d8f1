// O01: programs are executed before and after the passes that flatten and expand buffers.
#include "interp.h"
#include "gen.h"
#include "lib/Transforms/MemrefToArith/MemrefToArith.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
using namespace mlir;
using namespace mlir::heir;
using mon::S;
using interp::Val;
using interp::Outcome;
#include "passrun.h"

namespace {
NamedPass expandCopy(bool noLoops) { return {noLoops ? "expand-copy=disable-affine-loop" : "expand-copy", [=] { ExpandCopyPassOptions o; o.disableAffineLoop = noLoops; return createExpandCopyPass(o); }}; }
NamedPass globalReplace() { return {"memref-global-replace", [] { return createMemrefGlobalReplacePass(); }}; }
NamedPass unrollForward() { return {"unroll-and-forward", [] { return createUnrollAndForwardPass(); }, false, true}; }
NamedPass extractBody(unsigned loop, unsigned body) { return {"extract-loop-body", [=] { ExtractLoopBodyPassOptions o; o.minimumLoopSize = loop; o.minimumBodySize = body; return createExtractLoopBodyPass(o); }}; }

// a read-only table and a load from it
void table(gen::Gen &g, bool dynamic, bool readers) {
  gen::Mem m;
  if (g.globals.empty() || g.r.chance(0.4)) {
    m.shape = g.shape();
    m.elt = g.ity();
    m.type = gen::Gen::mtype(m.shape, m.elt);
    m.writable = false;
    std::string sym = "@table" + std::to_string(g.globals.size());
    std::function<std::string(size_t)> lv = [&](size_t d) -> std::string {
      if (d == m.shape.size()) return g.lit(m.elt);
      std::string s = "[";
      for (int64_t q = 0; q < m.shape[d]; q++) s += (q ? ", " : "") + lv(d + 1);
      return s + "]";
    };
    g.extra += "  memref.global \"private\" constant " + sym + " : " + m.type + " = dense<" + (g.r.chance(0.2) ? g.lit(m.elt) : lv(0)) + ">\n";
    g.globals.push_back({sym, m});
  }
  auto [sym, gm] = g.r.pick(g.globals);
  m = gm;
  m.name = g.v();
  g.line(m.name + " = memref.get_global " + sym + " : " + m.type);
  for (int k = g.r.in(1, 3); k--;) {
    auto x = g.v();
    bool aff = g.r.chance(0.5);
    std::vector<std::string> ix;
    for (auto d : m.shape) {
      if (aff) ix.push_back(dynamic ? g.affineIndex(d) : g.r.chance(0.5) ? std::to_string(g.r.in(0, d - 1)) : g.cidx(g.r.in(0, d - 1)));
      else ix.push_back(g.index(d, !dynamic));
    }
    g.line(x + (aff ? " = affine.load " : " = memref.load ") + m.name + "[" + g.join(ix) + "] : " + m.type);
    g.ints.push_back({x, m.elt});
  }
  if (readers) g.mems.push_back(m); // views, copies and calls may read it
}
} // namespace

MON_FAMILY(O01_expand_copy, 1200, 15000) {
  gen::Options o;
  o.copy = 6; o.store = 5; o.load = 4; o.views = c.rng.in(0, 3); o.alloc = 3; o.depth = 3; o.length = c.rng.in(6, 16); o.maxRank = 3; o.maxDim = 3;
  gen::Gen g(c.rng, o);
  checkPasses(c, g.program(), {expandCopy(c.rng.chance(0.5))}, 2);
}
MON_FAMILY(O01_global_replace, 1500, 20000) {
  gen::Options o;
  bool dynamic = c.rng.chance(0.3), readers = c.rng.chance(0.2);
  o.store = 3; o.load = 3; o.depth = 3; o.length = c.rng.in(5, 12); o.maxRank = 3; o.maxDim = 3; o.views = readers; o.copy = readers; o.dyn = dynamic ? 2 : 0;
  gen::Gen g(c.rng, o);
  g.extraStmt = [=](gen::Gen &g) { table(g, dynamic, readers); };
  checkPasses(c, g.program(), {globalReplace()}, 2);
}
MON_FAMILY(O01_unroll_and_forward, 1500, 20000) {
  // as documented: affine loops and accesses only, every buffer written before it is read
  gen::Options o;
  o.branch = o.sfor = o.dyn = 0; o.store = o.load = o.alloc = 0; o.afor = 0; o.memArgs = true; o.depth = 3; o.length = 1; o.maxRank = 2; o.maxDim = 3;
  gen::Gen g(c.rng, o);
  bool views = c.rng.chance(0.4), arrays = c.rng.chance(0.5);
  int budget = c.rng.in(4, 10);
  std::function<void(gen::Gen &, int)> stmts = [&](gen::Gen &g, int depth) {
    for (int k = g.r.in(1, depth == 0 ? 5 : 3); k-- && budget > 0;) {
      int w = g.r.in(0, 9);
      if (w < 2) g.arith();
      else if (w < 4 && !g.mems.empty()) {
        auto m = g.r.pick(g.mems);
        std::vector<std::string> ix;
        for (auto d : m.shape) ix.push_back(g.affineIndex(d));
        auto x = g.v();
        g.line(x + " = affine.load " + m.name + "[" + g.join(ix) + "] : " + m.type);
        g.ints.push_back({x, m.elt});
      } else if (w < 7) {
        std::vector<gen::Mem> ws;
        for (auto &m : g.mems) if (m.writable) ws.push_back(m);
        if (ws.empty()) continue;
        auto m = g.r.pick(ws);
        auto val = g.anyInt(m.elt);
        std::vector<std::string> ix;
        for (auto d : m.shape) ix.push_back(g.affineIndex(d));
        g.line("affine.store " + val + ", " + m.name + "[" + g.join(ix) + "] : " + m.type);
      } else if (depth < 3) {
        budget--;
        int64_t lo = g.r.chance(0.7) ? 0 : g.r.in(0, 2), trip = g.r.in(1, 3), step = g.r.chance(0.8) ? 1 : 2, hi = lo + (trip - 1) * step + 1;
        auto iv = g.v();
        g.line("affine.for " + iv + " = " + std::to_string(lo) + " to " + std::to_string(hi) + (step > 1 ? " step 2" : "") + " {");
        auto s = g.save();
        g.ind += 2;
        g.idxs.push_back({iv, hi, true});
        stmts(g, depth + 1);
        g.ind -= 2;
        g.restore(s);
        g.line("}");
      }
    }
  };
  bool loopFirst = c.rng.chance(0.25);
  g.extraStmt = [&](gen::Gen &g) {
    if (loopFirst && !g.mems.empty()) stmts(g, 0);
    for (int k = g.r.in(1, 2); k--;) {
      gen::Mem m;
      m.shape = g.shape(); m.elt = g.ity(); m.type = gen::Gen::mtype(m.shape, m.elt); m.name = g.v();
      g.line(m.name + " = memref.alloc() : " + m.type);
      auto val = g.anyInt(m.elt);
      std::vector<std::string> ivs;
      for (size_t k = 0; k < m.shape.size(); k++) { auto iv = g.v(); ivs.push_back(iv); g.line("affine.for " + iv + " = 0 to " + std::to_string(m.shape[k]) + " {"); g.ind += 2; }
      g.line("affine.store " + val + ", " + m.name + "[" + g.join(ivs) + "] : " + m.type);
      for (size_t k = 0; k < m.shape.size(); k++) { g.ind -= 2; g.line("}"); }
      g.mems.push_back(m);
      if (views) g.view();
    }
    stmts(g, 0);
    if (views) { g.view(); stmts(g, 0); }
  };
  o.arith = 0;
  g.o.arith = 1;
  auto src = g.program();
  (void)arrays;
  if (src.find("memref.cast") != std::string::npos) { c.skip(); return; }
  checkPasses(c, src, {unrollForward()}, 2);
}
MON_FAMILY(O01_extract_body, 1500, 20000) {
  // loops with several loads, some arithmetic and one store of its result
  gen::Options o;
  o.branch = o.sfor = o.afor = o.dyn = 0; o.store = o.load = 0; o.alloc = 0; o.memArgs = true; o.length = 0; o.maxRank = 2; o.maxDim = 4; o.iterArgs = false;
  gen::Gen g(c.rng, o);
  bool tables = c.rng.chance(0.3), indexing = c.rng.chance(0.3), args = c.rng.chance(0.2);
  g.o.length = c.rng.in(1, 3);
  g.o.arith = 0;
  g.extraStmt = [&](gen::Gen &g) {
    if (g.ints.size() < 4) for (int k = g.r.in(1, 3); k--;) g.cst(g.ity());
    while (g.mems.size() < 2) {
      gen::Mem m;
      m.shape = g.shape(); if (m.shape.empty()) m.shape = {2};
      m.elt = g.ity(); m.type = gen::Gen::mtype(m.shape, m.elt); m.name = g.v();
      g.line(m.name + " = memref.alloc() : " + m.type);
      auto val = g.anyInt(m.elt);
      std::vector<std::string> ivs;
      for (size_t k = 0; k < m.shape.size(); k++) { auto iv = g.v(); ivs.push_back(iv); g.line("affine.for " + iv + " = 0 to " + std::to_string(m.shape[k]) + " {"); g.ind += 2; }
      g.line("affine.store " + val + ", " + m.name + "[" + g.join(ivs) + "] : " + m.type);
      for (size_t k = 0; k < m.shape.size(); k++) { g.ind -= 2; g.line("}"); }
      g.mems.push_back(m);
    }
    if (tables) table(g, false, true);
    int depth = g.r.in(1, 2);
    auto s = g.save();
    for (int k = 0; k < depth; k++) { auto iv = g.v(); int hi = g.r.in(1, 4); g.line("affine.for " + iv + " = 0 to " + std::to_string(hi) + " {"); g.ind += 2; g.idxs.push_back({iv, hi, true}); }
    std::vector<gen::Int> outer;
    for (auto &i : g.ints) if (i.name[1] != 'a' || args) outer.push_back(i);
    g.ints = outer; // constants from outside (function arguments only when asked)
    std::vector<std::string> loaded;
    for (int k = g.r.in(1, 3); k--;) {
      auto m = g.r.pick(g.mems);
      std::vector<std::string> ix;
      for (auto d : m.shape) ix.push_back(g.affineIndex(d));
      auto x = g.v();
      g.line(x + " = affine.load " + m.name + "[" + g.join(ix) + "] : " + m.type);
      g.ints.push_back({x, m.elt});
      loaded.push_back(x);
      if (indexing && g.r.chance(0.5)) g.o.dyn = 4, g.load();
    }
    g.o.dyn = 0;
    for (int k = g.r.in(1, 5); k--;) g.arith();
    std::vector<gen::Mem> ws;
    for (auto &m : g.mems) if (m.writable) ws.push_back(m);
    auto m = g.r.pick(ws);
    // store the last value of the right type, or end with an operation of that type
    std::string val;
    if (g.r.chance(0.7)) { auto a = g.anyInt(m.elt), b = g.anyInt(m.elt); val = g.v(); g.line(val + " = arith.addi " + a + ", " + b + " : " + m.elt); }
    else val = g.anyInt(m.elt);
    std::vector<std::string> ix;
    for (auto d : m.shape) ix.push_back(g.affineIndex(d));
    g.line("affine.store " + val + ", " + m.name + "[" + g.join(ix) + "] : " + m.type);
    for (int k = 0; k < depth; k++) { g.ind -= 2; g.line("}"); }
    g.restore(s);
  };
  checkPasses(c, g.program(), {extractBody(c.rng.in(0, 3), c.rng.in(1, 3))}, 2);
}
MON_MAIN()
