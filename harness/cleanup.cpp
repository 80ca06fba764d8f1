// O01: programs are executed before and after the clean-up passes.
#include "interp.h"
#include "gen.h"
#include "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.h"
#include "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.h"
#include "lib/Transforms/FullLoopUnroll/FullLoopUnroll.h"
#include "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.h"
#include "lib/Transforms/UnusedMemRef/UnusedMemRef.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
using namespace mlir;
using namespace mlir::heir;
using mon::S;
using interp::Val;
using interp::Outcome;
#include "passrun.h"

namespace {
gen::Options base() { gen::Options o; return o; }
void O01(mon::Case &c, const std::string &src, std::vector<NamedPass> passes, int runs = 3) { checkPasses(c, src, passes, runs); }
NamedPass unroll() { return {"full-loop-unroll", [] { return createFullLoopUnroll(); }, true}; }
NamedPass forwardStore() { return {"forward-store-to-load", [] { return createForwardStoreToLoad(); }}; }
NamedPass forwardInsert() { return {"forward-insert-to-extract", [] { return createForwardInsertToExtract(); }}; }
NamedPass unusedMemref() { return {"remove-unused-memref", [] { return createRemoveUnusedMemRef(); }, false, true}; }
NamedPass pureCall() { return {"remove-unused-pure-call", [] { return createRemoveUnusedPureCall(); }}; }
}

MON_FAMILY(O01_unroll, 1500, 20000) {
  auto o = base();
  o.afor = 4; o.sfor = 1; o.aif = 1; o.length = c.rng.in(6, 14); o.ext = c.rng.chance(0.3); o.depth = 4;
  gen::Gen g(c.rng, o);
  O01(c, g.program(), {unroll()});
}
MON_FAMILY(O01_store_to_load, 2500, 40000) {
  auto o = base();
  o.store = 7; o.load = 7; o.arith = 3; o.afor = 0; o.sfor = c.rng.in(0, 1); o.branch = c.rng.in(0, 1); o.depth = 2; o.length = c.rng.in(8, 26); o.maxRank = 2; o.maxDim = 3;
  o.dyn = c.rng.in(0, 3); o.affineAcc = c.rng.in(0, 4); o.views = c.rng.in(0, 2); o.copy = c.rng.in(0, 2); o.call = c.rng.in(0, 1); o.ext = c.rng.in(0, 1); o.dealloc = 1; o.afor = c.rng.in(0, 1);
  gen::Gen g(c.rng, o);
  O01(c, g.program(), {forwardStore()});
}
MON_FAMILY(O01_insert_to_extract, 2500, 40000) {
  auto o = base();
  o.tens = 14; o.store = o.load = 0; o.alloc = 0; o.memArgs = false; o.arith = 3; o.afor = 0; o.sfor = c.rng.in(0, 1); o.branch = c.rng.in(0, 1); o.depth = 3; o.length = c.rng.in(8, 24); o.maxDim = 3;
  o.dyn = c.rng.in(0, 3);
  gen::Gen g(c.rng, o);
  O01(c, g.program(), {forwardInsert()});
}
MON_FAMILY(O01_unused_memref, 1500, 20000) {
  auto o = base();
  o.alloc = 6; o.store = 8; o.load = 1; o.arith = 3; o.depth = 3; o.length = c.rng.in(6, 16); o.views = c.rng.in(0, 1); o.copy = c.rng.in(0, 1); o.call = c.rng.in(0, 1); o.dealloc = 1; o.affineAcc = 3;
  gen::Gen g(c.rng, o);
  if (c.rng.chance(0.35)) // buffers of buffers
    g.extraStmt = [](gen::Gen &g) {
      if (g.mems.empty()) return;
      auto m = g.r.pick(g.mems);
      auto box = g.v(), z = g.cidx(0);
      g.line(box + " = memref.alloc() : memref<1x" + m.type + ">");
      g.line("memref.store " + m.name + ", " + box + "[" + z + "] : memref<1x" + m.type + ">");
      if (g.r.chance(0.7)) {
        gen::Mem u = m;
        u.name = g.v();
        g.line(u.name + " = memref.load " + box + "[" + z + "] : memref<1x" + m.type + ">");
        g.mems.push_back(u);
      }
    };
  O01(c, g.program(), {unusedMemref()});
}
MON_FAMILY(O01_pure_call, 1200, 15000) {
  // helpers marked as client code may be dropped when unused; anything else may not
  auto o = base();
  o.call = c.rng.in(1, 3); o.ext = c.rng.in(0, 2); o.depth = 3; o.length = c.rng.in(5, 12);
  gen::Gen g(c.rng, o);
  int marks = 0;
  g.extraStmt = [&](gen::Gen &g) {
    std::string attr = g.r.pick(std::vector<std::string>{"client.enc_func = {func_name = \"f\", index = 0 : i64}", "client.dec_func = {func_name = \"f\", index = 0 : i64}", "client.pack_func = {func_name = \"f\"}",
                                                         "clientele = 1 : i64", "client = 1 : i64", "test.client = 1 : i64", "server.enc = 1 : i64"});
    std::string f = "@side" + std::to_string(marks++);
    bool pure = attr.rfind("client.", 0) == 0;
    if (!pure && !g.declaredExt) { g.extra += "  func.func private @ext(i32) -> i32\n"; g.declaredExt = true; }
    g.extra += "  func.func private " + f + "(%x: i32) -> i32 attributes {" + attr + "} {\n" + (pure ? "    %y = arith.addi %x, %x : i32\n" : "    %y = func.call @ext(%x) : (i32) -> i32\n") + "    return %y : i32\n  }\n";
    auto y = g.v();
    g.line(y + " = func.call " + f + "(" + g.anyInt("i32") + ") : (i32) -> i32");
    if (g.r.chance(0.6)) g.ints.push_back({y, "i32"});
  };
  O01(c, g.program(), {pureCall()});
}
MON_FAMILY(O01_sequences, 1500, 25000) {
  auto o = base();
  o.afor = 3; o.sfor = c.rng.in(0, 1); o.branch = 1; o.tens = c.rng.in(0, 3); o.store = 6; o.load = 6; o.length = c.rng.in(8, 18); o.dyn = c.rng.in(0, 2); o.affineAcc = c.rng.in(1, 6); o.views = c.rng.in(0, 1);
  o.copy = c.rng.in(0, 1); o.call = c.rng.in(0, 1); o.dealloc = 1; o.maxDim = 3;
  gen::Gen g(c.rng, o);
  std::vector<NamedPass> ps{unroll(), forwardStore(), forwardInsert(), unusedMemref(), pureCall()};
  if (c.rng.chance(0.5)) c.rng.shuffle(ps);
  if (c.rng.chance(0.3)) ps.push_back(forwardStore());
  O01(c, g.program(), ps);
}
MON_MAIN()
