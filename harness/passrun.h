// Runs passes on a program and compares executions before and after. Included by harnesses after interp.h.
#pragma once
namespace {
struct NamedPass {
  std::string name;
  std::function<std::unique_ptr<Pass>()> make;
  bool mayRefuse = false; // failing is allowed, being wrong is not
  bool onFunc = false;
};
#ifndef INTERP_EXTRA_DIALECTS
#define INTERP_EXTRA_DIALECTS
#endif
MLIRContext &ctx() {
  static MLIRContext *c = [] {
    auto *x = new MLIRContext(MLIRContext::Threading::DISABLED);
    x->loadDialect<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect INTERP_EXTRA_DIALECTS>();
    return x;
  }();
  return *c;
}
std::string text(Operation *op) { std::string s; llvm::raw_string_ostream os(s); op->print(os); return s; }
struct Quiet {
  std::string msgs;
  ScopedDiagnosticHandler h;
  Quiet() : h(&ctx(), [this](Diagnostic &d) { msgs += d.str() + "\n"; return success(); }) {}
};
std::function<void(interp::Interp &)> extend;

Val randomVal(mon::Rng &r, Type t) {
  if (isa<FloatType>(t)) return Val::real(r.in(-64, 64) / 8.0);
  if (isa<IndexType>(t)) return Val::index(r.in(0, 6));
  if (isa<IntegerType>(t)) {
    unsigned w = cast<IntegerType>(t).getWidth();
    if (r.chance(0.4)) return Val::integer(w, r.in(-3, 6));
    return Val::integer(w, (int64_t)r.next());
  }
  auto s = cast<ShapedType>(t);
  interp::Elems e;
  for (int64_t k = 0; k < s.getNumElements(); k++) e.push_back(randomVal(r, s.getElementType()));
  if (isa<MemRefType>(t)) return Val::newmem(s.getShape().vec(), e);
  return Val::tensor(s.getShape().vec(), e);
}
std::string showAll(const std::vector<Val> &v) { std::string s; for (auto &x : v) s += interp::show(x) + " "; return s; }
// what a caller can observe of two executions; empty when the second refines the first
std::string differs(const Outcome &a, const Outcome &b, double tol = 0) {
  if (b.st == Outcome::Undefined) return "the transformed program has undefined behaviour: " + b.why;
  if (b.st == Outcome::OutOfFuel) return "the transformed program does not end";
  if (a.results.size() != b.results.size()) return "different number of results";
  for (size_t k = 0; k < a.results.size(); k++) if (!interp::refines(a.results[k], b.results[k], tol)) return S() << "result " << k << " was " << interp::show(a.results[k]) << " and is " << interp::show(b.results[k]);
  for (size_t k = 0; k < a.args.size(); k++) if (a.args[k].k == Val::Mem && !interp::refines(a.args[k], b.args[k], tol)) return S() << "buffer argument " << k << " was left as " << interp::show(a.args[k]) << " and is left as " << interp::show(b.args[k]);
  for (auto &[n, v] : a.globals) if (auto it = b.globals.find(n); it != b.globals.end() && !interp::refines(v, it->second, tol)) return "global " + n + " differs";
  if (a.log != b.log) {
    std::string s = "calls to other code were: ";
    for (auto &x : a.log) s += x + " ";
    s += "and are: ";
    for (auto &x : b.log) s += x + " ";
    return s;
  }
  return "";
}
void checkPasses(mon::Case &c, const std::string &src, std::vector<NamedPass> passes, int runs, double tol = 0) {
  std::string names;
  for (auto &p : passes) names += p.name + " ";
  c.describe(names + "\n" + src);
  Quiet q;
  ParserConfig pc(&ctx());
  OwningOpRef<ModuleOp> before = parseSourceString<ModuleOp>(src, pc);
  if (!before) { fprintf(stderr, "generator produced an invalid program: %s\n%s\n", q.msgs.c_str(), src.c_str()); c.fail("generator", "invalid program: " + q.msgs); return; }
  auto f = before->lookupSymbol<func::FuncOp>("f");
  // executions before
  std::vector<std::vector<Val>> inputs;
  std::vector<Outcome> want;
  for (int k = 0; k < runs; k++) {
    std::vector<Val> in;
    for (auto t : f.getArgumentTypes()) {
      in.push_back(randomVal(c.rng, t));
      // the same buffer may be given twice
      if (isa<MemRefType>(t)) for (size_t q = 0; q + 1 < in.size(); q++) if (f.getArgumentTypes()[q] == t && c.rng.chance(0.3)) { in.back() = in[q]; c.event("inputs sharing a buffer"); break; }
    }
    auto o = interp::run(*before, "f", in, extend);
    if (o.st == Outcome::NotSupported) { c.fail("interpreter", "cannot execute " + o.why); return; }
    if (o.st != Outcome::Ok) { c.event("undefined or endless executions dropped"); continue; }
    inputs.push_back(in);
    want.push_back(o);
  }
  if (want.empty()) { c.skip(); return; }
  OwningOpRef<ModuleOp> cur = before->clone();
  for (auto &p : passes) {
    std::string prior = text(*cur);
    OwningOpRef<ModuleOp> keep = cur->clone();
    PassManager pm(&ctx());
    pm.enableVerifier(false);
    if (p.onFunc) pm.addNestedPass<func::FuncOp>(p.make()); else pm.addPass(p.make());
    if (failed(pm.run(*cur))) {
      if (!p.mayRefuse) c.fail("refused:" + p.name, "the pass failed: " + q.msgs + "\nprogram:\n" + prior);
      else c.event("programs refused");
      cur = std::move(keep);
      continue;
    }
    c.check(succeeded(verify(*cur)), "invalid:" + p.name, [&] { return "the output does not verify: " + q.msgs + "\nbefore:\n" + prior + "\nafter:\n" + text(*cur); });
    if (c.failed) return;
    std::string now = text(*cur);
    if (now != prior) c.event("programs changed by " + p.name); else continue;
    for (size_t k = 0; k < inputs.size(); k++) {
      auto got = interp::run(*cur, "f", inputs[k], extend);
      if (got.st == Outcome::NotSupported) { c.event("not executable after: " + got.why); continue; }
      c.event("executions compared");
      auto d = differs(want[k], got, tol);
      if (!c.check(d.empty(), "changed:" + p.name, [&] { return d + "\ninputs: " + showAll(inputs[k]) + "\nbefore " + p.name + ":\n" + prior + "\nafter:\n" + now; })) return;
    }
  }
}
} // namespace
