// Executing programs expressed over ciphertext slots.
#pragma once
namespace {
double gMax = 0;
void slotOps(interp::Interp &in) {
  using namespace interp;
  in.ext["tensor_ext.rotate"] = [](Interp &, Operation *op, const Interp::Res &a) -> Interp::Res {
    if (a[0].k == Val::Poison) return {a[0]};
    int64_t s = a[1].idx("rotation"), n = a[0].shape.back(), rows = a[0].el->size() / n;
    Elems e;
    for (int64_t r = 0; r < rows; r++) for (int64_t k = 0; k < n; k++) e.push_back((*a[0].el)[r * n + (((k + s) % n) + n) % n]);
    return {Val::tensor(a[0].shape, std::move(e))};
  };
  in.ext["mgmt.bootstrap"] = in.ext["mgmt.modreduce"] = in.ext["mgmt.relinearize"] = in.ext["mgmt.init"] = in.ext["mgmt.adjust_scale"] = in.ext["mgmt.level_reduce"] = in.ext["mgmt.level_reduce_min"] =
      [](Interp &, Operation *, const Interp::Res &a) -> Interp::Res { return {a[0]}; };
}
struct Roundtrip { std::string err; bool unsupported = false; std::vector<Val> results; int64_t steps = 0; };
// encrypt with the generated helpers, run, decrypt with the generated helpers
Roundtrip runPacked(ModuleOp m, StringRef fn, const std::vector<Val> &args, std::function<void(interp::Interp &)> extend, int64_t fuel = 20000000) {
  Roundtrip out;
  std::map<int64_t, func::FuncOp> enc, dec;
  for (auto f : m.getOps<func::FuncOp>()) {
    auto look = [&](const char *n, std::map<int64_t, func::FuncOp> &t) {
      if (auto d = f->getAttrOfType<DictionaryAttr>(n)) if (d.getAs<StringAttr>("func_name") && d.getAs<StringAttr>("func_name").getValue() == fn) t[d.getAs<IntegerAttr>("index").getInt()] = f;
    };
    look("client.enc_func", enc); look("client.dec_func", dec);
  }
  interp::Interp in(m);
  in.fuel = fuel;
  if (extend) extend(in);
  try {
    std::vector<Val> packed;
    for (size_t k = 0; k < args.size(); k++) {
      if (!enc.count(k)) { packed.push_back(args[k]); continue; }
      auto r = in.call(enc[k].getName(), {args[k]});
      packed.push_back(r.at(0));
    }
    auto f = m.lookupSymbol<func::FuncOp>(fn);
    if (!f) { out.err = "the function disappeared"; return out; }
    if (f.getNumArguments() != packed.size()) { out.err = S() << "the function takes " << f.getNumArguments() << " arguments instead of " << packed.size(); return out; }
    auto res = in.call(fn, packed);
    for (size_t k = 0; k < res.size(); k++) {
      if (!dec.count(k)) { out.results.push_back(res[k]); continue; }
      out.results.push_back(in.call(dec[k].getName(), {res[k]}).at(0));
    }
  } catch (interp::UB &u) { out.err = "undefined behaviour in the compiled program: " + u.why; }
  catch (interp::Unsupported &u) { out.err = "cannot execute " + u.op; out.unsupported = true; }
  catch (interp::Fuel &) { out.err = "the compiled program does not end"; out.unsupported = true; }
  catch (std::exception &x) { out.err = std::string("malformed program: ") + x.what(); }
  out.steps = in.steps;
  return out;
}
Val randomInput(mon::Rng &r, Type t) {
  if (isa<FloatType>(t)) return Val::real(r.in(-8, 8) / 4.0);
  if (isa<IndexType>(t)) return Val::index(r.in(0, 6));
  if (isa<IntegerType>(t)) return Val::integer(cast<IntegerType>(t).getWidth(), r.in(-9, 9));
  auto s = cast<ShapedType>(t);
  Elems e;
  for (int64_t k = 0; k < s.getNumElements(); k++) e.push_back(randomInput(r, s.getElementType()));
  return Val::tensor(s.getShape().vec(), e);
}
// do some results not depend on the secret inputs at all?
bool foldsToPublic(ModuleOp m, mon::Rng r) {
  auto f = m.lookupSymbol<func::FuncOp>("f");
  std::vector<Val> in;
  for (auto ty : f.getArgumentTypes()) in.push_back(randomInput(r, ty));
  std::vector<std::string> first;
  std::vector<bool> varies;
  for (int t = 0; t < 10; t++) {
    for (size_t k = 0; k < in.size(); k++) if (f.getArgAttr(k, "secret.secret")) in[k] = randomInput(r, f.getArgumentTypes()[k]);
    auto o = interp::run(m, "f", in, slotOps);
    if (o.st != Outcome::Ok) return false;
    varies.resize(o.results.size());
    for (size_t k = 0; k < o.results.size(); k++) {
      auto s = interp::show(o.results[k]);
      if (t == 0) first.push_back(s); else if (s != first[k]) varies[k] = true;
    }
  }
  for (bool v : varies) if (!v) return true;
  return false;
}
std::string firstLine(const std::string &s) {
  size_t a = s.find("Assertion");
  if (a == std::string::npos) a = s.find("UNREACHABLE");
  if (a == std::string::npos) a = s.find("LLVM ERROR");
  if (a == std::string::npos) a = 0;
  return s.substr(a, std::min<size_t>(s.find('\n', a), a + 200) - a);
}
void checkPacked(mon::Case &c, const Prog &p, const std::string &pl, bool mustCompile, const char *known = nullptr) {
  auto key = [&](const char *k) { return known ? known : k; };
  auto &ctx = heiropt::ctx();
  heiropt::Quiet q(ctx);
  OwningOpRef<ModuleOp> before = parseSourceString<ModuleOp>(p.text, ParserConfig(&ctx));
  if (!before) { c.fail("generator", "invalid program: " + q.msgs); return; }
  auto f = before->lookupSymbol<func::FuncOp>("f");
  auto r = heiropt::compile(p.text, {pl});
  if (r.st == heiropt::Compiled::TooLong) { c.event("compilations stopped after a minute"); c.skip(); return; }
  if (r.st == heiropt::Compiled::Crashed) { c.event("compiler crashes"); if (!mustCompile) return;
    std::string k = "crash:";
    for (char ch : firstLine(r.msgs).substr(0, 90)) if (isalnum((unsigned char)ch)) k += ch; else if (k.back() != '-' && k.back() != ':') k += '-';
    c.fail(k, "the compiler died: " + r.msgs.substr(0, 3000)); return; }
  if (r.st == heiropt::Compiled::Refused) {
    c.event("programs refused");
    if (foldsToPublic(*before, c.rng)) { c.event("programs whose result folds to a public one"); c.skip(); return; }
    if (mustCompile) c.fail("refused", "the compiler refuses: " + r.msgs.substr(0, 3000));
    return;
  }
  OwningOpRef<ModuleOp> after = parseSourceString<ModuleOp>(r.ir.back(), ParserConfig(&ctx));
  if (!after) { c.fail("reparse", "the output does not parse: " + q.msgs + r.ir.back()); return; }
  int64_t rot = 0;
  after->walk([&](Operation *op) { rot += op->getName().getStringRef() == "tensor_ext.rotate"; });
  c.event("programs compiled");
  c.event("rotations in compiled programs", rot);
  for (auto &[k, n] : p.kinds) c.event("compiled with " + k, n);
  for (int t = 0; t < 3; t++) {
    std::vector<Val> in;
    for (auto ty : f.getArgumentTypes()) in.push_back(randomInput(c.rng, ty));
    auto want = interp::run(*before, "f", in, slotOps);
    if (want.st != Outcome::Ok) { c.fail("interpreter", "cannot execute the original: " + want.why); return; }
    auto got = runPacked(*after, "f", in, slotOps);
    if (got.unsupported) { c.fail("interpreter", got.err + "\n" + r.ir.back()); return; }
    c.event("executions compared");
    auto all = [&] {
      std::string s = "\ninputs:";
      for (auto &v : in) s += " " + interp::show(v);
      s += "\nwanted:";
      for (auto &v : want.results) s += " " + interp::show(v);
      s += "\ngot:";
      for (auto &v : got.results) s += " " + interp::show(v);
      return s + "\ncompiled:\n" + r.ir.back().substr(0, 12000);
    };
    if (!got.err.empty()) { c.fail(key("broken"), got.err + all()); return; }
    bool ok = want.results.size() == got.results.size();
    for (size_t k = 0; ok && k < got.results.size(); k++) ok = interp::refines(want.results[k], got.results[k], 2e-4);
    if (!ok) { c.fail(key("changed"), "the packed program returns something else" + all()); return; }
  }
}
} // namespace
