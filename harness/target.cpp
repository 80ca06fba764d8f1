// T01 backend configuration: targets generated from target descriptions, lookups, overrides and the passes that apply them.
// expected.inc says what the description declares (from llvm-tblgen's own evaluation); VARIANT builds it for a generated description.
#include <sys/wait.h>
#include <unistd.h>
#ifdef VARIANT
#include "lib/Target/CompilationTarget/CompilationTarget.cpp"
#else
#include "lib/Target/CompilationTarget/CompilationTarget.h"
#include "lib/Target/CompilationTarget/RegisterAllBackends.h"
#include "lib/Transforms/AnnotateModule/AnnotateModule.h"
#include "mlir/Pass/PassManager.h"
#endif
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mon.h"
using namespace mlir;
using namespace mlir::heir;
using mon::S;

#ifdef VARIANT
namespace mlir { namespace heir {
#include "registration.inc"
}}
#endif

namespace {
struct Want { // what a description declares
  std::string def, name;
  BackendName e;
  void (*registerIt)();
  bool registered;
  std::map<std::string, int64_t> ints;
  std::map<std::string, std::string> strs;
};
#include "expected.inc" // INT_FIELDS(X), STR_FIELDS(X), EXPECTED, DEFAULT

std::map<std::string, int64_t> ints(const CompilationTarget &t) {
  std::map<std::string, int64_t> m;
#define X(f) m[#f] = t.f;
  INT_FIELDS(X)
#undef X
  return m;
}
std::map<std::string, std::string> strs(const CompilationTarget &t) {
  std::map<std::string, std::string> m;
#define X(f) m[#f] = t.f;
  STR_FIELDS(X)
#undef X
  return m;
}
std::string show(const std::map<std::string, int64_t> &i, const std::map<std::string, std::string> &s) {
  S o;
  for (auto &[k, v] : i) o << k << "=" << v << " ";
  for (auto &[k, v] : s) o << k << "='" << v << "' ";
  return o;
}

bool ready() {
  static bool done = [] {
  bool ok = true;
  for (auto &w : EXPECTED) ok &= CompilationTargetRegistry::get(w.e) == nullptr;
#ifdef VARIANT
  for (auto &w : EXPECTED) if (w.registered) w.registerIt();
#else
  registerAllBackends();
#endif
  return ok;
  }();
  return done;
}

MLIRContext &ctx() {
  static MLIRContext *c = [] {
    auto *x = new MLIRContext(MLIRContext::Threading::DISABLED);
    x->allowUnregisteredDialects();
    return x;
  }();
  return *c;
}

struct Diags {
  int errors = 0;
  std::string text;
  ScopedDiagnosticHandler h;
  Diags() : h(&ctx(), [this](Diagnostic &d) { if (d.getSeverity() == DiagnosticSeverity::Error) ++errors; text += d.str() + "\n"; return success(); }) {}
};

const Want *byName(const std::string &n) {
  for (auto &w : EXPECTED) if (w.name == n) return &w;
  return nullptr;
}
std::string wrongName(mon::Case &c) {
  for (;;) {
    std::string n = EXPECTED[c.rng.in(0, EXPECTED.size() - 1)].name;
    switch (c.rng.in(0, 6)) {
    case 0: n = n.substr(0, c.rng.in(0, n.size() - 1)); break;
    case 1: n += "x"; break;
    case 2: n[0] = islower(n[0]) ? toupper(n[0]) : tolower(n[0]); break;
    case 3: n = EXPECTED[c.rng.in(0, EXPECTED.size() - 1)].def; break;
    case 4: n = "none"; break;
    case 5: n = " " + n; break;
    case 6: n = "backend." + n; break;
    }
    if (!byName(n)) return n;
  }
}
std::string key(mon::Case &c, double wrong) {
  std::vector<std::string> k;
#define X(f) k.push_back(#f);
  INT_FIELDS(X) STR_FIELDS(X)
#undef X
  std::string s = c.rng.pick(k);
  if (c.rng.chance(wrong)) {
    std::string o = s;
    switch (c.rng.in(0, 4)) {
    case 0: s = "backendName"; break;
    case 1: s += "s"; break;
    case 2: s = s.substr(0, s.size() - 1); break;
    case 3: s[0] = islower(s[0]) ? toupper(s[0]) : tolower(s[0]); break;
    case 4: s = c.rng.chance(0.5) ? "unknown" : ""; break;
    }
    if (DEFAULT.ints.count(s) || DEFAULT.strs.count(s)) s = o + "_";
  }
  return s;
}
std::string word(mon::Case &c) {
  std::string s;
  for (int i = 0, n = c.rng.in(0, 8); i < n; ++i) s += "abz.-_/= 019"[c.rng.in(0, 11)];
  return s;
}
int64_t number(mon::Case &c) {
  switch (c.rng.in(0, 3)) {
  case 0: return c.rng.in(-3, 40);
  case 1: return c.rng.chance(0.5) ? INT64_MAX : INT64_MIN;
  case 2: return (int64_t(1) << c.rng.in(0, 62)) * (c.rng.chance(0.5) ? 1 : -1);
  default: return c.rng.in(0, 1);
  }
}
// An attribute for a key; sets what it means, if it is of the declared type.
Attribute value(mon::Case &c, const std::string &k, bool &ok, int64_t &iv, std::string &sv) {
  Builder b(&ctx());
  bool isInt = DEFAULT.ints.count(k), isStr = DEFAULT.strs.count(k);
  iv = number(c);
  sv = word(c);
  int what = c.rng.chance(0.8) ? (isStr ? 1 : 0) : c.rng.in(0, 6);
  ok = (isInt && what == 0) || (isStr && what == 1);
  switch (what) {
  case 0: {
    int w = c.rng.in(0, 4);
    if (w == 0) return b.getIndexAttr(iv);
    unsigned bits[] = {0, 8, 16, 32, 64};
    if (bits[w] < 64) iv = llvm::SignExtend64(iv, bits[w]);
    return b.getIntegerAttr(b.getIntegerType(bits[w]), iv);
  }
  case 1: return b.getStringAttr(sv);
  case 2: return b.getF64FloatAttr(double(iv % 100));
  case 3: return b.getUnitAttr();
  case 4: return b.getArrayAttr({b.getI64IntegerAttr(iv)});
  case 5: return b.getDictionaryAttr({});
  default: return SymbolRefAttr::get(&ctx(), "s" + sv);
  }
}
std::string text(Attribute a) { std::string s; llvm::raw_string_ostream o(s); a.print(o); return s; }
std::string text(ModuleOp m) { std::string s; llvm::raw_string_ostream o(s); m->print(o); return s; }

// A module as this monitor knows it: its backends (unit attributes), other attributes and overrides.
struct Model {
  OwningOpRef<ModuleOp> op;
  std::set<std::string> backends;
  std::map<std::string, Attribute> overrides;
  std::map<std::string, std::pair<bool, std::pair<int64_t, std::string>>> meaning;
  std::map<std::string, Attribute> other;
  bool hasOverrides = false, backendKnown = true;
  // The configuration the module asks for, or failure.
  bool wanted(Want &w) {
    if (backends.size() != 1) return false;
    const Want *b = byName(*backends.begin());
    if (!b || !b->registered) return false;
    w = *b;
    for (auto &[k, a] : overrides) {
      auto &m = meaning[k];
      if (!m.first) return false;
      if (w.ints.count(k)) w.ints[k] = m.second.first; else w.strs[k] = m.second.second;
    }
    return true;
  }
};
Model make(mon::Case &c, double bad) {
  ready();
  Model m;
  Builder b(&ctx());
  m.op = ModuleOp::create(b.getUnknownLoc());
  auto set = [&](const std::string &n, Attribute a) { (*m.op)->setAttr(n, a); m.other[n] = a; };
  double k = c.rng.unit();
  if (k < bad * 0.3) { }
  else if (k < bad) m.backends.insert(wrongName(c));
  else m.backends.insert(EXPECTED[c.rng.in(0, EXPECTED.size() - 1)].name);
  for (auto &n : m.backends) (*m.op)->setAttr("backend." + n, b.getUnitAttr());
  // attributes that do not choose a backend
  if (c.rng.chance(0.3)) set("scheme.bgv", b.getUnitAttr());
  if (c.rng.chance(0.2)) set("backends.openfhe", b.getUnitAttr());
  if (c.rng.chance(0.2)) set("a.backend.openfhe", b.getUnitAttr());
  if (c.rng.chance(0.2)) set("backend.zz_info", b.getStringAttr("x"));
  if (c.rng.chance(0.2)) set("backend.aa_info", b.getI64IntegerAttr(1));
  if (c.rng.chance(0.2)) set("sym_name", b.getStringAttr("m"));
  if (c.rng.chance(0.7)) {
    m.hasOverrides = true;
    std::vector<NamedAttribute> v;
    for (int i = 0, n = c.rng.in(0, 4); i < n; ++i) {
      std::string kk = key(c, bad * 0.3);
      if (kk.empty()) continue;
      bool ok; int64_t iv; std::string sv;
      Attribute a = value(c, kk, ok, iv, sv);
      if (!ok && !c.rng.chance(bad)) continue;
      if (m.overrides.count(kk)) continue;
      m.overrides[kk] = a;
      m.meaning[kk] = {ok, {iv, sv}};
    }
    for (auto &[kk, a] : m.overrides) v.push_back(b.getNamedAttr(kk, a));
    c.rng.shuffle(v);
    (*m.op)->setAttr("backend.config_override", b.getDictionaryAttr(v));
  }
  return m;
}
void judgeModule(mon::Case &c, Model &m, const char *what) {
  std::map<std::string, Attribute> got, want = m.other;
  Builder b(&ctx());
  for (auto na : (*m.op)->getAttrs()) got[na.getName().str()] = na.getValue();
  for (auto &n : m.backends) want["backend." + n] = b.getUnitAttr();
  if (m.hasOverrides) {
    std::vector<NamedAttribute> v;
    for (auto &[k, a] : m.overrides) v.push_back(b.getNamedAttr(k, a));
    want["backend.config_override"] = b.getDictionaryAttr(v);
  }
  c.check(got == want, "attributes", [&] { std::string s; for (auto &[k, a] : want) s += k + "=" + text(a) + " "; return std::string(S() << what << ": the module is " << text(*m.op) << ", its attributes should be " << s); });
}
void judgeConfig(mon::Case &c, Model &m) {
  Want w;
  bool ok = m.wanted(w);
  Diags d;
  FailureOr<CompilationTarget> got = getTargetConfig(*m.op);
  c.event(ok ? "configurations resolved" : "configurations refused");
  if (!ok) {
    c.check(failed(got), "accepted", [&] { return std::string(S() << "resolved to " << show(ints(*got), strs(*got))); });
    c.check(failed(got) ? d.errors > 0 : true, "no-diagnostic", "refused without a diagnostic");
    return;
  }
  if (!c.check(succeeded(got), "refused", [&] { return "refused: " + d.text; })) return;
  c.check(d.errors == 0, "spurious-diagnostic", [&] { return d.text; });
  c.check(got->backendName == w.e, "wrong-backend", [&] { return toString(got->backendName).str(); });
  c.check(ints(*got) == w.ints && strs(*got) == w.strs, "wrong-field", [&] { return std::string(S() << "resolved to " << show(ints(*got), strs(*got)) << ", should be " << show(w.ints, w.strs)); });
}
void judgeRegistry(mon::Case &c) {
  ready();
  for (auto &w : EXPECTED) {
    auto *t = CompilationTargetRegistry::get(w.e);
    if (!c.check((t != nullptr) == w.registered, "registry", [&] { return w.def + (t ? " is registered" : " is not registered"); }) || !t) continue;
    c.check(t->backendName == w.e && ints(*t) == w.ints && strs(*t) == w.strs, "registered-fields", [&] { return std::string(S() << w.def << " is registered as " << toString(t->backendName).str() << " " << show(ints(*t), strs(*t)) << ", declared as " << show(w.ints, w.strs)); });
  }
}
} // namespace

MON_FAMILY(T01_registry, 30, 300) {
  c.describe(S() << "registry " << c.index);
  c.check(ready(), "registered-early", "a target was registered before being asked for");
  judgeRegistry(c);
  c.check(CompilationTargetRegistry::get(BackendName::None) == nullptr, "none-registered", "a target is registered for no backend");
  CompilationTarget t;
  c.check(t.backendName == BackendName::None && ints(t) == DEFAULT.ints && strs(t) == DEFAULT.strs, "defaults", [&] { return std::string(S() << show(ints(t), strs(t)) << ", should be " << show(DEFAULT.ints, DEFAULT.strs)); });
  std::set<std::string> names;
  std::set<int> es;
  for (auto &w : EXPECTED) {
    c.check(toString(w.e) == w.name, "to-string", [&] { return std::string(S() << w.def << " is spelled " << toString(w.e).str()); });
    c.check(parseBackendName(w.name) == w.e, "parse-name", [&] { return w.name; });
    names.insert(toString(w.e).str());
    es.insert((int)w.e);
  }
  c.check(es.size() == EXPECTED.size() && !es.count((int)BackendName::None), "distinct", "backends share a number");
  for (int i = 0; i < 5; ++i) {
    std::string n = wrongName(c);
    c.check(parseBackendName(n) == BackendName::None, "parse-unknown", [&] { return "'" + n + "' is taken for a backend"; });
  }
  // registering a target again must not go unnoticed, nor change it
  if (c.index < 4) {
    auto &w = EXPECTED[c.rng.in(0, EXPECTED.size() - 1)];
    if (w.registered) {
      fflush(nullptr);
      pid_t p = fork();
      if (!p) {
        for (int s : {SIGABRT, SIGSEGV, SIGILL}) signal(s, SIG_DFL);
        dup2(open("/dev/null", 1), 2);
        CompilationTarget u = *CompilationTargetRegistry::get(w.e);
        CompilationTargetRegistry::registerTarget(u);
        _exit(0);
      }
      int st; waitpid(p, &st, 0);
      c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "registered-twice", [&] { return w.def + " could be registered again"; });
      c.event("second registrations refused");
    }
  }
}

MON_FAMILY(T01_config, 1500, 20000) {
  Model m = make(c, 0.4);
  c.describe(text(*m.op));
  judgeConfig(c, m);
  judgeModule(c, m, "looking the configuration up");
  judgeRegistry(c);
}

MON_FAMILY(T01_override, 700, 8000) {
  Model m = make(c, 0.2);
  std::string hist = text(*m.op);
  c.describe(hist);
  for (int i = 0, n = c.rng.in(1, 8); i < n; ++i) {
    std::string k = key(c, 0.15);
    bool ok; int64_t iv; std::string sv;
    Attribute a = value(c, k, ok, iv, sv);
    if (c.rng.chance(0.5)) {
      hist += S() << "\nvalidate '" << k << "' " << text(a);
      c.describe(hist);
      Want w;
      bool should = m.wanted(w) && ok;
      Diags d;
      bool got = succeeded(validateCompilationTargetOverride(*m.op, k, a));
      c.check(got == should, "validation", [&] { return std::string(S() << (got ? "accepted" : "refused: " + d.text)); });
      c.check(got || d.errors > 0, "no-diagnostic", "refused without a diagnostic");
      c.event(should ? "overrides valid" : "overrides invalid");
    } else if (!k.empty()) {
      hist += S() << "\npersist '" << k << "' " << text(a);
      c.describe(hist);
      persistCompilationTargetOverride(*m.op, k, a);
      m.hasOverrides = true;
      m.overrides[k] = a;
      m.meaning[k] = {ok, {iv, sv}};
      c.event("overrides persisted");
    }
    judgeModule(c, m, "an override");
    judgeConfig(c, m);
  }
  judgeRegistry(c);
}

namespace {
// A spelling of an integer, and whether it is one that must be accepted (1), refused (-1) or is not judged (0).
std::string spelling(mon::Case &c, int &how, int64_t &iv) {
  iv = number(c);
  std::string s = std::to_string(iv);
  how = 1;
  if (c.rng.chance(0.7)) return s;
  how = -1;
  switch (c.rng.in(0, 8)) {
  case 0: return "";
  case 1: return s + "x";
  case 2: return "0x1f";
  case 3: return "9223372036854775808";
  case 4: return "-9223372036854775809";
  case 5: return s + ".0";
  case 6: return "one";
  case 7: return "-";
  default: return s + " " + s;
  }
}
}

MON_FAMILY(T01_parse, 1500, 20000) {
  std::string k = key(c, 0.2), v;
  int how = 1;
  int64_t iv = 0;
  bool isInt = DEFAULT.ints.count(k), isStr = DEFAULT.strs.count(k);
  if (isStr) v = word(c); else v = spelling(c, how, iv);
  c.describe(S() << "'" << k << "' = '" << v << "'");
  Diags d;
  FailureOr<Attribute> a = parseCompilationTargetOverrideValue(&ctx(), k, v, UnknownLoc::get(&ctx()));
  if (!isInt && !isStr) how = -1;
  if (how < 0) {
    c.check(failed(a), "parse-accepted", [&] { return "parsed as " + text(*a); });
    c.check(!failed(a) || d.errors > 0, "no-diagnostic", "refused without a diagnostic");
    c.event("spellings refused");
    return;
  }
  if (!c.check(succeeded(a) && *a, "parse-refused", [&] { return d.text; })) return;
  c.event("spellings parsed");
  if (isInt) { auto i = dyn_cast<IntegerAttr>(*a); c.check(i && i.getInt() == iv, "parsed-value", [&] { return text(*a); }); }
  else { auto s = dyn_cast<StringAttr>(*a); c.check(s && s.getValue() == v, "parsed-value", [&] { return text(*a); }); }
}

#ifndef VARIANT
MON_FAMILY(T01_pass, 600, 6000) {
  Model m = make(c, 0.15);
  for (auto it = m.overrides.begin(); it != m.overrides.end();) it = m.meaning[it->first].first ? ++it : m.overrides.erase(it);
  if (m.hasOverrides) {
    Builder b(&ctx());
    std::vector<NamedAttribute> v;
    for (auto &[kk, a] : m.overrides) v.push_back(b.getNamedAttr(kk, a));
    (*m.op)->setAttr("backend.config_override", b.getDictionaryAttr(v));
  }
  std::string before = text(*m.op), list;
  Want w;
  bool should = true;
  ApplyConfigOverrideOptions o;
  Model after;
  after.backends = m.backends; after.other = m.other; after.overrides = m.overrides; after.meaning = m.meaning; after.hasOverrides = m.hasOverrides;
  auto sp = [&] { return std::string(c.rng.chance(0.2) ? c.rng.in(1, 2) : 0, ' '); };
  for (int i = 0, n = c.rng.in(0, 5); i < n; ++i) {
    std::string k = key(c, 0.05), v;
    int how = 1;
    int64_t iv;
    v = spelling(c, how, iv);
    if (how < 0 && c.rng.chance(0.7)) { iv = number(c); v = std::to_string(iv); how = 1; }
    std::string kv = sp() + k + sp() + "=" + sp() + v + sp();
    if (c.rng.chance(0.04)) { kv = k + (c.rng.chance(0.5) ? "" : ":" + v); how = -1; }
    o.config.push_back(kv);
    list += "[" + kv + "] ";
    if (!should) continue;
    if (how < 0 || !DEFAULT.ints.count(k) || !after.wanted(w)) { should = false; continue; }
    after.overrides[k] = Builder(&ctx()).getI64IntegerAttr(iv);
    after.meaning[k] = {true, {iv, ""}};
    after.hasOverrides = true;
  }
  c.describe("overrides " + list + " on " + before);
  Diags d;
  PassManager pm(&ctx());
  pm.addPass(createApplyConfigOverride(o));
  bool got = succeeded(pm.run(*m.op));
  c.event(should ? "override passes accepted" : "override passes refused");
  if (!c.check(got == should, "override-pass", [&] { return std::string(S() << (got ? "accepted: " + text(*m.op) : "refused: " + d.text)); })) return;
  c.check(got || d.errors > 0, "no-diagnostic", "refused without a diagnostic");
  if (!got) return;
  after.op = std::move(m.op);
  judgeModule(c, after, "the override pass");
  judgeConfig(c, after);
}

MON_FAMILY(T01_annotate, 500, 5000) {
  Model m = make(c, 0.3);
  Builder b(&ctx());
  std::vector<std::string> schemes = {"bgv", "bfv", "ckks", "cggi"};
  for (auto &s : schemes) if (c.rng.chance(0.2)) { (*m.op)->setAttr("scheme." + s, b.getUnitAttr()); m.other["scheme." + s] = b.getUnitAttr(); }
  AnnotateModuleOptions o;
  if (c.rng.chance(0.7)) o.scheme = c.rng.pick(schemes);
  if (c.rng.chance(0.7)) o.backend = c.rng.chance(0.2) ? wrongName(c) : EXPECTED[c.rng.in(0, EXPECTED.size() - 1)].name;
  c.describe(S() << "scheme '" << o.scheme << "' backend '" << o.backend << "' on " << text(*m.op));
  bool should = o.backend.empty() || (byName(o.backend) && byName(o.backend)->registered);
  Diags d;
  PassManager pm(&ctx());
  pm.addPass(createAnnotateModule(o));
  bool got = succeeded(pm.run(*m.op));
  c.event(should ? "modules annotated" : "annotations refused");
  if (!c.check(got == should, "annotate-pass", [&] { return std::string(S() << (got ? "accepted" : "refused: " + d.text)); })) return;
  c.check(got || d.errors > 0, "no-diagnostic", "refused without a diagnostic");
  if (!got) return;
  if (!o.scheme.empty()) {
    for (auto &s : schemes) m.other.erase("scheme." + s);
    m.other["scheme." + o.scheme] = b.getUnitAttr();
  }
  if (!o.backend.empty()) { // another known backend is replaced
    for (auto &w : EXPECTED) m.backends.erase(w.name);
    m.backends.insert(o.backend);
  }
  judgeModule(c, m, "annotating");
  if (m.backends.size() == 1) judgeConfig(c, m);
}
#endif

MON_MAIN()
