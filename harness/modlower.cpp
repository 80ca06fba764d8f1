// O03: programs over modular integers, residue number systems and polynomials, lowered to machine integers and executed, against arithmetic on big integers.
#include <regex>
#include <sstream>
#include "heiropt.h"
#include "interp.h"
#include "mon.h"
using namespace mlir;
using interp::Val;
using Big = llvm::APInt;
static const unsigned W = 512;
static Big big(uint64_t x) { return Big(W, x); }
static std::string dec(const Big &b) { llvm::SmallString<40> s; b.toStringUnsigned(s); return s.str().str(); }
using V = std::vector<Big>;  // coefficients, residues innermost

struct Ty {
  std::vector<Big> q;        // residues' moduli
  unsigned w = 0;            // bits of storage
  int n = 0;                 // tensor length, 0 for a scalar
  bool rns = false;
  std::string elt() const {
    auto one = [&](const Big &m) { return "!mod_arith.int<" + dec(m) + " : i" + std::to_string(w) + ">"; };
    if (!rns) return one(q[0]);
    std::string s = "!rns.rns<";
    for (size_t k = 0; k < q.size(); k++) s += (k ? ", " : "") + one(q[k]);
    return s + ">";
  }
  std::string str() const { return n ? "tensor<" + std::to_string(n) + "x" + elt() + ">" : elt(); }
  std::string store() const {
    std::string s;
    if (n) s += std::to_string(n) + "x";
    if (rns) s += std::to_string(q.size()) + "x";
    return s.empty() ? "i" + std::to_string(w) : "tensor<" + s + "i" + std::to_string(w) + ">";
  }
  size_t size() const { return (n ? n : 1) * q.size(); }
  const Big &mod(size_t k) const { return q[k % q.size()]; }
  bool operator==(const Ty &o) const { return str() == o.str(); }
};
static Big mulm(const Big &a, const Big &b, const Big &m) { return (a * b).urem(m); }
static Big addm(const Big &a, const Big &b, const Big &m) { return (a + b).urem(m); }
static Big subm(const Big &a, const Big &b, const Big &m) { return (a + m - b).urem(m); }
static Big powm(Big a, uint64_t e, const Big &m) { Big r = big(1).urem(m); for (; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m); return r; }

// a value of the program: its text name, type and what it is
struct X { std::string name; Ty t; V v; };
struct Gen {
  mon::Case &c;
  std::string body;
  std::string args;
  std::vector<Val> in;
  int id = 0, nargs = 0; bool zero = false;
  std::vector<std::string> rets, rtys;
  std::vector<V> want;
  std::vector<std::vector<bool>> loose;  // results that either neighbouring reading allows
  explicit Gen(mon::Case &c) : c(c) {}
  std::string fresh() { return "%v" + std::to_string(id++); }
  Big below(const Big &m) {
    switch (c.rng.in(0, 7)) {
      case 0: return big(0);
      case 1: return m - 1;
      case 2: return big(1).urem(m);
      case 3: return m.lshr(1);
      case 4: return (m.lshr(1) + 1).urem(m);
      default: break;
    }
    Big r(W, 0);
    for (int k = 0; k < 4; k++) r = r.shl(64) | big(c.rng.next());
    return r.urem(m);
  }
  V values(const Ty &t) { V v; for (size_t k = 0; k < t.size(); k++) v.push_back(below(t.mod(k))); return v; }
  Val lower(const Ty &t, const V &v) {
    interp::Elems e;
    for (auto &b : v) e.push_back(Val::integer(b.trunc(t.w)));
    if (!t.n && !t.rns) return e[0];
    std::vector<int64_t> s;
    if (t.n) s.push_back(t.n);
    if (t.rns) s.push_back(t.q.size());
    return Val::tensor(s, e);
  }
  X arg(const Ty &t) {
    X x{"%a" + std::to_string(nargs++), t, values(t)};
    args += (args.empty() ? "" : ", ") + x.name + ": " + t.str();
    in.push_back(lower(t, x.v));
    return x;
  }
  std::string rawArg(const std::string &ty, Val v) {
    std::string n = "%a" + std::to_string(nargs++);
    args += (args.empty() ? "" : ", ") + n + ": " + ty;
    in.push_back(v);
    return n;
  }
  void line(const std::string &s) { body += "  " + s + "\n"; }
  void ret(const std::string &n, const std::string &ty, const V &v) { rets.push_back(n); rtys.push_back(ty); want.push_back(v); }
  void ret(const X &x) { ret(x.name, x.t.str(), x.v); }
  std::string func() {
    std::string r, t;
    for (size_t k = 0; k < rets.size(); k++) r += (k ? ", " : "") + rets[k], t += (k ? ", " : "") + rtys[k];
    return "func.func @f(" + args + ") -> (" + t + ") {\n" + body + "  return " + r + " : " + t + "\n}\n";
  }
};
static bool prime(uint64_t p) { if (p < 2) return false; for (uint64_t d = 2; d * d <= p; d++) if (p % d == 0) return false; return true; }
static uint64_t primeNear(mon::Case &c, uint64_t lo, uint64_t hi) { for (;;) { uint64_t x = c.rng.in(lo, hi); if (prime(x)) return x; } }
// A modulus for w bits of storage: the top bit stays clear.
static Big modulus(mon::Case &c, unsigned w) {
  Big top = big(1).shl(w - 1) - 1;
  Big m = big(0);
  switch (c.rng.in(0, 4)) {
    case 0: m = top; break;
    case 1: m = big(2 + c.rng.in(0, 5)); break;
    case 2: m = big(1).shl(c.rng.in(1, w - 2)) + 1; break;
    default: { Big r(W, 0); for (int k = 0; k < 3; k++) r = r.shl(64) | big(c.rng.next()); m = r.urem(top) + 1; }
  }
  if (m.ugt(top)) m = top;
  if (m.ult(big(2))) m = big(2);
  return m;
}
static unsigned width(mon::Case &c) { static const unsigned ws[] = {4, 8, 10, 16, 26, 32, 33, 62, 64, 64, 32}; return ws[c.rng.in(0, 10)]; }

static X binary(Gen &g, const X &a, const X &b, int op) {
  static const char *nm[] = {"add", "sub", "mul"};
  X r{g.fresh(), a.t, {}};
  g.line(r.name + " = mod_arith." + nm[op] + " " + a.name + ", " + b.name + " : " + a.t.str());
  for (size_t k = 0; k < a.v.size(); k++) { auto &m = a.t.mod(k); r.v.push_back(op == 0 ? addm(a.v[k], b.v[k], m) : op == 1 ? subm(a.v[k], b.v[k], m) : mulm(a.v[k], b.v[k], m)); }
  return r;
}
static X mac(Gen &g, const X &a, const X &b, const X &d) {
  X r{g.fresh(), a.t, {}};
  g.line(r.name + " = mod_arith.mac " + a.name + ", " + b.name + ", " + d.name + " : " + a.t.str());
  for (size_t k = 0; k < a.v.size(); k++) { auto &m = a.t.mod(k); r.v.push_back(addm(mulm(a.v[k], b.v[k], m), d.v[k], m)); }
  return r;
}
static X constant(Gen &g, const Ty &t) {  // not for residue number systems
  X r{g.fresh(), t, g.values(t)};
  std::string s;
  if (!t.n) s = dec(r.v[0]);
  else { s = "dense<["; for (size_t k = 0; k < r.v.size(); k++) s += (k ? ", " : "") + dec(r.v[k]); s += "]>"; }
  g.line(r.name + " = mod_arith.constant " + s + " : " + t.str());
  return r;
}
// encapsulate any stored integer, then reduce
static X reduced(Gen &g, const Ty &t) {
  interp::Elems e;
  X r{g.fresh(), t, {}};
  std::vector<int64_t> sh;
  for (size_t k = 0; k < t.size(); k++) {
    llvm::APInt raw(t.w, 0);
    switch (g.c.rng.in(0, 5)) {
      case 0: raw = llvm::APInt::getSignedMaxValue(t.w); break;
      case 1: raw = llvm::APInt::getSignedMinValue(t.w); break;
      case 2: raw = llvm::APInt::getAllOnes(t.w); break;
      case 3: raw = t.mod(k).trunc(t.w); if (g.c.rng.chance(0.50)) raw = -raw; break;
      default: { Big b = big(g.c.rng.next()).shl(64) | big(g.c.rng.next()); raw = b.trunc(t.w); }
    }
    e.push_back(Val::integer(raw));
    Big m = t.mod(k), s = raw.sext(W);
    Big x = s.srem(m);
    if (x.isNegative()) x += m;
    r.v.push_back(x);
  }
  Val v = e[0];
  if (t.n) sh.push_back(t.n);
  if (t.rns) sh.push_back(t.q.size());
  if (!sh.empty()) v = Val::tensor(sh, e);
  std::string a = g.rawArg(t.store(), v), en = g.fresh();
  g.line(en + " = mod_arith.encapsulate " + a + " : " + t.store() + " -> " + t.str());
  g.line(r.name + " = mod_arith.reduce " + en + " : " + t.str());
  return r;
}
static void lift(Gen &g, const X &a, bool centered) {
  if (a.t.q[0] == big(1).shl(a.t.w - 1) - 1) centered = false; // probed apart (O03_known)
  std::string r = g.fresh();
  g.line(r + " = mod_arith.lift " + (centered ? "centered " : "standard ") + a.name + " : " + a.t.str() + " -> " + a.t.store());
  V v;
  for (size_t k = 0; k < a.v.size(); k++) {
    Big m = a.t.mod(k), x = a.v[k];
    if (centered && (x.shl(1)).uge(m)) x = x - m;  // a representative in [-q/2, q/2)
    v.push_back(x);
  }
  g.ret(r, a.t.store(), v);
}
static X arithmetic(Gen &g, std::vector<X> &pool, int ops) {
  auto pick = [&]() -> X & { return pool[g.c.rng.in(0, pool.size() - 1)]; };
  for (int k = 0; k < ops; k++) {
    X a = pick(), b = pick(), d = pick();
    if (g.c.rng.chance(0.20)) pool.push_back(mac(g, a, b, d));
    else if (g.c.rng.chance(0.15)) pool.push_back(binary(g, binary(g, a, b, 2), d, 0));
    else pool.push_back(binary(g, a, b, g.c.rng.in(0, 2)));
  }
  return pool.back();
}

static std::string passes(mon::Case &c, bool ntt = false, bool mulToNtt = true) {
  std::string s;
  auto add = [&](const char *p) { s += std::string(s.empty() ? "" : ",") + p; };
  if (c.rng.chance(0.30)) add("canonicalize");
  if (c.rng.chance(0.20)) add("cse");
  if (ntt && mulToNtt && c.rng.chance(0.70)) add("func.func(convert-polynomial-mul-to-ntt)");
  if (ntt) add("attach-ntt-roots");
  if (ntt && c.rng.chance(0.30)) add("canonicalize");
  if (c.rng.chance(0.40)) add("mod-arith-to-mac");
  add("lower-polynomial-eval");
  add("convert-elementwise-to-affine{convert-dialects=polynomial}");
  add("polynomial-to-mod-arith");
  if (c.rng.chance(0.30)) add("canonicalize");
  if (c.rng.chance(0.40)) add("mod-arith-to-mac");
  add("rns-lower-convert-basis");
  add("mod-arith-to-arith");
  if (c.rng.chance(0.30)) add("canonicalize");
  return s;
}
static std::string opaque(const std::string &ir) {
  std::map<std::string, std::string> alias;
  std::istringstream is(ir);
  std::string l, out;
  static const std::regex def(R"(^(!\S+) = !mod_arith\.int<-?\d+ : (i\d+)>$)"), con(R"(^(\s*)(%\S+) = mod_arith\.constant (-?\d+) : (.+)$)"), full(R"(^!mod_arith\.int<-?\d+ : (i\d+)>$)");
  std::smatch m;
  while (std::getline(is, l)) {
    if (std::regex_match(l, m, def)) alias[m[1]] = m[2];
    else if (std::smatch f; std::regex_match(l, m, con)) {
      std::string ty = m[4];
      if (!alias.count(ty) && std::regex_match(ty, f, full)) alias[ty] = f[1];
      if (alias.count(ty)) l = m[1].str() + "%k__" + m[2].str().substr(1) + " = arith.constant " + m[3].str() + " : " + alias[m[4]] + "\n" + m[1].str() + m[2].str() + " = mod_arith.encapsulate %k__" + m[2].str().substr(1) + " : " + alias[m[4]] + " -> " + m[4].str();
    }
    out += l + "\n";
  }
  return out;
}
static void decide(Gen &g, const std::string &pl, bool mustCompile) {
  auto &c = g.c;
  std::string src = g.func();
  if (g.zero) { c.event("zero products, probed apart"); c.skip(); return; }
  c.describe(pl + "\n" + src);
  // The installed LLVM folds a tensor made of constants into a dense attribute
  // whatever their type and fails on residues; constants are handed over as
  // encapsulated integers where such tensors are made.
  std::string first = pl, second;
  auto at = pl.find(",mod-arith-to-arith");
  if (src.find("convert_basis") != std::string::npos && at != std::string::npos) first = pl.substr(0, at), second = pl.substr(at + 1);
  auto r = heiropt::compile(src, {first}, 60);
  if (!second.empty() && r.st == heiropt::Compiled::Ok) r = heiropt::compile(opaque(r.ir.back()), {second}, 60);
  if (r.st == heiropt::Compiled::TooLong) { c.event("stopped after a minute"); c.skip(); return; }
  if (r.st != heiropt::Compiled::Ok) {
    if (r.msgs.find("'tensor.splat' op operand") != std::string::npos) { c.event("the installed LLVM cannot splat residues"); c.skip(); return; }
    c.event(r.st == heiropt::Compiled::Refused ? "refused" : "compiler crashes");
    if (mustCompile || r.st == heiropt::Compiled::Crashed) c.fail(r.st == heiropt::Compiled::Refused ? "refused" : "crash", [&] { return pl + "\n" + src + "\n" + r.msgs.substr(0, 1500); }());
    else c.skip();
    return;
  }
  c.event("programs lowered");
  auto m = parseSourceString<ModuleOp>(r.ir.back(), ParserConfig(&heiropt::ctx()));
  if (!m) { c.fail("unreadable", r.ir.back()); return; }
  for (auto d : {"mod_arith.", "polynomial.", "rns."})
    if (r.ir.back().find(d) != std::string::npos) { c.event("not fully lowered"); if (mustCompile) c.fail("not-lowered", pl + "\n" + src + "\n" + r.ir.back()); else c.skip(); return; }
  auto o = interp::run(*m, "f", g.in, [](interp::Interp &) {}, false, 20000000);
  if (o.st != interp::Outcome::Ok) { c.fail("execution", mon::S() << o.why << "\n" << pl << "\n" << src << "\n" << r.ir.back()); return; }
  c.event("executions compared");
  for (size_t k = 0; k < g.want.size(); k++) {
    Val got = o.results[k];
    interp::Elems e = got.k == Val::Tensor ? *got.el : interp::Elems{got};
    bool same = e.size() == g.want[k].size();
    c.event("values compared", e.size());
    std::string w, h;
    for (size_t j = 0; j < e.size() && j < g.want[k].size(); j++) {
      bool eq = e[j].k == Val::Int && (e[j].i.getBitWidth() >= W || e[j].i == g.want[k][j].trunc(e[j].i.getBitWidth()));
      same &= eq;
    }
    if (!same) {
      for (auto &x : g.want[k]) { llvm::SmallString<40> s; x.toStringSigned(s); w += s.str().str() + " "; }
      c.fail("value", mon::S() << "result " << k << " is " << interp::show(got) << ", expected " << w << "\n" << pl << "\n" << src << "\ninputs " << [&] { std::string s; for (auto &v : g.in) s += interp::show(v) + " "; return s; }() << "\n" << r.ir.back());
      return;
    }
  }
}

MON_FAMILY(O03_modarith, 150, 3000) {
  Gen g(c);
  Ty t;
  t.w = width(c);
  t.q = {modulus(c, t.w)};
  t.n = c.rng.chance(0.35) ? c.rng.in(1, 6) : 0;
  std::vector<X> pool;
  pool.push_back(g.arg(t));
  if (c.rng.chance(0.70)) pool.push_back(reduced(g, t));
  if (c.rng.chance(0.60)) pool.push_back(g.arg(t));
  if (c.rng.chance(0.60)) pool.push_back(constant(g, t));
  if (c.rng.chance(0.40)) pool.push_back(constant(g, t));
  arithmetic(g, pool, c.rng.in(1, 6));
  X last = pool.back();
  g.ret(last);
  lift(g, pool[c.rng.in(0, pool.size() - 1)], c.rng.chance(0.60));
  if (!t.n && c.rng.chance(0.50)) { // another modulus
    X a = pool[c.rng.in(0, pool.size() - 1)];
    Ty u; u.w = width(c); u.q = {modulus(c, u.w)};
    // the value is taken as the one of least magnitude; half-way, either neighbour
    Big old = a.t.q[0], nw = u.q[0], x = a.v[0];
    if (x.shl(1) != old - 1 && !(u == a.t)) {
      X r{g.fresh(), u, {}};
      g.line(r.name + " = mod_arith.mod_switch " + a.name + " : " + a.t.str() + " to " + u.str());
      if (x.shl(1).ult(old)) r.v = {x.urem(nw)};
      else { Big neg = (old - x).urem(nw); r.v = {neg.isZero() ? neg : nw - neg}; }
      g.ret(r);
      c.event("modulus switches");
    }
  }
  decide(g, passes(c), true);
}
MON_FAMILY(O03_barrett, 60, 800) {
  Gen g(c);
  unsigned w = c.rng.in(2, 31);
  Big q = big(1).shl(w - 1) + big(c.rng.next()).urem(big(1).shl(w - 1)) + 1; // w bits hold [0, q)
  if (c.rng.chance(0.20)) q = big(1).shl(w);
  if (q.ult(big(3))) q = big(3);
  w = (q - 1).getActiveBits();
  unsigned iw = c.rng.in(w, 2 * w);
  int n = c.rng.chance(0.40) ? c.rng.in(1, 5) : 0;
  Big limit = (q * q);
  Big cap = big(1).shl(iw);
  if (limit.ugt(cap)) limit = cap;
  interp::Elems e; V v;
  for (int k = 0; k < std::max(n, 1); k++) { Big x = g.below(limit); e.push_back(Val::integer(x.trunc(iw))); v.push_back(x); }
  std::string ty = n ? "tensor<" + std::to_string(n) + "xi" + std::to_string(iw) + ">" : "i" + std::to_string(iw);
  std::string a = g.rawArg(ty, n ? Val::tensor({n}, e) : e[0]);
  g.line("%b = mod_arith.barrett_reduce " + a + " {modulus = " + dec(q) + " : i" + std::to_string(3 * w + 8) + "} : " + ty);
  // q itself fits the input's width only when it is wide enough
  bool fits = q.ult(cap) && (q.shl(1)).ule(cap);
  if (fits) {
    std::string qs = dec(q);
    if (q.uge(big(1).shl(iw - 1))) { llvm::SmallString<40> s; q.trunc(iw).toStringSigned(s); qs = s.str().str(); }
    g.line("%q = arith.constant " + (n ? "dense<" + qs + ">" : qs) + " : " + ty);
    g.line("%r = mod_arith.subifge %b, %q : " + ty);
    V w2; for (auto &x : v) w2.push_back(x.urem(q));
    g.ret("%r", ty, w2);
  } else {
    c.trivial(); c.skip(); return;
  }
  decide(g, "mod-arith-to-arith", true);
}
static Ty basis(mon::Case &c, int limbs, int n, unsigned w = 0) {
  Ty t;
  t.rns = true;
  t.n = n;
  t.w = w ? w : (c.rng.chance(0.50) ? 32 : c.rng.chance(0.50) ? 64 : 11);
  uint64_t top = t.w == 11 ? 1000 : 200000;
  while ((int)t.q.size() < limbs) {
    uint64_t p = c.rng.chance(0.30) ? primeNear(c, 3, 60) : primeNear(c, 3, top);
    bool dup = false;
    for (auto &x : t.q) dup |= x == big(p);
    if (!dup) t.q.push_back(big(p));
  }
  return t;
}
MON_FAMILY(O03_rns, 120, 2000) {
  Gen g(c);
  Ty t = basis(c, c.rng.in(1, 4), c.rng.chance(0.30) ? c.rng.in(1, 4) : 0);
  std::vector<X> pool{g.arg(t)};
  if (c.rng.chance(0.50)) pool.push_back(g.arg(t));
  if (c.rng.chance(0.40)) pool.push_back(reduced(g, t));
  arithmetic(g, pool, c.rng.in(0, 4));
  X a = pool.back();
  g.ret(a);
  Big Q = big(1);
  for (auto &m : t.q) Q = Q * m;
  auto crt = [&](const X &x, size_t at) { // brute-force Garner
    Big v = x.v[at * t.q.size()], M = x.t.q[0];
    for (size_t k = 1; k < t.q.size(); k++) {
      Big m = t.q[k], inv = powm(M.urem(m), m.getZExtValue() - 2, m);
      if (m == big(2)) inv = M.urem(m);
      Big d = mulm(subm(x.v[at * t.q.size() + k], v.urem(m), m), inv, m);
      v = v + M * d;
      M = M * m;
    }
    return v;
  };
  if (t.q.size() > 1 && c.rng.chance(0.60)) { // a slice of the residues
    int s = c.rng.in(0, t.q.size() - 1), len = c.rng.in(1, t.q.size() - s);
    Ty u = t; u.q.assign(t.q.begin() + s, t.q.begin() + s + len);
    X r{g.fresh(), u, {}};
    g.line(r.name + " = rns.extract_slice " + a.name + " {start = " + std::to_string(s) + " : index, size = " + std::to_string(len) + " : index} : " + t.str() + " -> " + u.str());
    for (int k = 0; k < std::max(1, t.n); k++) for (int j = 0; j < len; j++) r.v.push_back(a.v[k * t.q.size() + s + j]);
    g.ret(r);
    c.event("slices");
  }
  if (!t.n) {
    int k = c.rng.in(0, t.q.size() - 1);
    Ty s; s.w = t.w; s.q = {t.q[k]};
    X r{g.fresh(), s, {a.v[k]}};
    g.line(r.name + " = rns.extract_residue " + a.name + " {index = " + std::to_string(k) + " : index} : " + t.str() + " -> " + s.str());
    g.ret(r);
    if (c.rng.chance(0.50)) { // residues packed again in another order
      std::vector<int> ord; for (size_t j = 0; j < t.q.size(); j++) ord.push_back(j);
      c.rng.shuffle(ord);
      Ty u = t; std::string ops, tys; V v;
      for (size_t j = 0; j < ord.size(); j++) {
        Ty o; o.w = t.w; o.q = {t.q[ord[j]]};
        std::string n = g.fresh();
        g.line(n + " = rns.extract_residue " + a.name + " {index = " + std::to_string(ord[j]) + " : index} : " + t.str() + " -> " + o.str());
        u.q[j] = t.q[ord[j]]; ops += (j ? ", " : "") + n; tys += (j ? ", " : "") + o.str(); v.push_back(a.v[ord[j]]);
      }
      X p{g.fresh(), u, v};
      g.line(p.name + " = rns.pack " + ops + " : " + tys);
      g.ret(p);
      c.event("packs");
    }
    if (t.q.size() > 1 && c.rng.chance(0.50)) { // to the product and back
      Ty s; s.w = Q.getActiveBits() + 1 + c.rng.in(0, 9); s.q = {Q};
      if (s.w < t.w) s.w = t.w;
      X r{g.fresh(), s, {crt(a, 0)}};
      g.line(r.name + " = mod_arith.mod_switch " + a.name + " : " + t.str() + " to " + s.str());
      g.ret(r);
      if (s.w >= t.w) {
        Ty sm = s; X src = r;
        if (c.rng.chance(0.30)) { sm.q = {modulus(c, 12)}; if (sm.q[0].uge(Q)) sm.q = s.q; else src = g.arg(sm); }
        X d{g.fresh(), t, {}};
        g.line(d.name + " = mod_arith.mod_switch " + src.name + " : " + src.t.str() + " to " + t.str());
        for (auto &m : t.q) d.v.push_back(src.v[0].urem(m));
        g.ret(d);
      }
      c.event("basis interpolations");
    }
    if (c.rng.chance(0.60)) { // to another basis
      Ty u = basis(c, c.rng.in(1, 4), 0, t.w);
      if (c.rng.chance(0.40)) { Big m = t.q[c.rng.in(0, t.q.size() - 1)]; bool dup = false; for (auto &x : u.q) dup |= x == m; if (!dup) u.q[0] = m; }
      X r{g.fresh(), u, {}};
      Big x = crt(a, 0);
      for (auto &m : u.q) { if (x.shl(1).ult(Q)) r.v.push_back(x.urem(m)); else { Big n = (Q - x).urem(m); r.v.push_back(n.isZero() ? n : m - n); } }
      g.line(r.name + " = rns.convert_basis " + a.name + " {targetBasis = " + u.str() + "} : " + t.str() + " -> " + u.str());
      g.ret(r);
      c.event("basis conversions");
    }
  }
  decide(g, passes(c), true);
}

// Polynomials.
struct Ring {
  Ty coeff;  // scalar type
  int n = 0;
  std::vector<int> ideal;  // coefficients of the modulus, monic, n+1 of them
  std::string str(const char *form = nullptr) const {
    std::string p;
    for (int k = 0; k <= n; k++) if (ideal[k]) {
      if (!p.empty()) p += " + ";
      if (k == 0) p += std::to_string(ideal[0]);
      else p += (ideal[k] == 1 ? "" : std::to_string(ideal[k]) + " ") + (k == 1 ? "x" : "x**" + std::to_string(k));
    }
    return "!polynomial.polynomial<ring = <coefficientType = " + coeff.elt() + ", polynomialModulus = <" + p + ">>" + (form ? std::string(", form = ") + form : "") + ">";
  }
  size_t L() const { return coeff.q.size(); }
};
static V polyMul(const Ring &r, const V &a, const V &b) {
  size_t L = r.L();
  V out(r.n * L, big(0));
  for (size_t l = 0; l < L; l++) {
    Big m = r.coeff.q[l];
    V p(2 * r.n, big(0));
    for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) p[i + j] = addm(p[i + j], mulm(a[i * L + l], b[j * L + l], m), m);
    for (int d = 2 * r.n - 1; d >= r.n; d--) {
      Big lead = p[d];
      for (int k = 0; k <= r.n; k++) if (r.ideal[k]) {
        Big co = Big(W, (uint64_t)(int64_t)r.ideal[k], true).srem(m);
        if (co.isNegative()) co += m;
        p[d - r.n + k] = subm(p[d - r.n + k], mulm(lead, co, m), m);
      }
    }
    for (int i = 0; i < r.n; i++) out[i * L + l] = p[i];
  }
  return out;
}
struct P { std::string name; V v; };
static P fromTensor(Gen &g, const Ring &r, int len) {
  Ty t = r.coeff; t.n = len;
  X a = g.arg(t);
  P p{g.fresh(), a.v};
  p.v.resize(r.n * r.L(), big(0));
  g.line(p.name + " = polynomial.from_tensor " + a.name + " : " + t.str() + " -> " + r.str());
  return p;
}
static void toTensor(Gen &g, const Ring &r, const P &p) {
  Ty t = r.coeff; t.n = r.n;
  X x{g.fresh(), t, p.v};
  g.line(x.name + " = polynomial.to_tensor " + p.name + " : " + r.str() + " -> " + t.str());
  g.ret(x);
}
static P pbin(Gen &g, const Ring &r, const P &a, const P &b, int op) {
  static const char *nm[] = {"add", "sub", "mul"};
  P p{g.fresh(), {}};
  g.line(p.name + " = polynomial." + nm[op] + " " + a.name + ", " + b.name + " : " + r.str());
  if (op == 2) { p.v = polyMul(r, a.v, b.v); bool z = true; for (auto &x : p.v) z &= x.isZero(); g.zero |= z; }
  else for (size_t k = 0; k < a.v.size(); k++) { auto &m = r.coeff.mod(k); p.v.push_back(op ? subm(a.v[k], b.v[k], m) : addm(a.v[k], b.v[k], m)); }
  return p;
}
static P pconst(Gen &g, const Ring &r) {
  P p{g.fresh(), V(r.n * r.L(), big(0))};
  std::string s;
  for (int k = 0; k < r.n; k++) if (g.c.rng.chance(0.50) || k == r.n - 1) {
    int co = g.c.rng.in(1, 60);
    if (g.c.rng.chance(0.30)) co = -co;
    s += (s.empty() ? "" : " + ") + std::to_string(co) + (k == 0 ? "" : k == 1 ? " x" : " x**" + std::to_string(k));
    for (size_t l = 0; l < r.L(); l++) { Big x = Big(W, (uint64_t)(int64_t)co, true).srem(r.coeff.q[l]); if (x.isNegative()) x += r.coeff.q[l]; p.v[k * r.L() + l] = x; }
  }
  g.line(p.name + " = polynomial.constant int<" + s + "> : " + r.str());
  return p;
}
static P pscalar(Gen &g, const Ring &r, const P &a) {
  X s = g.arg(r.coeff);
  P p{g.fresh(), {}};
  g.line(p.name + " = polynomial.mul_scalar " + a.name + ", " + s.name + " : " + r.str() + ", " + r.coeff.elt());
  for (size_t k = 0; k < a.v.size(); k++) p.v.push_back(mulm(a.v[k], s.v[k % r.L()], r.coeff.mod(k)));
  return p;
}
static P pmonomial(Gen &g, const Ring &r) {
  X s = g.arg(r.coeff);
  int d = g.c.rng.in(0, r.n - 1);
  std::string di = g.rawArg("index", Val::index(d));
  P p{g.fresh(), V(r.n * r.L(), big(0))};
  g.line(p.name + " = polynomial.monomial " + s.name + ", " + di + " : (" + r.coeff.elt() + ", index) -> " + r.str());
  for (size_t l = 0; l < r.L(); l++) p.v[d * r.L() + l] = s.v[l];
  return p;
}
static void polyOps(Gen &g, const Ring &r, std::vector<P> &pool, bool coeffOps, bool muls) {
  auto &c = g.c;
  auto pick = [&]() -> P { return pool[c.rng.in(0, pool.size() - 1)]; };
  int ops = c.rng.in(1, 5);
  for (int k = 0; k < ops; k++) {
    int w = c.rng.in(0, 9);
    if (w < 3) pool.push_back(pbin(g, r, pick(), pick(), c.rng.in(0, 1)));
    else if (w < 6 && muls) { pool.push_back(pbin(g, r, pick(), pick(), 2)); c.event("polynomial products"); }
    else if (w == 6 && !r.coeff.rns) pool.push_back(pscalar(g, r, pick()));
    else if (w == 7 && coeffOps) pool.push_back(pmonomial(g, r));
    else if (w == 8) pool.push_back(pconst(g, r));
    else if (w == 9 && coeffOps && r.ideal[0] == -1 && std::count(r.ideal.begin(), r.ideal.end(), 0) == r.n - 1) {
      P a = pick();
      int d = c.rng.in(0, r.n - 1);
      std::string di = g.rawArg("index", Val::index(d));
      P p{g.fresh(), V(a.v.size(), big(0))};
      g.line(p.name + " = polynomial.monic_monomial_mul " + a.name + ", " + di + " : (" + r.str() + ", index) -> " + r.str());
      for (int i = 0; i < r.n; i++) for (size_t l = 0; l < r.L(); l++) p.v[((i + d) % r.n) * r.L() + l] = a.v[i * r.L() + l];
      pool.push_back(p);
      c.event("rotations by a monomial");
    }
  }
}
MON_FAMILY(O03_polynomial, 120, 2000) {
  Gen g(c);
  Ring r;
  if (c.rng.chance(0.30)) r.coeff = basis(c, c.rng.in(1, 3), 0);
  else { r.coeff.w = c.rng.chance(0.50) ? 32 : c.rng.chance(0.50) ? 64 : 16; r.coeff.q = {c.rng.chance(0.50) ? big(primeNear(c, 3, 30000)) : modulus(c, r.coeff.w)}; }
  r.n = c.rng.in(2, 8);
  r.ideal.assign(r.n + 1, 0);
  r.ideal[r.n] = 1;
  switch (c.rng.in(0, 3)) {
    case 0: r.ideal[0] = -1; break;
    case 1: r.ideal[0] = 1; break;
    case 2: r.ideal[0] = c.rng.in(1, 5); break;
    default: for (int k = 0; k < r.n; k++) if (c.rng.chance(0.40)) r.ideal[k] = c.rng.in(0, 3); if (!r.ideal[0]) r.ideal[0] = 1;
  }
  std::vector<P> pool;
  pool.push_back(fromTensor(g, r, r.n));
  if (c.rng.chance(0.60)) pool.push_back(fromTensor(g, r, r.coeff.rns ? r.n : c.rng.in(1, r.n)));
  polyOps(g, r, pool, true, true);
  toTensor(g, r, pool.back());
  if (c.rng.chance(0.35)) {
    P a = pool[c.rng.in(0, pool.size() - 1)];
    int d = -1;
    size_t L = r.L();
    for (int k = 0; k < r.n; k++) for (size_t l = 0; l < L; l++) if (!a.v[k * L + l].isZero()) d = k;
    if (d >= 0) {
      std::string x = g.fresh(), y = g.fresh();
      g.line(x + ", " + y + " = polynomial.leading_term " + a.name + " : " + r.str() + " -> (index, " + r.coeff.elt() + ")");
      g.ret(x, "index", {big(d)});
      g.ret(y, r.coeff.elt(), V(a.v.begin() + d * L, a.v.begin() + (d + 1) * L));
      c.event("leading terms");
    }
  }
  if (r.coeff.rns && r.L() > 1 && c.rng.chance(0.50)) {
    P a = pool[c.rng.in(0, pool.size() - 1)];
    int s = c.rng.in(0, r.L() - 1), len = c.rng.in(1, r.L() - s);
    Ring u = r; u.coeff.q.assign(r.coeff.q.begin() + s, r.coeff.q.begin() + s + len);
    P p{g.fresh(), {}};
    g.line(p.name + " = polynomial.extract_slice " + a.name + " {start = " + std::to_string(s) + " : index, size = " + std::to_string(len) + " : index} : " + r.str() + " -> " + u.str());
    for (int k = 0; k < r.n; k++) for (int j = 0; j < len; j++) p.v.push_back(a.v[k * r.L() + s + j]);
    toTensor(g, u, p);
    c.event("slices");
  }
  decide(g, passes(c), true);
}
MON_FAMILY(O03_ntt, 100, 1500) {
  Gen g(c);
  Ring r;
  r.n = 1 << c.rng.in(1, 4);
  auto friendly = [&] { for (;;) { uint64_t p = c.rng.in(1, 60000 / (2 * r.n)) * 2 * r.n + 1; if (prime(p)) return big(p); } };
  r.coeff.w = c.rng.chance(0.50) ? 32 : 64;
  if (c.rng.chance(0.40)) { r.coeff.rns = true; int L = c.rng.in(1, 3); while ((int)r.coeff.q.size() < L) { Big p = friendly(); bool d = false; for (auto &x : r.coeff.q) d |= x == p; if (!d) r.coeff.q.push_back(p); } }
  else r.coeff.q = {friendly()};
  r.ideal.assign(r.n + 1, 0);
  r.ideal[r.n] = 1; r.ideal[0] = 1;
  std::vector<P> pool;
  pool.push_back(fromTensor(g, r, r.n));
  if (c.rng.chance(0.60)) pool.push_back(fromTensor(g, r, r.n));
  bool explicitNtt = c.rng.chance(0.50);
  if (explicitNtt) { // transform, multiply point by point, transform back
    auto ev = [&](const P &a) { std::string n = g.fresh(); g.line(n + " = polynomial.ntt " + a.name + " : " + r.str()); return n; };
    P a = pool[0], b = pool.back();
    std::string x = ev(a), y = ev(b), z = g.fresh(), o = g.fresh();
    int op = c.rng.in(0, 3);
    static const char *nm[] = {"add", "sub", "mul", "mul"};
    std::string et = r.str("eval");
    g.line(z + " = polynomial." + nm[op] + " " + x + ", " + y + " : " + et);
    V v;
    if (op >= 2) v = polyMul(r, a.v, b.v);
    else for (size_t k = 0; k < a.v.size(); k++) v.push_back(op ? subm(a.v[k], b.v[k], r.coeff.mod(k)) : addm(a.v[k], b.v[k], r.coeff.mod(k)));
    if (op >= 2 && c.rng.chance(0.50)) { std::string z2 = g.fresh(); g.line(z2 + " = polynomial.mul " + z + ", " + x + " : " + et); z = z2; v = polyMul(r, v, a.v); }
    g.line(o + " = polynomial.intt " + z + " : " + et);
    pool.push_back(P{o, v});
    c.event("explicit transforms");
  }
  polyOps(g, r, pool, c.rng.chance(0.30), true);
  toTensor(g, r, pool.back());
  decide(g, passes(c, true, !explicitNtt && g.func().find("polynomial.constant") == std::string::npos), true);  // constants in evaluation form: O03_known
}
// Recorded defects: each program with what it should give.
struct Known { const char *key, *pipe, *text; std::vector<uint64_t> in, want; int bits; };
static const Known kKnown[] = {
    {"centered-lift-of-largest-modulus", "mod-arith-to-arith",
     "func.func @f(%a0: !mod_arith.int<2147483647 : i32>) -> i32 {\n  %0 = mod_arith.lift centered %a0 : !mod_arith.int<2147483647 : i32> -> i32\n  return %0 : i32\n}\n", {5}, {5}, 32},
    {"zero-product", "polynomial-to-mod-arith,mod-arith-to-arith",
     "!P = !polynomial.polynomial<ring = <coefficientType = !mod_arith.int<17 : i32>, polynomialModulus = <1 + x + x**3>>>\nfunc.func @f(%a0: tensor<3x!mod_arith.int<17 : i32>>, %a1: tensor<3x!mod_arith.int<17 : i32>>) -> tensor<3x!mod_arith.int<17 : i32>> {\n  %0 = polynomial.from_tensor %a0 : tensor<3x!mod_arith.int<17 : i32>> -> !P\n  %1 = polynomial.from_tensor %a1 : tensor<3x!mod_arith.int<17 : i32>> -> !P\n  %2 = polynomial.mul %0, %1 : !P\n  %3 = polynomial.to_tensor %2 : !P -> tensor<3x!mod_arith.int<17 : i32>>\n  return %3 : tensor<3x!mod_arith.int<17 : i32>>\n}\n", {0, 0, 0, 1, 2, 3}, {0, 0, 0}, 32},
    {"constant-in-evaluation-form", "func.func(convert-polynomial-mul-to-ntt),attach-ntt-roots,polynomial-to-mod-arith,mod-arith-to-arith",
     "!P = !polynomial.polynomial<ring = <coefficientType = !mod_arith.int<17 : i32>, polynomialModulus = <1 + x**4>>>\nfunc.func @f(%a0: tensor<4x!mod_arith.int<17 : i32>>) -> tensor<4x!mod_arith.int<17 : i32>> {\n  %0 = polynomial.from_tensor %a0 : tensor<4x!mod_arith.int<17 : i32>> -> !P\n  %1 = polynomial.constant int<1 + x> : !P\n  %2 = polynomial.mul %0, %1 : !P\n  %3 = polynomial.to_tensor %2 : !P -> tensor<4x!mod_arith.int<17 : i32>>\n  return %3 : tensor<4x!mod_arith.int<17 : i32>>\n}\n", {1, 2, 3, 4}, {14, 3, 5, 7}, 32},
};
MON_FAMILY(O03_known, 3, 3) {
  auto &k = kKnown[c.index % 3];
  c.describe(std::string(k.pipe) + "\n" + k.text);
  auto r = heiropt::compile(k.text, {k.pipe}, 60);
  if (r.st != heiropt::Compiled::Ok) { c.fail(k.key, "does not compile: " + r.msgs.substr(0, 300)); return; }
  auto m = parseSourceString<ModuleOp>(r.ir.back(), ParserConfig(&heiropt::ctx()));
  std::vector<Val> in;
  auto pack = [&](size_t from, size_t n) { interp::Elems e; for (size_t j = 0; j < n; j++) e.push_back(Val::integer(llvm::APInt(k.bits, k.in[from + j]))); return Val::tensor({(int64_t)n}, e); };
  if (k.in.size() == 1) in.push_back(Val::integer(llvm::APInt(k.bits, k.in[0])));
  else for (size_t j = 0; j < k.in.size(); j += k.want.size()) in.push_back(pack(j, k.want.size()));
  auto o = interp::run(*m, "f", in, [](interp::Interp &) {}, false, 1000000);
  if (o.st != interp::Outcome::Ok) { c.fail(k.key, o.why); return; }
  auto &got = o.results[0];
  interp::Elems e = got.k == Val::Tensor ? *got.el : interp::Elems{got};
  bool same = e.size() == k.want.size();
  for (size_t j = 0; same && j < e.size(); j++) same = e[j].k == Val::Int && e[j].i == k.want[j];
  c.check(same, k.key, [&] { return mon::S() << "gives " << interp::show(got) << "\n" << k.pipe << "\n" << k.text; });
}
int main(int argc, char **argv) { heiropt::ctx(); return mon::monMain(argc, argv); }
