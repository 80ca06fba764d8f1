// L04 shift networks.
#include "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.h"
#include "lib/Dialect/TensorExt/Transforms/RotationGroupKernel.h"
#include "lib/Dialect/TensorExt/Transforms/ShiftScheme.h"
#include "lib/Kernel/EvalVisitor.h"
#include "mon.h"
using namespace mlir::heir;
using namespace mlir::heir::tensor_ext;
using llvm::SmallVector;
using mon::S;
typedef std::vector<int64_t> V;
typedef std::pair<int64_t, int64_t> Slot;  // ct, slot

namespace {
struct Prob {
  int64_t cts, slots;
  std::vector<std::pair<Slot, Slot>> pairs;  // source, target; a target may repeat
  std::string kind;
  int64_t n() const { return cts * slots; }
  std::string s() const {
    S o;
    o << kind << " " << cts << "x" << slots << ":";
    for (auto &p : pairs) o << " (" << p.first.first << "," << p.first.second << ")->(" << p.second.first << "," << p.second.second << ")";
    return o;
  }
  Mapping mapping() const {
    Mapping m(slots, cts);
    for (auto &p : pairs) m.add(CtSlot(p.first.first, p.first.second), CtSlot(p.second.first, p.second.second));
    return m;
  }
};
Prob problem(mon::Case &c, int64_t cap) {
  Prob p;
  do { p.slots = int64_t(1) << c.rng.in(0, 6); p.cts = c.rng.in(1, 6); } while (p.n() > cap || p.n() < 2);
  auto at = [&](int64_t v) { return Slot{v / p.slots, v % p.slots}; };
  int64_t n = p.n();
  std::vector<int64_t> perm(n);
  for (int64_t i = 0; i < n; ++i) perm[i] = i;
  switch (c.rng.in(0, 6)) {
    case 0: p.kind = "permutation"; c.rng.shuffle(perm); for (int64_t i = 0; i < n; ++i) p.pairs.push_back({at(perm[i]), at(i)}); break;
    case 1: {
      p.kind = "partial";
      c.rng.shuffle(perm);
      auto src = perm;
      c.rng.shuffle(src);
      int64_t k = c.rng.in(1, n);
      for (int64_t i = 0; i < k; ++i) p.pairs.push_back({at(src[i]), at(perm[i])});
      break;
    }
    case 2: {
      p.kind = "one to many";
      std::vector<int64_t> pool;
      for (int i = 0, k = c.rng.in(1, 4); i < k; ++i) pool.push_back(c.rng.in(0, n - 1));
      c.rng.shuffle(perm);
      int64_t k = c.rng.in(1, n);
      for (int64_t i = 0; i < k; ++i) p.pairs.push_back({at(c.rng.pick(pool)), at(perm[i])});
      break;
    }
    case 3: {
      p.kind = "rotation";
      int64_t r = c.rng.in(0, n - 1);
      for (int64_t i = 0; i < n; ++i) if (i == 0 || c.rng.chance(0.9)) p.pairs.push_back({at((i + r) % n), at(i)});
      break;
    }
    case 4: {
      p.kind = "strided";
      int64_t a = c.rng.in(0, n - 1) | 1, b = c.rng.in(0, n - 1), k = c.rng.in(1, n);
      for (int64_t i = 0; i < k; ++i) p.pairs.push_back({at(i), at((a * i + b) % n)});
      break;
    }
    case 5: {
      p.kind = "one slot";
      p.pairs.push_back({at(c.rng.in(0, n - 1)), at(c.rng.in(0, n - 1))});
      break;
    }
    default: {
      p.kind = "whole ciphertexts";
      for (int64_t i = 0; i < p.cts; ++i) { int64_t from = c.rng.in(0, p.cts - 1); for (int64_t s = 0; s < p.slots; ++s) p.pairs.push_back({{from, s}, {i, s}}); }
    }
  }
  c.rng.shuffle(p.pairs);
  return p;
}
V order(mon::Case &c, int64_t n, int &how) {
  V o;
  for (int64_t b = 1; b < n; b *= 2) o.push_back(b);
  how = c.rng.in(0, 2);
  if (how == 0) return {};
  if (how == 1) c.rng.shuffle(o);
  else std::reverse(o.begin(), o.end());
  return o;
}
std::map<Slot, Slot> targets(const Mapping &m) {
  std::map<Slot, Slot> t;
  for (auto [tgt, src] : m.getTargetToSource()) t[{tgt.ct, tgt.slot}] = {src.ct, src.slot};
  return t;
}
// The mapping keeps one of the requested sources of every target.
void checkMapping(mon::Case &c, const Prob &p, const Mapping &m) {
  std::map<Slot, std::set<Slot>> want;
  for (auto &q : p.pairs) want[q.second].insert(q.first);
  auto t = targets(m);
  c.check(t.size() == want.size() && m.size() == want.size(), "mapping-size", [&] { return S() << m.size() << " targets, expected " << want.size(); });
  for (auto &[tgt, src] : t) c.check(want.count(tgt) && want[tgt].count(src), "mapping-entry", [&] { return S() << "target (" << tgt.first << "," << tgt.second << ") reads (" << src.first << "," << src.second << ")"; });
}
void checkRounds(mon::Case &c, const Prob &p, const Mapping &m, const ShiftStrategy &st, const V &ord) {
  V o = ord;
  if (o.empty()) for (int64_t b = 1; b < p.n(); b *= 2) o.push_back(b);
  auto rounds = st.getRounds();
  if (!c.check(rounds.size() == o.size() + 1, "round-count", [&] { return S() << rounds.size() << " rounds for " << o.size() << " shifts"; })) return;
  std::map<std::pair<Slot, int64_t>, Slot> pos;
  std::map<Slot, Slot> tg = targets(m);
  for (auto &[t, s] : tg) {
    int64_t sh = ((s.first - t.first) * p.slots + s.second - t.second) % p.n();
    if (sh < 0) sh += p.n();
    int64_t got = st.getVirtualShift(CtSlot(s.first, s.second), CtSlot(t.first, t.second));
    c.check(got == sh, "virtual-shift", [&] { return S() << "shift " << got << " expected " << sh; });
    pos[{s, sh}] = s;
  }
  for (size_t r = 0; r < rounds.size(); ++r) {
    if (r) {
      c.check(rounds[r].rotationAmount == o[r - 1], "round-amount", [&] { return S() << "round " << r << " shifts by " << rounds[r].rotationAmount << " instead of " << o[r - 1]; });
      for (auto &[k, v] : pos)
        if (k.second & o[r - 1]) { int64_t x = (v.first * p.slots + v.second - o[r - 1] + p.n()) % p.n(); v = {x / p.slots, x % p.slots}; }
    }
    c.check(rounds[r].positions.size() == pos.size(), "round-size", [&] { return S() << rounds[r].positions.size() << " positions in round " << r << ", expected " << pos.size(); });
    for (auto &[k, v] : pos) {
      auto it = rounds[r].positions.find(SourceShift{CtSlot(k.first.first, k.first.second), k.second});
      c.check(it != rounds[r].positions.end() && it->second == CtSlot(v.first, v.second), "round-position", [&] { return S() << "round " << r << " source (" << k.first.first << "," << k.first.second << ") shift " << k.second << " is not at (" << v.first << "," << v.second << ")"; });
    }
  }
  for (auto &[t, s] : tg) {
    int64_t sh = st.getVirtualShift(CtSlot(s.first, s.second), CtSlot(t.first, t.second));
    auto it = rounds.back().positions.find(SourceShift{CtSlot(s.first, s.second), sh});
    c.check(it != rounds.back().positions.end() && it->second == CtSlot(t.first, t.second), "not-delivered", [&] { return S() << "(" << s.first << "," << s.second << ") does not reach (" << t.first << "," << t.second << ")"; });
  }
  c.event("rounds", rounds.size());
}
void checkScheme(mon::Case &c, const Prob &p, const Mapping &m, ShiftScheme &sc) {
  std::map<Slot, int> group;
  int g = 0;
  for (auto &rg : sc.rotationGroups) {
    for (auto &s : rg) c.check(group.insert({{s.ct, s.slot}, g}).second, "group-overlap", [&] { return S() << "(" << s.ct << "," << s.slot << ") is in two groups"; });
    ++g;
  }
  std::set<Slot> src;
  for (auto &[t, s] : targets(m)) src.insert(s);
  c.check(group.size() == src.size(), "group-partition", [&] { return S() << group.size() << " sources in groups, expected " << src.size(); });
  for (auto &s : src) c.check(group.count(s), "group-missing", [&] { return S() << "(" << s.first << "," << s.second << ") is in no group"; });
  c.event("groups", g);
  size_t r = 0;
  for (auto &round : sc.strategy.getRounds()) {
    std::map<std::pair<int, Slot>, Slot> used;
    for (auto &[k, v] : round.positions) {
      auto it = group.find({k.source.ct, k.source.slot});
      if (it == group.end()) continue;
      auto ins = used.insert({{it->second, {v.ct, v.slot}}, {k.source.ct, k.source.slot}});
      c.check(ins.second || ins.first->second == Slot(k.source.ct, k.source.slot), "collision", [&] { return S() << "in round " << r << " two values of group " << it->second << " meet at (" << v.ct << "," << v.slot << ")"; });
    }
    ++r;
  }
}
// Runs the network on random values.
void checkNetwork(mon::Case &c, const Prob &p, const Mapping &m, ShiftScheme &sc) {
  bool real = c.rng.chance(0.3);
  std::vector<std::vector<int>> in(p.cts, std::vector<int>(p.slots));
  SmallVector<kernel::LiteralValue> leaves;
  for (auto &r : in) {
    for (auto &x : r) x = c.rng.in(1, 1 << 20);
    leaves.push_back(kernel::LiteralValue(r));
  }
  auto dag = implementShiftNetwork(leaves, m, sc, p.slots, real ? kernel::DagType::floatTy(64) : kernel::DagType::integer(32));
  auto res = kernel::multiEvalKernel(dag);
  if (!c.check((int64_t)res.size() == p.cts, "result-size", [&] { return S() << res.size() << " ciphertexts"; })) return;
  std::vector<std::vector<int>> want(p.cts, std::vector<int>(p.slots, 0));
  for (auto &[t, s] : targets(m)) want[t.first][t.second] = in[s.first][s.second];
  std::set<int64_t> tgtCts;
  for (auto &[t, s] : targets(m)) tgtCts.insert(t.first);
  for (int64_t i = 0; i < p.cts; ++i) {
    std::vector<double> got;
    auto v = res[i][0].get();
    if (auto *a = std::get_if<std::vector<int>>(&v)) got.assign(a->begin(), a->end());
    if (!c.check((int64_t)got.size() == p.slots, "result-type", [&] { return S() << "ciphertext " << i << " has " << got.size() << " slots"; })) return;
    for (int64_t s = 0; s < p.slots; ++s)
      c.check(got[s] == want[i][s], "network-value", [&] { return S() << "(" << i << "," << s << ") holds " << got[s] << ", expected " << want[i][s] << "; inputs " << in[0]; });
  }
  c.event("values_moved", targets(m).size());
}
MON_FAMILY(L04_strategy, 1200, 20000) {
  Prob p = problem(c, 256);
  int how;
  V o = order(c, p.n(), how);
  c.describe(S() << p.s() << " order " << o);
  Mapping m = p.mapping();
  checkMapping(c, p, m);
  ShiftStrategy st(p.slots, p.cts, SmallVector<int64_t>(o.begin(), o.end()));
  st.evaluate(m);
  checkRounds(c, p, m, st, o);
}
MON_FAMILY(L04_network, 1200, 15000) {
  Prob p = problem(c, c.thorough ? 192 : 96);
  int how;
  V o = order(c, p.n(), how);
  c.describe(S() << p.s() << " order " << o);
  Mapping m = p.mapping();
  VosVosErkinShiftNetworks net;
  ShiftScheme sc = net.findShiftScheme(m, SmallVector<int64_t>(o.begin(), o.end()));
  checkRounds(c, p, m, sc.strategy, o);
  checkScheme(c, p, m, sc);
  checkNetwork(c, p, m, sc);
}
// One planner asked for a history of mappings; answers must not depend on what was asked before.
MON_FAMILY(L04_history, 150, 2000) {
  std::vector<Prob> ps;
  std::vector<std::pair<int, V>> asks;
  Prob first = problem(c, 32);
  ps.push_back(first);
  for (int i = 0; i < 4; ++i) {
    Prob q = c.rng.pick(ps);
    if (c.rng.chance(0.5)) { auto &x = q.pairs[c.rng.in(0, q.pairs.size() - 1)]; x.first = {c.rng.in(0, q.cts - 1), c.rng.in(0, q.slots - 1)}; q.kind = "edited"; }
    else q = problem(c, 32);
    ps.push_back(q);
  }
  S d;
  for (int i = 0; i < 10; ++i) { int k = c.rng.in(0, ps.size() - 1), how; V o = order(c, ps[k].n(), how); asks.push_back({k, o}); d << "[" << ps[k].s() << " order " << o << "] "; }
  c.describe(d);
  VosVosErkinShiftNetworks net;
  for (auto &[k, o] : asks) {
    Mapping m = ps[k].mapping();
    bool best = c.rng.chance(0.3);
    ShiftScheme sc = best ? net.findBestShiftScheme(m, c.rng.in(0, 1 << 20), 5) : net.findShiftScheme(m, SmallVector<int64_t>(o.begin(), o.end()));
    if (!best) checkRounds(c, ps[k], m, sc.strategy, o);
    checkScheme(c, ps[k], m, sc);
    checkNetwork(c, ps[k], m, sc);
  }
}
MON_FAMILY(L04_order, 95, 95) {
  int64_t n = c.index < 40 ? (int64_t)c.index + 1 : (int64_t(1) << (c.index - 34)) + c.rng.in(-1, 1);
  c.describe(S() << "default order of " << n);
  V want;
  for (int64_t b = 1; b < n; b *= 2) want.push_back(b);
  auto got = defaultShiftOrder(n);
  c.check(V(got.begin(), got.end()) == want, "default-order", [&] { return S() << V(got.begin(), got.end()) << " expected " << want; });
}
}  // namespace
MON_MAIN()
