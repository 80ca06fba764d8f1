// K01-K05: kernels and DAG evaluation against definitions on plain vectors.
#include "dagref.h"
#include "lib/Analysis/RotationAnalysis/RotationEvalVisitor.h"
#include "lib/Kernel/EvalVisitor.h"
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Kernel/RotationCountVisitor.h"
#include "lib/Utils/RotationUtils.h"
using namespace ref;
using mon::S;
using mlir::heir::KernelName;

namespace {
using VI = std::vector<int>;
using MI = std::vector<VI>;
VI rnd(mon::Case &c, int n, int lo = -100, int hi = 100) { VI v(n); for (int &x : v) x = c.rng.in(lo, hi); return v; }
MI rndm(mon::Case &c, int r, int k, int lo = -100, int hi = 100) { MI m(r); for (auto &x : m) x = rnd(c, k, lo, hi); return m; }
std::string show(const MI &m) { S o; for (auto &r : m) o << r; return o; }
I p2(I n) { I p = 1; while (p < n) p *= 2; return p; }

// Observes one execution of a kernel: reference interpreter, EvalVisitor, rotation analysis.
Val observe(mon::Case &c, const Ptr<L> &dag, const std::string &key, Interp *keep = nullptr, bool rot = true) {
  Interp in0;
  Interp &in = keep ? *keep : in0;
  Val v;
  try { v = in.one(dag); }
  catch (Bad &b) { c.fail(key + ":ill-formed", "the DAG cannot be evaluated: " + b.what); return v; }
  c.event("dag-node-evaluations", in.steps);
  auto r = evalKernel(dag);
  c.check(r.size() == 1 && fromLiteral(r[0]) == v, key + ":EvalVisitor", [&] { return S() << "EvalVisitor gives " << (r.empty() ? "nothing" : fromLiteral(r[0]).str()) << " but the DAG means " << v.str(); });
  return v;
}
void rotations(mon::Case &c, const Ptr<L> &dag, const std::string &key) {
  Interp in;
  try { in.one(dag); } catch (Bad &b) { c.fail(key + ":ill-formed", b.what); return; }
  auto got = mlir::heir::evalRotations(dag);
  std::set<I> g(got.begin(), got.end()), w = in.rotations;
  g.erase(0); w.erase(0);
  c.event("rotations", w.size());
  c.check(g == w, key + ":evalRotations", [&] { return S() << "reported " << Row(g.begin(), g.end()) << " performed " << Row(w.begin(), w.end()); });
}
void expect(mon::Case &c, const Val &got, const Row &want, const std::string &key, I prefix = -1) {
  bool ok = got.rank == 1 && (prefix < 0 ? got.v == want : got.v.size() >= (size_t)prefix && std::equal(got.v.begin(), got.v.begin() + prefix, want.begin()));
  c.check(ok, key, [&] { return S() << "kernel gives " << got.str() << " expected " << want << (prefix < 0 ? "" : " (valid prefix ") << prefix; });
}
int countSecret(const Ptr<SymbolicValue> &d) {  // distinct rotation nodes with a secret operand
  std::map<const void *, bool> sec;
  int n = 0;
  std::function<bool(const Ptr<SymbolicValue> &)> go = [&](const Ptr<SymbolicValue> &x) -> bool {
    auto it = sec.find(x.get());
    if (it != sec.end()) return it->second;
    bool s = false;
    for (auto &k : Interp::kids<SymbolicValue>(x)) s = go(k) || s;
    if (auto *l = std::get_if<LeafNode<SymbolicValue>>(&x->node_variant)) s = l->value.isSecret();
    if (s && std::holds_alternative<LeftRotateNode<SymbolicValue>>(x->node_variant)) ++n;
    return sec[x.get()] = s;
  };
  go(d);
  return n;
}

struct HS { int rows, cols; I slots; MI M; VI v; MI diag; VI vec; std::map<int, bool> zero; Row want; };
HS genHS(mon::Case &c) {
  HS h;
  h.rows = c.rng.in(1, c.thorough ? 40 : 20); h.cols = c.rng.in(1, c.thorough ? 40 : 20);
  I pr = p2(h.rows), pc = p2(h.cols);
  h.slots = std::max(pr, pc) << c.rng.in(0, 2);
  h.M = rndm(c, h.rows, h.cols);
  h.v = rnd(c, h.cols);
  I nd = std::min(pr, pc);
  double zp = c.rng.pick({0.0, 0.0, 0.3, 0.7, 1.0});
  std::vector<bool> z(nd);
  for (I d = 0; d < nd; ++d) z[d] = c.rng.chance(zp);
  h.diag.assign(nd, VI(h.slots, 0));
  h.vec.assign(h.slots, 0);
  for (I s = 0; s < h.slots; ++s) if (s % pc < h.cols) h.vec[s] = h.v[s % pc];
  for (I d = 0; d < nd; ++d) {
    if (z[d] && c.rng.chance(0.85)) h.zero[d] = true;
    for (I s = 0; s < h.slots; ++s) {
      I r = s % pr, k = (s + d) % pc;
      if (r < h.rows && k < h.cols) { if (z[d]) h.M[r][k] = 0; h.diag[d][s] = h.M[r][k]; }
    }
  }
  for (int r = 0; r < h.rows; ++r) { I t = 0; for (int k = 0; k < h.cols; ++k) t += (I)h.M[r][k] * h.v[k]; h.want.push_back(t); }
  return h;
}
std::string str(const HS &h) { S o; o << "M=" << show(h.M) << " v=" << h.v << " slots=" << h.slots << " zero="; for (auto &z : h.zero) o << z.first << " "; return o; }
}  // namespace

MON_FAMILY(K01_haleviShoup, 1200, 30000) {
  HS h = genHS(c);
  bool unroll = c.rng.chance(0.5);
  c.describe(S() << (unroll ? "unrolled " : "rolled ") << str(h));
  auto dag = implementHaleviShoup(L(h.vec), L(h.diag), {h.rows, h.cols}, DagType::intTensor(32, {h.slots}), h.zero, unroll);
  Val v = observe(c, dag, unroll ? "haleviShoup" : "haleviShoupRolled");
  // all slots: row (slot mod padded rows), zero in padding rows
  Row want(h.slots);
  I pr = p2(h.rows), pc = p2(h.cols);
  for (I s = 0; s < h.slots; ++s) { I r = s % pr; want[s] = r < h.rows ? h.want[r] : 0; }
  (void)pc;
  expect(c, v, want, unroll ? "haleviShoup:value" : "haleviShoupRolled:value");
}

MON_FAMILY(K01_matvecDiagonal, 600, 12000) {
  int n = c.rng.in(1, 24), k = c.rng.in(1, 24);
  MI m = rndm(c, k, n); VI v = rnd(c, n);
  c.describe(S() << "diagonals=" << show(m) << " v=" << v);
  auto dag = implementMatvec(KernelName::MatvecDiagonal, L(m), L(v));
  Row want(n, 0);
  for (int d = 0; d < k; ++d) for (int s = 0; s < n; ++s) want[s] += (I)m[d][s] * v[(s + d) % n];
  expect(c, observe(c, dag, "matvec"), want, "matvec:value");
  if (c.rng.chance(0.3)) rotations(c, dag, "matvec");
}

// Two different forms of the same product agree, with or without declaring the zero diagonals.
MON_FAMILY(K01_zeroSkip, 500, 10000) {
  HS h = genHS(c);
  c.describe(str(h));
  DagType t = DagType::intTensor(32, {h.slots});
  Val a = observe(c, implementHaleviShoup(L(h.vec), L(h.diag), {h.rows, h.cols}, t, h.zero, true), "zeroSkip");
  for (bool unroll : {true, false}) for (bool skip : {true, false}) {
    Val b = observe(c, implementHaleviShoup(L(h.vec), L(h.diag), {h.rows, h.cols}, t, skip ? h.zero : std::map<int, bool>{}, unroll), "zeroSkip");
    c.check(a == b, S() << "zeroSkip:" << unroll << skip, [&] { return "forms differ: " + a.str() + " vs " + b.str(); });
  }
}

MON_FAMILY(K02_accumulate, 1200, 30000) {
  bool mul = c.rng.chance(0.35);
  I steps = c.rng.chance(0.5) ? 1 << c.rng.in(0, mul ? 4 : 6) : c.rng.in(1, mul ? 20 : 70), period = c.rng.in(1, 12), n = c.rng.in(1, 80);
  if (c.rng.chance(0.5)) n = steps * period * c.rng.in(1, 3);
  VI v = mul ? VI(n) : rnd(c, n);
  if (mul) for (int &x : v) x = c.rng.pick({1, 1, -1, 2, 1, 3, -2, 1, 0});
  std::string op = mul ? c.rng.pick({"arith.muli", "arith.mulf"}) : c.rng.pick({"arith.addi", "arith.addf"});
  bool unroll = c.rng.chance(0.5);
  c.describe(S() << op << (unroll ? " unrolled" : " rolled") << " period=" << period << " steps=" << steps << " v=" << v);
  Row want(n);
  for (I s = 0; s < n; ++s) {
    I r = mul ? 1 : 0;
    for (I k = 0; k < steps; ++k) r = mul ? r * v[(s + k * period) % n] : r + v[(s + k * period) % n];
    want[s] = r;
    if (std::llabs(r) > 1000000000) { c.skip(); return; }
  }
  auto dag = implementRotateAndReduce(L(v), std::optional<L>(), period, steps, DagType::intTensor(32, {n}), {}, op, unroll);
  expect(c, observe(c, dag, "accumulate"), want, S() << "accumulate:value:" << (unroll ? "unrolled" : "rolled"));
}

MON_FAMILY(K02_withPlaintexts, 1200, 30000) {
  I steps = c.rng.in(1, c.thorough ? 70 : 40), period = c.rng.in(1, 9), n = c.rng.in(1, 60);
  VI v = rnd(c, n); MI p = rndm(c, steps, n);
  std::map<int, bool> zero;
  double zp = c.rng.pick({0.0, 0.2, 0.8, 1.0});
  for (I k = 0; k < steps; ++k) if (c.rng.chance(zp)) { zero[k] = true; p[k].assign(n, 0); }
  bool unroll = c.rng.chance(0.5);
  std::string op = c.rng.pick({"arith.addi", "arith.addf"});
  c.describe(S() << (unroll ? "unrolled" : "rolled") << " period=" << period << " steps=" << steps << " n=" << n << " zero=" << zero.size() << " v=" << v << " p=" << show(p));
  Row want(n, 0);
  for (I s = 0; s < n; ++s) for (I k = 0; k < steps; ++k) want[s] += (I)p[k][s] * v[(s + k * period) % n];
  auto dag = implementRotateAndReduce(L(v), std::optional<L>(L(p)), period, steps, DagType::intTensor(32, {n}), zero, op, unroll);
  expect(c, observe(c, dag, "bsgs"), want, S() << "bsgs:value:" << (unroll ? "unrolled" : "rolled"));
}

MON_FAMILY(K02_dot, 300, 6000) {
  I n = 1 << c.rng.in(0, 7);
  VI a = rnd(c, n), b = rnd(c, n);
  c.describe(S() << "a=" << a << " b=" << b);
  I t = 0;
  for (I i = 0; i < n; ++i) t += a[i] * b[i];
  expect(c, observe(c, implementDot(L(a), L(b), n, DagType::intTensor(32, {n})), "dot"), Row(n, t), "dot:value");
}

MON_FAMILY(K02_broadcastedReduce, 800, 20000) {
  int ln = c.rng.in(0, 7), lb = c.rng.in(0, ln), lp = c.rng.in(0, ln - lb);
  I n = 1 << ln, steps = 1 << lb, period = 1 << lp;
  bool mul = steps * period == n && c.rng.chance(0.3), unroll = c.rng.chance(0.5);
  VI v = mul ? VI(n) : rnd(c, n);
  if (mul) for (int &x : v) x = c.rng.pick({1, 1, 1, -1, 1, 1, 1, 2});
  if (mul && steps > 32) { c.skip(); return; }
  c.describe(S() << (mul ? "mul" : "add") << (unroll ? " unrolled" : " rolled") << " period=" << period << " steps=" << steps << " v=" << v);
  Row want(n);
  I block = steps * period;
  for (I s = 0; s < n; ++s) {
    I r = mul ? 1 : 0;
    for (I k = 0; k < steps; ++k) { I x = v[s / block * block + k * period + s % period]; r = mul ? r * x : r + x; }
    want[s] = r;
  }
  std::optional<Ptr<L>> mask;
  if (block < n) {
    VI m(n, 0);
    for (I s = 0; s < n; ++s) if (s % block / period == steps - 1) m[s] = 1;
    mask = Node<L>::leaf(L(m));
  }
  auto dag = implementBroadcastedReduce<L>(Node<L>::leaf(L(v)), mask, period, steps, n, DagType::intTensor(32, {n}), mul ? "arith.muli" : "arith.addi", unroll);
  expect(c, observe(c, dag, "broadcastedReduce"), want, S() << "broadcastedReduce:value:" << (unroll ? "unrolled" : "rolled"));
}

MON_FAMILY(K02_ctct, 500, 10000) {  // sum_c rot(A, c*period) * rot(B, f(c))
  I n = c.rng.in(1, 40), steps = c.rng.in(1, 30), period = c.rng.in(1, 6), mulr = c.rng.in(-4, 7);
  VI a = rnd(c, n), b = rnd(c, n);
  c.describe(S() << "period=" << period << " steps=" << steps << " f=" << mulr << "c a=" << a << " b=" << b);
  auto f = [&](I gs, I j, I i, I per) { return mulr * (j * gs + i) - per * gs * j; };
  Row want(n, 0);
  for (I s = 0; s < n; ++s) for (I k = 0; k < steps; ++k) want[s] += (I)a[mod(s + k * period, n)] * b[mod(s + mulr * k, n)];
  auto dag = implementCiphertextCiphertextBabyStepGiantStep<L>(L(a), L(b), period, steps, DagType::intTensor(32, {n}), f);
  expect(c, observe(c, dag, "ctct"), want, "ctct:value");
}

namespace {
bool coprime(std::initializer_list<I> l) { for (auto i = l.begin(); i != l.end(); ++i) for (auto j = i + 1; j != l.end(); ++j) if (std::gcd(*i, *j) != 1) return false; return true; }
}

MON_FAMILY(K03_bicyclic, 900, 20000) {
  I m, n, p, B = c.thorough ? 24 : 14;
  do { m = c.rng.in(1, B); n = c.rng.in(1, B); p = c.rng.in(1, B); } while (!coprime({m, n, p}));
  MI A = rndm(c, m, n), Bm = rndm(c, n, p);
  bool cyc = c.rng.chance(0.4);
  I slots = cyc ? m * n * p * c.rng.in(1, 2) : p2(m * n + n * p + m * p) << c.rng.in(0, 1);
  c.describe(S() << "m,n,p=" << Row{m, n, p} << " slots=" << slots << " A=" << show(A) << " B=" << show(Bm));
  VI pa(slots), pb(slots);
  for (I k = 0; k < slots; ++k) { pa[k] = A[k % m][k % n]; pb[k] = Bm[k % n][k % p]; }
  Row want(slots, 0);
  for (I k = 0; k < slots; ++k) for (I j = 0; j < n; ++j) want[k] += (I)A[k % m][j] * Bm[j][k % p];
  Val v = observe(c, implementBicyclicMatmul(L(pa), L(pb), m, n, p, DagType::intTensor(32, {slots})), "bicyclic");
  expect(c, v, want, "bicyclic:value", cyc ? -1 : slots - (n * p - 1 + m * (n - 1)));
}

MON_FAMILY(K03_tricyclic, 500, 10000) {
  I h, m, n, p, B = c.thorough ? 13 : 9;
  do { h = c.rng.in(1, B); m = c.rng.in(1, B); n = c.rng.in(1, B); p = c.rng.in(1, B); } while (!coprime({h, m, n, p}));
  std::vector<MI> A, Bm;
  for (I i = 0; i < h; ++i) { A.push_back(rndm(c, m, n)); Bm.push_back(rndm(c, n, p)); }
  bool cyc = c.rng.chance(0.4);
  I slots = cyc ? h * m * n * p : p2(h * (m * n + n * p + m * p)) << c.rng.in(0, 1);
  S d; d << "h,m,n,p=" << Row{h, m, n, p} << " slots=" << slots;
  for (auto &x : A) d << " A=" << show(x);
  for (auto &x : Bm) d << " B=" << show(x);
  c.describe(d);
  VI pa(slots), pb(slots);
  for (I k = 0; k < slots; ++k) { pa[k] = A[k % h][k % m][k % n]; pb[k] = Bm[k % h][k % n][k % p]; }
  Row want(slots, 0);
  for (I k = 0; k < slots; ++k) for (I j = 0; j < n; ++j) want[k] += (I)A[k % h][k % m][j] * Bm[k % h][j][k % p];
  Val v = observe(c, implementTricyclicBatchMatmul(L(pa), L(pb), h, m, n, p, DagType::intTensor(32, {slots})), "tricyclic");
  expect(c, v, want, "tricyclic:value", cyc ? -1 : slots - (h * n * p - 1 + h * m * (n - 1)));
}

MON_FAMILY(K03_bicyclicDiagonal, 600, 12000) {  // one operand in clear, packed along its diagonals
  I m, n, p;
  do { m = c.rng.in(1, 12); n = c.rng.in(1, 12); p = c.rng.in(1, 12); } while (!coprime({m, n, p}));
  bool ctpt = c.rng.chance(0.5), unroll = c.rng.chance(0.5);
  MI A = rndm(c, m, n), Bm = rndm(c, n, p);
  I period = ctpt ? m : p, base = ctpt ? m * n : n * p;
  I slots = c.rng.chance(0.4) ? m * n * p : p2(base + m * p);
  c.describe(S() << (ctpt ? "ct*pt" : "pt*ct") << (unroll ? "" : " rolled") << " m,n,p=" << Row{m, n, p} << " slots=" << slots << " A=" << show(A) << " B=" << show(Bm));
  VI ct(slots);
  MI pt(n, VI(slots));
  for (I k = 0; k < slots; ++k) {
    ct[k] = ctpt ? A[k % m][k % n] : Bm[k % n][k % p];
    for (I d = 0; d < n; ++d) pt[d][k] = ctpt ? Bm[(k + d * period) % n][k % p] : A[k % m][(k + d * period) % n];
  }
  Row want(slots, 0);
  for (I k = 0; k < slots; ++k) for (I j = 0; j < n; ++j) want[k] += (I)A[k % m][j] * Bm[j][k % p];
  auto dag = implementRotateAndReduce(L(ct), std::optional<L>(L(pt)), period, n, DagType::intTensor(32, {slots}), {}, "arith.addi", unroll);
  expect(c, observe(c, dag, "bicyclicDiagonal"), want, "bicyclicDiagonal:value", slots % (m * n * p) ? slots - period * (n - 1) : -1);
}

// --------------------------------------------------------------------------- rotations
MON_FAMILY(K04_evalRotations, 1500, 30000) {
  int kind = c.rng.in(0, 6);
  bool unroll = c.rng.chance(0.6);
  S d; d << "kind=" << kind << " unroll=" << unroll;
  Ptr<L> dag;
  if (kind == 0) {
    HS h = genHS(c);
    d << " rows=" << h.rows << " cols=" << h.cols << " slots=" << h.slots << " zero=";
    for (auto &z : h.zero) d << z.first << " ";
    c.describe(d);
    dag = implementHaleviShoup(L(h.vec), L(h.diag), {h.rows, h.cols}, DagType::intTensor(32, {h.slots}), h.zero, unroll);
  } else if (kind <= 2) {
    bool pt = kind == 2;
    I steps = pt || c.rng.chance(0.5) ? c.rng.in(1, 40) : 1 << c.rng.in(0, 6), period = c.rng.in(1, 9), n = c.rng.in(1, 70);
    d << " period=" << period << " steps=" << steps << " n=" << n;
    c.describe(d);
    std::optional<L> p;
    if (pt) p = L(MI(steps, VI(n, 1)));
    dag = implementRotateAndReduce(L(VI(n, 1)), p, period, steps, DagType::intTensor(32, {n}), {}, "arith.addi", unroll);
  } else if (kind == 3) {
    int ln = c.rng.in(0, 7), lb = c.rng.in(0, ln), lp = c.rng.in(0, ln - lb);
    I n = 1 << ln;
    d << " broadcast " << Row{ln, lb, lp};
    c.describe(d);
    dag = implementBroadcastedReduce<L>(Node<L>::leaf(L(VI(n, 0))), std::nullopt, 1 << lp, 1 << lb, n, DagType::intTensor(32, {n}), "arith.addi", unroll);
  } else if (kind == 4) {
    I m, n, p;
    do { m = c.rng.in(1, 16); n = c.rng.in(1, 16); p = c.rng.in(1, 16); } while (!coprime({m, n, p}));
    I slots = p2(m * n + n * p + m * p);
    d << " mnp=" << Row{m, n, p};
    c.describe(d);
    dag = implementBicyclicMatmul(L(VI(slots, 1)), L(VI(slots, 1)), m, n, p, DagType::intTensor(32, {slots}));
  } else if (kind == 5) {
    I h, m, n, p;
    do { h = c.rng.in(1, 8); m = c.rng.in(1, 8); n = c.rng.in(1, 8); p = c.rng.in(1, 8); } while (!coprime({h, m, n, p}));
    I slots = p2(h * (m * n + n * p + m * p));
    d << " hmnp=" << Row{h, m, n, p};
    c.describe(d);
    dag = implementTricyclicBatchMatmul(L(VI(slots, 1)), L(VI(slots, 1)), h, m, n, p, DagType::intTensor(32, {slots}));
  } else {  // free-form: bulk rotations and repeated amounts, outside any interpreter
    I n = c.rng.in(1, 30);
    auto x = Node<L>::leaf(L(VI(n, 1)));
    std::set<I> want;
    d << " bulk n=" << n << " shifts";
    for (int r = c.rng.in(1, 4); r-- > 0;) {
      std::vector<Ptr<L>> sh;
      for (int q = c.rng.in(0, 5); q-- > 0;) { I k = c.rng.in(-60, 60); d << " " << k; want.insert(mod(k, n)); sh.push_back(Node<L>::constantScalar(k, DagType::index())); }
      I k = c.rng.in(-60, 60); d << " r" << k; want.insert(mod(k, n));
      x = Node<L>::add(Node<L>::leftRotate(x, k), Node<L>::leftRotateBulk(x, sh));
    }
    c.describe(d);
    auto got = mlir::heir::evalRotations(x);
    want.erase(0); got.erase(0);
    c.check(std::set<I>(got.begin(), got.end()) == want, "bulk:evalRotations", [&] { return S() << "reported " << VI(got.begin(), got.end()) << " performed " << Row(want.begin(), want.end()); });
    return;
  }
  rotations(c, dag, S() << "kind" << kind);
}

MON_FAMILY(K04_keySet, 1200, 24000) {  // rotateAndReduceRotationIndices == shifts applied to the ciphertext
  bool pt = c.rng.chance(0.7);
  I steps = pt || c.rng.chance(0.5) ? c.rng.in(1, c.rng.chance(0.1) ? 150 : 40) : 1 << c.rng.in(0, 9), period = c.rng.in(1, pt ? 12 : 40);
  I n = steps * period + c.rng.in(1, 50);
  bool unroll = c.rng.chance(0.7);
  c.describe(S() << (pt ? "plaintexts " : "") << "period=" << period << " steps=" << steps << " unroll=" << unroll);
  std::optional<L> p;
  if (pt) p = L(MI(steps, VI(n, 1)));
  auto dag = implementRotateAndReduce(L(VI(n, 1)), p, period, steps, DagType::intTensor(32, {n}), {}, "arith.addi", unroll);
  // the ciphertext is the only rank-1 leaf
  Interp in;
  std::set<const void *> seen;
  std::function<void(const Ptr<L> &)> go = [&](const Ptr<L> &x) {
    if (!x || !seen.insert(x.get()).second) return;
    if (auto *l = std::get_if<LeafNode<L>>(&x->node_variant)) if (l->value.getShape().size() == 1) in.secretLeaves.insert(x.get());
    for (auto &k : Interp::kids<L>(x)) go(k);
  };
  go(dag);
  try { in.one(dag); } catch (Bad &b) { c.fail("keySet:ill-formed", b.what); return; }
  auto got = mlir::heir::rotateAndReduceRotationIndices(period, steps, pt);
  std::set<I> g(got.begin(), got.end());
  g.erase(0);
  c.event("rotations", in.secretRotations.size());
  c.check(g == in.secretRotations, "keySet", [&] { return S() << "predicted " << Row(g.begin(), g.end()) << " performed " << Row(in.secretRotations.begin(), in.secretRotations.end()); });
}

MON_FAMILY(K04_cost, 1000, 20000) {
  int kind = c.rng.in(0, 4);
  using SV = SymbolicValue;
  Ptr<SV> dag;
  I n = 0;
  if (kind == 0) {
    I r = c.rng.in(1, 200), k = c.rng.in(1, 200), nd = std::min(p2(r), p2(k));
    n = std::max(p2(r), p2(k));
    std::map<int, bool> zero;
    double zp = c.rng.pick({0.0, 0.3, 0.9});
    for (int d = 0; d < nd; ++d) if (c.rng.chance(zp)) zero[d] = true;
    S s; s << "haleviShoup " << r << "x" << k << " zero ";
    for (auto &z : zero) s << z.first << ",";
    c.describe(s);
    bool vs = c.rng.chance(0.8), ms = c.rng.chance(0.2);
    dag = implementHaleviShoup(SV({n}, vs), SV({nd, n}, ms), {r, k}, DagType::intTensor(32, {n}), zero);
  } else if (kind == 1) {
    I steps = c.rng.in(1, 200), period = c.rng.in(1, 20);
    bool pt = c.rng.chance(0.6);
    c.describe(S() << "rotateAndReduce " << steps << " " << period << " " << pt);
    dag = implementRotateAndReduce(SV({1024}, true), pt ? std::optional<SV>(SV({steps, 1024}, false)) : std::nullopt, period, steps, DagType::intTensor(32, {1024}));
  } else if (kind == 2) {
    I m, p;
    do { m = c.rng.in(1, 30); n = c.rng.in(1, 30); p = c.rng.in(1, 30); } while (!coprime({m, n, p}));
    c.describe(S() << "bicyclic " << Row{m, n, p});
    I s = p2(m * n + n * p + m * p);
    dag = implementBicyclicMatmul(SV({s}, c.rng.chance(0.8)), SV({s}, c.rng.chance(0.8)), m, n, p, DagType::intTensor(32, {s}));
  } else if (kind == 3) {
    int ln = c.rng.in(0, 10), lb = c.rng.in(0, ln), lp = c.rng.in(0, ln - lb);
    c.describe(S() << "broadcast " << Row{ln, lb, lp});
    dag = implementBroadcastedReduce<SV>(Node<SV>::leaf(SV({1 << ln}, true)), std::nullopt, 1 << lp, 1 << lb, 1 << ln, DagType::intTensor(32, {1 << ln}));
  } else {  // arbitrary sharing, two leaves, mixed secrecy
    std::vector<Ptr<SV>> pool;
    S s; s << "dag";
    for (int i = c.rng.in(1, 3); i-- > 0;) { bool sec = c.rng.chance(0.6); s << (sec ? " S" : " P"); pool.push_back(Node<SV>::leaf(SV({16}, sec))); }
    pool.push_back(Node<SV>::splat(1, DagType::intTensor(32, {16})));
    for (int i = c.rng.in(1, 30); i-- > 0;) {
      int a = c.rng.next() % pool.size(), b = c.rng.next() % pool.size(), o = c.rng.in(0, 8);
      s << " " << o << ":" << a << "," << b;
      if (o <= 3) pool.push_back(Node<SV>::leftRotate(pool[a], c.rng.in(0, 20)));
      else if (o == 4) pool.push_back(Node<SV>::add(pool[a], pool[b]));
      else if (o == 5) pool.push_back(Node<SV>::mul(pool[a], pool[b]));
      else if (o == 6) pool.push_back(Node<SV>::sub(pool[a], pool[b]));
      else if (o == 7) pool.push_back(Node<SV>::power(pool[a], 3));
      else pool.push_back(Node<SV>::resultAt(Node<SV>::yield({pool[a], pool[b]}), 1));
    }
    c.describe(s);
    dag = pool.back();
    if (std::holds_alternative<ResultAtNode<SV>>(dag->node_variant)) { c.trivial(); return; }
    // a yield is secret when any element is: keep the model to the same abstraction by expanding only other nodes
  }
  RotationCountVisitor v;
  int64_t got = v.process(dag), again = v.process(dag);
  int want = countSecret(dag);
  c.event("rotation-nodes", want);
  c.check(got == want, S() << "cost:kind" << kind, [&] { return S() << "reported cost " << got << ", distinct ciphertext rotations " << want; });
  c.check(got == again, "cost:repeat", [&] { return S() << "a second count gives " << again << " after " << got; });
}

MON_FAMILY(K04_linearTransform, 1500, 30000) {
  I slots = 1 << c.rng.in(1, 12);
  std::set<int32_t> ds;
  for (int i = c.rng.in(1, 60); i-- > 0;) ds.insert(c.rng.chance(0.7) ? c.rng.in(-slots / 2, slots / 2) : c.rng.in(-slots, slots - 1));
  if (c.rng.chance(0.3)) { ds.clear(); for (int i = 0, w = c.rng.in(1, std::min<I>(slots, 80)); i < w; ++i) ds.insert(i); }
  std::vector<int32_t> diags(ds.begin(), ds.end());
  I lr = c.rng.in(-1, 4);
  c.describe(S() << "slots=" << slots << " ratio=" << lr << " diags=" << diags);
  I n1 = slots;
  if (lr >= 0) {
    n1 = mlir::heir::findBestBSGSRatio(diags, slots, lr);
    I want = 1;
    bool undefined = false;
    for (I k = 1; k < slots; k *= 2) {
      std::set<I> g, b;
      for (I r : diags) { g.insert(mod(r, slots) / k); b.insert(mod(r, slots) % k); }
      I ng = g.size() - 1, nb = b.size() - 1;
      if (ng == 0) { undefined = true; continue; }
      if (nb == (ng << lr)) { want = k; break; }
      if (nb > (ng << lr)) { want = k / 2; break; }
    }
    c.check(n1 == want || undefined, "bsgsRatio", [&] { return S() << "split " << n1 << ", expected " << want; });
    c.check(n1 >= 1 && n1 <= slots && (n1 & (n1 - 1)) == 0, "bsgsRatio:range", [&] { return S() << "split " << n1 << " is not a power of two up to the slot count"; });
    if (n1 < 1) return;
  }
  auto got = mlir::heir::lintransRotationIndices(diags, slots, lr);
  std::set<I> need;
  for (I r : diags) { I x = mod(r, slots); need.insert(x % n1); need.insert(x - x % n1); }
  need.erase(0);
  c.check(std::set<I>(got.begin(), got.end()) == need, "linearTransform", [&] { return S() << "rotation set " << Row(got.begin(), got.end()) << " needed " << Row(need.begin(), need.end()); });
  for (I k = -5; k <= 5; ++k) { I x = c.rng.in(-5 * slots, 5 * slots); I y = mlir::heir::normalizeRotation(x, slots); c.check(y >= 0 && y < slots && (y - x) % slots == 0, "normalize", [&] { return S() << x << " mod " << slots << " gives " << y; }); }
}

// --------------------------------------------------------------------------- DAG evaluation
namespace {
struct Counting : EvalVisitor {
  using EvalVisitor::operator();
  std::map<std::string, int> n;
  EvalResults operator()(const LeafNode<L> &x) override { n["leaf"]++; return EvalVisitor::operator()(x); }
  EvalResults operator()(const AddNode<L> &x) override { n["add"]++; return EvalVisitor::operator()(x); }
  EvalResults operator()(const SubtractNode<L> &x) override { n["sub"]++; return EvalVisitor::operator()(x); }
  EvalResults operator()(const MultiplyNode<L> &x) override { n["mul"]++; return EvalVisitor::operator()(x); }
  EvalResults operator()(const LeftRotateNode<L> &x) override { n["rot"]++; return EvalVisitor::operator()(x); }
};

struct Gen {  // random well-typed DAGs; values are kept small by construction (interval estimates)
  mon::Case &c;
  struct E { Ptr<L> p; double mag; };
  std::vector<E> sc, ve;  // scalars and vectors in scope
  int len;
  int depth = 0;
  S d;
  E pick(std::vector<E> &v) { return v[c.rng.next() % v.size()]; }
  void push(bool vec, Ptr<L> p, double mag, const std::string &what) { d << " " << what; (vec ? ve : sc).push_back({p, mag}); }
  Ptr<L> idx(I n) {  // an in-range index expression
    I k = c.rng.in(0, n - 1);
    if (c.rng.chance(0.5)) return Node<L>::constantScalar(k, DagType::index());
    I a = c.rng.in(-5, 5);
    return Node<L>::add(Node<L>::constantScalar(k - a, DagType::index()), Node<L>::constantScalar(a, DagType::index()));
  }
  void step() {
    const double LIM = 2e8;
    bool vec = c.rng.chance(0.6);
    auto &pool = vec ? ve : sc;
    E a = pick(pool), b = pick(pool);
    switch (c.rng.in(0, 10)) {
      case 0: case 1: if (a.mag + b.mag < LIM) push(vec, Node<L>::add(a.p, b.p), a.mag + b.mag, vec ? "vadd" : "add"); break;
      case 2: if (a.mag + b.mag < LIM) push(vec, Node<L>::sub(a.p, b.p), a.mag + b.mag, vec ? "vsub" : "sub"); break;
      case 3: if (a.mag * b.mag < LIM) push(vec, Node<L>::mul(a.p, b.p), a.mag * b.mag, vec ? "vmul" : "mul"); break;
      case 4: { E v = pick(ve); push(true, Node<L>::leftRotate(v.p, c.rng.in(-3 * len, 3 * len)), v.mag, "rot"); break; }
      case 5: { E v = pick(ve), s = pick(sc); push(true, Node<L>::leftRotate(v.p, s.p), v.mag, "rotdyn"); break; }
      case 6: { E v = pick(ve); push(false, Node<L>::extract(v.p, idx(len)), v.mag, "extract"); break; }
      case 7: { E v = pick(ve), s = pick(sc); push(true, Node<L>::insert(s.p, v.p, idx(len)), std::max(v.mag, s.mag), "insert"); break; }
      case 8: {
        E x = pick(sc), y = pick(sc);
        auto pr = c.rng.pick({ComparisonPredicate::LT, ComparisonPredicate::LE, ComparisonPredicate::GT, ComparisonPredicate::GE, ComparisonPredicate::EQ, ComparisonPredicate::NE});
        if (c.rng.chance(0.3)) y = x;
        auto cmp = Node<L>::comparison(x.p, y.p, pr);
        push(false, cmp, 1, "cmp" + std::to_string((int)pr));
        push(vec, Node<L>::resultAt(Node<L>::ifElse(cmp, Node<L>::yield({a.p}), Node<L>::yield({b.p})), 0), std::max(a.mag, b.mag), "if");
        break;
      }
      case 9: {  // |x| / d of a square, so truncation and flooring agree
        if (a.mag * a.mag < LIM) { int q = c.rng.in(1, 9); push(vec, Node<L>::floorDiv(Node<L>::mul(a.p, a.p), q), a.mag * a.mag, "div" + std::to_string(q)); }
        break;
      }
      case 10: {
        if (depth >= 2) break;
        int lo = c.rng.in(-3, 3), st = c.rng.in(1, 3), hi = lo + c.rng.in(-1, 7);
        E i1 = pick(ve), i2 = pick(sc);
        std::vector<E> svSc = sc, svVe = ve;
        ++depth;
        d << " for[" << lo << "," << hi << "," << st << "]{";
        bool swap = c.rng.chance(0.3);
        auto loop = Node<L>::loop(llvm::ArrayRef<Ptr<L>>{i1.p, i2.p}, llvm::ArrayRef<DagType>{DagType::intTensor(32, {len}), DagType::integer(32)}, lo, hi, st,
          [&](Ptr<L> i, const std::vector<Ptr<L>> &args) {
            // inside, iter args are bounded by rotating/rearranging only plus one bounded update per iteration
            sc.push_back({i, 10}); ve.push_back({args[0], 1e7}); sc.push_back({args[1], 1e7});
            for (int k = c.rng.in(1, 5); k-- > 0;) step();
            auto nv = Node<L>::leftRotate(args[0], Node<L>::mul(i, Node<L>::constantScalar(c.rng.in(1, 3), DagType::index())));
            E extra = pick(svVe);
            auto upd = c.rng.chance(0.6) && extra.mag < 1e5 ? Node<L>::add(nv, extra.p) : nv;
            auto ns = swap ? Node<L>::extract(upd, idx(len)) : Node<L>::add(args[1], i);
            return Node<L>::yield({upd, ns});
          });
        d << " }";
        --depth;
        sc = svSc; ve = svVe;
        if (i1.mag > 5e6 || i2.mag > 5e6) { d << " (dropped)"; break; }
        push(true, Node<L>::resultAt(loop, 0), 1e7, "res0");
        push(false, Node<L>::resultAt(loop, 1), 1e7, "res1");
        break;
      }
    }
  }
};
}  // namespace

MON_FAMILY(K05_randomDags, 3000, 80000) {
  Gen g{c, {}, {}, (int)c.rng.in(1, 9), 0, {}};
  g.d << "len=" << g.len;
  for (int i = c.rng.in(1, 3); i-- > 0;) { VI v = rnd(c, g.len, -20, 20); g.d << " leaf" << v; g.ve.push_back({Node<L>::leaf(L(v)), 20}); }
  for (int i = c.rng.in(1, 3); i-- > 0;) { int v = c.rng.in(-20, 20); g.d << " leaf" << v; g.sc.push_back({c.rng.chance(0.5) ? Node<L>::leaf(L(v)) : Node<L>::constantScalar(v, DagType::integer(32)), 20}); }
  { std::vector<double> k; for (int i = 0; i < g.len; ++i) k.push_back(c.rng.in(-9, 9)); g.d << " const" << k; g.ve.push_back({Node<L>::constantTensor(k, DagType::intTensor(32, {g.len})), 9}); }
  { int k = c.rng.in(-9, 9); g.d << " splat" << k; g.ve.push_back({Node<L>::splat(k, DagType::intTensor(32, {g.len})), 9}); }
  for (int k = c.rng.in(1, 25); k-- > 0;) g.step();
  c.describe(g.d);
  auto root = c.rng.chance(0.7) ? g.ve.back().p : g.sc.back().p;
  observe(c, root, "dag");
  // several roots through one visitor
  std::vector<Ptr<L>> roots;
  for (auto &e : g.ve) if (c.rng.chance(0.4)) roots.push_back(e.p);
  for (auto &e : g.sc) if (c.rng.chance(0.4)) roots.push_back(e.p);
  c.rng.shuffle(roots);
  auto rs = multiEvalKernel(roots);
  for (size_t i = 0; i < roots.size(); ++i) {
    Interp in; Val w;
    try { w = in.one(roots[i]); } catch (Bad &b) { c.fail("multi:ill-formed", b.what); return; }
    c.check(rs[i].size() == 1 && fromLiteral(rs[i][0]) == w, "multi", [&] { return S() << "root " << i << " evaluates to " << fromLiteral(rs[i][0]).str() << " instead of " << w.str(); });
  }
}

MON_FAMILY(K05_sharing, 800, 15000) {  // each shared node is evaluated once per run
  int n = c.rng.in(2, 40);
  std::vector<Ptr<L>> pool{Node<L>::leaf(L(VI{1, 0, 2})), Node<L>::leaf(L(VI{0, 1, -1}))};
  std::vector<std::vector<Val>> val;
  S d;
  for (int i = 0; i < n; ++i) {
    int a = std::max<int>(0, pool.size() - 1 - c.rng.in(0, 3)), b = c.rng.next() % pool.size(), o = c.rng.in(0, 2);
    d << " " << o << ":" << a << "," << b;
    if (o == 0) pool.push_back(Node<L>::sub(pool[a], pool[b]));
    else if (o == 1) pool.push_back(Node<L>::leftRotate(pool[a], c.rng.in(-4, 4)));
    else { Interp t; auto va = t.one(pool[a]), vb = t.one(pool[b]); I m = 0; for (int k = 0; k < 3; ++k) m = std::max<I>(m, std::llabs(va.v[k] * vb.v[k])); pool.push_back(m < 1000000 ? Node<L>::mul(pool[a], pool[b]) : Node<L>::leftRotate(pool[b], 1)); }
    Interp t; for (I x : t.one(pool.back()).v) if (std::llabs(x) > 100000000) { c.describe(d); c.trivial(); return; }
  }
  c.describe(d);
  Counting v;
  auto r = v.process(pool.back());
  std::map<std::string, int> want;
  std::set<const void *> seen;
  std::function<void(const Ptr<L> &)> go = [&](const Ptr<L> &x) {
    if (!seen.insert(x.get()).second) return;
    auto &nv = x->node_variant;
    if (std::holds_alternative<LeafNode<L>>(nv)) want["leaf"]++;
    if (std::holds_alternative<AddNode<L>>(nv)) want["add"]++;
    if (std::holds_alternative<SubtractNode<L>>(nv)) want["sub"]++;
    if (std::holds_alternative<MultiplyNode<L>>(nv)) want["mul"]++;
    if (std::holds_alternative<LeftRotateNode<L>>(nv)) want["rot"]++;
    for (auto &k : Interp::kids<L>(x)) go(k);
  };
  go(pool.back());
  c.event("visits", seen.size());
  c.check(v.n == want, "sharing:visits", [&] { S o; o << "visits"; for (auto &k : v.n) o << " " << k.first << "=" << k.second; o << " nodes"; for (auto &k : want) o << " " << k.first << "=" << k.second; return o.s(); });
  Interp in;
  c.check(fromLiteral(r[0]) == in.one(pool.back()), "sharing:value", "value differs");
  auto r2 = v.process(pool.back());
  c.check(fromLiteral(r2[0]) == fromLiteral(r[0]) && v.n == want, "sharing:again", "a second run of the same visitor recomputes or changes the result");
}
MON_MAIN()
