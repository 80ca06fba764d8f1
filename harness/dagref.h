// An independent interpreter for arithmetic DAGs (64-bit integers), recording every rotation it performs.
#pragma once
#include <numeric>
#include <variant>
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "mon.h"

namespace ref {
using namespace mlir::heir::kernel;
template <class T> using Node = ArithmeticDagNode<T>;
template <class T> using Ptr = std::shared_ptr<Node<T>>;
using L = LiteralValue;
using I = int64_t;
using Row = std::vector<I>;

struct Val {  // rank 0, 1 or 2
  int rank = 0;
  I s = 0;
  Row v;
  std::vector<Row> m;
  bool secret = false;
  static Val scalar(I x) { Val r; r.s = x; return r; }
  static Val vec(Row x) { Val r; r.rank = 1; r.v = std::move(x); return r; }
  static Val mat(std::vector<Row> x) { Val r; r.rank = 2; r.m = std::move(x); return r; }
  bool operator==(const Val &o) const { return rank == o.rank && s == o.s && v == o.v && m == o.m; }
  std::string str() const {
    mon::S o;
    if (rank == 0) o << s;
    else if (rank == 1) o << v;
    else for (auto &r : m) o << r;
    return o;
  }
};
struct Bad { std::string what; };
inline I mod(I a, I n) { return ((a % n) + n) % n; }

inline Val fromLiteral(const L &l) {
  if (auto *i = std::get_if<int>(&l.get())) return Val::scalar(*i);
  if (auto *v = std::get_if<std::vector<int>>(&l.get())) return Val::vec(Row(v->begin(), v->end()));
  std::vector<Row> m;
  for (auto &r : std::get<std::vector<std::vector<int>>>(l.get())) m.push_back(Row(r.begin(), r.end()));
  return Val::mat(m);
}

// No caching: environments map variables to values, so the order of evaluation cannot matter.
struct Interp {
  std::map<const void *, std::vector<Val>> memo;       // for nodes that do not depend on any variable in scope
  std::map<const void *, bool> closedMemo;
  std::map<const void *, Val> env;
  std::set<I> rotations;        // normalized, of any operand
  std::set<I> secretRotations;  // unnormalized non-zero shifts of secret operands
  std::set<const void *> secretLeaves;
  uint64_t steps = 0;

  bool closed(const Ptr<L> &n) {  // mentions no variable at all
    if (!n) return true;
    auto it = closedMemo.find(n.get());
    if (it != closedMemo.end()) return it->second;
    bool r = true;
    for (auto &k : kids(n)) r = closed(k) && r;
    if (std::holds_alternative<VariableNode<L>>(n->node_variant)) r = false;
    return closedMemo[n.get()] = r;
  }
  template <class T> static std::vector<Ptr<T>> kids(const Ptr<T> &n) {
    std::vector<Ptr<T>> o;
    std::visit([&](const auto &x) {
      using X = std::decay_t<decltype(x)>;
      if constexpr (requires { x.right; }) { o = {x.left, x.right}; }
      else if constexpr (std::is_same_v<X, FloorDivNode<T>>) o = {x.left};
      else if constexpr (std::is_same_v<X, PowerNode<T>>) o = {x.base};
      else if constexpr (std::is_same_v<X, LeftRotateNode<T>>) o = {x.operand, x.shift};
      else if constexpr (std::is_same_v<X, LeftRotateBulkNode<T>>) { o = x.shifts; o.push_back(x.operand); }
      else if constexpr (std::is_same_v<X, ExtractNode<T>>) o = {x.operand, x.index};
      else if constexpr (std::is_same_v<X, InsertNode<T>>) o = {x.scalar, x.dest, x.index};
      else if constexpr (std::is_same_v<X, IfElseNode<T>>) o = {x.condition, x.thenBody, x.elseBody};
      else if constexpr (std::is_same_v<X, YieldNode<T>>) o = x.elements;
      else if constexpr (std::is_same_v<X, ResultAtNode<T>>) o = {x.operand};
      else if constexpr (std::is_same_v<X, ForLoopNode<T>>) { o = x.inits; o.push_back(x.body); }
    }, n->node_variant);
    return o;
  }

  Val one(const Ptr<L> &n) {
    auto r = run(n);
    if (r.size() != 1) throw Bad{"single value expected"};
    return r[0];
  }
  std::vector<Val> run(const Ptr<L> &n) {
    if (!n) throw Bad{"null node"};
    bool c = closed(n);
    if (c) { auto it = memo.find(n.get()); if (it != memo.end()) return it->second; }
    auto r = eval(n);
    if (c) memo[n.get()] = r;
    return r;
  }
  template <class F> Val zip(const Val &a, const Val &b, F f) {
    Val r = a;
    r.secret = a.secret || b.secret;
    if (a.rank != b.rank) throw Bad{"operands of different rank"};
    if (a.rank == 0) r.s = f(a.s, b.s);
    else if (a.rank == 1) {
      if (a.v.size() != b.v.size()) throw Bad{"operands of different length"};
      for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = f(a.v[i], b.v[i]);
    } else throw Bad{"arithmetic on a matrix"};
    return r;
  }
  std::vector<Val> eval(const Ptr<L> &n) {
    ++steps;
    return std::visit([&](const auto &x) -> std::vector<Val> {
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, ConstantScalarNode>) return {Val::scalar((I)x.value)};
      else if constexpr (std::is_same_v<X, ConstantTensorNode>) { Row r; for (double d : x.value) r.push_back((I)d); return {Val::vec(r)}; }
      else if constexpr (std::is_same_v<X, SplatNode>) {
        auto s = x.type.getShape();
        if (s.empty()) return {Val::scalar((I)x.value)};
        I t = 1; for (I d : s) t *= d;
        return {Val::vec(Row(t, (I)x.value))};
      } else if constexpr (std::is_same_v<X, EmptyNode>) {
        if (x.shape.empty()) return {Val::scalar(0)};
        if (x.shape.size() == 1) return {Val::vec(Row(x.shape[0], 0))};
        return {Val::mat(std::vector<Row>(x.shape[0], Row(x.shape[1], 0)))};
      } else if constexpr (std::is_same_v<X, LeafNode<L>>) { Val v = fromLiteral(x.value); v.secret = secretLeaves.count(n.get()); return {v}; }
      else if constexpr (std::is_same_v<X, AddNode<L>>) return {zip(one(x.left), one(x.right), [](I a, I b) { return a + b; })};
      else if constexpr (std::is_same_v<X, SubtractNode<L>>) return {zip(one(x.left), one(x.right), [](I a, I b) { return a - b; })};
      else if constexpr (std::is_same_v<X, MultiplyNode<L>>) return {zip(one(x.left), one(x.right), [](I a, I b) { return a * b; })};
      else if constexpr (std::is_same_v<X, FloorDivNode<L>>) { Val v = one(x.left); I d = x.divisor; return {zip(v, v, [d](I a, I) { return a / d; })}; }
      else if constexpr (std::is_same_v<X, LeftRotateNode<L>>) {
        Val v = one(x.operand), k = one(x.shift);
        if (v.rank != 1 || k.rank != 0) throw Bad{"rotation of a non-vector or by a non-scalar"};
        I len = v.v.size();
        rotations.insert(mod(k.s, len));
        if (v.secret && k.s != 0) secretRotations.insert(k.s);
        Val r = v;
        for (I i = 0; i < len; ++i) r.v[i] = v.v[mod(i + k.s, len)];
        return {r};
      } else if constexpr (std::is_same_v<X, ExtractNode<L>>) {
        Val v = one(x.operand), k = one(x.index), r;
        I len = v.rank == 2 ? v.m.size() : v.v.size();
        if (v.rank == 0 || k.s < 0 || k.s >= len) throw Bad{mon::S() << "extraction at " << k.s << " of " << len};
        r = v.rank == 2 ? Val::vec(v.m[k.s]) : Val::scalar(v.v[k.s]);
        r.secret = v.secret;
        return {r};
      } else if constexpr (std::is_same_v<X, InsertNode<L>>) {
        Val a = one(x.scalar), v = one(x.dest), k = one(x.index);
        I len = v.rank == 2 ? v.m.size() : v.v.size();
        if (v.rank != a.rank + 1 || k.s < 0 || k.s >= len) throw Bad{"insertion out of bounds"};
        if (v.rank == 2) v.m[k.s] = a.v; else v.v[k.s] = a.s;
        v.secret = v.secret || a.secret;
        return {v};
      } else if constexpr (std::is_same_v<X, ComparisonNode<L>>) {
        I a = one(x.left).s, b = one(x.right).s;
        bool r = false;
        switch (x.predicate) {
          case ComparisonPredicate::LT: r = a < b; break;
          case ComparisonPredicate::LE: r = !(b < a); break;
          case ComparisonPredicate::GT: r = b < a; break;
          case ComparisonPredicate::GE: r = !(a < b); break;
          case ComparisonPredicate::EQ: r = !(a < b) && !(b < a); break;
          case ComparisonPredicate::NE: r = a < b || b < a; break;
        }
        return {Val::scalar(r)};
      } else if constexpr (std::is_same_v<X, IfElseNode<L>>) return run(one(x.condition).s ? x.thenBody : x.elseBody);
      else if constexpr (std::is_same_v<X, VariableNode<L>>) {
        auto it = env.find(n.get());
        if (it == env.end()) throw Bad{"unbound variable"};
        return {it->second};
      } else if constexpr (std::is_same_v<X, YieldNode<L>>) { std::vector<Val> o; for (auto &e : x.elements) o.push_back(one(e)); return o; }
      else if constexpr (std::is_same_v<X, ResultAtNode<L>>) { auto r = run(x.operand); if (x.index >= r.size()) throw Bad{"no such result"}; return {r[x.index]}; }
      else if constexpr (std::is_same_v<X, ForLoopNode<L>>) {
        std::vector<Val> cur;
        for (auto &i : x.inits) cur.push_back(one(i));
        auto saved = env;
        for (I i = x.lower; i < x.upper; i += x.step) {
          env[x.inductionVar.get()] = Val::scalar(i);
          for (size_t k = 0; k < cur.size(); ++k) env[x.iterArgs[k].get()] = cur[k];
          cur = run(x.body);
          if (cur.size() != x.inits.size()) throw Bad{"loop yields a different number of values"};
        }
        env = saved;
        return cur;
      } else throw Bad{"unsupported node"};
    }, n->node_variant);
  }
};
}  // namespace ref
