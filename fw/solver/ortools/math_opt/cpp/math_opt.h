#pragma once
#include <absl/status/statusor.h>
#include <absl/time/time.h>
#include <memory>
#include <ostream>
#include <unordered_map>
#include "ortools/minisolve.h"
namespace operations_research::math_opt {
using minisolve::Prob;
struct Variable {
  Prob *p = nullptr; int id = -1;
  std::string name() const { return p->vars[id].name; }
  bool operator<(const Variable &o) const { return id < o.id; }
};
struct LinearExpression : minisolve::Lin {
  LinearExpression() = default;
  LinearExpression(double d) : Lin(d) {}
  LinearExpression(const Variable &v) { c[v.id] = 1; }
  LinearExpression(const Lin &l) : Lin(l) {}
  LinearExpression &operator+=(const LinearExpression &o) { Lin::operator+=(o); return *this; }
  LinearExpression &operator-=(const LinearExpression &o) { Lin::operator-=(o); return *this; }
};
struct Bounded { minisolve::Lin e; double lo, hi; };
using Ex = LinearExpression;
inline Ex operator+(Ex a, const Ex &b) { a += b; return a; }
inline Ex operator-(Ex a, const Ex &b) { a -= b; return a; }
inline Ex operator-(Ex a) { a *= -1; return a; }
inline Ex operator*(Ex a, double d) { a *= d; return a; }
inline Ex operator*(double d, Ex a) { a *= d; return a; }
inline Bounded le(Ex a, const Ex &b) { a -= b; return {a, -INFINITY, 0}; }
inline Bounded operator<=(const Ex &a, const Ex &b) { return le(a, b); }
inline Bounded operator>=(const Ex &a, const Ex &b) { return le(b, a); }
inline Bounded operator==(Ex a, const Ex &b) { a -= b; return {a, 0, 0}; }
struct VarEq { Variable a, b; operator bool() const { return a.id == b.id; } operator Bounded() const { return Ex(a) == Ex(b); } };
inline VarEq operator==(const Variable &a, const Variable &b) { return {a, b}; }
inline Bounded operator==(const Variable &a, double b) { return Ex(a) == Ex(b); }
template <class T> struct VariableMap : std::map<Variable, T> { using std::map<Variable, T>::map; };
struct Model {
  std::shared_ptr<Prob> p = std::make_shared<Prob>();
  Model(const std::string & = "") {}
  Variable add(double lo, double hi, bool i, const std::string &n) { p->vars.push_back({lo, hi, i, n}); return {p.get(), (int)p->vars.size() - 1}; }
  Variable AddBinaryVariable(const std::string &n = "") { return add(0, 1, true, n); }
  Variable AddIntegerVariable(double lo, double hi, const std::string &n = "") { return add(lo, hi, true, n); }
  Variable AddContinuousVariable(double lo, double hi, const std::string &n = "") { return add(lo, hi, false, n); }
  void AddLinearConstraint(const Bounded &b, const std::string & = "") { minisolve::Row r; r.c = b.e.c; r.lo = b.lo - b.e.k; r.hi = b.hi - b.e.k; p->rows.push_back(r); }
  void Minimize(const Ex &e) { p->obj = e.c; p->objc = e.k; }
  void Maximize(const Ex &e) { Ex n = -e; Minimize(n); }
};
inline std::ostream &operator<<(std::ostream &o, const Model &) { return o; }
enum class TerminationReason { kOptimal = 1, kInfeasible, kUnbounded, kInfeasibleOrUnbounded, kImprecise, kFeasible, kNoSolutionFound, kNumericalError, kOtherError };
struct Termination { TerminationReason reason; };
struct SolveResult {
  Termination termination; VariableMap<double> vals; double obj = 0;
  const VariableMap<double> &variable_values() const { return vals; }
  double objective_value() const { return obj; }
  absl::Duration solve_time() const { return absl::ZeroDuration(); }
};
struct SolveParameters { std::optional<int> threads; std::optional<double> relative_gap_tolerance, absolute_gap_tolerance; bool enable_output = false; absl::Duration time_limit = absl::InfiniteDuration(); std::optional<int> random_seed; };
struct SolveArguments { SolveParameters parameters; };
enum class SolverType { kGscip, kHighs, kCpSat };
inline absl::StatusOr<SolveResult> Solve(const Model &m, SolverType, const SolveArguments & = {}) {
  auto s = minisolve::solve(*m.p);
  SolveResult r{{s.ok ? TerminationReason::kOptimal : TerminationReason::kInfeasible}, {}, 0};
  if (s.ok) { r.obj = m.p->objc; for (size_t i = 0; i < s.x.size(); i++) r.vals[Variable{m.p.get(), (int)i}] = s.x[i]; for (auto &[i, d] : m.p->obj) r.obj += d * s.x[i]; }
  return r;
}
}  // namespace operations_research::math_opt
