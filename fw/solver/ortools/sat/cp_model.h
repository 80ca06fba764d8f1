#pragma once
#include <initializer_list>
#include <memory>
#include "ortools/minisolve.h"
namespace operations_research::sat {
struct BoolVar { int id = -1; bool neg = false; BoolVar Not() const { return {id, !neg}; } };
struct LinearExpr : minisolve::Lin {
  LinearExpr() = default;
  LinearExpr(double d) : Lin(d) {}
  LinearExpr(int d) : Lin(d) {}
  LinearExpr(const BoolVar &b) { c[b.id] = b.neg ? -1 : 1; k = b.neg; }
  LinearExpr &operator+=(const LinearExpr &o) { Lin::operator+=(o); return *this; }
};
struct CpModelProto { std::shared_ptr<minisolve::Prob> p; };
enum class CpSolverStatus { UNKNOWN, MODEL_INVALID, FEASIBLE, INFEASIBLE, OPTIMAL };
struct CpSolverResponse { CpSolverStatus s = CpSolverStatus::UNKNOWN; std::vector<double> x; CpSolverStatus status() const { return s; } };
struct CpModelBuilder {
  std::shared_ptr<minisolve::Prob> p = std::make_shared<minisolve::Prob>();
  BoolVar NewBoolVar() { p->vars.push_back({0, 1, true, ""}); return {(int)p->vars.size() - 1, false}; }
  void row(LinearExpr e, double lo, double hi) { minisolve::Row r; r.c = e.c; r.lo = lo - e.k; r.hi = hi - e.k; p->rows.push_back(r); }
  void AddEquality(const LinearExpr &a, const LinearExpr &b) { LinearExpr e = a; e -= b; row(e, 0, 0); }
  void AddBoolOr(std::initializer_list<BoolVar> l) { LinearExpr e; for (auto &b : l) e += LinearExpr(b); row(e, 1, INFINITY); }
  void AddImplication(const BoolVar &a, const BoolVar &b) { AddBoolOr({a.Not(), b}); }
  void Minimize(const LinearExpr &e) { p->obj = e.c; p->objc = e.k; }
  CpModelProto Build() { return {p}; }
};
inline CpSolverResponse Solve(const CpModelProto &m) { auto s = minisolve::solve(*m.p); return {s.ok ? CpSolverStatus::OPTIMAL : CpSolverStatus::INFEASIBLE, s.x}; }
inline bool SolutionBooleanValue(const CpSolverResponse &r, const BoolVar &b) { return (r.x[b.id] > 0.5) != b.neg; }
}  // namespace operations_research::sat
