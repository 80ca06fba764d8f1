// Stand-in for OR-Tools (not installed here): the few modelling classes the repository uses, solved exactly by z3's optimiser.
#pragma once
#include <z3.h>
#include <cmath>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace minisolve {
struct Row { std::map<int, double> c; double lo = -INFINITY, hi = INFINITY; };
struct Prob {
  struct V { double lo, hi; bool integer; std::string name; };
  std::vector<V> vars; std::vector<Row> rows; std::map<int, double> obj; double objc = 0;
};
struct Sol { bool ok = false; std::vector<double> x; };
inline Sol solve(const Prob &p) {
  Sol s; s.x.resize(p.vars.size());
  Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_optimize o = Z3_mk_optimize(c); Z3_optimize_inc_ref(c, o);
  auto num = [&](double d, bool integer) { char b[64]; long long n = std::llround(d * 1000); if (integer && n % 1000 == 0) { snprintf(b, sizeof b, "%lld", n / 1000); return Z3_mk_numeral(c, b, Z3_mk_int_sort(c)); } snprintf(b, sizeof b, "%lld/1000", n); return Z3_mk_numeral(c, b, Z3_mk_real_sort(c)); };
  std::vector<Z3_ast> v, r;
  for (size_t i = 0; i < p.vars.size(); i++) {
    Z3_ast a = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)i), p.vars[i].integer ? Z3_mk_int_sort(c) : Z3_mk_real_sort(c));
    v.push_back(a); r.push_back(p.vars[i].integer ? Z3_mk_int2real(c, a) : a);
    if (std::isfinite(p.vars[i].lo)) Z3_optimize_assert(c, o, Z3_mk_ge(c, r[i], num(p.vars[i].lo, false)));
    if (std::isfinite(p.vars[i].hi)) Z3_optimize_assert(c, o, Z3_mk_le(c, r[i], num(p.vars[i].hi, false)));
  }
  auto sum = [&](const std::map<int, double> &m, double k) {
    std::vector<Z3_ast> t{num(k, false)};
    for (auto &[i, d] : m) { Z3_ast mul[2] = {num(d, false), r[i]}; t.push_back(Z3_mk_mul(c, 2, mul)); }
    return Z3_mk_add(c, t.size(), t.data());
  };
  for (auto &w : p.rows) {
    Z3_ast e = sum(w.c, 0);
    if (std::isfinite(w.lo)) Z3_optimize_assert(c, o, Z3_mk_ge(c, e, num(w.lo, false)));
    if (std::isfinite(w.hi)) Z3_optimize_assert(c, o, Z3_mk_le(c, e, num(w.hi, false)));
  }
  Z3_optimize_minimize(c, o, sum(p.obj, p.objc));
  if (Z3_optimize_check(c, o, 0, nullptr) == Z3_L_TRUE) {
    s.ok = true;
    Z3_model m = Z3_optimize_get_model(c, o); Z3_model_inc_ref(c, m);
    for (size_t i = 0; i < v.size(); i++) { Z3_ast out; if (Z3_model_eval(c, m, r[i], true, &out)) { std::string t = Z3_get_numeral_string(c, out); auto q = t.find('/'); s.x[i] = std::stod(t) / (q == std::string::npos ? 1 : std::stod(t.substr(q + 1))); } }
    Z3_model_dec_ref(c, m);
  }
  Z3_optimize_dec_ref(c, o); Z3_del_context(c);
  return s;
}
struct Lin {
  std::map<int, double> c; double k = 0;
  Lin() = default; Lin(double d) : k(d) {}
  Lin &operator+=(const Lin &o) { for (auto &[i, d] : o.c) c[i] += d; k += o.k; return *this; }
  Lin &operator-=(const Lin &o) { for (auto &[i, d] : o.c) c[i] -= d; k -= o.k; return *this; }
  Lin &operator*=(double d) { for (auto &e : c) e.second *= d; k *= d; return *this; }
};
}  // namespace minisolve
