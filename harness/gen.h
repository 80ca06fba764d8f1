// Generates random well-defined MLIR programs over arith, scf, affine, memref, tensor and func, as text.
#pragma once
#include <string>
#include <vector>
#include "mon.h"

namespace gen {
struct Mem { std::string name, type, elt; std::vector<int64_t> shape; bool writable = true; };
struct Ten { std::string name, type, elt; std::vector<int64_t> shape; };
struct Int { std::string name, type; };
struct Idx { std::string name; int64_t bound; bool affine; }; // 0 <= value < bound; affine: usable as an affine dimension
struct Options {
  // weights of the statements
  int arith = 6, load = 4, store = 5, alloc = 1, views = 0, copy = 0, call = 0, ext = 0, branch = 1, sfor = 1, afor = 1, aif = 0, tens = 0, dealloc = 0, dyn = 2, affineAcc = 2, pureCall = 0, global = 0, memOfMem = 0;
  int depth = 3, length = 14, maxRank = 2, maxDim = 4;
  bool iterArgs = true, memArgs = true, boundFromArg = false;
};
struct Gen {
  mon::Rng &r;
  Options o;
  std::string out;
  int n = 0, ind = 2;
  std::vector<Int> ints;
  std::vector<Idx> idxs;
  std::vector<Mem> mems;
  std::vector<Ten> tens;
  std::vector<std::string> frees;   // buffers to free at the end
  std::vector<std::string> retTypes, retVals;
  std::vector<std::pair<std::string, Mem>> globals; // symbol, shape
  std::string extra;                // other functions
  int64_t iters = 1;                // product of enclosing trip counts
  Gen(mon::Rng &r, Options o) : r(r), o(o) {}

  std::string v() { return "%v" + std::to_string(n++); }
  void line(const std::string &s) { out += std::string(ind, ' ') + s + "\n"; }
  static std::string mtype(const std::vector<int64_t> &s, const std::string &e) { std::string t = "memref<"; for (auto x : s) t += std::to_string(x) + "x"; return t + e + ">"; }
  static std::string ttype(const std::vector<int64_t> &s, const std::string &e) { std::string t = "tensor<"; for (auto x : s) t += std::to_string(x) + "x"; return t + e + ">"; }
  static int64_t size(const std::vector<int64_t> &s) { int64_t p = 1; for (auto x : s) p *= x; return p; }
  std::string ity() { return r.pick(std::vector<std::string>{"i8", "i16", "i32", "i32", "i64"}); }
  std::string lit(const std::string &t) {
    if (t == "i1") return r.chance(0.5) ? "true" : "false";
    int64_t m = t == "i8" ? 127 : t == "i16" ? 30000 : 1000000;
    return std::to_string(r.chance(0.5) ? r.in(-5, 9) : r.in(-m - 1, m));
  }
  std::string cst(const std::string &t) {
    auto x = v();
    line(x + " = arith.constant " + (t == "i1" ? lit(t) : lit(t) + " : " + t));
    ints.push_back({x, t});
    return x;
  }
  std::string cidx(int64_t k) { auto x = v(); line(x + " = arith.constant " + std::to_string(k) + " : index"); idxs.push_back({x, k + 1, true}); return x; }
  std::string anyInt(const std::string &t) {
    std::vector<std::string> c;
    for (auto &i : ints) if (i.type == t) c.push_back(i.name);
    if (c.empty() || r.chance(0.08)) return cst(t);
    // favour recent values
    if (r.chance(0.4)) return c.back();
    return r.pick(c);
  }
  // an index known to be below `bound`
  std::string index(int64_t bound, bool mustConst = false) {
    if (mustConst || r.chance(0.45)) {
      int64_t k = r.in(0, bound - 1);
      if (r.chance(0.6)) for (auto &i : idxs) if (i.bound == k + 1 && i.affine && i.name[1] == 'k' && i.name == "%k" + std::to_string(k)) return i.name;
      return cidx(k);
    }
    std::vector<std::string> c;
    for (auto &i : idxs) if (i.bound <= bound) c.push_back(i.name);
    if (!c.empty() && (o.dyn == 0 || r.chance(0.6))) return r.pick(c);
    if (o.dyn && r.chance(0.2 * o.dyn)) {
      // any integer, wrapped
      std::string t = r.pick(std::vector<std::string>{"i32", "i8", "i64"});
      auto s = anyInt(t);
      auto a = v(), b = v(), m = v();
      line(a + " = arith.index_castui " + s + " : " + t + " to index");
      line(m + " = arith.constant " + std::to_string(bound) + " : index");
      line(b + " = arith.remui " + a + ", " + m + " : index");
      idxs.push_back({b, bound, false});
      return b;
    }
    return c.empty() ? cidx(r.in(0, bound - 1)) : r.pick(c);
  }
  std::string join(const std::vector<std::string> &s) { std::string t; for (size_t k = 0; k < s.size(); k++) t += (k ? ", " : "") + s[k]; return t; }
  // affine index expression below `bound`
  std::string affineIndex(int64_t bound) {
    std::vector<Idx> c;
    for (auto &i : idxs) if (i.affine && i.bound <= bound) c.push_back(i);
    if (c.empty() || r.chance(0.35)) return std::to_string(r.in(0, bound - 1));
    Idx i = r.pick(c);
    int64_t slack = bound - i.bound;
    if (slack > 0 && r.chance(0.4)) return i.name + " + " + std::to_string(r.in(1, slack));
    if (i.bound > 1 && (i.bound - 1) * 2 < bound && r.chance(0.5)) return i.name + " * 2";
    if (r.chance(0.15)) return i.name + " floordiv 2";
    if (r.chance(0.15)) return std::to_string(i.bound - 1) + " - " + i.name;
    return i.name;
  }
  std::vector<int64_t> shape() { std::vector<int64_t> s; int k = r.in(1, o.maxRank); if (r.chance(0.04)) k = 0; while (k--) s.push_back(r.in(1, o.maxDim)); return s; }
  std::vector<std::string> indices(const std::vector<int64_t> &s, bool affine) { std::vector<std::string> v; for (auto d : s) v.push_back(affine ? affineIndex(d) : index(d)); return v; }
  // prefer the index tuple of the previous access of the same buffer, so accesses collide
  struct Last { std::string mem; std::vector<std::string> ix; bool affine; };
  std::vector<Last> last;
  void access(const Mem &m, std::vector<std::string> &ix, bool &affine) {
    std::vector<Last> c;
    for (auto &l : last) if (l.mem == m.name) c.push_back(l);
    if (!c.empty() && r.chance(0.5)) { auto &l = r.pick(c); ix = l.ix; affine = l.affine; return; }
    affine = o.affineAcc && r.chance(0.12 * o.affineAcc);
    ix = indices(m.shape, affine);
    last.push_back({m.name, ix, affine});
  }
  void load() {
    if (mems.empty()) return;
    Mem m = r.pick(mems);
    std::vector<std::string> ix; bool aff;
    access(m, ix, aff);
    auto x = v();
    line(x + (aff ? " = affine.load " : " = memref.load ") + m.name + "[" + join(ix) + "] : " + m.type);
    ints.push_back({x, m.elt});
  }
  void store() {
    std::vector<Mem> c;
    for (auto &m : mems) if (m.writable) c.push_back(m);
    if (c.empty()) return;
    Mem m = r.pick(c);
    auto val = anyInt(m.elt);
    std::vector<std::string> ix; bool aff;
    access(m, ix, aff);
    line((aff ? "affine.store " : "memref.store ") + val + ", " + m.name + "[" + join(ix) + "] : " + m.type);
  }
  void arith() {
    auto t = ity();
    int k = r.in(0, 9);
    if (k == 0) { cst(t); return; }
    if (k == 1) {
      auto a = anyInt(t), b = anyInt(t), x = v();
      line(x + " = arith.cmpi " + r.pick(std::vector<std::string>{"slt", "ult", "eq", "ne", "sge"}) + ", " + a + ", " + b + " : " + t);
      ints.push_back({x, "i1"});
      return;
    }
    if (k == 2) {
      auto c = anyInt("i1"), a = anyInt(t), b = anyInt(t), x = v();
      line(x + " = arith.select " + c + ", " + a + ", " + b + " : " + t);
      ints.push_back({x, t});
      return;
    }
    if (k == 3) {
      auto u = ity();
      if (u != t) {
        int wt = std::stoi(t.substr(1)), wu = std::stoi(u.substr(1));
        auto a = anyInt(t), x = v();
        line(x + " = arith." + (wu > wt ? (r.chance(0.5) ? "extsi " : "extui ") : "trunci ") + a + " : " + t + " to " + u);
        ints.push_back({x, u});
        return;
      }
    }
    auto a = anyInt(t), b = anyInt(t), x = v();
    line(x + " = arith." + r.pick(std::vector<std::string>{"addi", "subi", "muli", "andi", "ori", "xori", "maxsi", "minui"}) + " " + a + ", " + b + " : " + t);
    ints.push_back({x, t});
  }
  Mem alloc() {
    Mem m;
    m.shape = shape(); m.elt = ity(); m.type = mtype(m.shape, m.elt); m.name = v();
    bool stack = r.chance(0.15);
    line(m.name + (stack ? " = memref.alloca() : " : " = memref.alloc() : ") + m.type);
    if (r.chance(0.75)) {
      // give it a content
      if (size(m.shape) <= 6 && r.chance(0.6)) {
        std::vector<int64_t> at(m.shape.size(), 0);
        for (int64_t q = 0; q < size(m.shape); q++) {
          int64_t z = q;
          std::vector<std::string> ix(at.size());
          for (size_t k = at.size(); k-- > 0;) { ix[k] = cidx(z % m.shape[k]); z /= m.shape[k]; }
          auto val = anyInt(m.elt);
          line("memref.store " + val + ", " + m.name + "[" + join(ix) + "] : " + m.type);
        }
      } else {
        auto val = anyInt(m.elt);
        std::vector<std::string> ivs;
        for (size_t k = 0; k < m.shape.size(); k++) { auto iv = v(); ivs.push_back(iv); line("affine.for " + iv + " = 0 to " + std::to_string(m.shape[k]) + " {"); ind += 2; }
        line("affine.store " + val + ", " + m.name + "[" + join(ivs) + "] : " + m.type);
        for (size_t k = 0; k < m.shape.size(); k++) { ind -= 2; line("}"); }
      }
    }
    mems.push_back(m);
    if (o.dealloc && !stack && ind == 4 && r.chance(0.4)) frees.push_back("memref.dealloc " + m.name + " : " + m.type);
    return m;
  }
  void view() {
    std::vector<Mem> c;
    for (auto &m : mems) if (!m.shape.empty() && m.type.find("strided") == std::string::npos) c.push_back(m);
    if (c.empty()) return;
    Mem m = r.pick(c), s = m;
    s.name = v();
    if (r.chance(0.3) && m.shape.size() == 2) {
      s.shape = {size(m.shape)};
      s.type = mtype(s.shape, s.elt);
      line(s.name + " = memref.collapse_shape " + m.name + " [[0, 1]] : " + m.type + " into " + s.type);
    } else if (r.chance(0.3)) {
      std::string st = "memref<";
      for (size_t k = 0; k < m.shape.size(); k++) st += "?x";
      s.type = st + m.elt + ">";
      auto d = v();
      line(d + " = memref.cast " + m.name + " : " + m.type + " to " + s.type);
      s.type = m.type;
      line(s.name + " = memref.cast " + d + " : " + st + m.elt + "> to " + m.type);
    } else {
      std::vector<std::string> off, sz, sd;
      std::vector<int64_t> ns;
      int64_t offset = 0, mul = 1;
      std::vector<int64_t> strides(m.shape.size());
      for (size_t k = m.shape.size(); k-- > 0;) { strides[k] = mul; mul *= m.shape[k]; }
      for (size_t k = 0; k < m.shape.size(); k++) {
        int64_t of = r.in(0, m.shape[k] - 1), ln = r.in(1, m.shape[k] - of);
        off.push_back(std::to_string(of)); sz.push_back(std::to_string(ln)); sd.push_back("1");
        ns.push_back(ln); offset += of * strides[k];
      }
      std::string st;
      for (size_t k = 0; k < strides.size(); k++) st += (k ? ", " : "") + std::to_string(strides[k]);
      s.shape = ns;
      s.type = "memref<";
      for (auto d : ns) s.type += std::to_string(d) + "x";
      s.type += m.elt + ", strided<[" + st + "], offset: " + std::to_string(offset) + ">>";
      line(s.name + " = memref.subview " + m.name + "[" + join(off) + "] [" + join(sz) + "] [" + join(sd) + "] : " + m.type + " to " + s.type);
    }
    mems.push_back(s);
  }
  void copy() {
    std::vector<std::pair<Mem, Mem>> c;
    for (auto &a : mems) for (auto &b : mems) if (b.writable && a.name != b.name && a.shape == b.shape && a.elt == b.elt) c.push_back({a, b});
    if (c.empty()) return;
    auto [a, b] = r.pick(c);
    line("memref.copy " + a.name + ", " + b.name + " : " + a.type + " to " + b.type);
  }
  int fns = 0;
  // a helper that reads and writes a buffer it is given
  void call() {
    std::vector<Mem> c;
    for (auto &m : mems) if (m.writable && m.type.find("strided") == std::string::npos) c.push_back(m);
    if (c.empty()) return;
    Mem m = r.pick(c);
    std::string f = "@helper" + std::to_string(fns++);
    std::string save = out; int si = ind; auto sints = ints; auto sidx = idxs; auto smems = mems; auto slast = last; auto stens = tens; int64_t siters = iters; auto so = o; auto sf = frees;
    out.clear(); ind = 4; ints.clear(); idxs.clear(); mems.clear(); last.clear(); tens.clear(); frees.clear();
    o.call = o.branch = o.sfor = o.afor = o.alloc = o.views = o.ext = o.pureCall = o.memOfMem = 0; o.aif = 0; o.dealloc = 0;
    Mem p = m; p.name = "%m"; mems.push_back(p); ints.push_back({"%x", m.elt});
    int k = r.in(1, 3);
    while (k--) r.chance(0.6) ? store() : load();
    auto res = anyInt(m.elt);
    line("return " + res + " : " + m.elt);
    extra += "  func.func private " + f + "(%m: " + m.type + ", %x: " + m.elt + ") -> " + m.elt + " {\n" + out + "  }\n";
    out = save; ind = si; ints = sints; idxs = sidx; mems = smems; last = slast; tens = stens; iters = siters; o = so; frees = sf;
    auto x = anyInt(m.elt), y = v();
    line(y + " = func.call " + f + "(" + m.name + ", " + x + ") : (" + m.type + ", " + m.elt + ") -> " + m.elt);
    ints.push_back({y, m.elt});
  }
  bool declaredExt = false;
  void extcall() {
    if (!declaredExt) { extra += "  func.func private @ext(i32) -> i32\n"; declaredExt = true; }
    auto x = anyInt("i32"), y = v();
    line(y + " = func.call @ext(" + x + ") : (i32) -> i32");
    ints.push_back({y, "i32"});
  }
  struct Scope { std::vector<Int> i; std::vector<Idx> x; std::vector<Mem> m; std::vector<Ten> t; std::vector<Last> l; int64_t it; };
  Scope save() { return {ints, idxs, mems, tens, last, iters}; }
  void restore(const Scope &s) { ints = s.i; idxs = s.x; mems = s.m; tens = s.t; last = s.l; iters = s.it; }
  void branch(bool affine) {
    auto t = r.chance(0.6) ? ity() : "";
    std::string x = v(), head;
    if (affine) {
      std::vector<Idx> c;
      for (auto &i : idxs) if (i.affine) c.push_back(i);
      if (c.empty()) return;
      Idx i = r.pick(c);
      head = "affine.if affine_set<(d0) : (" + std::string(r.chance(0.5) ? "d0 - " + std::to_string(r.in(0, 2)) + (r.chance(0.5) ? " >= 0" : " == 0") : std::to_string(r.in(0, 3)) + " - d0 >= 0") + ")>(" + i.name + ")";
    } else head = "scf.if " + anyInt("i1");
    bool els = t.size() || r.chance(0.5);
    line((t.size() ? x + " = " : "") + head + (t.size() ? " -> (" + t + ")" : "") + " {");
    for (int arm = 0; arm < (els ? 2 : 1); arm++) {
      if (arm) line("} else {");
      auto s = save();
      ind += 2;
      body(r.in(1, 3));
      if (t.size()) line((affine ? "affine.yield " : "scf.yield ") + anyInt(t) + " : " + t);
      ind -= 2;
      restore(s);
    }
    line("}");
    if (t.size()) ints.push_back({x, t});
  }
  void loop(bool affine) {
    int64_t lo = r.chance(0.6) ? 0 : r.in(0, 3), trip = r.chance(0.1) ? 0 : r.in(1, 4), step = r.chance(0.7) ? 1 : r.in(2, 3);
    if (iters * std::max<int64_t>(trip, 1) > 64) return;
    int64_t hi = lo + (trip == 0 ? 0 : (trip - 1) * step + r.in(1, step));
    auto t = o.iterArgs && r.chance(0.5) ? ity() : "";
    std::string x = v(), iv = v(), acc = v(), init;
    if (t.size()) init = anyInt(t);
    std::string head;
    if (affine) head = "affine.for " + iv + " = " + std::to_string(lo) + " to " + std::to_string(hi) + (step != 1 ? " step " + std::to_string(step) : "");
    else {
      auto a = cidx(lo), b = cidx(hi), c = cidx(step);
      head = "scf.for " + iv + " = " + a + " to " + b + " step " + c;
    }
    line((t.size() ? x + " = " : "") + head + (t.size() ? " iter_args(" + acc + " = " + init + ") -> (" + t + ")" : "") + " {");
    auto s = save();
    ind += 2;
    iters *= std::max<int64_t>(trip, 1);
    idxs.push_back({iv, std::max<int64_t>(hi, 1), affine});
    if (t.size()) ints.push_back({acc, t});
    body(r.in(1, 5));
    if (t.size()) line((affine ? "affine.yield " : "scf.yield ") + anyInt(t) + " : " + t);
    ind -= 2;
    restore(s);
    line("}");
    if (t.size()) ints.push_back({x, t});
  }
  void tensorOp() {
    int k = r.in(0, 9);
    if (tens.empty() || k == 0) {
      Ten t; t.shape = shape(); if (t.shape.empty()) t.shape = {1};
      t.elt = ity(); t.type = ttype(t.shape, t.elt); t.name = v();
      int how = r.in(0, 3);
      if (how == 0) line(t.name + " = arith.constant dense<" + lit(t.elt) + "> : " + t.type);
      else if (how == 1) {
        std::function<std::string(size_t)> lv = [&](size_t d) -> std::string {
          if (d == t.shape.size()) return lit(t.elt);
          std::string s = "[";
          for (int64_t q = 0; q < t.shape[d]; q++) s += (q ? ", " : "") + lv(d + 1);
          return s + "]";
        };
        line(t.name + " = arith.constant dense<" + lv(0) + "> : " + t.type);
      } else if (how == 2 && size(t.shape) <= 8) {
        std::vector<std::string> e;
        for (int64_t q = 0; q < size(t.shape); q++) e.push_back(anyInt(t.elt));
        line(t.name + " = tensor.from_elements " + join(e) + " : " + t.type);
      } else {
        line(t.name + " = tensor.splat " + anyInt(t.elt) + " : " + t.type);
      }
      tens.push_back(t);
      return;
    }
    Ten t = r.chance(0.5) ? tens.back() : r.pick(tens);
    std::vector<std::string> ix;
    std::vector<Last> c;
    for (auto &l : last) if (l.mem == t.type) c.push_back(l);
    if (!c.empty() && r.chance(0.45)) ix = r.pick(c).ix;
    else { ix = indices(t.shape, false); last.push_back({t.type, ix, false}); }
    if (k < 6) {
      Ten u = t;
      auto val = anyInt(t.elt);
      u.name = v();
      line(u.name + " = tensor.insert " + val + " into " + t.name + "[" + join(ix) + "] : " + t.type);
      tens.push_back(u);
    } else {
      auto x = v();
      line(x + " = tensor.extract " + t.name + "[" + join(ix) + "] : " + t.type);
      ints.push_back({x, t.elt});
    }
  }
  std::vector<std::string> pures; // helper declarations already made, by element type
  int level = 0;
  void body(int len) {
    level++;
    for (int k = 0; k < len; k++) {
      std::vector<std::pair<int, int>> w = {{o.arith, 0}, {o.load, 1}, {o.store, 2}, {o.alloc, 3}, {o.views, 4}, {o.copy, 5}, {o.call, 6}, {o.ext, 7}, {level < o.depth ? o.branch : 0, 8},
                                            {level < o.depth ? o.sfor : 0, 9}, {level < o.depth ? o.afor : 0, 10}, {level < o.depth ? o.aif : 0, 11}, {o.tens, 12}, {extraStmt ? 4 : 0, 13}};
      int tot = 0;
      for (auto &p : w) tot += p.first;
      int z = r.in(0, tot - 1), what = 0;
      for (auto &p : w) { if (z < p.first) { what = p.second; break; } z -= p.first; }
      switch (what) {
        case 0: arith(); break; case 1: load(); break; case 2: store(); break; case 3: alloc(); break; case 4: view(); break; case 5: copy(); break;
        case 6: call(); break; case 7: extcall(); break; case 8: branch(false); break; case 9: loop(false); break; case 10: loop(true); break;
        case 11: branch(true); break; case 12: tensorOp(); break; case 13: extraStmt(*this); break;
      }
    }
    level--;
  }
  std::function<void(Gen &)> extraStmt;
  std::vector<std::pair<std::string, std::string>> params; // name, type
  // a whole module with a function @f; returns its text
  std::string program() {
    ind = 4;
    for (int k = r.in(1, 3); k--;) { auto t = ity(); auto x = "%a" + std::to_string(params.size()); params.push_back({x, t}); ints.push_back({x, t}); }
    if (o.memArgs) for (int k = r.in(0, 2); k--;) {
      Mem m; m.shape = shape(); m.elt = ity(); m.type = mtype(m.shape, m.elt); m.name = "%a" + std::to_string(params.size());
      params.push_back({m.name, m.type}); mems.push_back(m);
    }
    if (o.tens && r.chance(0.6)) {
      Ten t; t.shape = shape(); t.elt = ity(); t.type = ttype(t.shape, t.elt); t.name = "%a" + std::to_string(params.size());
      params.push_back({t.name, t.type}); tens.push_back(t);
    }
    if (o.alloc || o.load) if (mems.empty() || r.chance(0.5)) { if (o.alloc) alloc(); }
    body(o.length);
    auto vals = ints; auto ts = tens; auto ms = mems;
    // return some values, favouring late ones
    for (int k = r.in(1, 4); k--;) { auto &i = vals[r.chance(0.6) ? r.in(std::max<int64_t>(0, (int64_t)vals.size() - 6), vals.size() - 1) : r.in(0, vals.size() - 1)]; retVals.push_back(i.name); retTypes.push_back(i.type); }
    if (!ts.empty()) { auto &t = ts[r.in(std::max<int64_t>(0, (int64_t)ts.size() - 3), ts.size() - 1)]; retVals.push_back(t.name); retTypes.push_back(t.type); }
    if (!ms.empty() && r.chance(0.4)) { auto &m = r.pick(ms); bool freed = false; for (auto &f : frees) freed |= f.find(m.name + " ") != std::string::npos; if (!freed) { retVals.push_back(m.name); retTypes.push_back(m.type); } }
    for (auto &f : frees) line(f);
    line("return " + join(retVals) + " : " + join(retTypes));
    std::string ps;
    for (size_t k = 0; k < params.size(); k++) ps += (k ? ", " : "") + params[k].first + ": " + params[k].second;
    return "module {\n" + extra + "  func.func @f(" + ps + ") -> (" + join(retTypes) + ") {\n" + out + "  }\n}\n";
  }
};
} // namespace gen
