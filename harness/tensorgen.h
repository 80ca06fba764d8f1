// Random tensor programs in the shape the arithmetic pipelines accept.
#pragma once
namespace {
struct Prog { std::string text; std::map<std::string, int> kinds; };
struct TOpt { bool elementwise = false, linalg = false, shapes = false, loops = false, wide = false; int64_t slots = 64; int depth = 100; std::string elt = ""; };
struct TV { std::string name; std::vector<int64_t> shape; bool secret; int depth = 0; };
struct TGen {
  mon::Rng &r;
  TOpt o;
  Prog p;
  std::string out, T;
  bool fl;
  int n = 0, ind = 2;
  std::vector<TV> vs;
  std::vector<std::pair<std::string, TV>> args;
  TGen(mon::Rng &r, TOpt o) : r(r), o(o) {
    T = !o.elt.empty() ? o.elt : r.pick(std::vector<std::string>{"i16", "i32", "f32", "i16", "f32"});
    fl = T[0] == 'f';
  }
  static int64_t padded(const std::vector<int64_t> &s) { int64_t n = 1, p = 1; for (auto d : s) n *= d; while (p < n) p *= 2; return p; }
  bool fits(const std::vector<int64_t> &s) const { return padded(s) <= o.slots; }
  bool room(const std::vector<int64_t> &s) const { return o.wide || fits(s); }
  static bool p2(int64_t n) { return (n & (n - 1)) == 0; }
  std::string v() { return "%" + std::to_string(n++); }
  void line(const std::string &s) { out += std::string(ind, ' ') + s + "\n"; }
  std::string ty(const std::vector<int64_t> &s) const { if (s.empty() ) return T; std::string t = "tensor<"; for (auto d : s) t += std::to_string(d) + "x"; return t + T + ">"; }
  std::string tty(const std::vector<int64_t> &s) const { return s.empty() ? "tensor<" + T + ">" : ty(s); }
  TV last(TV x) { x.depth = o.depth; return add(x); } // not used further: known findings about what follows such operations
  TV add(TV x) { vs.push_back(x); return x; }
  std::string lit() { int64_t k = r.in(-6, 8); if (k == 0) k = 3; return fl ? std::to_string(k / 4.0) : std::to_string(k); }
  std::string dense(const std::vector<int64_t> &s, size_t at = 0) {
    if (at == s.size()) return lit();
    std::string t = "[";
    for (int64_t k = 0; k < s[at]; k++) t += (k ? ", " : "") + dense(s, at + 1);
    return t + "]";
  }
  TV constant(const std::vector<int64_t> &s, bool zero = false, bool scalarTensor = false) {
    auto x = v();
    std::string z = fl ? "0.0" : "0";
    if (s.empty() && !scalarTensor) { line(x + " = arith.constant " + (zero ? z : lit()) + " : " + T); return {x, s, false}; }
    std::string body = zero ? z : s.empty() || r.chance(0.2) ? lit() : dense(s);
    line(x + " = arith.constant dense<" + body + "> : " + tty(s));
    return {x, s, false};
  }
  int64_t dim() { return r.chance(0.7) ? r.pick(std::vector<int64_t>{2, 4, 8}) : r.in(2, o.wide ? 12 : 9); }
  TV arg(const std::vector<int64_t> &s, bool secret) {
    TV x{"%a" + std::to_string(args.size()), s, secret};
    args.push_back({"", x});
    return x;
  }
  // a secret value of this shape, if there is one
  bool find(const std::vector<int64_t> &s, TV &x) {
    std::vector<TV> c;
    for (auto &y : vs) if (y.shape == s && y.secret && y.depth < o.depth) c.push_back(y);
    if (c.empty()) return false;
    x = r.chance(0.5) ? c.back() : r.pick(c);
    return true;
  }
  TV other(const std::vector<int64_t> &s, double pub = 0.4) {
    TV x;
    if (!r.chance(pub) && find(s, x)) return x;
    if (r.chance(0.25) && args.size() < 4) { auto y = arg(s, r.chance(0.5)); return add(y); }
    return constant(s);
  }
  TV secretAny(std::function<bool(const TV &)> ok) {
    std::vector<TV> c;
    for (auto &y : vs) if (y.secret && y.depth < o.depth && ok(y)) c.push_back(y);
    if (c.empty()) return {};
    return r.chance(0.6) ? c.back() : r.pick(c);
  }
  std::string op(const char *n) { return std::string("arith.") + n + (fl ? "f" : "i"); }
  bool elementwise() {
    auto a = secretAny([](const TV &) { return true; });
    if (a.name.empty()) return false;
    TV b = other(a.shape);
    std::string o2 = r.pick(std::vector<std::string>{"add", "sub", "mul"});
    bool sq = r.chance(0.12);
    if (a.name == b.name && o2 == "sub") o2 = "add";
    if (sq) { b = a; o2 = "mul"; }
    if (r.chance(0.3)) std::swap(a, b);
    auto x = v();
    line(x + " = " + op(o2.c_str()) + " " + a.name + ", " + b.name + " : " + ty(a.shape));
    p.kinds[sq ? "square" : o2]++;
    add({x, a.shape, true, std::max(a.depth, b.depth) + (o2 == "mul")});
    return true;
  }
  TV init(const std::vector<int64_t> &s, int depth) {
    if (r.chance(0.6)) return constant(s, true, true);
    TV x;
    if (!s.empty() && r.chance(0.3) && find(s, x)) { p.kinds["secret init"]++; return x; }
    return constant(s, false, true);
  }
  std::string ls(const std::vector<int64_t> &s) { return tty(s); }
  bool linalg() {
    int k = r.in(0, o.wide ? 8 : 6);
    auto named = [&](const std::string &name, const std::string &attr, const TV &a, const TV &b, const std::vector<int64_t> &s) {
      auto i = init(s, 0);
      auto x = v();
      line(x + " = linalg." + name + " " + attr + "ins(" + a.name + ", " + b.name + " : " + ls(a.shape) + ", " + ls(b.shape) + ") outs(" + i.name + " : " + ls(s) + ") -> " + ls(s));
      p.kinds[name + (a.secret && b.secret ? " ct-ct" : "")]++;
      if (s.empty()) { auto y = v(); line(y + " = tensor.extract " + x + "[] : " + tty(s)); x = y; }
      TV res{x, s, true, std::max({a.depth, b.depth, i.depth}) + 1};
      if (s.empty() || name == "matmul") last(res); else add(res);
    };
    if (k == 0 || k == 1) { // matvec, vecmat with a public matrix
      auto a = secretAny([](const TV &y) { return y.shape.size() == 1; });
      if (a.name.empty()) return false;
      int64_t m = dim();
      if (!o.wide) k = 0;
      if (!room(a.shape) || !room({m})) return false;
      if (k == 0) named("matvec", "", constant({m, a.shape[0]}), a, {m});
      else named("vecmat", "", a, constant({a.shape[0], m}), {m});
      return true;
    }
    if (k == 2) {
      auto a = secretAny([](const TV &y) { return y.shape.size() == 1; });
      if (a.name.empty()) return false;
      auto b = other(a.shape, 0.4);
      named("dot", "", a, b, {});
      return true;
    }
    if (k == 3 || k == 4) {
      auto a = secretAny([](const TV &y) { return y.shape.size() == 2 && y.name[1] == 'a'; }); // computed operands may crash the compiler
      if (a.name.empty()) return false;
      int64_t m = dim();
      bool left = r.chance(0.3);
      { int64_t x = a.shape[0], y = a.shape[1]; // other dimensions: known finding matmul-dims
        auto co = [](int64_t a, int64_t b) { return std::gcd(a, b) == 1; }; if (!co(x, y) || (!o.wide && (x == 1 || y == 1))) return false; for (int t = 0; t < 8 && !(co(m, x) && co(m, y) && x * y * m <= o.slots); t++) m = dim(); if (!(co(m, x) && co(m, y) && x * y * m <= o.slots)) return false; }
      std::vector<int64_t> bs = left ? std::vector<int64_t>{m, a.shape[0]} : std::vector<int64_t>{a.shape[1], m};
      TV b;
      if (!(r.chance(0.35) && find(bs, b) && b.name[1] == 'a')) { if (r.chance(0.3) && args.size() < 4) { b = add(arg(bs, true)); } else b = constant(bs); }
      if (left) named("matmul", "", b, a, {m, a.shape[1]}); else named("matmul", "", a, b, {a.shape[0], m});
      return true;
    }
    if (k == 5) { // reduce
      auto a = secretAny([](const TV &y) { return y.shape.size() >= 1; });
      if (a.name.empty()) return false;
      std::vector<int64_t> dims, s;
      size_t d = a.shape.size() - 1; // other dimensions: known finding reduce-dimension
      if (!fits(a.shape)) return false;
      for (size_t q = 0; q < a.shape.size(); q++) if (q == d || (o.wide && r.chance(0.1))) dims.push_back(q); else s.push_back(a.shape[q]);
      auto i = init(s, 0);
      bool mul = r.chance(0.2) && a.depth + 4 < o.depth;
      auto x = v();
      line(x + " = linalg.reduce { " + op(mul ? "mul" : "add") + " } ins(" + a.name + " : " + ls(a.shape) + ") outs(" + i.name + " : " + ls(s) + ") dimensions = " + mon::str(dims));
      p.kinds[mul ? "reduce mul" : "reduce add"]++;
      if (s.empty()) { auto y = v(); line(y + " = tensor.extract " + x + "[] : " + tty(s)); x = y; }
      last({x, s, true, a.depth + (mul ? 4 : 0)});
      return true;
    }
    if (k == 6) { // 2-d convolution
      auto a = secretAny([](const TV &y) { return y.shape.size() == 2; });
      if (a.name.empty()) return false;
      if (!room(a.shape)) return false;
      int64_t fh = r.in(1, std::min<int64_t>(3, a.shape[0])), fw = r.in(1, std::min<int64_t>(3, a.shape[1]));
      named("conv_2d", "", a, constant({fh, fw}), {a.shape[0] - fh + 1, a.shape[1] - fw + 1});
      return true;
    }
    if (k == 7) {
      auto a = secretAny([](const TV &y) { return y.shape.size() == 1 && y.shape[0] > 2; });
      if (a.name.empty()) return false;
      int64_t f = r.in(1, std::min<int64_t>(4, a.shape[0] - 1));
      named("conv_1d", "", a, constant({f}), {a.shape[0] - f + 1});
      return true;
    }
    auto a = secretAny([](const TV &y) { return y.shape.size() == 2 && y.shape[0] * y.shape[1] % 4 == 0; });
    if (a.name.empty()) return false;
    int64_t ch = r.chance(0.5) ? 1 : 2, h = a.shape[0], w = a.shape[1];
    if (h % ch) ch = 1;
    h /= ch;
    auto e = v();
    line(e + " = tensor.expand_shape " + a.name + " [[0, 1, 2], [3]] output_shape " + mon::str(std::vector<int64_t>{1, ch, h, w}) + " : " + ty(a.shape) + " into " + ty({1, ch, h, w}));
    int64_t f = r.in(1, 3), k2 = r.in(1, std::min<int64_t>({3, h, w})), st = r.in(1, 2);
    if (h < k2 || w < k2) return false;
    TV in{e, {1, ch, h, w}, true, a.depth};
    named("conv_2d_nchw_fchw", "{dilations = dense<1> : vector<2xi64>, strides = dense<" + std::to_string(st) + "> : vector<2xi64>} ", in, constant({f, ch, k2, k2}), {1, f, (h - k2) / st + 1, (w - k2) / st + 1});
    return true;
  }
  bool shapes() {
    int k = r.in(0, 5);
    auto a = secretAny([](const TV &y) { return y.shape.size() >= 1; });
    if (a.name.empty()) return false;
    auto x = v();
    if (k == 0) { // extract a scalar
      std::string ix;
      for (size_t q = 0; q < a.shape.size(); q++) { auto c = v(); line(c + " = arith.constant " + std::to_string(r.in(0, a.shape[q] - 1)) + " : index"); ix += (q ? ", " : "") + c; }
      line(x + " = tensor.extract " + a.name + "[" + ix + "] : " + ty(a.shape));
      last({x, {}, true, a.depth + 1});
      p.kinds["extract"]++;
      return true;
    }
    if (k == 1) { // insert a scalar; into tensors spread over several ciphertexts it is a known finding
      if (!fits(a.shape)) return false;
      TV s;
      if (!find({}, s)) { if (o.wide && args.size() < 4 && r.chance(0.7)) s = add(arg({}, true)); else s = constant({}); }
      std::string ix;
      for (size_t q = 0; q < a.shape.size(); q++) { auto c = v(); line(c + " = arith.constant " + std::to_string(r.in(0, a.shape[q] - 1)) + " : index"); ix += (q ? ", " : "") + c; }
      line(x + " = tensor.insert " + s.name + " into " + a.name + "[" + ix + "] : " + ty(a.shape));
      last({x, a.shape, true, std::max(a.depth, s.depth) + 1});
      p.kinds["insert"]++;
      return true;
    }
    auto arr = [](const std::vector<int64_t> &z) { return mon::str(z); };
    if (k == 2) { // extract_slice
      std::vector<int64_t> off, size, st, res;
      for (auto d : a.shape) {
        if (r.chance(0.3) && a.shape.size() > 1) { off.push_back(r.in(0, d - 1)); size.push_back(1); st.push_back(1); continue; }
        int64_t t = r.chance(0.25) ? 2 : 1, f = r.in(0, d - 1), m = (d - 1 - f) / t + 1, z = r.in(1, m);
        off.push_back(f); size.push_back(z); st.push_back(t); res.push_back(z);
      }
      if (res.empty()) return false;
      line(x + " = tensor.extract_slice " + a.name + arr(off) + " " + arr(size) + " " + arr(st) + " : " + ty(a.shape) + " to " + ty(res));
      last({x, res, true, a.depth + 1});
      p.kinds["extract_slice"]++;
      return true;
    }
    if (k == 3) { // insert_slice; partial slices and slices into computed values are known findings
      if (o.wide || a.name[1] != 'a') return false;
      std::vector<int64_t> off, size, st;
      std::vector<int64_t> res;
      for (auto d : a.shape) {
        if (r.chance(0.4) && a.shape.size() > 1) { off.push_back(r.in(0, d - 1)); size.push_back(1); st.push_back(1); continue; }
        int64_t f = r.in(0, d - 1), z = r.in(1, d - f);
        f = 0, z = d;
        off.push_back(f); size.push_back(z); st.push_back(1); res.push_back(z);
      }
      if (res.empty() || padded(res) == 1) return false;
      TV b;
      if (o.wide) b = other(res, 0.3);
      else if (!find(res, b)) { if (args.size() >= 4) return false; b = add(arg(res, true)); }
      line(x + " = tensor.insert_slice " + b.name + " into " + a.name + arr(off) + " " + arr(size) + " " + arr(st) + " : " + ty(res) + " into " + ty(a.shape));
      last({x, a.shape, true, std::max(a.depth, b.depth) + 1});
      p.kinds["insert_slice"]++;
      return true;
    }
    if (k == 4) { // expand or collapse
      if (a.shape.size() == 1) {
        std::vector<int64_t> ds;
        for (int64_t d = 1; d <= a.shape[0]; d++) if (a.shape[0] % d == 0) ds.push_back(d);
        int64_t d = o.wide ? r.pick(ds) : r.chance(0.5) ? 1 : a.shape[0];
        std::vector<int64_t> s{d, a.shape[0] / d};
        line(x + " = tensor.expand_shape " + a.name + " [[0, 1]] output_shape " + arr(s) + " : " + ty(a.shape) + " into " + ty(s));
        add({x, s, true, a.depth});
        p.kinds["expand_shape"]++;
        return true;
      }
      if (a.shape.size() != 2) return false;
      if (!o.wide && a.shape[0] != 1 && a.shape[1] != 1) return false;
      std::vector<int64_t> s{a.shape[0] * a.shape[1]};
      line(x + " = tensor.collapse_shape " + a.name + " [[0, 1]] : " + ty(a.shape) + " into " + ty(s));
      add({x, s, true, a.depth});
      p.kinds["collapse_shape"]++;
      return true;
    }
    // zero padding
    std::vector<int64_t> lo, hi, s;
    for (auto d : a.shape) { lo.push_back(r.in(0, 2)); hi.push_back(r.in(0, 2)); s.push_back(d + lo.back() + hi.back()); }
    if (!room(s)) return false;
    auto z = constant({}, true);
    line(x + " = tensor.pad " + a.name + " low" + arr(lo) + " high" + arr(hi) + " {");
    line("^bb0(%p0: index" + std::string(a.shape.size() > 1 ? ", %p1: index" : "") + (a.shape.size() > 2 ? ", %p2: index, %p3: index" : "") + "):");
    line("  tensor.yield " + z.name + " : " + T);
    line("} : " + ty(a.shape) + " to " + ty(s));
    last({x, s, true, a.depth + 1});
    p.kinds["pad"]++;
    return true;
  }
  std::string idx(const std::string &i, int64_t N, const std::string &c0) {
    // an index expression from the loop counter, wrapping around as in stencils
    int k = o.wide ? r.in(0, 3) : r.pick(std::vector<int>{0, 2, 3});
    auto x = v();
    if (k == 0) return i;
    if (k == 1) { line(x + " = arith.constant " + std::to_string(r.in(0, N - 1)) + " : index"); return x; }
    line(x + " = affine.apply affine_map<(d0) -> ((d0 + " + std::to_string(r.in(0, N)) + ") mod " + std::to_string(N) + ")>(" + i + ")");
    return x;
  }
  bool loops() {
    int k = r.in(0, 2);
    if (k == 0) { // accumulate a scalar over a vector
      auto a = secretAny([&](const TV &y) { return y.shape.size() == 1 && p2(y.shape[0]) && fits(y.shape); }); // other lengths: known finding rotate-length
      if (a.name.empty()) return false;
      auto b = other(a.shape, 0.3);
      auto z = constant({});
      auto x = v(), i = v(), acc = v();
      bool prod = r.chance(0.4);
      line(x + " = affine.for " + i + " = 0 to " + std::to_string(a.shape[0]) + " iter_args(" + acc + " = " + z.name + ") -> (" + T + ") {");
      ind += 2;
      auto e = v();
      line(e + " = tensor.extract " + a.name + "[" + i + "] : " + ty(a.shape));
      if (prod) { auto g = v(), m = v(); line(g + " = tensor.extract " + b.name + "[" + i + "] : " + ty(a.shape)); line(m + " = " + op("mul") + " " + e + ", " + g + " : " + T); e = m; }
      auto s = v();
      line(s + " = " + op("add") + " " + acc + ", " + e + " : " + T);
      line("affine.yield " + s + " : " + T);
      ind -= 2;
      line("}");
      last({x, {}, true, std::max(a.depth, b.depth) + 1});
      p.kinds["accumulation loop"]++;
      return true;
    }
    if (k == 1) { // elementwise stencil
      auto a = secretAny([&](const TV &y) { return y.shape.size() == 1 && p2(y.shape[0]) && fits(y.shape); });
      if (a.name.empty()) return false;
      auto b = other(a.shape, 0.2);
      auto d = r.chance(0.5) ? a : b;
      int64_t N = a.shape[0];
      auto x = v(), i = v(), acc = v();
      line(x + " = affine.for " + i + " = 0 to " + std::to_string(N) + " iter_args(" + acc + " = " + d.name + ") -> (" + ty(a.shape) + ") {");
      ind += 2;
      std::string cur;
      int terms = r.in(1, 3);
      for (int t = 0; t < terms; t++) {
        auto ix = idx(i, N, "");
        auto e = v();
        line(e + " = tensor.extract " + (t == 0 || r.chance(0.6) ? a.name : b.name) + "[" + ix + "] : " + ty(a.shape));
        if (r.chance(0.3)) { auto cst = constant({}); auto m = v(); line(m + " = " + op("mul") + " " + e + ", " + cst.name + " : " + T); e = m; }
        if (cur.empty()) cur = e;
        else { auto m = v(); line(m + " = " + op(r.pick(std::vector<const char *>{"add", "sub", "mul"})) + " " + cur + ", " + e + " : " + T); cur = m; }
      }
      auto s = v();
      line(s + " = tensor.insert " + cur + " into " + acc + "[" + i + "] : " + ty(a.shape));
      line("affine.yield " + s + " : " + ty(a.shape));
      ind -= 2;
      line("}");
      add({x, a.shape, true, std::max(a.depth, b.depth) + 3});
      p.kinds["stencil loop"]++;
      return true;
    }
    // iterate an elementwise step
    auto a = secretAny([](const TV &y) { return !y.shape.empty(); });
    if (a.name.empty()) return false;
    int64_t N = r.in(1, 4);
    auto z = r.chance(0.5) ? a : constant(a.shape);
    auto c = constant(a.shape);
    auto x = v(), i = v(), acc = v();
    line(x + " = affine.for " + i + " = 0 to " + std::to_string(N) + " iter_args(" + acc + " = " + z.name + ") -> (" + ty(a.shape) + ") {");
    ind += 2;
    auto m = v(), s = v();
    line(m + " = " + op(r.pick(std::vector<const char *>{"mul", "add"})) + " " + acc + ", " + a.name + " : " + ty(a.shape));
    line(s + " = " + op("sub") + " " + m + ", " + c.name + " : " + ty(a.shape));
    line("affine.yield " + s + " : " + ty(a.shape));
    ind -= 2;
    line("}");
    add({x, a.shape, true, a.depth + (int)N});
    p.kinds["iteration loop"]++;
    return true;
  }
  Prog make() {
    std::vector<int64_t> s;
    int rank = r.chance(0.55) ? 1 : 2;
    for (bool ok = false; !ok; ok = room(s)) { s.clear(); for (int k = 0; k < rank; k++) s.push_back(rank == 1 && r.chance(0.4) ? r.pick(std::vector<int64_t>{8, 16}) : dim()); }
    add(arg(s, true));
    if (r.chance(0.4)) add(arg(s, r.chance(0.7)));
    int want = r.in(1, o.wide ? 6 : 4), done = 0;
    if (getenv("TG_OPS")) want = atoi(getenv("TG_OPS"));
    for (int t = 0; t < 30 && done < want; t++) {
      std::vector<int> ks;
      if (o.elementwise) ks.push_back(0);
      if (o.linalg) { ks.push_back(1); ks.push_back(1); }
      if (o.shapes) { ks.push_back(2); ks.push_back(2); }
      if (o.loops) { ks.push_back(3); ks.push_back(3); }
      switch (r.pick(ks)) {
        case 0: done += elementwise(); break;
        case 1: done += linalg(); break;
        case 2: done += shapes(); break;
        default: done += loops();
      }
    }
    // return the last value, sometimes another as well
    TV last;
    for (auto &x : vs) if (x.secret && x.name[1] != 'a') last = x;
    if (last.name.empty()) last = vs[0];
    std::vector<TV> ret{last};
    if (r.chance(0.2) && (o.wide || !o.shapes)) { TV y = r.pick(vs); if (y.secret && y.name[1] != 'a' && y.name != last.name) ret.push_back(y); }
    std::string sig, rt, rv;
    for (size_t k = 0; k < args.size(); k++) sig += (k ? ", " : "") + args[k].second.name + ": " + ty(args[k].second.shape) + (args[k].second.secret ? " {secret.secret}" : "");
    for (size_t k = 0; k < ret.size(); k++) { rt += (k ? ", " : "") + ty(ret[k].shape); rv += (k ? ", " : "") + ret[k].name; }
    p.text = "module {\n  func.func @f(" + sig + ") -> (" + rt + ") {\n" + out + "    return " + rv + " : " + rt + "\n  }\n}\n";
    return p;
  }
};
} // namespace
