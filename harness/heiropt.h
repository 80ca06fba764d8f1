// The whole compiler in this process: heir-opt's own registrations, and pipelines run in a child so that a crash is an observation.
#pragma once
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/DialectRegistry.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"

namespace heiropt {
using namespace mlir;
mlir::DialectRegistry &captured();
void init();
// a context with every dialect heir-opt knows; renewed now and then to bound memory
inline MLIRContext &ctx(bool renew = false) {
  static std::unique_ptr<MLIRContext> c;
  if (!c || renew) {
    init();
    c.reset();
    c = std::make_unique<MLIRContext>(captured(), MLIRContext::Threading::DISABLED);
    c->loadAllAvailableDialects();
  }
  return *c;
}
struct Quiet {
  std::string msgs;
  ScopedDiagnosticHandler h;
  explicit Quiet(MLIRContext &c) : h(&c, [this](Diagnostic &d) { msgs += d.str() + "\n"; return success(); }) {}
};
inline std::string text(Operation *op) { std::string s; llvm::raw_string_ostream os(s); op->print(os); return s; }
struct Compiled {
  enum { Ok, Refused, Crashed, TooLong } st = Crashed;
  std::vector<std::string> ir; // after each pipeline given
  std::string msgs;      // diagnostics, and what went to stderr
  int signal = 0;
};
// Runs each pipeline in turn ("a{x=1},b") on the program, in a child.
inline Compiled compile(const std::string &src, const std::vector<std::string> &pipelines, int seconds = 60, std::function<void(Operation *)> each = nullptr) {
  Compiled out;
  MLIRContext &c = ctx();
  int p[2], e[2];
  if (pipe(p) || pipe(e)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); close(e[0]);
    dup2(e[1], 2); dup2(e[1], 1);
    signal(SIGALRM, SIG_DFL);
    alarm(seconds);
    auto put = [&](char tag, const std::string &s) {
      std::string h(1, tag);
      uint64_t n = s.size();
      h.append((char *)&n, 8);
      h += s;
      for (size_t at = 0; at < h.size();) { ssize_t k = write(p[1], h.data() + at, h.size() - at); if (k <= 0) _exit(9); at += k; }
    };
    Quiet q(c);
    auto m = parseSourceString<ModuleOp>(src, ParserConfig(&c));
    if (!m) { put('P', q.msgs); _exit(0); }
    for (auto &pl : pipelines) {
      PassManager pm(&c);
      std::string err;
      llvm::raw_string_ostream es(err);
      if (failed(parsePassPipeline(pl, pm, es))) { put('P', err + pl); _exit(0); }
      if (failed(pm.run(*m))) { put('R', q.msgs); _exit(0); }
      put('I', text(*m));
    }
    put('D', q.msgs);
    _exit(0);
  }
  close(p[1]); close(e[1]);
  std::string data, err;
  bool po = true, eo = true;
  while (po || eo) {
    struct pollfd f[2] = {{po ? p[0] : -1, POLLIN, 0}, {eo ? e[0] : -1, POLLIN, 0}};
    if (poll(f, 2, -1) < 0) continue;
    char b[65536];
    if (po && f[0].revents) { ssize_t k = read(p[0], b, sizeof b); if (k > 0) data.append(b, k); else po = false; }
    if (eo && f[1].revents) { ssize_t k = read(e[0], b, sizeof b); if (k > 0) { if (err.size() < 20000) err.append(b, k); } else eo = false; }
  }
  close(p[0]); close(e[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  char last = 0;
  for (size_t at = 0; at + 9 <= data.size();) {
    char t = data[at];
    uint64_t n;
    memcpy(&n, data.data() + at + 1, 8);
    std::string s = data.substr(at + 9, n);
    at += 9 + n;
    if (t == 'I') out.ir.push_back(s); else out.msgs += s;
    last = t;
  }
  out.msgs += err;
  if (WIFSIGNALED(status)) { out.signal = WTERMSIG(status); out.st = out.signal == SIGALRM ? Compiled::TooLong : Compiled::Crashed; }
  else if (last == 'D') out.st = Compiled::Ok;
  else if (last == 'R') out.st = Compiled::Refused;
  else if (last == 'P') { out.st = Compiled::Refused; out.msgs = "PARSE: " + out.msgs; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 1) out.st = Compiled::Refused; // some passes exit(1) after a message
  return out;
}
} // namespace heiropt
