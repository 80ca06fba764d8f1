// Monitoring harness runtime: case generation, sharding over forked workers, crash/hang capture, observation counters.
// A harness defines families with MON_FAMILY(name, quick, thorough) { body using `c` } and links this header once.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive
  int64_t in(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    return span == 0 ? (int64_t)next() : (int64_t)((uint64_t)lo + next() % span);
  }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};

inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return h;
}

struct Shared {  // written by the worker, read by the parent after a crash
  volatile int64_t current;
  char desc[6000];
};

struct Stats {
  uint64_t evaluations = 0, skipped = 0, trivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> events;
  std::vector<std::string> samples;
};

struct Violation { std::string key, family, msg, desc; int64_t index; };

struct Case {
  Rng rng;
  std::string family;
  int64_t index;
  bool thorough;
  Shared *sh;
  Stats *st;
  std::vector<Violation> *viol;
  std::string description;
  bool isTrivial = false, isSkipped = false, failed = false;

  // Says what this case is: must be called before running the code under test so crashes carry it.
  void describe(const std::string &d) {
    description = d;
    strncpy(sh->desc, d.c_str(), sizeof(sh->desc) - 1);
  }
  void trivial() { isTrivial = true; }
  void skip() { isSkipped = true; }
  void event(const std::string &name, uint64_t n = 1) { st->events[name] += n; }
  // Records a violation; key identifies the kind of failure (stable across seeds).
  void fail(const std::string &key, const std::string &msg) {
    failed = true;
    if (viol->size() < 200) viol->push_back({key, family, msg.substr(0, 4000), description.substr(0, 6000), index});
  }
  bool check(bool ok, const std::string &key, const std::function<std::string()> &msg) {
    event("comparisons");
    if (!ok) fail(key, msg());
    return ok;
  }
  bool check(bool ok, const std::string &key, const char *msg) {
    event("comparisons");
    if (!ok) fail(key, msg);
    return ok;
  }
};

struct Family {
  std::string name;
  int64_t quick, thorough;
  int caseSeconds;
  void (*fn)(Case &);
};
inline std::vector<Family> &families() { static std::vector<Family> f; return f; }
struct Reg {
  Reg(const char *n, int64_t q, int64_t t, int secs, void (*fn)(Case &)) { families().push_back({n, q, t, secs, fn}); }
};
#define MON_FAMILY_T(NAME, QUICK, THOROUGH, SECS) \
  static void fam_##NAME(mon::Case &c);           \
  static mon::Reg reg_##NAME(#NAME, QUICK, THOROUGH, SECS, fam_##NAME); \
  static void fam_##NAME([[maybe_unused]] mon::Case &c)
#define MON_FAMILY(NAME, QUICK, THOROUGH) MON_FAMILY_T(NAME, QUICK, THOROUGH, 20)

inline std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch == '\t') o += "\\t";
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

template <class T> std::string str(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; }
  o << "]";
  return o.str();
}
inline std::string str(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
struct S {  // string builder: (S() << "a" << 1).s()
  std::string b;
  template <class T> S &operator<<(const T &t) {
    std::ostringstream o;
    if constexpr (std::is_floating_point_v<T>) o.precision(17);
    o << t;
    b += o.str();
    return *this;
  }
  template <class T> S &operator<<(const std::vector<T> &t) { b += str(t); return *this; }
  std::string s() const { return b; }
  operator std::string() const { return b; }
};
inline std::ostream &operator<<(std::ostream &o, const S &s) { return o << std::string(s); }

inline uint64_t seedOf(uint64_t seed, const std::string &fam, int64_t i) {
  Rng r(hashStr(fam) ^ (seed * 0xD1342543DE82EF95ull) ^ ((uint64_t)i * 0xA0761D6478BD642Full));
  r.next();
  return r.next();
}

struct Job { int fam; int64_t lo, hi; int crashes; };

// Runs cases [lo,hi) in this process and writes one JSON document to path.
inline void runRange(const Family &f, int64_t lo, int64_t hi, uint64_t seed, bool thorough, Shared *sh, const std::string &path) {
  Stats st;
  std::vector<Violation> viol;
  auto flush = [&]() {
    std::ofstream o(path);
    o << "{\"family\":" << js(f.name) << ",\"evaluations\":" << st.evaluations << ",\"skipped\":" << st.skipped << ",\"trivial\":" << st.trivial;
    o << ",\"distinct\":[";
    bool first = true;
    for (auto h : st.distinct) { o << (first ? "" : ",") << js(std::to_string(h)); first = false; }
    o << "],\"events\":{";
    first = true;
    for (auto &[k, v] : st.events) { o << (first ? "" : ",") << js(k) << ":" << v; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto &s : st.samples) { o << (first ? "" : ",") << js(s); first = false; }
    o << "],\"violations\":[";
    first = true;
    for (auto &v : viol) {
      o << (first ? "" : ",") << "{\"key\":" << js(v.key) << ",\"family\":" << js(v.family) << ",\"index\":" << v.index << ",\"msg\":" << js(v.msg) << ",\"desc\":" << js(v.desc) << "}";
      first = false;
    }
    o << "]}\n";
  };
  int64_t lastFlush = lo;
  for (int64_t i = lo; i < hi; ++i) {
    sh->current = i;
    sh->desc[0] = 0;
    struct rlimit rl;
    getrlimit(RLIMIT_CPU, &rl);
    alarm(f.caseSeconds);
    Case c{Rng(seedOf(seed, f.name, i)), f.name, i, thorough, sh, &st, &viol, "", false, false, false};
    f.fn(c);
    alarm(0);
    if (c.isSkipped) { st.skipped++; continue; }
    st.evaluations++;
    if (c.isTrivial) st.trivial++;
    else st.distinct.insert(hashStr(f.name + c.description));
    if (st.samples.size() < 2 && !c.isTrivial) st.samples.push_back((f.name + ": " + c.description).substr(0, 600));
    if (i - lastFlush > 2000) { flush(); lastFlush = i; }
    if (viol.size() >= 200) { sh->current = i + 1; flush(); return; }
  }
  sh->current = hi;
  flush();
}

inline int monMain(int argc, char **argv) {
  uint64_t seed = 1;
  bool thorough = false;
  std::string out = "stats", only, match;
  int64_t caseIdx = -1, maxSeconds = 420;
  int procs = 8;
  double scale = 1.0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--out") out = val();
    else if (a == "--family") only = val();
    else if (a == "--max-seconds") maxSeconds = std::stoll(val());
    else if (a == "--match") match = val();
    else if (a == "--case") caseIdx = std::stoll(val());
    else if (a == "--procs") procs = std::stoi(val());
    else if (a == "--scale") scale = std::stod(val());
  }
  auto &fs = families();
  if (caseIdx >= 0) {  // replay of one case, in-process
    static Shared sh;
    for (auto &f : fs)
      if (f.name == only) {
        runRange(f, caseIdx, caseIdx + 1, seed, thorough, &sh, out);
        std::ifstream in(out);
        std::cout << in.rdbuf();
      }
    return 0;
  }
  std::vector<Job> queue;
  for (size_t k = 0; k < fs.size(); ++k) {
    if (!only.empty() && ("," + only + ",").find("," + fs[k].name + ",") == std::string::npos) continue;
    if (fs[k].name.compare(0, match.size(), match) != 0) continue;
    int64_t n = (int64_t)std::ceil((thorough ? fs[k].thorough : fs[k].quick) * scale);
    int64_t chunk = std::max<int64_t>(1, (n + 4 * procs - 1) / (4 * procs));
    for (int64_t lo = 0; lo < n; lo += chunk) queue.push_back({(int)k, lo, std::min(n, lo + chunk), 0});
  }
  // interleave families so slow ones start early
  std::stable_sort(queue.begin(), queue.end(), [](const Job &a, const Job &b) { return a.lo < b.lo; });
  struct Run { Job job; pid_t pid; Shared *sh; std::string path, err; };
  std::vector<Run> running;
  size_t next = 0, serial = 0;
  std::ofstream crashes(out + ".crashes");
  std::map<int, int> crashCount;
  time_t start = time(nullptr);
  int64_t dropped = 0;
  while (next < queue.size() || !running.empty()) {
    while (next < queue.size() && (int)running.size() < procs) {
      Job j = queue[next++];
      if (crashCount[j.fam] >= 6 || time(nullptr) - start > maxSeconds) { ++dropped; continue; }
      Run r{j, 0, nullptr, out + "." + std::to_string(serial), out + "." + std::to_string(serial) + ".err"};
      ++serial;
      r.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      r.sh->current = j.lo;
      fflush(stdout);
      r.pid = fork();
      if (r.pid == 0) {
        int fd = open(r.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        crashes.close();
        runRange(fs[j.fam], j.lo, j.hi, seed, thorough, r.sh, r.path);
        _exit(0);
      }
      running.push_back(r);
    }
    int status = 0;
    pid_t p = wait(&status);
    for (size_t k = 0; k < running.size(); ++k) {
      if (running[k].pid != p) continue;
      Run r = running[k];
      running.erase(running.begin() + k);
      bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
      if (!ok) {
        int64_t cur = r.sh->current;
        bool hang = WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM;
        bool killed = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
        crashCount[r.job.fam] += hang ? 3 : 1;
        crashes << "{\"family\":" << js(fs[r.job.fam].name) << ",\"index\":" << cur << ",\"hang\":" << (hang ? "true" : "false")
                << ",\"killed\":" << (killed ? "true" : "false") << ",\"status\":" << status << ",\"err\":" << js(r.err) << ",\"desc\":" << js(r.sh->desc) << "}\n";
        crashes.flush();
        // redo the part before the crash is lost work; run [lo,cur) again, then continue after it
        if (cur > r.job.lo) queue.push_back({r.job.fam, r.job.lo, cur, r.job.crashes + 1});
        if (cur + 1 < r.job.hi) queue.push_back({r.job.fam, cur + 1, r.job.hi, r.job.crashes + 1});
      } else {
        unlink(r.err.c_str());
      }
      munmap(r.sh, sizeof(Shared));
      break;
    }
  }
  std::ofstream done(out + ".done");
  done << serial << " " << dropped << "\n";
  return 0;
}

}  // namespace mon
#define MON_MAIN() int main(int argc, char **argv) { return mon::monMain(argc, argv); }
