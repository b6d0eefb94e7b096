#pragma once
// Exploration kernel shared by all harnesses: worker processes, a shared
// bitmap of visited state hashes, crash capture, violation records, and the
// machine-readable report the runner turns into evidence.
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

constexpr int MAXV = 64;
constexpr double HANG_S = 60; // a worker without progress for so long is stuck
constexpr int TXT = 1800;
struct Violation {
  char key[256];
  char text[TXT];
  char replay[512];
};
struct Worker {
  std::atomic<uint64_t> states, transitions, traces, outcomes, nontrivial;
  std::atomic<int> nviol;
  Violation v[MAXV];
  char current[512]; // case being executed (for crash attribution)
  char sample[4][256];
  int nsample;
  std::atomic<int> done;
  char err[512];
};
struct Shared {
  Worker w[64];
  std::atomic<uint64_t> next;        // dynamic work queue
  std::atomic<uint64_t> counters[32];
};
inline Shared *&sh() { static Shared *p = nullptr; return p; }
inline std::atomic<uint8_t> *&bm() { static std::atomic<uint8_t> *p = nullptr; return p; }
inline uint64_t &bm_bits() { static uint64_t b = 0; return b; }
inline int &me() { static int m = 0; return m; }
inline Worker &W() { return sh()->w[me()]; }
inline double &deadline() { static double d = 1e18; return d; }
inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567) {
  const uint8_t *b = (const uint8_t *)p;
  while (n >= 8) { uint64_t v; std::memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
  uint64_t v = 0;
  if (n) { std::memcpy(&v, b, n); h = mix(h, v ^ (uint64_t(n) << 56)); }
  return h;
}
inline void init(uint64_t bits = 1ull << 30) {
  sh() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bm_bits() = bits;
  bm() = (std::atomic<uint8_t> *)mmap(nullptr, bits / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
// true if new
inline bool visit(uint64_t h) {
  h = mix(h, 0x77);
  uint64_t i = h % bm_bits();
  uint8_t m = uint8_t(1u << (i & 7));
  if (bm()[i >> 3].load(std::memory_order_relaxed) & m) return false;
  uint8_t old = bm()[i >> 3].fetch_or(m, std::memory_order_relaxed);
  if (old & m) return false;
  W().states.fetch_add(1, std::memory_order_relaxed);
  return true;
}
inline void trans(uint64_t n = 1) { W().transitions.fetch_add(n, std::memory_order_relaxed); }
inline void trace(uint64_t n = 1) { W().traces.fetch_add(n, std::memory_order_relaxed); }
inline void count(int i, uint64_t n = 1) { sh()->counters[i].fetch_add(n, std::memory_order_relaxed); }
inline void beat() { W().outcomes.fetch_add(1, std::memory_order_relaxed); } // still alive
inline void current(const char *fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(W().current, sizeof W().current, fmt, a); va_end(a);
}
inline void sample(const char *fmt, ...) {
  if (W().nsample >= 4) return;
  va_list a; va_start(a, fmt); vsnprintf(W().sample[W().nsample++], 256, fmt, a); va_end(a);
}
// key: stable identity of what fails; replay: argument reproducing the case
inline void violation(const std::string &key, const std::string &replay, const std::string &text) {
  Worker &w = W();
  int n = w.nviol.load();
  for (int i = 0; i < n && i < MAXV; ++i) if (key == w.v[i].key) return;
  if (n >= MAXV) return;
  snprintf(w.v[n].key, sizeof w.v[n].key, "%s", key.c_str());
  snprintf(w.v[n].text, TXT, "%s", text.c_str());
  snprintf(w.v[n].replay, sizeof w.v[n].replay, "%s", replay.c_str());
  w.nviol.store(n + 1);
}
inline std::string fmt(const char *f, ...) {
  char b[2000];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
inline int nproc() {
  const char *e = getenv("VERIF_JOBS");
  if (e) return atoi(e);
  long n = sysconf(_SC_NPROCESSORS_ONLN);
  return n < 1 ? 1 : n > 16 ? 16 : (int)n;
}
// Runs fn in n worker processes. A worker that dies in the code under test is
// reported as a violation of the case it was executing, and its remaining work
// is not silently skipped: the run is then marked incomplete.
inline void parallel(const std::function<void(int, int)> &fn) {
  int n = nproc();
  sh()->next.store(0);
  std::vector<pid_t> pid(n);
  fflush(stdout); fflush(stderr);
  for (int i = 0; i < n; ++i) {
    sh()->w[i].done.store(0);
    pid[i] = fork();
    if (pid[i] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      me() = i;
      int fd = open("/dev/null", O_WRONLY);
      if (!getenv("MC_VERBOSE")) { dup2(fd, 1); dup2(fd, 2); }
      fn(i, n);
      W().done.store(1);
      _exit(0);
    }
  }
  std::vector<uint64_t> seen(n, 0);
  std::vector<double> since(n, now());
  std::vector<char> over(n, 0), hung(n, 0);
  for (int left = n; left > 0;) {
    bool any = false;
    for (int i = 0; i < n; ++i) {
      if (over[i]) continue;
      int st = 0;
      Worker &w = sh()->w[i];
      if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
        over[i] = 1; --left; any = true;
        if (w.done.load()) continue;
        int save = me();
        me() = i;
        std::string c = w.current;
        if (hung[i])
          violation("hang:" + c.substr(0, 80), c, fmt("code under test does not finish case: %s", c.c_str()));
        else
          violation("crash:" + c.substr(0, 80), c,
                    WIFSIGNALED(st) ? fmt("code under test died with signal %d in case: %s", WTERMSIG(st), c.c_str())
                                    : fmt("code under test exited with status %d in case: %s", WEXITSTATUS(st), c.c_str()));
        me() = save;
        continue;
      }
      uint64_t p = w.states + w.transitions + w.traces + w.outcomes;
      if (p != seen[i]) { seen[i] = p; since[i] = now(); }
      else if (now() - since[i] > HANG_S && !hung[i]) { hung[i] = 1; kill(pid[i], SIGKILL); }
    }
    if (!any) usleep(2000);
  }
}
// next work item, or -1 (also when the time limit is over: marks incomplete)
inline std::atomic<uint64_t> &incomplete() { return sh()->counters[31]; }
inline int64_t take(uint64_t total, uint64_t chunk = 1) {
  if (now() > deadline()) { incomplete().store(1); return -1; }
  uint64_t i = sh()->next.fetch_add(chunk);
  return i >= total ? -1 : (int64_t)i;
}
inline std::string jesc(const char *s) {
  std::string o;
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += '?';
    else o += c;
  }
  return o;
}
inline int report(const std::map<std::string, std::string> &extra = {}) {
  uint64_t st = 0, tr = 0, tc = 0, oc = 0;
  for (auto &w : sh()->w) { st += w.states; tr += w.transitions; tc += w.traces; oc += w.outcomes; }
  std::string s = fmt("RESULT {\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"complete\":%s",
                      (unsigned long long)st, (unsigned long long)tr, (unsigned long long)tc,
                      incomplete().load() ? "false" : "true");
  s += ",\"counters\":[";
  for (int i = 0; i < 31; ++i) s += fmt("%s%llu", i ? "," : "", (unsigned long long)sh()->counters[i].load());
  s += "],\"extra\":{";
  bool first = true;
  for (auto &kv : extra) { s += (first ? "" : ",") + std::string("\"") + kv.first + "\":\"" + jesc(kv.second.c_str()) + "\""; first = false; }
  s += "},\"samples\":[";
  first = true;
  int ns = 0;
  for (auto &w : sh()->w) for (int i = 0; i < w.nsample && ns < 6; ++i, ++ns) { s += (first ? "\"" : ",\"") + jesc(w.sample[i]) + "\""; first = false; }
  s += "],\"violations\":[";
  std::map<std::string, int> seen;
  first = true;
  int nv = 0;
  for (auto &w : sh()->w) for (int i = 0; i < w.nviol && i < MAXV; ++i) {
    if (seen[w.v[i].key]++) continue;
    ++nv;
    s += std::string(first ? "" : ",") + "{\"key\":\"" + jesc(w.v[i].key) + "\",\"replay\":\"" + jesc(w.v[i].replay) + "\",\"text\":\"" + jesc(w.v[i].text) + "\"}";
    first = false;
  }
  s += "]}\n";
  fputs(s.c_str(), stdout);
  fflush(stdout);
  return nv ? 1 : 0;
}
} // namespace mc
