// Tiny framework shared by the explicit-state checkers.
//
// A checker is a list of independent jobs; worker processes take jobs from a
// shared counter. Every worker keeps a description of what it is about to do
// in shared memory, so that a crash, a sanitizer report or a hang of the code
// under test is reported with the exact operation sequence that led to it.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

constexpr int kMaxWorkers = 16;
constexpr int kTrace = 16384;

struct Slot {
  volatile uint64_t beat;
  volatile int job;
  char trace[kTrace];
};

struct Counters {
  uint64_t states, transitions, validated, evaluations, nontrivial, truncated, aux[8];
};

struct Shared {
  volatile int next_job;
  volatile int nviol;
  volatile int stop;
  volatile double first_viol;
  volatile int nsamples;
  Counters c;
  Slot slot[kMaxWorkers];
  char viol[64][kTrace];
  char samples[8][2048];
};

inline Shared *&sh() {
  static Shared *s = nullptr;
  return s;
}
inline int &me() {
  static int w = 0;
  return w;
}
inline bool thorough() {
  const char *t = getenv("VERIF_TIER");
  return t && strcmp(t, "thorough") == 0;
}
inline double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline double &start() {
  static double s = now();
  return s;
}
// Wall-clock budget: a safety stop, reported as non-exhaustive when reached.
// Once something was found the search goes on for a minute only.
inline double &budget() {
  static double b = 0;
  return b;
}
inline bool out_of_time() {
  static const double after = getenv("MC_AFTER") ? atof(getenv("MC_AFTER")) : 60;
  if (sh() && sh()->nviol > 0 && now() - sh()->first_viol > after) return true;
  return budget() > 0 && now() - start() > budget();
}

inline void beat() { sh()->slot[me()].beat++; }
inline void trace(const std::string &s) {
  auto &sl = sh()->slot[me()];
  size_t n = std::min(s.size(), size_t(kTrace - 1));
  memcpy(sl.trace, s.data(), n);
  sl.trace[n] = 0;
  sl.beat++;
}
inline void add(uint64_t &counter, uint64_t n = 1) {
  __atomic_fetch_add(&counter, n, __ATOMIC_RELAXED);
}
inline Counters &cnt() { return sh()->c; }

// sig: stable identity of the failing input/call site (for known findings)
inline void violation(const std::string &sig, const std::string &text) {
  if (sh()->nviol == 0) sh()->first_viol = now();
  int i = __atomic_fetch_add(&sh()->nviol, 1, __ATOMIC_SEQ_CST);
  if (i < 64) {
    std::string s = sig + "\n" + text;
    size_t n = std::min(s.size(), size_t(kTrace - 1));
    memcpy(sh()->viol[i], s.data(), n);
    sh()->viol[i][n] = 0;
  }
}
inline bool enough() { return sh()->nviol >= 24 || sh()->stop; }
inline void sample(const std::string &s) {
  int i = __atomic_fetch_add(&sh()->nsamples, 1, __ATOMIC_SEQ_CST);
  if (i < 8) {
    snprintf(sh()->samples[i], sizeof(sh()->samples[i]), "%s", s.c_str());
  }
}

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}

inline std::string hexs(const void *p, size_t n) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < n && i < 2000; i++) {
    snprintf(b, sizeof(b), "%02x", ((const unsigned char *)p)[i]);
    r += b;
  }
  return r;
}

inline std::string jesc(const char *s) {
  std::string r = "\"";
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

// Runs jobs [0,njobs) on `workers` processes; prints one JSON line prefixed by
// "RESULT ". hang_s: a worker without a heartbeat for that long is killed and
// reported as a hang of the operation it was performing.
inline int run(int njobs, std::function<void(int)> body, int workers = 8,
               int hang_s = 20,
               std::function<std::string()> extra = nullptr) {
  start();
  if (const char *b = getenv("MC_BUDGET")) budget() = atof(b);
  sh() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (workers > kMaxWorkers) workers = kMaxWorkers;
  if (const char *w = getenv("MC_WORKERS")) workers = atoi(w);
  pid_t pids[kMaxWorkers] = {0};
  uint64_t lastbeat[kMaxWorkers] = {0};
  double lasttime[kMaxWorkers] = {0};
  int errfd[kMaxWorkers];
  auto spawn = [&](int w) {
    char tmpl[] = "/tmp/mcerrXXXXXX";
    errfd[w] = mkstemp(tmpl);
    unlink(tmpl);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      me() = w;
      dup2(errfd[w], 2);
      rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      while (!enough()) {
        int j = __atomic_fetch_add(&sh()->next_job, 1, __ATOMIC_SEQ_CST);
        if (j >= njobs) break;
        if (out_of_time()) {
          add(cnt().truncated);
          break;
        }
        sh()->slot[w].job = j;
        trace(fmt("job %d", j));
        body(j);
      }
      fflush(stdout);
      _exit(0);
    }
    pids[w] = p;
    lasttime[w] = now();
    lastbeat[w] = sh()->slot[w].beat;
  };
  for (int w = 0; w < workers; w++) spawn(w);
  int live = workers;
  while (live > 0) {
    usleep(20000);
    for (int w = 0; w < workers; w++) {
      if (!pids[w]) continue;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        if (sh()->slot[w].beat != lastbeat[w]) {
          lastbeat[w] = sh()->slot[w].beat;
          lasttime[w] = now();
          continue;
        } else if (now() - lasttime[w] > hang_s) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          hang = true;
        } else {
          continue;
        }
      }
      pids[w] = 0;
      if (hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        char ebuf[6000];
        lseek(errfd[w], 0, SEEK_SET);
        ssize_t n = read(errfd[w], ebuf, sizeof(ebuf) - 1);
        ebuf[n > 0 ? n : 0] = 0;
        std::string what =
            hang ? "hang (no progress)"
                 : (WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st))
                                    : fmt("exited with status %d", WEXITSTATUS(st)));
        violation("crash|" + std::string(sh()->slot[w].trace).substr(0, 400),
                  "the code under test " + what + " during: " +
                      sh()->slot[w].trace + "\n" + ebuf);
        close(errfd[w]);
        if (!enough()) {
          spawn(w);
          continue;
        }
      } else {
        close(errfd[w]);
      }
      live--;
    }
  }
  auto &c = sh()->c;
  std::string out = fmt(
      "RESULT {\"jobs\": %d, \"states\": %lu, \"transitions\": %lu, "
      "\"validated\": %lu, \"evaluations\": %lu, \"nontrivial\": %lu, "
      "\"truncated\": %lu, \"wall\": %.3f",
      njobs, c.states, c.transitions, c.validated, c.evaluations, c.nontrivial,
      c.truncated, now() - start());
  out += ", \"aux\": [";
  for (int i = 0; i < 8; i++) out += fmt("%s%lu", i ? ", " : "", c.aux[i]);
  out += "], \"samples\": [";
  for (int i = 0; i < sh()->nsamples && i < 8; i++)
    out += (i ? ", " : "") + jesc(sh()->samples[i]);
  out += "], \"violations\": [";
  for (int i = 0; i < sh()->nviol && i < 64; i++) {
    std::string v = sh()->viol[i];
    auto p = v.find('\n');
    out += std::string(i ? ", " : "") + "{\"sig\": " +
           jesc(v.substr(0, p).c_str()) + ", \"text\": " +
           jesc(v.substr(p + 1).c_str()) + "}";
  }
  out += "]";
  if (extra) out += extra();
  out += "}\n";
  fputs(out.c_str(), stdout);
  fflush(stdout);
  return 0;
}

struct Hash {
  uint64_t a = 1469598103934665603ULL, b = 0x9E3779B97F4A7C15ULL;
  void feed(const void *p, size_t n) {
    auto s = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) {
      a = (a ^ s[i]) * 1099511628211ULL;
      b = (b + s[i]) * 0xD6E8FEB86659FD93ULL;
      b ^= b >> 32;
    }
  }
  std::pair<uint64_t, uint64_t> get() const { return {a, b}; }
};
}  // namespace mc
