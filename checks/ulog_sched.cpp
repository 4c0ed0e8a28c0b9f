// M04 (several loggers): every interleaving of the system calls of processes
// that log at the same time, and of the system calls and memory accesses of
// threads, with up to a number of preemptions. The loggers are real processes
// running the compiled code, traced and scheduled with ptrace.
#include <dirent.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <time.h>
#include <errno.h>
#include <algorithm>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <userlog.h>
#include "../lib/mc.h"

using std::string;

// ---------------------------------------------------------------- in the loggers
enum { kReady = 10001, kMem, kBad };
static thread_local char *stack_lo, *stack_hi;
static bool g_points;  // accesses to memory are scheduling points
static thread_local bool t_in;
static void access(const volatile void *p) {
  if (!g_points || !t_in) return;
  if ((char *)p >= stack_lo && (char *)p < stack_hi) return;
  t_in = false;
  syscall(kMem, p);
  t_in = true;
}
#define ACC(sz)                                                            \
  void __tsan_read##sz(void *p) { access(p); }                             \
  void __tsan_write##sz(void *p) { access(p); }                            \
  void __tsan_unaligned_read##sz(void *p) { access(p); }                   \
  void __tsan_unaligned_write##sz(void *p) { access(p); }                  \
  void __tsan_read_write##sz(void *p) { access(p); access(p); }            \
  void __tsan_unaligned_read_write##sz(void *p) { access(p); access(p); }
#define ATOMIC(T, bits)                                                                                                         \
  T __tsan_atomic##bits##_load(const volatile T *p, int) { access(p); return __atomic_load_n(p, 5); }                           \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) { access(p); __atomic_store_n(p, v, 5); }                           \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { access(p); return __atomic_exchange_n(p, v, 5); }                 \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { access(p); return __atomic_fetch_add(p, v, 5); }                 \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { access(p); return __atomic_fetch_sub(p, v, 5); }                 \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { access(p); return __atomic_fetch_and(p, v, 5); }                 \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { access(p); return __atomic_fetch_or(p, v, 5); }                   \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { access(p); return __atomic_fetch_xor(p, v, 5); }                 \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }   \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access(p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
extern "C" {
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p); }
void __tsan_vptr_read(void **p) { access(p); }
void __tsan_read_range(void *p, size_t) { access(p); }
void __tsan_write_range(void *p, size_t) { access(p); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s); access(d); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s); access(d); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d); return memset(d, c, n); }
}

// what is not instrumented: the C library's functions that copy and format
static bool shared(const volatile void *p) { return g_points && t_in && !((char *)p >= stack_lo && (char *)p < stack_hi); }
static void *copy(void *d, const void *s, size_t n) {
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
extern "C" {
void *memcpy(void *d, const void *s, size_t n) noexcept {
  if (n && shared(s)) access(s);
  else if (n && shared(d)) access(d);
  return copy(d, s, n);
}
void *memmove(void *d, const void *s, size_t n) noexcept {
  if (n && shared(s)) access(s);
  else if (n && shared(d)) access(d);
  if ((char *)d <= (char *)s || (char *)d >= (char *)s + n) return copy(d, s, n);
  char *e = (char *)d + n - 1;
  const char *f = (const char *)s + n - 1;
  __asm__ volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n)::"memory");
  return d;
}
int vsnprintf(char *s, size_t n, const char *f, va_list ap) noexcept {
  static auto real = (int (*)(char *, size_t, const char *, va_list))dlsym(RTLD_NEXT, "vsnprintf");
  access(s);
  bool in = t_in;
  t_in = false;
  int r = real(s, n, f, ap);
  t_in = in;
  return r;
}
int snprintf(char *s, size_t n, const char *f, ...) noexcept {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(s, n, f, ap);
  va_end(ap);
  return r;
}
size_t strftime(char *s, size_t n, const char *f, const struct tm *t) noexcept {
  static auto real = (size_t (*)(char *, size_t, const char *, const struct tm *))dlsym(RTLD_NEXT, "strftime");
  access(s);
  access(t);
  return real(s, n, f, t);
}
}

struct Setup {
  string name;
  bool threads;
  std::vector<std::vector<size_t>> lengths;  // of the messages of every logger
  int preempt;                               // -1: any number
  bool exists = false;                       // the log exists already
};
static string message(int who, int call, size_t len) {
  string s = mc::fmt("%c%d:", 'A' + who, call);
  while (s.size() < len) s += char((s.size() % 50 ? 'a' : 'A') + who * 5 + call);
  return s;
}
static void logger(const Setup &s, int who) {
  char here;
  stack_lo = &here - 512 * 1024;
  stack_hi = &here + 64 * 1024;
  std::vector<string> m;
  for (size_t i = 0; i < s.lengths[who].size(); i++) m.push_back(message(who, i, s.lengths[who][i]));
  syscall(kReady, who);
  for (auto &x : m) {
    errno = 11 + who;
    t_in = true;
    int rc = userlog("%s", x.c_str());
    t_in = false;
    if (rc < 0) syscall(kBad, 1);
    if (errno != 11 + who) syscall(kBad, 2);
  }
}
struct Arg { const Setup *s; int who; };
static void *thread_main(void *a) {
  auto *g = (Arg *)a;
  logger(*g->s, g->who);
  return nullptr;
}
static void child(const Setup &s, int who) {
  ptrace(PTRACE_TRACEME, 0, 0, 0);
  raise(SIGSTOP);
  g_points = s.threads;
  if (!s.threads) {
    logger(s, who);
    _exit(0);
  }
  pthread_t t[8];
  Arg a[8];
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 600 * 1024);
  for (size_t i = 0; i < s.lengths.size(); i++) {
    a[i] = {&s, (int)i};
    pthread_create(&t[i], &at, thread_main, &a[i]);
  }
  for (size_t i = 0; i < s.lengths.size(); i++) pthread_join(t[i], nullptr);
  _exit(0);
}

// ---------------------------------------------------------------- the scheduler
namespace {
struct Task {
  pid_t pid = 0;
  int who = -1;
  bool at_point = false, blocked = false, gone = false, in_call = false, ready = false, running = false;
  string what;
  pid_t owner = 0;
};
struct Stuck {};
uint64_t executions = 0, steps = 0;

struct Run {
  const Setup &s;
  string file;
  std::vector<Task> t;  // loggers, and for threads the main thread first
  std::vector<pid_t> roots;
  std::vector<string> trace;
  string bad;
  std::map<pid_t, int> early;  // reported before we knew them
  Run(const Setup &s_, const string &f) : s(s_), file(f) {}

  string text(pid_t p, long addr) {
    string r;
    char b[256];
    iovec l{b, sizeof(b)}, m{(void *)addr, sizeof(b)};
    ssize_t n = process_vm_readv(p, &l, 1, &m, 1, 0);
    for (ssize_t i = 0; i < n && b[i]; i++) r += b[i];
    return r;
  }
  Task *find(pid_t p) {
    for (auto &x : t)
      if (x.pid == p) return &x;
    return nullptr;
  }
  // true: stopped before something others can notice; false: go on
  bool entry(Task &x) {
    user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, x.pid, 0, &r) == -1) return false;
    long nr = r.orig_rax;
    switch (nr) {
      case kReady: x.who = r.rdi; x.ready = true; x.what = "ready"; return true;
      case kMem: x.what = "memory access"; return true;
      case kBad: bad = r.rdi == 1 ? "a call failed" : "a call changed errno"; return false;
      case SYS_open: case SYS_openat: case SYS_creat: {
        long path = nr == SYS_openat ? r.rsi : r.rdi, fl = nr == SYS_openat ? r.rdx : nr == SYS_open ? r.rsi : O_WRONLY;
        if (!(fl & (O_WRONLY | O_RDWR | O_CREAT))) return false;
        x.what = "open " + text(x.pid, path);
        return true;
      }
      case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_sendfile: case SYS_copy_file_range:
        if (nr == SYS_write || nr == SYS_writev)
          if ((long)r.rdi <= 2) return false;
        x.what = mc::fmt("write %ld", nr == SYS_write || nr == SYS_pwrite64 ? (long)r.rdx : -1L);
        return true;
      case SYS_lseek: x.what = "lseek"; return true;
      case SYS_ftruncate: case SYS_truncate: x.what = "truncate"; return true;
      case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: x.what = "rename"; return true;
      case SYS_unlink: case SYS_unlinkat: x.what = "unlink"; return true;
      case SYS_flock: x.what = "flock"; return true;
      case SYS_fcntl:
        if (r.rsi == F_SETLKW || r.rsi == F_SETLK || r.rsi == 38 || r.rsi == 37) {
          x.what = "lock";
          return true;
        }
        return false;
      case SYS_futex:
        if ((r.rsi & 127) == FUTEX_WAIT || (r.rsi & 127) == FUTEX_WAIT_BITSET || (r.rsi & 127) == FUTEX_LOCK_PI) {
          x.what = "futex wait";
          return true;
        }
        return false;
    }
    return false;
  }
  void resume(Task &x, int sig = 0) {
    x.running = true;
    ptrace(PTRACE_SYSCALL, x.pid, 0, sig);
  }
  // takes one report of the kernel; returns false if there is none (within ms)
  bool report(pid_t want, int ms) {
    int st;
    pid_t p = 0;
    for (int spin = 0;; spin++) {
      p = waitpid(want, &st, __WALL | (ms < 0 ? 0 : WNOHANG));
      if (p != 0) break;
      if (spin * 200 >= ms * 1000) return false;
      usleep(200);
    }
    if (p < 0) {
      if (auto *x = find(want)) x->gone = true;
      return true;
    }
    auto *x = find(p);
    if (!x) {
      early[p] = st;
      return true;
    }
    handle(*x, st);
    return true;
  }
  void handle(Task &x, int st) {
    x.running = false;
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      x.gone = true;
      if (WIFSIGNALED(st)) bad = mc::fmt("a logger was killed by signal %d", WTERMSIG(st));
      return;
    }
    int sig = WSTOPSIG(st);
    if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_CLONE << 8))) {
      unsigned long np = 0;
      ptrace(PTRACE_GETEVENTMSG, x.pid, 0, &np);
      Task n;
      n.pid = np;
      n.owner = x.pid;
      n.running = true;
      resume(x);
      t.push_back(n);
      auto it = early.find(np);
      if (it != early.end()) {
        early.erase(it);
        t.back().running = false;
        resume(t.back());
      }
      return;
    }
    if (sig == (SIGTRAP | 0x80)) {
      x.in_call = !x.in_call;
      if (x.in_call && entry(x)) {
        x.at_point = true;
        x.blocked = false;
        return;
      }
      if (!x.in_call) x.blocked = false;
      resume(x);
      return;
    }
    if (sig == SIGSTOP) sig = 0;
    resume(x, sig);
  }
  // lets the task run until it is about to do something others can notice
  void advance(Task *x) {
    pid_t p = x->pid;
    bool waits = x->what == "futex wait" || x->what == "flock" || x->what == "lock";
    x->at_point = false;
    resume(*x);
    while (true) {
      x = find(p);
      if (x->gone || x->at_point) return;
      if (!report(p, waits ? 20 : -1)) {
        x->blocked = true;
        return;
      }
      x = find(p);
      // it came back from the call that could block
      if (!x->in_call && !x->at_point) waits = false;
    }
  }
  bool logger_task(const Task &x) const { return x.ready; }

  // returns what is wrong; choices: index of the task to go on at every point
  struct Point { std::vector<int> enabled; int chosen, last; };
  std::vector<Point> points;
  string run(const std::vector<int> &prefix) {
    executions++;
    size_t n = s.threads ? 1 : s.lengths.size();
    t.reserve(32);
    for (size_t i = 0; i < n; i++) {
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        child(s, i);
      }
      roots.push_back(p);
      Task x;
      x.pid = p;
      int st;
      waitpid(p, &st, __WALL);
      ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_EXITKILL);
      t.push_back(x);
      resume(t.back());
    }
    // until all of them are ready
    auto ready = [&] {
      size_t k = 0;
      for (auto &x : t) k += x.ready;
      return k;
    };
    while (ready() < s.lengths.size()) {
      bool any = false;
      for (size_t i = 0; i < t.size(); i++)
        if (!t[i].gone && !t[i].ready) {
          if (t[i].at_point) {
            // the main thread waits for the others
            t[i].at_point = false;
            resume(t[i]);
          } else {
            any |= report(t[i].pid, 0);
          }
        }
      if (!any) usleep(20);
      beat();
    }
    std::sort(t.begin(), t.end(), [](const Task &a, const Task &b) { return a.who < b.who; });
    int last = -1;
    while (true) {
      std::vector<int> en;
      bool left = false;
      for (size_t i = 0; i < t.size(); i++) {
        auto &x = t[i];
        if (x.who < 0 || x.gone) continue;
        left = true;
        if (x.blocked) {
          // does it go on?
          while (!x.gone && !x.at_point && report(x.pid, 2))
            ;
          if (x.gone) continue;
        }
        if (x.at_point) en.push_back(i);
      }
      if (!left) break;
      if (en.empty()) {
        // everybody waits for everybody
        bool moved = false;
        for (auto &x : t)
          if (x.who >= 0 && !x.gone && !x.at_point) moved |= report(x.pid, 500);
        if (!moved) {
          bad = "the loggers wait for each other";
          break;
        }
        continue;
      }
      int pick;
      size_t k = points.size();
      bool can = std::find(en.begin(), en.end(), last) != en.end();
      if (k < prefix.size() && std::find(en.begin(), en.end(), prefix[k]) != en.end()) pick = prefix[k];
      else pick = can ? last : en[0];
      points.push_back({en, pick, can ? last : -1});
      trace.push_back(mc::fmt("logger %c: ", 'A' + t[pick].who) + t[pick].what);
      if (points.size() > 5000) {
        bad = "does not end";
        break;
      }
      last = pick;
      steps++;
      advance(&t[pick]);
    }
    finish();
    return bad;
  }
  void beat() { mc::beat(); }
  void finish() {
    for (auto p : roots) {
      kill(p, SIGKILL);
      int st;
      while (waitpid(p, &st, __WALL) > 0 && !WIFEXITED(st) && !WIFSIGNALED(st))
        ;
    }
    int st;
    while (waitpid(-1, &st, __WALL | WNOHANG) > 0)
      ;
  }
};

string dir;
std::map<string, string> files() {
  std::map<string, string> r;
  DIR *d = opendir(dir.c_str());
  while (auto *e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    FILE *f = fopen((dir + "/" + e->d_name).c_str(), "rb");
    string s;
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof(b), f)) > 0) s.append(b, k);
    fclose(f);
    r[e->d_name] = s;
  }
  closedir(d);
  return r;
}
void clean() {
  for (auto &f : files()) unlink((dir + "/" + f.first).c_str());
}
string log_name() {
  time_t now = time(nullptr);
  struct tm tm;
  localtime_r(&now, &tm);
  char b[64];
  strftime(b, sizeof(b), "ULOG.%m%d%y", &tm);
  return b;
}
string brief(const string &s) { return s.size() < 90 ? s : s.substr(0, 60) + "..." + s.substr(s.size() - 20) + mc::fmt(" (%zu bytes)", s.size()); }
string judge(const Setup &s) {
  auto f = files();
  if (f.size() != 1) return mc::fmt("%zu files", f.size());
  string all = f.begin()->second;
  if (s.exists) {
    if (all.compare(0, 4, "old\n") != 0) return "what was in the log is lost";
    all.erase(0, 4);
  }
  std::vector<size_t> next(s.lengths.size());
  size_t at = 0;
  while (at < all.size()) {
    auto e = all.find('\n', at);
    if (e == string::npos) return "the last line has no end: " + brief(all.substr(at));
    string l = all.substr(at, e - at);
    at = e + 1;
    auto p = l.find(": ");
    bool ok = false;
    if (p != string::npos && p < 200)
      for (size_t w = 0; w < s.lengths.size() && !ok; w++)
        if (next[w] < s.lengths[w].size() && l.compare(p + 2, string::npos, message(w, next[w], s.lengths[w][next[w]])) == 0) {
          next[w]++;
          ok = true;
        }
    if (!ok) return "has the line " + brief(l);
  }
  for (size_t w = 0; w < s.lengths.size(); w++)
    if (next[w] != s.lengths[w].size()) return mc::fmt("line %zu of logger %c is missing", next[w] + 1, char('A' + w));
  return "";
}
void explore(const Setup &s, int shard, int shards) {
  std::vector<std::vector<int>> stack = {{}};
  uint64_t n = 0;
  while (!stack.empty() && !mc::enough()) {
    auto prefix = stack.back();
    stack.pop_back();
    clean();
    if (s.exists) {
      FILE *f = fopen((dir + "/" + log_name()).c_str(), "w");
      fputs("old\n", f);
      fclose(f);
    }
    string pt;
    for (int c : prefix) pt += std::to_string(c);
    mc::trace(s.name + ", schedule " + pt);
    Run r(s, dir);
    string w;
    try {
      w = r.run(prefix);
    } catch (Stuck &) {
      w = "a logger does not go on";
      r.finish();
    }
    if (w.empty()) w = judge(s);
    if (!w.empty()) {
      string tr;
      for (auto &x : r.trace) tr += "\n  " + x;
      mc::violation(s.name + "|" + w.substr(0, 20), s.name + ": the log " + w + "\nschedule:" + tr);
      return;
    }
    // other choices after the prefix
    int used = 0;
    for (size_t i = 0; i < r.points.size(); i++) {
      auto &p = r.points[i];
      if (i >= prefix.size())
        for (int c : p.enabled) {
          if (c == p.chosen) continue;
          bool pre = p.last != -1 && c != p.last;
          if (s.preempt >= 0 && used + pre > s.preempt) continue;
          std::vector<int> q;
          for (size_t k = 0; k < i; k++) q.push_back(r.points[k].chosen);
          q.push_back(c);
          // the first choices are divided among the workers
          if (prefix.empty() && shards > 1 && (int)(n++ % shards) != shard) continue;
          stack.push_back(q);
        }
      if (p.last != -1 && p.chosen != p.last) used++;
    }
    mc::add(mc::cnt().states, r.points.size());
  }
}
}  // namespace

int main() {
  bool th = mc::thorough();
  std::vector<Setup> v;
  for (size_t a : {20, 5000, 9000, 40000})
    for (size_t b : {20, 5000, 9000, 40000}) {
      if (a > b) continue;
      v.push_back({mc::fmt("two processes, %zu and %zu bytes", a, b), false, {{a}, {b}}, -1});
      v.push_back({mc::fmt("two processes twice, %zu and %zu bytes", a, b), false, {{a, b}, {b, a}}, th ? -1 : 4, true});
    }
  v.push_back({"three processes", false, {{20}, {20}, {20}}, -1});
  v.push_back({"three processes, long lines", false, {{5000}, {20}, {9000}}, -1});
  for (size_t a : {20, 5000, 9000})
    for (size_t b : {20, 5000, 9000})
      v.push_back({mc::fmt("two threads, %zu and %zu bytes", a, b), true, {{a}, {b}}, th ? 3 : 2});
  v.push_back({"two threads twice", true, {{20, 9000}, {30, 20}}, th ? 2 : 1});
  v.push_back({"three threads", true, {{20}, {20}, {20}}, th ? 2 : 1});
  char t[] = "/tmp/ulogXXXXXX";
  if (!mkdtemp(t)) return 1;
  string base = t;
  log_name();  // reads the time zone once
  const int shards = 4;
  int r = mc::run(v.size() * shards, [&](int j) {
    executions = steps = 0;
    dir = base + "/" + std::to_string(mc::me());
    mkdir(dir.c_str(), 0700);
    setenv("ULOGPFX", (dir + "/ULOG").c_str(), 1);
    unsetenv("ULOGMILLISEC");
    explore(v[j / shards], j % shards, shards);
    mc::add(mc::cnt().transitions, steps);
    mc::add(mc::cnt().validated, executions);
    if (j == 0) mc::sample(v[0].name + mc::fmt(": %lu schedules", executions));
  });
  for (int w = 0; w < 16; w++) {
    dir = base + "/" + std::to_string(w);
    if (access(dir.c_str(), F_OK) == 0) clean(), rmdir(dir.c_str());
  }
  rmdir(base.c_str());
  return r;
}
