// See core.h. Everything here is linked into the checker's main program; the
// shared objects with the code under test resolve libc functions to the
// definitions below.
#include "core.h"
#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <atomic>
#include <cxxabi.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void *__tls_get_addr(size_t *);
void sim_swtch(void **save, void *to);
}
asm(R"(
.text
.globl sim_swtch
.hidden sim_swtch
.type sim_swtch,@function
sim_swtch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

namespace sim {

static bool g_user = false;  // executing code of a simulated process
struct Core {                // scope of the simulation's own code
  bool was;
  Core() : was(g_user) { g_user = false; }
  ~Core() { g_user = was; }
};

constexpr int kMaxProcs = 12;
constexpr size_t kArena = 24u << 20;
constexpr size_t kStack = 256u << 10;
constexpr int kMaxTasks = 40;
static char *g_arenas;  // kMaxProcs * kArena
static char *g_stacks;
static char *g_shm;
constexpr size_t kShm = 4u << 20;
static size_t g_shm_used = 0;
static bool g_quiet, g_history;
static std::string g_failing;
static int g_failing_proc;
static bool g_shm_points = false, g_mem_points = false, g_races = false;

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xD6E8FEB86659FD93ULL;
  return h ^ (h >> 32);
}
static uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567) {
  auto s = (const unsigned char *)p;
  uint64_t a = h, b = h ^ 0x5555;
  while (n >= 16) {
    uint64_t x, y;
    __builtin_memcpy(&x, s, 8);
    __builtin_memcpy(&y, s + 8, 8);
    a = (a ^ x) * 0x9FB21C651E98DF25ULL;
    a ^= a >> 29;
    b = (b ^ y) * 0xC2B2AE3D27D4EB4FULL;
    b ^= b >> 31;
    s += 16;
    n -= 16;
  }
  uint64_t t = n;
  while (n--) t = t * 257 + *s++ + 1;
  return mix(mix(a, b), t);
}

// ---------------------------------------------------------------- arenas
struct ArenaHead {
  size_t used;
  void *free_[80];
};
struct Chunk {
  uint32_t cls;
  uint32_t magic;
  size_t size;
};
constexpr uint32_t kLive = 0xA110C8ED, kFree = 0xF4EEF4EE;
static int g_proc = -1;  // current process

static char *arena_of(int p) { return g_arenas + size_t(p) * kArena; }
static bool in_arenas(const void *p) {
  return (char *)p >= g_arenas && (char *)p < g_arenas + kMaxProcs * kArena;
}
static bool in_stacks(const void *p) {
  return (char *)p >= g_stacks && (char *)p < g_stacks + kMaxTasks * kStack;
}
static int cls_of(size_t n) {
  if (n <= 512) return (n + 15) / 16;  // 1..32
  int c = 33;
  size_t s = 1024;
  while (s < n) s *= 2, c++;
  return c;
}
static size_t cls_size(int c) { return c <= 32 ? size_t(c ? c : 1) * 16 : size_t(1024) << (c - 33); }
[[noreturn]] void die_in_user(const std::string &what);

static void *arena_alloc(size_t n) {
  auto *a = (ArenaHead *)arena_of(g_proc);
  int c = cls_of(n ? n : 1);
  size_t sz = cls_size(c);
  char *r;
  if (n > kArena / 2) {
    errno = ENOMEM;
    return nullptr;
  }
  if (a->free_[c]) {
    r = (char *)a->free_[c];
    a->free_[c] = *(void **)r;
  } else {
    if (a->used == 0) a->used = (sizeof(ArenaHead) + 15) & ~size_t(15);
    if (a->used + sz + sizeof(Chunk) > kArena) {
      errno = ENOMEM;
      return nullptr;
    }
    r = arena_of(g_proc) + a->used + sizeof(Chunk);
    a->used += sz + sizeof(Chunk);
  }
  auto *k = (Chunk *)(r - sizeof(Chunk));
  k->cls = c;
  k->magic = kLive;
  k->size = n;
  __builtin_memset(r, 0xA5, sz);
  return r;
}
static void forget_accesses(void *p, size_t n);
static void arena_free(void *p) {
  auto *k = (Chunk *)((char *)p - sizeof(Chunk));
  if (k->magic == kFree) die_in_user("double free");
  if (k->magic != kLive) die_in_user("free of an invalid pointer or heap corruption");
  k->magic = kFree;
  int owner = ((char *)p - g_arenas) / kArena;
  auto *a = (ArenaHead *)arena_of(owner);
  __builtin_memset(p, 0xDD, cls_size(k->cls));
  forget_accesses(p, cls_size(k->cls));
  *(void **)p = a->free_[k->cls];
  a->free_[k->cls] = p;
}

// ---------------------------------------------------------------- kernel
struct Msg {
  long mtype;
  std::shared_ptr<const std::string> text;
  uint64_t h;
  int back = -1;             // the process that received and put it back unchanged
  uint64_t back_others = 0;  // steps others had made by then
};
struct Queue {
  bool alive = true;
  long cbytes = 0;
  long qbytes = -1;  // -1: the usual
  long limit() const;
  std::vector<Msg> m;
};
struct Sem {
  bool alive = true;
  std::vector<int> v;
  bool otime = false;
};
struct Shm {
  long key;
  size_t size, off;
  size_t bytes;  // requested
  bool alive = true;
};
struct Fd {
  std::string path;
  size_t pos = 0;
  int proc;
  bool append = false;
};
struct Mutex {
  int owner = -1;
  int count = 0;
  int readers = 0;
};
struct Kernel {
  std::vector<Queue> q;
  std::vector<Sem> s;
  std::vector<Shm> shm;
  std::map<std::string, std::shared_ptr<std::string>> files;
  std::map<int, Fd> fds;
  std::map<const void *, Mutex> mx;
  std::map<const void *, int> conds;  // generation
  int nextfd = 100;
  int tmpno = 0;
  uint64_t signals = 0;
  int64_t clock_ns = 1000LL * 1000000000;
};

enum OpKind { O_START, O_READY, O_SND, O_RCV, O_SEM, O_SLEEP, O_YIELD, O_MEM, O_LOCK, O_RDLOCK, O_COND, O_JOIN, O_PLAIN, O_WAITDONE, O_WAITSIG };
struct Op {
  OpKind k = O_START;
  long obj = 0, a = 0, b = 0;
  const char *name = "";
};

typedef std::vector<uint32_t> VC;
struct Task {
  int id, proc;
  void *sp = nullptr;
  bool done = false;
  Op op;
  int err = 0;
  void *eh[2] = {nullptr, nullptr};
  int64_t wake = 0;
  uint64_t yield_step = 0;
  uint64_t world = 0;
  bool forked = false;  // between fork() and what the child does
  bool turn_quiet = false;
  uint64_t pos = 0, pwin = 0, pwin_prev = 0, pos_yield = 0;  // what it has done so far; since it yielded, before that
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  std::string tls;
  std::vector<std::pair<void (*)(void *), void *>> dtors;
  VC vc;
};
struct Proc {
  std::string name;
  bool alive = true, crashed = false;
  int ntasks = 0;
  int tls_owner = -1;
  uint64_t hist = 0;
  uint64_t win = 0, win_prev = 0, win_hist = 0;  // observations since it yielded, those before, history then
  uint64_t nsteps = 0;
  int last_q = -1;  // the message received last
  uint64_t last_h = 0;
  std::map<std::pair<int, int>, int> undo;
  bool daemon = false, crashable = false;
  bool exited_ok = false;
  bool dormant = false;  // a program nobody has started yet
  int parent = -1;       // who started it
  bool reaped = false;   // and has noticed its end
  std::vector<std::string> argv;
};
struct Static {  // never changes after loading
  void *handle;
  char *tls = nullptr;
  size_t tls_size = 0;
  std::string tls_init;
  const char *fn;
  int (*entry)(int);
  int arg;
  uintptr_t lo = 0, hi = 0;
  std::string program;
};
struct Lost {  // ended without having become another program
  int parent;
  bool reaped;
};
struct State {
  std::vector<Lost> lost;
  Kernel k;
  std::vector<Task> t;
  std::vector<Proc> p;
  std::vector<LogEntry> log;
  uint64_t events = 0;
  uint64_t nsteps = 0;
  int crashes = 0, faults = 0, preempts = 0, ticks = 0;
  bool exploring = false;
};

static State S;
static Static g_static[kMaxProcs];
static State S0;  // at the end of the setup
static const Scenario *g_sc;
static Options g_o;
long Queue::limit() const { return qbytes == -1 ? g_o.qbytes : qbytes; }
static int g_err = 2;  // our own messages
static int g_cur = -1;  // current task
static void *g_main_sp;
static sigjmp_buf g_main_jmp;
static std::string g_main_status;

// exploration of one execution
static std::string g_prefix;   // choices to replay
static std::string g_path;     // choices made
static uint64_t g_steps;
static uint64_t g_expect;      // state hash expected at the last replayed choice
static bool g_tracing = false;
static std::string g_trace;
static bool g_replay_only = false;
static volatile uint64_t g_execno = 0;

enum Status { ST_TERMINAL, ST_DEADLINE, ST_LIVELOCK, ST_PRUNED, ST_FAIL, ST_NONDET };
static Status g_status;
static std::string g_fail;

struct Item {
  uint64_t expect;
  std::string path;
};
static std::vector<Item> g_local;

constexpr int kRing = 8192, kRingBytes = 480;
struct RingSlot {
  uint64_t expect;
  uint16_t len;
  char d[kRingBytes];
};
struct SharedX {
  std::atomic<int> lock;
  int ring_n;
  std::atomic<int> idle;
  std::atomic<int> stop;
  std::atomic<uint64_t> executions, pruned, terminals, steps, visited, choice_points, nondet, maxdepth, outcomes;
  std::atomic<int> table_full;
  RingSlot ring[kRing];
};
static SharedX *X;
static std::atomic<uint64_t> *V;  // visited
static uint64_t V_mask;
static std::atomic<uint64_t> *OUT;  // distinct outcomes
constexpr uint64_t kOutMask = (1 << 20) - 1;

static bool table_insert(std::atomic<uint64_t> *tab, uint64_t mask, uint64_t h) {
  if (h == 0) h = 1;
  uint64_t i = h & mask;
  for (uint64_t n = 0; n <= mask; n++, i = (i + 1) & mask) {
    uint64_t c = tab[i].load(std::memory_order_relaxed);
    if (c == h) return false;
    if (c == 0) {
      if (tab[i].compare_exchange_strong(c, h)) return true;
      if (c == h) return false;
    }
  }
  return true;
}

// ---------------------------------------------------------------- tracing
static std::string opstr(const Task &t) {
  const Op &o = t.op;
  switch (o.k) {
    case O_START: return "start";
    case O_READY: return "ready";
    case O_SND: return mc::fmt("msgsnd(queue %ld, %ld bytes, type %ld)", o.obj, o.a, o.b);
    case O_RCV: return mc::fmt("msgrcv(queue %ld, type %ld)", o.obj, o.a);
    case O_SEM: return mc::fmt("semop(%ld, %+ld)", o.obj, o.a);
    case O_SLEEP: return mc::fmt("sleep until %.3f", t.wake / 1e9 - 1000);
    case O_YIELD: return "yield";
    case O_MEM: return mc::fmt("%s +0x%lx (%ld bytes)", o.name, o.obj, o.a);
    case O_LOCK: return "lock";
    case O_RDLOCK: return "read lock";
    case O_COND: return "wait for condition";
    case O_JOIN: return mc::fmt("join thread %ld", o.obj);
    case O_PLAIN: return o.name;
    case O_WAITDONE: return "wait for the end of a process";
    case O_WAITSIG: return mc::fmt("wait for signal %ld", o.obj);
  }
  return "?";
}
#define TR(...)                                                       \
  do {                                                                \
    if (g_tracing && g_trace.size() < 12000) g_trace += mc::fmt(__VA_ARGS__) + "\n"; \
  } while (0)

// ---------------------------------------------------------------- scheduling
static bool mt(int proc) { return S.p[proc].ntasks > 1; }

static bool rcv_match(const Queue &q, long type, int *idx) {
  if (type == 0) {
    if (q.m.empty()) return false;
    *idx = 0;
    return true;
  }
  int best = -1;
  for (size_t i = 0; i < q.m.size(); i++) {
    if (type > 0) {
      if (q.m[i].mtype == type) {
        *idx = i;
        return true;
      }
    } else {
      long lim = type == LONG_MIN ? LONG_MAX : -type;
      if (q.m[i].mtype <= lim && (best == -1 || q.m[i].mtype < q.m[best].mtype)) best = i;
    }
  }
  if (best != -1) {
    *idx = best;
    return true;
  }
  return false;
}

static bool enabled(const Task &t) {
  if (t.done || !S.p[t.proc].alive) return false;
  const Op &o = t.op;
  int i;
  switch (o.k) {
    case O_READY: return S.exploring;
    case O_RCV: {
      auto &q = S.k.q[o.obj];
      return !q.alive || rcv_match(q, o.a, &i);
    }
    case O_SND: {
      auto &q = S.k.q[o.obj];
      return !q.alive || q.cbytes + o.a <= q.limit();
    }
    case O_SEM: {
      auto &s = S.k.s[o.obj];
      return !s.alive || s.v[o.b] + o.a >= 0;
    }
    case O_SLEEP: return t.wake <= S.k.clock_ns;
    case O_YIELD: return true;  // see alternatives
    case O_LOCK: {
      auto it = S.k.mx.find((void *)o.obj);
      return it == S.k.mx.end() || (it->second.owner == -1 && it->second.readers == 0);
    }
    case O_RDLOCK: {
      auto it = S.k.mx.find((void *)o.obj);
      return it == S.k.mx.end() || it->second.owner == -1;
    }
    case O_COND: {
      auto it = S.k.conds.find((void *)o.obj);
      return (it != S.k.conds.end() && it->second != o.a) || (t.wake && t.wake <= S.k.clock_ns);
    }
    case O_JOIN: return S.t[o.obj].done;
    case O_WAITDONE: {
      auto &p = S.p[o.obj];
      if (!p.alive) return true;
      for (auto &x : S.t)
        if (x.proc == o.obj && !x.done) return false;
      return true;
    }
    case O_WAITSIG: return S.k.signals >> o.obj & 1;
    default: return true;
  }
}
static uint64_t others(int p) { return S.nsteps - S.p[p].nsteps; }
// Would only take back the message it has put back, nobody else having done anything
static bool takes_back(const Task &t) {
  int i;
  if (t.op.k != O_RCV || !S.k.q[t.op.obj].alive || !rcv_match(S.k.q[t.op.obj], t.op.a, &i)) return false;
  auto &m = S.k.q[t.op.obj].m[i];
  return m.back == t.proc && others(t.proc) <= m.back_others;
}

// what processes share
static uint64_t world_hash() {
  uint64_t h = 0x42;
  auto &k = S.k;
  for (size_t i = 0; i < k.q.size(); i++) {
    h = mix(h, k.q[i].alive ? k.q[i].qbytes + 7 : 2);
    for (auto &m : k.q[i].m) {
      h = mix(h, m.h);
      if (m.back >= 0) h = mix(h, m.back * 2 + (others(m.back) > m.back_others));
    }
  }
  for (auto &s : k.s) {
    h = mix(h, s.alive);
    for (int v : s.v) h = mix(h, v);
  }
  for (auto &s : k.shm) h = mix(h, s.alive);
  for (auto &f : k.files) h = mix(h, hash_bytes(f.second->data(), f.second->size(), hash_bytes(f.first.data(), f.first.size())));
  h = mix(h, k.clock_ns);
  if (g_shm_used) h = hash_bytes(g_shm, g_shm_used, h);
  for (auto &p : S.p) h = mix(h, p.alive ? 1 : (p.crashed ? 2 : 3));
  for (auto &p : S.p)
    if (p.parent >= 0 || p.dormant) h = mix(h, p.dormant * 100 + p.parent * 2 + p.reaped);
  for (auto &l : S.lost) h = mix(h, l.parent * 2 + l.reaped);
  for (auto &m : k.mx)
    if (m.second.owner != -1 || m.second.readers) h = mix(h, m.second.owner + 100 * m.second.readers);
  h = mix(h, S.events);
  return mix(h, k.signals);
}
static uint64_t state_hash(int cur, int marker) {
  uint64_t h = world_hash();
  for (auto &p : S.p) h = mix(h, p.hist);
  for (auto &t : S.t) h = mix(h, t.done ? 7 : mix(8 + t.op.k, t.pos));
  h = mix(h, S.crashes * 1000003 + S.faults * 1009 + S.ticks);
  if (g_o.preempt >= 0) h = mix(h, S.preempts * 100 + cur + 1);
  // who has yielded, relative
  for (auto &t : S.t)
    if (!t.done && t.op.k == O_YIELD) h = mix(h, (t.yield_step == g_steps) * 2 + t.turn_quiet);
  return mix(h, marker);
}

[[noreturn]] static void leave(Status st) {
  g_status = st;
  g_user = false;
  siglongjmp(g_main_jmp, 1);
}
static void violation_here(const std::string &what) {
  g_fail = what;
  leave(ST_FAIL);
}
[[noreturn]] void die_in_user(const std::string &what) {
  Core c;
  g_fail = mc::fmt("process %s: %s", g_proc >= 0 && g_proc < (int)S.p.size() ? S.p[g_proc].name.c_str() : "?", what.c_str());
  leave(ST_FAIL);
}

// Resolves one choice among n alternatives. marker distinguishes the kind.
static int choose(int n, int marker) {
  if (!S.exploring || n <= 1) return 0;
  size_t i = g_path.size();
  if (i < g_prefix.size()) {
    int c = (unsigned char)g_prefix[i];
    if (i + 1 == g_prefix.size() && g_expect && state_hash(g_cur, marker) != g_expect) leave(ST_NONDET);
    if (c >= n) leave(ST_NONDET);
    g_path.push_back(c);
    return c;
  }
  if (g_replay_only) {
    g_path.push_back(0);
    return 0;
  }
  uint64_t h = 0;
  X->choice_points++;
  h = state_hash(g_cur, marker);
  if (h == 0) h = 1;
  if (!g_o.no_cache) {
    if (!table_insert(V, V_mask, h)) leave(ST_PRUNED);
    uint64_t v = ++X->visited;
    if (v > V_mask - V_mask / 8) {
      X->table_full = 1;
      X->stop = 1;
      leave(ST_PRUNED);
    }
    if (g_o.max_states && v > g_o.max_states) {
      X->table_full = 1;
      X->stop = 1;
      leave(ST_PRUNED);
    }
  } else {
    X->visited++;
  }
  if (n > 250) {
    g_fail = "too many alternatives";
    leave(ST_NONDET);
  }
  for (int c = n - 1; c >= 1; c--) {
    Item it;
    it.expect = h;
    it.path = g_path;
    it.path.push_back(c);
    g_local.push_back(std::move(it));
  }
  g_path.push_back(0);
  return 0;
}

static void sem_changed() {}

static void kill_proc(int p) {
  auto &pr = S.p[p];
  pr.alive = false;
  pr.crashed = true;
  for (auto &u : pr.undo) {
    auto &s = S.k.s[u.first.first];
    if (s.alive) {
      s.v[u.first.second] += u.second;
      if (s.v[u.first.second] < 0) s.v[u.first.second] = 0;
    }
  }
  pr.undo.clear();
  for (auto it = S.k.fds.begin(); it != S.k.fds.end();) {
    if (it->second.proc == p)
      it = S.k.fds.erase(it);
    else
      ++it;
  }
}

static bool primary_pending() {
  for (auto &t : S.t)
    if (!t.done && S.p[t.proc].alive && !S.p[t.proc].daemon) return true;
  return false;
}

// Picks the next task; does not return when the execution ends.
static int schedule() {
  while (true) {
    if (++g_steps > (g_history ? 5000000ull : (uint64_t)g_o.max_steps)) leave(ST_LIVELOCK);
    int run[kMaxTasks];
    int n = 0, yielders[kMaxTasks], ny = 0;
    bool cur_enabled = false;
    for (size_t i = 0; i < S.t.size(); i++) {
      auto &t = S.t[i];
      if (!enabled(t)) continue;
      if (t.op.k == O_YIELD && t.turn_quiet && t.yield_step + 1 >= g_steps) {
        yielders[ny++] = i;  // nothing else has happened since its last turn began
        continue;
      }
      if (takes_back(t)) {
        yielders[ny++] = i;
        continue;
      }
      if ((int)i == g_cur) cur_enabled = true;
      run[n++] = i;
    }
    if (n == 0)
      for (int i = 0; i < ny; i++) run[n++] = yielders[i];
    else
      ny = 0;
    // the current task first: continuing it is the default
    if (cur_enabled) {
      auto it = std::find(run, run + n, g_cur);
      std::rotate(run, it, it + 1);
      if (g_o.preempt >= 0 && S.preempts >= g_o.preempt && S.t[g_cur].op.k != O_YIELD) n = 1;
    }
    if (!S.exploring) {
      if (n == 0 && !g_history) return -1;
      if (n == 0 || (ny && !cur_enabled && n == ny)) {
        // only spinning tasks: let time pass
        int64_t w = 0;
        for (auto &t : S.t)
          if (!t.done && t.op.k == O_SLEEP && (!w || t.wake < w)) w = t.wake;
        if (w) {
          S.k.clock_ns = w;
          continue;
        }
        if (n == 0) return -1;
      }
      return run[0];
    }
    // the next time something happens by itself
    int64_t wake = 0;
    for (auto &t : S.t)
      if (!t.done && S.p[t.proc].alive && (t.op.k == O_SLEEP || (t.op.k == O_COND && t.wake)) && t.wake > S.k.clock_ns &&
          (!wake || t.wake < wake))
        wake = t.wake;
    bool idle = n == 0 || n == ny;
    bool can_tick = wake && primary_pending() && (idle || S.ticks < g_o.early_ticks);
    int crash[kMaxProcs], nc = 0;
    if (S.crashes < g_o.crashes && !(S.k.signals >> 63))
      for (size_t p = 0; p < S.p.size(); p++) {
        if (!S.p[p].crashable || !S.p[p].alive) continue;
        bool any = false;
        for (auto &t : S.t)
          if (t.proc == (int)p && !t.done) any = true;
        if (any) crash[nc++] = p;
      }
    if (n == 0 && !can_tick) {
      // nothing can happen any more
      leave(ST_TERMINAL);
    }
    if (n == 0 && can_tick && (wake - S0.k.clock_ns) / 1000000 > g_o.max_ms) leave(ST_DEADLINE);
    if (idle && can_tick && n) {
      // only spinning tasks: time passes
      n = 0;
      if ((wake - S0.k.clock_ns) / 1000000 > g_o.max_ms) leave(ST_DEADLINE);
    }
    int total = n + (can_tick ? 1 : 0) + nc;
    int c = choose(total, 1);
    if (c < n) {
      int t = run[c];
      if (cur_enabled && t != g_cur && S.t[g_cur].op.k != O_YIELD) S.preempts++;
      if (g_tracing) TR("  %s: %s", S.p[S.t[t].proc].name.c_str(), opstr(S.t[t]).c_str());
      S.nsteps++;
      S.p[S.t[t].proc].nsteps++;
      return t;
    }
    c -= n;
    if (can_tick && c == 0) {
      if (!idle) S.ticks++;
      S.k.clock_ns = wake;
      TR("  -- clock %.3f", wake / 1e9 - 1000);
      continue;
    }
    if (can_tick) c--;
    S.crashes++;
    TR("  -- %s is killed before: %s", S.p[crash[c]].name.c_str(), [&] {
      for (auto &t : S.t)
        if (t.proc == crash[c] && !t.done) return opstr(t);
      return std::string();
    }().c_str());
    S.log.push_back({crash[c], "crash", 0, 0, "", (S.k.clock_ns - S0.k.clock_ns) / 1000000});
    kill_proc(crash[c]);
    if (g_cur >= 0 && S.t[g_cur].proc == crash[c]) g_cur = -1;
  }
}

static void load_task(int id) {
  Task &t = S.t[id];
  int p = t.proc;
  auto &st = g_static[p];
  if (S.p[p].tls_owner != id) {
    if (st.tls_size) {
      if (S.p[p].tls_owner >= 0) S.t[S.p[p].tls_owner].tls.assign(st.tls, st.tls_size);
      __builtin_memcpy(st.tls, t.tls.data(), st.tls_size);
    }
    S.p[p].tls_owner = id;
  }
  auto *g = (void **)abi::__cxa_get_globals();
  g[0] = t.eh[0];
  *(unsigned int *)&g[1] = (unsigned int)(uintptr_t)t.eh[1];
  g_cur = id;
  g_proc = p;
  errno = t.err;
}
static void save_task(int id) {
  Task &t = S.t[id];
  t.err = errno;
  auto *g = (void **)abi::__cxa_get_globals();
  t.eh[0] = g[0];
  t.eh[1] = (void *)(uintptr_t) * (unsigned int *)&g[1];
}

static void switch_from_to(int from, int to) {
  if (from == to) return;
  void *dummy;
  if (from >= 0) save_task(from);
  load_task(to);
  sim_swtch(from >= 0 ? &S.t[from].sp : &dummy, S.t[to].sp);
}

static void race_sync_point();

// A scheduling point: the caller performs op when this returns.
static void point(const Op &op) {
  int me = g_cur;
  S.t[me].op = op;
  int next = schedule();
  if (next != me) {
    if (next < 0) {
      // setup: nothing can run, back to the main program
      save_task(me);
      g_cur = -1;
      sim_swtch(&S.t[me].sp, g_main_sp);
    } else {
      switch_from_to(me, next);
    }
  }
  auto &t = S.t[g_cur];
  if (t.op.k != O_YIELD) {
    uint64_t v = hash_bytes(t.op.name, __builtin_strlen(t.op.name), t.op.k);
    t.pos = mix(t.pos, v);
    t.pwin = mix(t.pwin, v);
  }
  t.op.k = O_PLAIN;
  t.op.name = "running";
}
static void observe(uint64_t v) {
  auto &p = S.p[g_proc];
  p.hist = mix(p.hist, mt(g_proc) ? mix(v, g_cur + 77) : v);
  p.win = mix(p.win, v);
}
static void plain(const char *name) {
  Op o;
  o.k = O_PLAIN;
  o.name = name;
  point(o);
}

static void end_task() {
  // in core
  Task &t = S.t[g_cur];
  t.done = true;
  int p = t.proc;
  S.p[p].ntasks--;
  S.p[p].hist = mix(S.p[p].hist, 0xE0D);
  int me = g_cur;
  save_task(me);
  int next = schedule();
  if (next < 0) {
    g_cur = -1;
    void *d;
    sim_swtch(&d, g_main_sp);
  }
  load_task(next);
  void *d;
  sim_swtch(&d, S.t[next].sp);
  abort();
}
static void run_dtors() {
  while (!S.t[g_cur].dtors.empty()) {
    auto d = S.t[g_cur].dtors.back();
    S.t[g_cur].dtors.pop_back();
    g_user = true;
    d.first(d.second);
    g_user = false;
  }
}
static void exit_proc(int code) {
  // the process ends: all of its tasks with it
  auto &pr = S.p[g_proc];
  TR("  %s: exits with %d", pr.name.c_str(), code);
  kill_proc(g_proc);
  pr.crashed = false;
  pr.exited_ok = code == 0;
  for (auto &t : S.t)
    if (t.proc == g_proc && t.id != g_cur && !t.done) {
      t.done = true;
      pr.ntasks--;
    }
  end_task();
}

static void fiber_main() noexcept {
  Task &t0 = S.t[g_cur];
  S.t[g_cur].op.k = O_PLAIN;
  S.t[g_cur].op.name = "running";
  auto fn = t0.fn;
  auto arg = t0.arg;
  bool first = false;
  for (auto &t : S.t)
    if (t.proc == t0.proc) {
      first = t.id == t0.id;
      break;
    }
  g_user = true;
  void *r;
  if (fn) {
    r = fn(arg);
  } else {
    auto &st = g_static[g_proc];
    r = (void *)(long)st.entry(st.arg);
  }
  g_user = false;
  S.t[g_cur].ret = r;
  run_dtors();
  if (first)
    exit_proc((int)(long)r);
  else
    end_task();
}

static int new_task(int proc, void *(*fn)(void *), void *arg) {
  int id = S.t.size();
  if (id >= kMaxTasks) violation_here("too many threads");
  S.t.emplace_back();
  Task &t = S.t.back();
  t.id = id;
  t.proc = proc;
  t.fn = fn;
  t.arg = arg;
  t.tls = g_static[proc].tls_init;
  t.op.k = O_START;
  char *top = g_stacks + size_t(id + 1) * kStack - 64;
  auto *sp = (void **)((uintptr_t)top & ~uintptr_t(15));
  *--sp = nullptr;               // return address of fiber_main
  *--sp = (void *)fiber_main;    // popped by ret
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  t.sp = sp;
  S.p[proc].ntasks++;
  return id;
}

// ---------------------------------------------------------------- memory accesses
// Happens-before race detection between the threads of one process.
struct Cell {
  int wt = -1;
  uint32_t wc = 0;
  std::vector<std::pair<int, uint32_t>> rd;
};
static std::map<uintptr_t, Cell> g_cells;
static std::map<const void *, VC> g_sync;  // clock released by a lock or atomic

static uint32_t &clk(VC &v, int t) {
  if ((int)v.size() <= t) v.resize(t + 1, 0);
  return v[t];
}
static uint32_t clkc(const VC &v, int t) { return t < (int)v.size() ? v[t] : 0; }
static void vjoin(VC &a, const VC &b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
static void hb_acquire(const void *o) {
  if (!g_races) return;
  auto it = g_sync.find(o);
  if (it != g_sync.end()) vjoin(S.t[g_cur].vc, it->second);
}
static void hb_release(const void *o) {
  if (!g_races) return;
  clk(S.t[g_cur].vc, g_cur)++;
  vjoin(g_sync[o], S.t[g_cur].vc);
  clk(S.t[g_cur].vc, g_cur)++;
}
static std::string where_is(uintptr_t w) {
  auto &st = g_static[g_proc];
  if (in_arenas((void *)w)) return "heap";
  return mc::fmt("static+0x%lx", w - st.lo);
}
static void race_check(uintptr_t a, size_t n, bool write) {
  auto &vc = S.t[g_cur].vc;
  if (clkc(vc, g_cur) == 0) clk(vc, g_cur) = 1;
  for (uintptr_t w = a & ~uintptr_t(7); w < a + n; w += 8) {
    Cell &c = g_cells[w];
    if (c.wt >= 0 && c.wt != g_cur && c.wc > clkc(vc, c.wt))
      violation_here(mc::fmt("data race: threads %d and %d of %s %s the same memory (%s) without synchronisation", c.wt, g_cur,
                             S.p[g_proc].name.c_str(), write ? "write" : "write and read", where_is(w).c_str()));
    if (write) {
      for (auto &r : c.rd)
        if (r.first != g_cur && r.second > clkc(vc, r.first))
          violation_here(mc::fmt("data race: threads %d and %d of %s read and write the same memory (%s) without synchronisation",
                                 r.first, g_cur, S.p[g_proc].name.c_str(), where_is(w).c_str()));
      c.wt = g_cur;
      c.wc = clkc(vc, g_cur);
      c.rd.clear();
    } else {
      bool f = false;
      for (auto &r : c.rd)
        if (r.first == g_cur) r.second = clkc(vc, g_cur), f = true;
      if (!f) c.rd.push_back({g_cur, clkc(vc, g_cur)});
    }
  }
}

// memory that is given out again has no history
static void forget_accesses(void *p, size_t n) {
  if (g_cells.empty()) return;
  Core c;
  g_cells.erase(g_cells.lower_bound((uintptr_t)p), g_cells.lower_bound((uintptr_t)p + n));
}

static bool thread_shared(const void *p) {
  if (in_stacks(p)) return false;
  if (in_arenas(p)) return true;
  auto &st = g_static[g_proc];
  uintptr_t a = (uintptr_t)p;
  return a >= st.lo && a < st.hi;
}

static inline bool in_shm(const void *p) { return (char *)p >= g_shm && (char *)p < g_shm + kShm; }

static void mem_access_slow(const void *p, size_t n, bool write, bool atomic) {
  Core c;
  if (in_shm(p)) {
    size_t off = (char *)p - g_shm;
    for (auto &s : S.k.shm)
      if (off >= s.off && off < s.off + s.size && off + n > s.off + s.bytes) die_in_user("accesses memory beyond the end of the shared memory segment");
    if (S.exploring && !g_quiet && (g_shm_points || atomic)) {
      Op o;
      o.k = O_MEM;
      o.obj = (char *)p - g_shm;
      o.a = n;
      o.b = write;
      o.name = write ? "write shared" : "read shared";
      point(o);
    }
    if (!write || atomic) observe(hash_bytes(p, n, (char *)p - g_shm));
  } else if (S.exploring && mt(g_proc) && thread_shared(p)) {
    if (g_mem_points && !g_quiet) {
      Op o;
      o.k = O_MEM;
      o.obj = (uintptr_t)p & 0xffffff;
      o.a = n;
      o.b = write;
      o.name = write ? "write memory" : "read memory";
      point(o);
    }
    if (g_races && !atomic) race_check((uintptr_t)p, n, write);
    if (!write || atomic) observe(hash_bytes(p, n, 99));
  }
}
static inline void mem_access(const void *p, size_t n, bool write, bool atomic = false) {
  if (!g_user || n == 0) return;
  if (in_shm(p) || (S.p[g_proc].ntasks > 1 && S.exploring)) mem_access_slow(p, n, write, atomic);
}

}  // namespace sim

using namespace sim;

EXPORT void sim_mem_read(const void *p, unsigned long n) { mem_access(p, n, false); }
EXPORT void sim_mem_write(void *p, unsigned long n) { mem_access(p, n, true); }

#define TS(sz)                                                                           \
  EXPORT void __tsan_read##sz(void *p) { mem_access(p, sz, false); }                     \
  EXPORT void __tsan_write##sz(void *p) { mem_access(p, sz, true); }                     \
  EXPORT void __tsan_unaligned_read##sz(void *p) { mem_access(p, sz, false); }           \
  EXPORT void __tsan_unaligned_write##sz(void *p) { mem_access(p, sz, true); }           \
  EXPORT void __tsan_read_write##sz(void *p) { mem_access(p, sz, false); mem_access(p, sz, true); } \
  EXPORT void __tsan_unaligned_read_write##sz(void *p) { mem_access(p, sz, false); mem_access(p, sz, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void **p, void *) { mem_access(p, 8, true); }
EXPORT void __tsan_vptr_read(void **p) { mem_access(p, 8, false); }
EXPORT void __tsan_read_range(void *p, size_t n) { mem_access(p, n, false); }
EXPORT void __tsan_write_range(void *p, size_t n) { mem_access(p, n, true); }
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

static void at_begin(volatile void *p, size_t n, bool write) {
  mem_access((const void *)p, n, write, true);
  if (g_races && g_user) {
    Core c;
    hb_acquire((const void *)p);
  }
}
static void at_end(volatile void *p) {
  if (g_races && g_user) {
    Core c;
    hb_release((const void *)p);
  }
}
#define AT(bits, T)                                                                                              \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int) { at_begin((volatile void *)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); __atomic_store_n(p, v, 5); at_end(p); } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); T r = __atomic_exchange_n(p, v, 5); at_end(p); return r; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); T r = __atomic_fetch_add(p, v, 5); at_end(p); return r; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); T r = __atomic_fetch_sub(p, v, 5); at_end(p); return r; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); T r = __atomic_fetch_and(p, v, 5); at_end(p); return r; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); T r = __atomic_fetch_or(p, v, 5); at_end(p); return r; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { at_begin(p, sizeof(T), true); T r = __atomic_fetch_xor(p, v, 5); at_end(p); return r; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at_begin(p, sizeof(T), true); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_end(p); return r; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at_begin(p, sizeof(T), true); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_end(p); return r; } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at_begin(p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); at_end(p); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---------------------------------------------------------------- heap
EXPORT void *malloc(size_t n) {
  if (!g_user) return __libc_malloc(n);
  return arena_alloc(n);
}
EXPORT void free(void *p) {
  if (!p) return;
  if (in_arenas(p)) {
    arena_free(p);
    return;
  }
  if (g_user) return;  // allocated before the simulation started
  __libc_free(p);
}
EXPORT void *calloc(size_t a, size_t b) {
  if (!g_user) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *r = arena_alloc(n);
  if (r) __builtin_memset(r, 0, n);
  return r;
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arenas(p)) {
    if (!g_user) return __libc_realloc(p, n);
    void *r = arena_alloc(n);
    if (r) __builtin_memcpy(r, p, n);
    return r;
  }
  auto *k = (Chunk *)((char *)p - sizeof(Chunk));
  if (k->magic != kLive) die_in_user("realloc of an invalid pointer or heap corruption");
  if (g_user) {
    void *r = arena_alloc(n);
    if (!r) return nullptr;
    __builtin_memcpy(r, p, std::min(n, k->size));
    arena_free(p);
    return r;
  }
  return nullptr;
}
EXPORT void *memalign(size_t a, size_t n) {
  if (!g_user) return __libc_memalign(a, n);
  if (a <= 16) return arena_alloc(n);
  return nullptr;
}
EXPORT void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXPORT int posix_memalign(void **r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}

// ---------------------------------------------------------------- sim API
EXPORT int sim_in_sim() { return g_user; }
EXPORT void sim_ready() {
  Core c;
  if (!S.exploring) {
    Op o;
    o.k = O_READY;
    point(o);
  }
}
EXPORT void sim_history(int on) {
  Core c;
  if (S.exploring) violation_here("history after the setup");
  g_history = on;
  if (!on) g_steps = 0;
}
EXPORT void sim_failing(const char *what) {
  Core c;
  if (S.exploring) violation_here("failing calls after the setup");
  g_failing = what ? what : "";
  g_failing_proc = g_proc;
}
EXPORT int sim_choose(int n, const char *what) {
  Core c;
  int r = choose(n, 16 + g_cur);
  TR("  %s: choice %s = %d", S.p[g_proc].name.c_str(), what, r);
  observe(r + 1000);
  return r;
}
static void add_log(const char *what, long a, long b, const char *s) {
  LogEntry e{g_proc, what, a, b, s ? s : "", (S.k.clock_ns - S0.k.clock_ns) / 1000000};
  TR("  %s: LOG %s %ld %ld %s", S.p[g_proc].name.c_str(), what, a, b, s ? s : "");
  S.p[g_proc].win = mix(S.p[g_proc].win, 0x1000 + S.log.size());
  S.log.push_back(std::move(e));
}
EXPORT void sim_log(const char *what, long a, long b, const char *s) {
  Core c;
  add_log(what, a, b, s);
}
EXPORT void sim_event(const char *what, long a, long b, const char *s) {
  Core c;
  add_log(what, a, b, s);
  uint64_t h = mix(mix(hash_bytes(what, __builtin_strlen(what)), a), b);
  if (s) h = hash_bytes(s, __builtin_strlen(s), h);
  S.events = mix(mix(S.events, h), g_proc);
}
EXPORT void sim_fail(const char *fmt, ...) {
  Core c;
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  violation_here(mc::fmt("%s: %s", S.p[g_proc].name.c_str(), buf));
}
EXPORT void sim_quiet(int on) { g_quiet = on; }
EXPORT void sim_vlog(const char *fmt, ...) {
  if (!g_tracing) return;
  Core c;
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  TR("  %s: | %s", g_proc >= 0 && g_proc < (int)S.p.size() ? S.p[g_proc].name.c_str() : "?", buf);
}
EXPORT long sim_now() {
  Core c;
  long r = (S.k.clock_ns - (S.exploring ? S0.k.clock_ns : 0)) / 1000000;
  observe(r);
  return r;
}
EXPORT void sim_pause() {
  Core c;
  plain("pause");
}
EXPORT int sim_self() { return g_proc; }
EXPORT void sim_wait_done(int p) {
  Core c;
  Op o;
  o.k = O_WAITDONE;
  o.obj = p;
  point(o);
}
EXPORT void sim_signal(int n) {
  Core c;
  plain("signal");
  S.k.signals |= 1ull << n;
}
EXPORT void sim_wait(int n) {
  Core c;
  Op o;
  o.k = O_WAITSIG;
  o.obj = n;
  point(o);
}
EXPORT int sim_queue_len(int id) {
  Core c;
  plain("look at a queue");
  int r = id >= 0 && id < (int)S.k.q.size() && S.k.q[id].alive ? (int)S.k.q[id].m.size() : -1;
  observe(r + 5);
  return r;
}

// a system call may fail here
static bool fault(const char *what) {
  if (!g_failing.empty() && g_failing == what && g_failing_proc == g_proc) return true;
  if (!S.exploring || S.faults >= g_o.faults || !g_sc->actors[g_proc].faults) return false;
  if (!g_o.fault_calls.empty()) {
    bool in = false;
    for (auto &f : g_o.fault_calls) in |= f == what;
    if (!in) return false;
  }
  int r = choose(2, 200 + g_cur);
  observe(r + 2000);
  if (r) {
    S.faults++;
    TR("  %s: %s FAILS", S.p[g_proc].name.c_str(), what);
    add_log("fault", 0, 0, what);
  }
  return r;
}
template <typename T>
static T real(const char *name) {
  return (T)dlsym(RTLD_NEXT, name);
}
#define REAL(name) \
  static auto real_##name = real<decltype(&name)>(#name)

// ---------------------------------------------------------------- System V IPC
EXPORT int msgget(key_t key, int flg) {
  if (!g_user) return syscall(SYS_msgget, key, flg);
  Core c;
  if (fault("msgget")) {
    errno = ENOSPC;
    return -1;
  }
  S.k.q.emplace_back();
  observe(S.k.q.size() + 31);
  return S.k.q.size() - 1;
}
static Queue *queue(int id) {
  if (id < 0 || id >= (int)S.k.q.size() || !S.k.q[id].alive) return nullptr;
  return &S.k.q[id];
}
EXPORT int msgsnd(int id, const void *p, size_t n, int flg) {
  if (!g_user) return syscall(SYS_msgsnd, id, p, n, flg);
  Core c;
  if (!(flg & IPC_NOWAIT) && id >= 0 && id < (int)S.k.q.size()) {
    Op o;
    o.k = O_SND;
    o.obj = id;
    o.a = n;
    __builtin_memcpy(&o.b, p, sizeof(long));
    point(o);
  } else {
    plain("msgsnd(non-blocking)");
  }
  if (fault("msgsnd")) {
    errno = EINTR;
    return -1;
  }
  auto *q = queue(id);
  int err = 0;
  long mtype;
  __builtin_memcpy(&mtype, p, sizeof(long));
  if (!q) err = EINVAL;
  else if (mtype <= 0 || n > 8192) err = EINVAL;
  else if (q->cbytes + (long)n > q->limit()) err = EAGAIN;
  observe(err + 41);
  if (err) {
    TR("  %s:   queue %d: error %d", S.p[g_proc].name.c_str(), id, err);
    errno = err;
    return -1;
  }
  Msg m;
  m.mtype = mtype;
  m.text = std::make_shared<std::string>((const char *)p + sizeof(long), n);
  m.h = hash_bytes(m.text->data(), n, mtype);
  auto &me = S.p[g_proc];
  if (me.last_q == id && me.last_h == m.h) {
    m.back = g_proc;
    m.back_others = others(g_proc);
  }
  me.last_q = -1;
  q->m.push_back(m);
  q->cbytes += n;
  TR("  %s:   sent to queue %d (now %zu)", S.p[g_proc].name.c_str(), id, q->m.size());
  return 0;
}
EXPORT ssize_t msgrcv(int id, void *p, size_t n, long type, int flg) {
  if (!g_user) return syscall(SYS_msgrcv, id, p, n, type, flg);
  Core c;
  if (id < 0 || id >= (int)S.k.q.size() || !S.k.q[id].alive) {
    plain("msgrcv");
    observe(51);
    errno = EINVAL;
    return -1;
  }
  Op o;
  o.k = flg & IPC_NOWAIT ? O_PLAIN : O_RCV;
  o.obj = id;
  o.a = type;
  o.name = "msgrcv(non-blocking)";
  point(o);
  auto *q = queue(id);
  int err = 0, i = 0;
  if (!q) err = EIDRM;
  else if (fault("msgrcv")) err = EINTR;
  else if (!rcv_match(*q, type, &i)) err = ENOMSG;
  else if (q->m[i].text->size() > n && !(flg & MSG_NOERROR)) err = E2BIG;
  if (err) {
    observe(err + 61);
    errno = err;
    return -1;
  }
  Msg m = q->m[i];
  q->m.erase(q->m.begin() + i);
  size_t len = std::min(n, m.text->size());
  q->cbytes -= m.text->size();
  __builtin_memcpy(p, &m.mtype, sizeof(long));
  __builtin_memcpy((char *)p + sizeof(long), m.text->data(), len);
  observe(m.h);
  S.p[g_proc].last_q = id;
  S.p[g_proc].last_h = m.h;
  TR("  %s:   received from queue %d (type %ld, %zu bytes)", S.p[g_proc].name.c_str(), id, m.mtype, len);
  return len;
}
EXPORT int msgctl(int id, int cmd, struct msqid_ds *buf) {
  if (!g_user) return syscall(SYS_msgctl, id, cmd, buf);
  Core c;
  plain(cmd == IPC_RMID ? "msgctl(remove)" : "msgctl");
  auto *q = queue(id);
  observe(q != nullptr);
  if (!q) {
    errno = EINVAL;
    return -1;
  }
  if (cmd == IPC_RMID) {
    TR("  %s:   removed queue %d", S.p[g_proc].name.c_str(), id);
    q->alive = false;
    q->m.clear();
    q->cbytes = 0;
  } else if (cmd == IPC_STAT) {
    __builtin_memset(buf, 0, sizeof(*buf));
    buf->msg_qnum = q->m.size();
    buf->msg_cbytes = q->cbytes;
    buf->msg_qbytes = q->limit();
    observe(q->m.size());
  } else if (cmd == IPC_SET) {
    q->qbytes = buf->msg_qbytes;
  }
  return 0;
}
EXPORT int semget(key_t key, int n, int flg) {
  if (!g_user) return syscall(SYS_semget, key, n, flg);
  Core c;
  if (fault("semget")) {
    errno = ENOSPC;
    return -1;
  }
  S.k.s.emplace_back();
  S.k.s.back().v.resize(n, 0);
  observe(S.k.s.size() + 71);
  return S.k.s.size() - 1;
}
EXPORT int semop(int id, struct sembuf *sb, size_t n) {
  if (!g_user) return syscall(SYS_semop, id, sb, n);
  Core c;
  if (id < 0 || id >= (int)S.k.s.size() || !S.k.s[id].alive) {
    errno = EINVAL;
    observe(81);
    return -1;
  }
  for (size_t i = 0; i < n; i++) {
    if (sb[i].sem_num >= S.k.s[id].v.size()) {
      errno = EFBIG;
      return -1;
    }
    Op o;
    o.k = sb[i].sem_flg & IPC_NOWAIT ? O_PLAIN : O_SEM;
    o.name = "semop(non-blocking)";
    o.obj = id;
    o.a = sb[i].sem_op;
    o.b = sb[i].sem_num;
    if (o.a < 0 || g_o.unlock_points) point(o);
    auto &s = S.k.s[id];
    if (!s.alive) {
      errno = EIDRM;
      observe(82);
      return -1;
    }
    if (s.v[o.b] + o.a < 0) {
      errno = EAGAIN;
      observe(83);
      return -1;
    }
    observe(84);
    s.v[o.b] += o.a;
    s.otime = true;
    hb_acquire(&s);
    if (sb[i].sem_flg & SEM_UNDO) {
      int &u = S.p[g_proc].undo[{id, (int)o.b}];
      u -= o.a;
      if (u == 0) S.p[g_proc].undo.erase({id, (int)o.b});
    }
  }
  return 0;
}
EXPORT int semctl(int id, int num, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (!g_user) return syscall(SYS_semctl, id, num, cmd, arg);
  Core c;
  if (id < 0 || id >= (int)S.k.s.size() || !S.k.s[id].alive) {
    errno = EINVAL;
    return -1;
  }
  plain("semctl");
  auto &s = S.k.s[id];
  if (!s.alive) {
    errno = EINVAL;
    return -1;
  }
  if (cmd == IPC_RMID) {
    s.alive = false;
  } else if (cmd == IPC_STAT) {
    auto *d = (struct semid_ds *)arg;
    __builtin_memset(d, 0, sizeof(*d));
    d->sem_otime = s.otime;
    d->sem_nsems = s.v.size();
    observe(s.otime);
  } else if (cmd == GETVAL) {
    observe(s.v[num]);
    return s.v[num];
  } else if (cmd == SETVAL) {
    s.v[num] = (int)(long)arg;
  }
  return 0;
}
EXPORT int shmget(key_t key, size_t size, int flg) {
  if (!g_user) return syscall(SYS_shmget, key, size, flg);
  Core c;
  plain("shmget");
  if (g_o.fail_shm && fault("shmget")) {
    errno = ENOSPC;
    return -1;
  }
  if (key != IPC_PRIVATE)
    for (size_t i = 0; i < S.k.shm.size(); i++)
      if (S.k.shm[i].alive && S.k.shm[i].key == key) {
        if (S.k.shm[i].bytes < size) {
          errno = EINVAL;
          return -1;
        }
        observe(91 + i);
        return i;
      }
  if (key != IPC_PRIVATE && !(flg & IPC_CREAT)) {
    errno = ENOENT;
    return -1;
  }
  size_t bytes = size;
  size = (size + 4095) & ~size_t(4095);
  // guard pages around the segment
  if (g_shm_used + size + 8192 > kShm) {
    errno = ENOMEM;
    return -1;
  }
  Shm s;
  s.key = key;
  s.size = size;
  s.bytes = bytes;
  s.off = g_shm_used;
  mprotect(g_shm + s.off, size, PROT_READ | PROT_WRITE);
  __builtin_memset(g_shm + s.off, 0, size);
  g_shm_used += size;
  S.k.shm.push_back(s);
  observe(91 + S.k.shm.size() - 1);
  return S.k.shm.size() - 1;
}
EXPORT void *shmat(int id, const void *a, int flg) {
  if (!g_user) return (void *)syscall(SYS_shmat, id, a, flg);
  Core c;
  plain("shmat");
  if (id < 0 || id >= (int)S.k.shm.size() || !S.k.shm[id].alive) {
    errno = EINVAL;
    return (void *)-1;
  }
  return g_shm + S.k.shm[id].off;
}
EXPORT int shmdt(const void *) { return 0; }
EXPORT int shmctl(int id, int cmd, struct shmid_ds *buf) {
  if (!g_user) return syscall(SYS_shmctl, id, cmd, buf);
  Core c;
  plain("shmctl");
  if (id < 0 || id >= (int)S.k.shm.size() || !S.k.shm[id].alive) {
    errno = EINVAL;
    return -1;
  }
  if (cmd == IPC_RMID) S.k.shm[id].alive = false;
  if (cmd == IPC_STAT) {
    __builtin_memset(buf, 0, sizeof(*buf));
    buf->shm_segsz = S.k.shm[id].size;
  }
  return 0;
}

// ---------------------------------------------------------------- processes
EXPORT pid_t getpid() {
  if (!g_user) return syscall(SYS_getpid);
  return 1000 + g_proc;
}
// ended, its parent is there and has not noticed
static bool zombie(int pid) {
  int par = -1;
  if (pid >= 2000 && pid - 2000 < (int)S.lost.size() && !S.lost[pid - 2000].reaped) par = S.lost[pid - 2000].parent;
  int p = pid - 1000;
  if (p >= 0 && p < (int)S.p.size() && !S.p[p].alive && !S.p[p].dormant && !S.p[p].reaped) par = S.p[p].parent;
  return par >= 0 && S.p[par].alive;
}
EXPORT int kill(pid_t pid, int sig) {
  if (!g_user) return syscall(SYS_kill, pid, sig);
  Core c;
  if (!g_quiet || sig) plain("kill");
  int p = pid - 1000;
  bool ok = p >= 0 && p < (int)S.p.size() && S.p[p].alive;
  if (!ok && zombie(pid)) {
    observe(102);
    return 0;
  }
  observe(ok + 101);
  if (!ok) {
    errno = ESRCH;
    return -1;
  }
  if (sig) {
    kill_proc(p);
    if (p == g_proc) {
      int next = schedule();
      load_task(next);
      void *d;
      sim_swtch(&d, S.t[next].sp);
    }
  }
  return 0;
}
EXPORT pid_t fork() {
  if (!g_user) {
    REAL(fork);
    return real_fork();
  }
  errno = EAGAIN;
  return -1;
}
// The code under test is compiled with fork() as vfork(): the child runs on
// the parent's stack until it becomes a program (another simulated process,
// dormant until then) or ends; then the parent goes on.
struct ForkArea {
  void *rbx, *rbp, *r12, *r13, *r14, *r15, *rsp, *rip;
};
static ForkArea g_forks[kMaxTasks];
extern "C" __attribute__((used)) ForkArea *sim_fork_area() {
  if (!g_user) abort();
  Core c;
  plain("fork");
  if (S.t[g_cur].forked) violation_here("a forked process forks");
  S.t[g_cur].forked = true;
  return &g_forks[g_cur];
}
extern "C" [[noreturn]] void sim_fork_return(ForkArea *, long pid);
asm(R"(
.text
.globl vfork
.type vfork,@function
vfork:
  push %rbx
  call sim_fork_area
  pop %rbx
  mov %rbx,0(%rax)
  mov %rbp,8(%rax)
  mov %r12,16(%rax)
  mov %r13,24(%rax)
  mov %r14,32(%rax)
  mov %r15,40(%rax)
  lea 8(%rsp),%rcx
  mov %rcx,48(%rax)
  mov (%rsp),%rcx
  mov %rcx,56(%rax)
  xor %eax,%eax
  ret
.globl sim_fork_return
.type sim_fork_return,@function
sim_fork_return:
  mov 0(%rdi),%rbx
  mov 8(%rdi),%rbp
  mov 16(%rdi),%r12
  mov 24(%rdi),%r13
  mov 32(%rdi),%r14
  mov 40(%rdi),%r15
  mov 48(%rdi),%rsp
  mov %rsi,%rax
  jmp *56(%rdi)
)");
static std::string base(const char *f) {
  const char *s = strrchr(f, '/');
  return s ? s + 1 : f;
}
// The program "f" is the first dormant process named f or f#...
EXPORT int execvp(const char *f, char *const argv[]) {
  if (!g_user) {
    REAL(execvp);
    return real_execvp(f, argv);
  }
  int pid = 0;
  {
    Core c;
    plain("exec");
    std::string n = base(f), text = f;
    std::vector<std::string> args;
    for (int i = 0; argv[i]; i++) args.push_back(argv[i]);
    for (size_t i = 1; i < args.size(); i++) text += " " + args[i];
    int p = -1;
    bool any = false;
    for (size_t i = 0; i < S.p.size(); i++) {
      auto &x = S.p[i].name;
      if (g_static[i].program != n) continue;
      any = true;
      if (S.p[i].dormant && p == -1) p = i;
    }
    add_log("run", p, 0, text.c_str());
    S.events = mix(S.events, hash_bytes(text.data(), text.size()));
    if (!any) {
      errno = ENOENT;
      return -1;
    }
    if (p == -1) violation_here("program started more often than expected: " + text);
    if (!S.t[g_cur].forked) violation_here("exec without fork");
    auto &pr = S.p[p];
    pr.dormant = false;
    pr.alive = true;
    pr.parent = g_proc;
    pr.argv = args;
    for (auto &a : args) pr.hist = hash_bytes(a.data(), a.size(), pr.hist);
    new_task(p, nullptr, nullptr);
    S.t[g_cur].forked = false;
    pid = 1000 + p;
    observe(pid);
  }
  sim_fork_return(&g_forks[g_cur], pid);
}
// The arguments a program was started with
EXPORT const char *sim_argv(int i) { return i < (int)S.p[g_proc].argv.size() ? S.p[g_proc].argv[i].c_str() : nullptr; }
static void exit_forked() {
  S.t[g_cur].forked = false;
  S.lost.push_back({g_proc, false});
  long pid = 2000 + S.lost.size() - 1;
  observe(pid);
  g_user = true;
  sim_fork_return(&g_forks[g_cur], pid);
}
EXPORT pid_t waitpid(pid_t pid, int *st, int opt) {
  if (!g_user) {
    pid_t r;
    return (pid_t)syscall(SYS_wait4, pid, st, opt, nullptr);
  }
  Core c;
  if (st) *st = 0;
  if (pid > 0 && pid - 1000 < (int)S.p.size() && pid >= 1000 && S.p[pid - 1000].parent == g_proc && !(opt & WNOHANG)) {
    Op o;
    o.k = O_WAITDONE;
    o.obj = pid - 1000;
    point(o);
  } else
    plain("waitpid");
  int r;
  if (pid >= 1000 && pid - 1000 < (int)S.p.size() && S.p[pid - 1000].parent == g_proc && S.p[pid - 1000].alive)
    r = 0;
  else if (zombie(pid)) {
    if (pid >= 2000) S.lost[pid - 2000].reaped = true;
    else S.p[pid - 1000].reaped = true;
    r = pid;
    if (st) *st = 255 << 8;
  } else {
    errno = ECHILD;
    r = -1;
  }
  observe(r + 55);
  return r;
}
EXPORT FILE *freopen(const char *p, const char *m, FILE *f) {
  if (!g_user) {
    REAL(freopen);
    return real_freopen(p, m, f);
  }
  return f;
}
// would refer to memory of one execution in later ones
EXPORT int setenv(const char *n, const char *v, int o) {
  if (!g_user) {
    REAL(setenv);
    return real_setenv(n, v, o);
  }
  return 0;
}
EXPORT void abort() {
  if (!g_user) {
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _exit(134);
  }
  die_in_user("terminated (abort or uncaught exception)");
}
EXPORT void exit(int code) {
  if (!g_user) {
    REAL(exit);
    real_exit(code);
    __builtin_unreachable();
  }
  Core c;
  if (S.t[g_cur].forked) exit_forked();
  run_dtors();
  exit_proc(code);
  __builtin_unreachable();
}
EXPORT int __cxa_thread_atexit(void (*f)(void *), void *o, void *dso) {
  if (!g_user) return 0;
  Core c;
  S.t[g_cur].dtors.push_back({f, o});
  return 0;
}

// objects with static storage are not destroyed at the end
EXPORT int __cxa_atexit(void (*f)(void *), void *o, void *dso) {
  if (!g_user) {
    REAL(__cxa_atexit);
    return real___cxa_atexit(f, o, dso);
  }
  return 0;
}

// ---------------------------------------------------------------- time
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!g_user) return syscall(SYS_clock_gettime, id, ts);
  Core c;
  int64_t v = S.k.clock_ns;
  if (id == CLOCK_REALTIME) v += 1700000000LL * 1000000000;
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  observe(v);
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  if (!g_user) return syscall(SYS_gettimeofday, tv, tz);
  Core c;
  int64_t v = S.k.clock_ns + 1700000000LL * 1000000000;
  tv->tv_sec = v / 1000000000;
  tv->tv_usec = v % 1000000000 / 1000;
  observe(v);
  return 0;
}
EXPORT time_t time(time_t *t) {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  if (t) *t = tv.tv_sec;
  return tv.tv_sec;
}
static void sim_sleep(int64_t ns) {
  Core c;
  int64_t w = S.k.clock_ns + (ns > 0 ? ns : 0);
  S.t[g_cur].wake = w;
  Op o;
  o.k = O_SLEEP;
  point(o);
  observe(111);
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!g_user) return syscall(SYS_nanosleep, rq, rm);
  {
    Core c;
    if (fault("nanosleep")) {
      errno = EINTR;
      return -1;
    }
  }
  sim_sleep(rq->tv_sec * 1000000000LL + rq->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!g_user) {
    int r = syscall(SYS_clock_nanosleep, id, flags, rq, rm);
    return r == -1 ? errno : 0;
  }
  int64_t v = rq->tv_sec * 1000000000LL + rq->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    v -= S.k.clock_ns;
    if (id == CLOCK_REALTIME) v -= 1700000000LL * 1000000000;
  }
  sim_sleep(v);
  return 0;
}
EXPORT int usleep(useconds_t us) {
  if (!g_user) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return syscall(SYS_nanosleep, &ts, nullptr);
  }
  sim_sleep(us * 1000LL);
  return 0;
}
EXPORT unsigned sleep(unsigned s) {
  if (!g_user) {
    struct timespec ts = {(time_t)s, 0};
    syscall(SYS_nanosleep, &ts, nullptr);
    return 0;
  }
  sim_sleep(s * 1000000000LL);
  return 0;
}
EXPORT int sched_yield() {
  if (!g_user) return syscall(SYS_sched_yield);
  Core c;
  S.t[g_cur].yield_step = g_steps + 1;
  auto &p = S.p[g_proc];
  auto &t = S.t[g_cur];
  bool same = t.pwin == t.pwin_prev && (mt(g_proc) || p.win == p.win_prev);
  if (!mt(g_proc)) {
    // one more turn of a loop that has seen the same as in the last one leads to the same state
    if (same) p.hist = p.win_hist;
    p.win_prev = p.win;
    p.win_hist = p.hist;
    p.win = 0;
  }
  if (same) t.pos = t.pos_yield;
  uint64_t w = world_hash();
  t.turn_quiet = w == t.world;
  t.world = w;
  t.pos_yield = t.pos;
  t.pwin_prev = t.pwin;
  t.pwin = 0;
  Op o;
  o.k = O_YIELD;
  point(o);
  return 0;
}

// ---------------------------------------------------------------- threads
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!g_user) {
    REAL(pthread_create);
    return real_pthread_create(t, a, fn, arg);
  }
  Core c;
  int id = new_task(g_proc, fn, arg);
  *t = (pthread_t)(id + 1);
  if (g_races) {
    clk(S.t[g_cur].vc, g_cur)++;
    S.t[id].vc = S.t[g_cur].vc;
    clk(S.t[g_cur].vc, g_cur)++;
  }
  observe(id);
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **r) {
  if (!g_user) {
    REAL(pthread_join);
    return real_pthread_join(t, r);
  }
  Core c;
  Op o;
  o.k = O_JOIN;
  o.obj = (long)t - 1;
  point(o);
  if (g_races) vjoin(S.t[g_cur].vc, S.t[o.obj].vc);
  if (r) *r = S.t[o.obj].ret;
  observe(121);
  return 0;
}
EXPORT int pthread_detach(pthread_t) { return 0; }
EXPORT pthread_t pthread_self() {
  if (!g_user) {
    pthread_t r;
    asm("movq %%fs:16,%0" : "=r"(r));
    return r;
  }
  return (pthread_t)(g_cur + 1);
}
static int lock_op(const void *m, bool rd, bool try_, bool rec) {
  Core c;
  if (!S.exploring && !mt(g_proc) && false) return 0;
  if (mt(g_proc)) {
    Op o;
    o.k = try_ ? O_PLAIN : (rd ? O_RDLOCK : O_LOCK);
    o.name = "try to lock";
    o.obj = (long)m;
    if (!rec) point(o);
  }
  auto &x = S.k.mx[m];
  if (rd ? x.owner != -1 : (x.owner != -1 || x.readers)) {
    if (try_) {
      observe(131);
      return EBUSY;
    }
    violation_here(mc::fmt("%s: thread locks a mutex it holds", S.p[g_proc].name.c_str()));
  }
  if (rd)
    x.readers++;
  else
    x.owner = g_cur;
  observe(132);
  hb_acquire(m);
  return 0;
}
static int unlock_op(const void *m) {
  Core c;
  auto it = S.k.mx.find(m);
  if (it == S.k.mx.end()) return 0;
  hb_release(m);
  if (it->second.readers)
    it->second.readers--;
  else
    it->second.owner = -1;
  if (!it->second.readers && it->second.owner == -1) S.k.mx.erase(it);
  return 0;
}
#define LOCKFN(name, type, rd, try_)               \
  EXPORT int name(type *m) {                       \
    if (!g_user) {                                 \
      REAL(name);                                  \
      return real_##name(m);                       \
    }                                              \
    return lock_op(m, rd, try_, false);            \
  }
LOCKFN(pthread_mutex_lock, pthread_mutex_t, false, false)
LOCKFN(pthread_mutex_trylock, pthread_mutex_t, false, true)
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_t, true, false)
LOCKFN(pthread_rwlock_tryrdlock, pthread_rwlock_t, true, true)
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_t, false, false)
LOCKFN(pthread_rwlock_trywrlock, pthread_rwlock_t, false, true)
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!g_user) {
    REAL(pthread_mutex_unlock);
    return real_pthread_mutex_unlock(m);
  }
  return unlock_op(m);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!g_user) {
    REAL(pthread_rwlock_unlock);
    return real_pthread_rwlock_unlock(m);
  }
  return unlock_op(m);
}
static int cond_wait(const void *cv, pthread_mutex_t *m, int64_t wake) {
  int gen;
  {
    Core c;
    gen = S.k.conds[cv];
  }
  unlock_op(m);
  bool to = false;
  {
    Core c;
    Op o;
    o.k = O_COND;
    o.obj = (long)cv;
    o.a = gen;
    S.t[g_cur].wake = wake;
    point(o);
    to = S.k.conds[cv] == gen;
    S.t[g_cur].wake = 0;
    observe(to + 141);
    hb_acquire(cv);
  }
  lock_op(m, false, false, false);
  return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m) {
  if (!g_user) {
    REAL(pthread_cond_wait);
    return real_pthread_cond_wait(cv, m);
  }
  return cond_wait(cv, m, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *cv, pthread_mutex_t *m, const struct timespec *ts) {
  if (!g_user) {
    REAL(pthread_cond_timedwait);
    return real_pthread_cond_timedwait(cv, m, ts);
  }
  return cond_wait(cv, m, ts->tv_sec * 1000000000LL + ts->tv_nsec - 1700000000LL * 1000000000);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *cv, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) {
  int64_t v = ts->tv_sec * 1000000000LL + ts->tv_nsec;
  if (id == CLOCK_REALTIME) v -= 1700000000LL * 1000000000;
  return cond_wait(cv, m, v);
}
// all waiters are woken: a superset of the behaviours of signal (spurious wake-ups are allowed)
EXPORT int pthread_cond_broadcast(pthread_cond_t *cv) {
  if (!g_user) {
    REAL(pthread_cond_broadcast);
    return real_pthread_cond_broadcast(cv);
  }
  Core c;
  S.k.conds[cv]++;
  hb_release(cv);
  return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t *cv) {
  if (!g_user) {
    REAL(pthread_cond_signal);
    return real_pthread_cond_signal(cv);
  }
  return pthread_cond_broadcast(cv);
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!g_user) {
    REAL(pthread_once);
    return real_pthread_once(o, f);
  }
  while (true) {
    bool wait = false;
    {
      Core c;
      if (mt(g_proc)) plain("once");
      if (*o == 2) {
        hb_acquire(o);
        return 0;
      }
      if (*o == 1) wait = true;
    }
    if (!wait) break;
    sched_yield();
  }
  *o = 1;
  f();
  Core c;
  hb_release(o);
  *o = 2;
  return 0;
}
EXPORT int sim_guard_acquire(uint64_t *g) asm("__cxa_guard_acquire");
EXPORT int sim_guard_acquire(uint64_t *g) {
  auto *b = (volatile char *)g;
  if (!g_user) {
    if (b[0]) return 0;
    return 1;
  }
  while (true) {
    {
      Core c;
      if (mt(g_proc)) plain("static initialization");
      if (b[0]) {
        hb_acquire(g);
        return 0;
      }
      if (!b[1]) {
        b[1] = 1;
        return 1;
      }
    }
    sched_yield();
  }
}
EXPORT void sim_guard_release(uint64_t *g) asm("__cxa_guard_release");
EXPORT void sim_guard_release(uint64_t *g) {
  auto *b = (volatile char *)g;
  b[0] = 1;
  b[1] = 0;
  if (g_user) {
    Core c;
    hb_release(g);
  }
}
EXPORT void sim_guard_abort(uint64_t *g) asm("__cxa_guard_abort");
EXPORT void sim_guard_abort(uint64_t *g) { ((volatile char *)g)[1] = 0; }

// ---------------------------------------------------------------- files
EXPORT int mkstemp(char *tmpl) {
  if (!g_user) {
    REAL(mkstemp);
    return real_mkstemp(tmpl);
  }
  Core c;
  plain("mkstemp");
  if (fault("mkstemp")) {
    errno = EMFILE;
    return -1;
  }
  size_t n = __builtin_strlen(tmpl);
  char num[16];
  snprintf(num, sizeof(num), "%06d", ++S.k.tmpno);
  __builtin_memcpy(tmpl + n - 6, num, 6);
  S.k.files[tmpl] = std::make_shared<std::string>();
  Fd f;
  f.path = tmpl;
  f.proc = g_proc;
  int fd = S.k.nextfd++;
  S.k.fds[fd] = f;
  observe(S.k.tmpno * 1000 + fd);
  return fd;
}
EXPORT int mkstemp64(char *t) { return mkstemp(t); }
static int sim_open(const char *path, int flags) {
  Core c;
  plain("open");
  if (fault("open")) {
    errno = EMFILE;
    return -1;
  }
  auto it = S.k.files.find(path);
  bool have = it != S.k.files.end();
  observe(have);
  if (!have && !(flags & O_CREAT)) {
    errno = ENOENT;
    return -1;
  }
  if (have && (flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if (!have || (flags & O_TRUNC)) S.k.files[path] = std::make_shared<std::string>();
  Fd f;
  f.path = path;
  f.proc = g_proc;
  f.append = flags & O_APPEND;
  int fd = S.k.nextfd++;
  S.k.fds[fd] = f;
  observe(fd);
  return fd;
}
EXPORT int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!g_user) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  return sim_open(path, flags);
}
EXPORT int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!g_user) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  return sim_open(path, flags);
}
EXPORT int close(int fd) {
  if (!g_user) return syscall(SYS_close, fd);
  Core c;
  auto it = S.k.fds.find(fd);
  if (it == S.k.fds.end()) {
    errno = EBADF;
    return -1;
  }
  plain("close");
  S.k.fds.erase(fd);
  if (fault("close")) {
    errno = EIO;
    return -1;
  }
  return 0;
}
EXPORT ssize_t write(int fd, const void *p, size_t n) {
  if (!g_user) return syscall(SYS_write, fd, p, n);
  if (fd <= 2) return n;
  Core c;
  auto it = S.k.fds.find(fd);
  if (it == S.k.fds.end()) {
    errno = EBADF;
    return -1;
  }
  plain("write");
  if (fault("write")) {
    if (n > 1 && choose(2, 230 + g_cur)) {
      observe(7);
      n /= 2;  // a short write
    } else {
      errno = ENOSPC;
      return -1;
    }
  }
  auto &f = S.k.fds[fd];
  auto &d = S.k.files[f.path];
  auto nd = std::make_shared<std::string>(d ? *d : std::string());
  if (f.append) f.pos = nd->size();
  if (nd->size() < f.pos + n) nd->resize(f.pos + n);
  nd->replace(f.pos, n, (const char *)p, n);
  f.pos += n;
  d = nd;
  return n;
}
EXPORT ssize_t read(int fd, void *p, size_t n) {
  if (!g_user) return syscall(SYS_read, fd, p, n);
  Core c;
  auto it = S.k.fds.find(fd);
  if (it == S.k.fds.end()) {
    errno = EBADF;
    return -1;
  }
  plain("read");
  if (fault("read")) {
    errno = EIO;
    return -1;
  }
  auto &f = S.k.fds[fd];
  auto &d = S.k.files[f.path];
  size_t m = !d || f.pos >= d->size() ? 0 : std::min(n, d->size() - f.pos);
  if (m) __builtin_memcpy(p, d->data() + f.pos, m);
  f.pos += m;
  observe(hash_bytes(p, m, 3));
  return m;
}
struct iovec_ {
  void *b;
  size_t n;
};
EXPORT ssize_t writev(int fd, const iovec_ *v, int n) {
  if (!g_user) return syscall(SYS_writev, fd, v, n);
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = write(fd, v[i].b, v[i].n);
    if (r < 0) return t ? t : -1;
    t += r;
  }
  return t;
}
EXPORT off_t lseek(int fd, off_t o, int wh) {
  if (!g_user) return syscall(SYS_lseek, fd, o, wh);
  Core c;
  auto it = S.k.fds.find(fd);
  if (it == S.k.fds.end()) {
    errno = fd <= 2 ? ESPIPE : EBADF;
    return -1;
  }
  auto &f = it->second;
  auto &d = S.k.files[f.path];
  if (wh == SEEK_SET) f.pos = o;
  else if (wh == SEEK_CUR) f.pos += o;
  else f.pos = (d ? d->size() : 0) + o;
  observe(f.pos);
  return f.pos;
}
EXPORT off_t lseek64(int fd, off_t o, int wh) { return lseek(fd, o, wh); }
EXPORT int unlink(const char *path) {
  if (!g_user) return syscall(SYS_unlink, path);
  Core c;
  plain("unlink");
  if (fault("unlink")) {
    errno = EIO;
    return -1;
  }
  auto it = S.k.files.find(path);
  observe(it != S.k.files.end());
  if (it == S.k.files.end()) {
    errno = ENOENT;
    return -1;
  }
  S.k.files.erase(it);
  return 0;
}
EXPORT int remove(const char *path) {
  if (!g_user) {
    REAL(remove);
    return real_remove(path);
  }
  return unlink(path);
}
static int fill_stat(const std::string &path, struct stat *st) {
  auto it = S.k.files.find(path);
  observe(it != S.k.files.end());
  if (it == S.k.files.end()) {
    errno = ENOENT;
    return -1;
  }
  __builtin_memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0600;
  st->st_size = it->second->size();
  st->st_nlink = 1;
  st->st_blksize = 4096;
  observe(st->st_size);
  return 0;
}
#define STATFN(name, sys)                          \
  EXPORT int name(const char *p, struct stat *st) { \
    if (!g_user) return syscall(sys, p, st);       \
    Core c;                                        \
    plain("stat");                                 \
    if (fault("stat")) {                           \
      errno = EIO;                                 \
      return -1;                                   \
    }                                              \
    return fill_stat(p, st);                       \
  }
STATFN(stat, SYS_stat)
STATFN(lstat, SYS_lstat)
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstat(int fd, struct stat *st) {
  if (!g_user) return syscall(SYS_fstat, fd, st);
  Core c;
  auto it = S.k.fds.find(fd);
  if (it == S.k.fds.end()) {
    errno = EBADF;
    return -1;
  }
  return fill_stat(it->second.path, st);
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }

// Enough of stdio for file streams
struct SimFile {
  uint64_t magic;
  int fd;
};
constexpr uint64_t kSimFile = 0x51F11E51F11E51F1ULL;
static FILE *sim_fopen(const char *path, const char *mode) {
  int fl = O_RDONLY;
  if (mode[0] == 'w') fl = O_WRONLY | O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl = O_WRONLY | O_CREAT | O_APPEND;
  int fd = sim_open(path, fl);
  if (fd == -1) return nullptr;
  auto *f = (SimFile *)arena_alloc(sizeof(SimFile));
  f->magic = kSimFile;
  f->fd = fd;
  return (FILE *)f;
}
EXPORT FILE *fopen(const char *path, const char *mode) {
  if (!g_user) {
    REAL(fopen);
    return real_fopen(path, mode);
  }
  return sim_fopen(path, mode);
}
EXPORT FILE *fopen64(const char *path, const char *mode) {
  if (!g_user) {
    REAL(fopen64);
    return real_fopen64(path, mode);
  }
  return sim_fopen(path, mode);
}
EXPORT int fclose(FILE *f) {
  if (in_arenas(f)) {
    int fd = ((SimFile *)f)->fd;
    int r = close(fd);
    arena_free(f);
    return r;
  }
  REAL(fclose);
  return real_fclose(f);
}
EXPORT int fileno(FILE *f) {
  if (in_arenas(f)) return ((SimFile *)f)->fd;
  REAL(fileno);
  return real_fileno(f);
}
EXPORT int fflush(FILE *f) {
  if (g_user) return 0;
  REAL(fflush);
  return real_fflush(f);
}
EXPORT size_t fwrite(const void *p, size_t a, size_t b, FILE *f) {
  if (in_arenas(f)) {
    ssize_t r = write(((SimFile *)f)->fd, p, a * b);
    return r < 0 ? 0 : r / (a ? a : 1);
  }
  if (g_user) return b;
  REAL(fwrite);
  return real_fwrite(p, a, b, f);
}
EXPORT int fprintf(FILE *f, const char *fmt, ...) {
  if (g_user) return 0;
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap;
  va_start(ap, rq);
  void *a = va_arg(ap, void *);
  va_end(ap);
  if (!g_user) return syscall(SYS_ioctl, fd, rq, a);
  errno = ENOTTY;
  return -1;
}

// ---------------------------------------------------------------- driver
namespace sim {

struct Region {
  char *p;
  size_t n;
  std::string saved;
};
static std::vector<Region> g_regions;

struct PhdrArg {
  const char *name;
  int proc;
  bool found = false;
};
static int on_phdr(struct dl_phdr_info *i, size_t, void *a_) {
  auto *a = (PhdrArg *)a_;
  if (!i->dlpi_name || !strstr(i->dlpi_name, a->name)) return 0;
  a->found = true;
  uintptr_t rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    if (h.p_type == PT_GNU_RELRO) {
      rlo = i->dlpi_addr + h.p_vaddr;
      rhi = (rlo + h.p_memsz) & ~uintptr_t(4095);
      rlo &= ~uintptr_t(4095);
    }
  }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
      uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
      if (a->proc >= 0) {
        auto &st = g_static[a->proc];
        if (!st.lo || lo < st.lo) st.lo = lo;
        if (hi > st.hi) st.hi = hi;
      }
      if (rhi > lo && rlo <= lo) lo = rhi;
      if (lo < hi) g_regions.push_back({(char *)lo, hi - lo, ""});
    }
    if (h.p_type == PT_TLS && a->proc >= 0) {
      auto &st = g_static[a->proc];
      size_t ti[2] = {i->dlpi_tls_modid, 0};
      st.tls = (char *)__tls_get_addr(ti);
      st.tls_size = h.p_memsz;
      st.tls_init.assign(h.p_memsz, 0);
      memcpy(&st.tls_init[0], (char *)i->dlpi_addr + h.p_vaddr, h.p_filesz);
    }
  }
  return 1;
}

static void take_snapshot() {
  for (size_t p = 0; p < S.p.size(); p++) {
    auto *a = (ArenaHead *)arena_of(p);
    g_regions.push_back({arena_of(p), std::max(a->used, sizeof(ArenaHead)), ""});
    if (g_static[p].tls_size) g_regions.push_back({g_static[p].tls, g_static[p].tls_size, ""});
  }
  for (auto &t : S.t)
    if (!t.done) {
      char *top = g_stacks + size_t(t.id + 1) * kStack;
      g_regions.push_back({(char *)t.sp - 256, size_t(top - ((char *)t.sp - 256)), ""});
    }
  if (g_shm_used) g_regions.push_back({g_shm, g_shm_used, ""});
  for (auto &r : g_regions) r.saved.assign(r.p, r.n);
  S0 = S;
}
static size_t g_shm_used0;
static void restore() {
  for (auto &r : g_regions) memcpy(r.p, r.saved.data(), r.n);
  S = S0;
  g_shm_used = g_shm_used0;
  g_cells.clear();
  g_sync.clear();
}

std::string Execution::text() const {
  std::string r;
  for (auto &e : log) r += mc::fmt("  [%ld ms] %s: %s %ld %ld %s\n", e.time_ms, procs[e.proc].name.c_str(), e.what.c_str(), e.a, e.b, e.s.c_str());
  for (auto &p : procs)
    r += mc::fmt("  %s: %s%s%s%s\n", p.name.c_str(), p.done ? "done" : "", p.crashed ? "killed" : "", p.blocked ? "waits at " : "",
                 p.blocked ? p.at.c_str() : "");
  return r;
}

static Execution make_execution(End end) {
  Execution e;
  e.end = end;
  e.log = S.log;
  e.now_ms = (S.k.clock_ns - S0.k.clock_ns) / 1000000;
  for (size_t i = 0; i < S.p.size(); i++) {
    ProcInfo pi;
    pi.name = S.p[i].name;
    pi.started = !S.p[i].dormant;
    pi.crashed = S.p[i].crashed;
    pi.done = !S.p[i].alive && !S.p[i].crashed;
    pi.blocked = S.p[i].alive;
    for (auto &t : S.t)
      if (t.proc == (int)i && !t.done && pi.blocked) pi.at += (pi.at.empty() ? "" : "; ") + opstr(t);
    e.procs.push_back(pi);
  }
  for (size_t i = 0; i < S.k.q.size(); i++)
    if (S.k.q[i].alive) {
      e.queue_id.push_back(i);
      e.queue_len.push_back(S.k.q[i].m.size());
    }
  for (auto &f : S.k.files)
    if (!S0.k.files.count(f.first)) e.files.push_back(f.first);
  for (auto &f : S.k.fds)
    if (!S0.k.fds.count(f.first) && S.p[f.second.proc].alive) e.open_files.push_back(f.second.path);
  e.mutexes_held = S.k.mx.size();
  for (auto &s : S.k.s)
    for (int v : s.v) if (s.alive) e.sems.push_back(v);
  for (auto &s : S.k.shm) e.shms += s.alive;
  return e;
}

// One execution. Returns its status.
static Status execute(const std::string &prefix, uint64_t expect, bool tracing, bool replay_only) {
  restore();
  S.exploring = true;
  g_prefix = prefix;
  g_path.clear();
  g_expect = expect;
  g_steps = 0;
  g_cur = -1;
  g_proc = -1;
  g_quiet = false;
  g_tracing = tracing;
  g_trace.clear();
  g_fail.clear();
  g_replay_only = replay_only;
  g_execno = g_execno + 1;
  if (sigsetjmp(g_main_jmp, 0) == 0) {
    int t = schedule();
    load_task(t);
    sim_swtch(&g_main_sp, S.t[t].sp);
    // only reached during the setup
    g_status = ST_TERMINAL;
  }
  g_user = false;
  X->executions++;
  X->steps += g_steps;
  return g_status;
}

static std::string g_scname;
static void on_signal(int sig, siginfo_t *si, void *) {
  if (!g_user && sig != SIGALRM) {
    // the simulation itself is at fault
    char b[300];
    int n = snprintf(b, sizeof(b), "internal: signal %d at %p in the core, scenario %s\n", sig, si->si_addr, g_scname.c_str());
    if (syscall(SYS_write, 2, b, n)) {}
    signal(sig, SIG_DFL);
    raise(sig);
    _exit(77);
  }
  static uint64_t last = 0;
  if (sig == SIGALRM) {
    if (!g_user || last != g_execno) {
      last = g_execno;
      return;
    }
  }
  g_user = false;
  g_fail = mc::fmt("process %s: %s", g_proc >= 0 ? S.p[g_proc].name.c_str() : "?",
                   sig == SIGALRM ? "loops without end" : mc::fmt("killed by signal %d (%s)", sig, strsignal(sig)).c_str());
  g_status = ST_FAIL;
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, sig);
  sigprocmask(SIG_UNBLOCK, &ss, nullptr);
  siglongjmp(g_main_jmp, 1);
}

static void xlock() {
  int z = 0;
  while (!X->lock.compare_exchange_weak(z, 1)) {
    z = 0;
    syscall(SYS_sched_yield);
  }
}
static void xunlock() { X->lock = 0; }

static std::string path_text(const std::string &p) {
  std::string r;
  for (unsigned char c : p) r += mc::fmt("%s%d", r.empty() ? "" : ",", c);
  return r;
}

static void report(const std::string &what, const std::string &path) {
  // once more, with a trace
  std::string sig = g_scname + "|" + what;
  Status st = execute(path, 0, true, true);
  std::string text = what + "\nscenario " + g_scname + ", choices " + path_text(path) + "\n";
  if (st == ST_TERMINAL || st == ST_DEADLINE || st == ST_LIVELOCK)
    text += make_execution(st == ST_TERMINAL ? End::terminal : st == ST_DEADLINE ? End::deadline : End::livelock).text();
  if (g_trace.size() > 11000) g_trace = "...\n" + g_trace.substr(g_trace.size() - 11000);
  text += "schedule:\n" + g_trace;
  // one report for each kind of failure is enough
  xlock();
  bool dup = false;
  for (int i = 0; i < mc::sh()->nviol && i < 64; i++)
    if (strncmp(mc::sh()->viol[i], sig.c_str(), std::min<size_t>(sig.size(), 200)) == 0) dup = true;
  if (!dup) mc::violation(sig, text);
  xunlock();
}

static void worker(int w, int nworkers) {
  mc::me() = w;
  stack_t ss;
  ss.ss_sp = __libc_malloc(1 << 16);
  ss.ss_size = 1 << 16;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  itimerval it = {{4, 0}, {4, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  bool idle = false;
  std::map<std::string, int> seen;
  while (true) {
    if (X->stop || mc::enough() || mc::out_of_time()) {
      if (mc::out_of_time()) X->table_full = 1;
      break;
    }
    Item item;
    bool have = false;
    if (!g_local.empty()) {
      item = std::move(g_local.back());
      g_local.pop_back();
      have = true;
      // share the shallowest work with idle workers
      if (X->idle > 0 && !g_local.empty()) {
        xlock();
        size_t give = std::min<size_t>(std::max<size_t>(g_local.size() / 2, 1), 64);
        size_t i = 0;
        while (i < give && X->ring_n < kRing && g_local[i].path.size() <= kRingBytes) {
          auto &r = X->ring[X->ring_n++];
          r.expect = g_local[i].expect;
          r.len = g_local[i].path.size();
          memcpy(r.d, g_local[i].path.data(), r.len);
          i++;
        }
        g_local.erase(g_local.begin(), g_local.begin() + i);
        xunlock();
      }
    } else {
      xlock();
      if (X->ring_n > 0) {
        auto &r = X->ring[--X->ring_n];
        item.expect = r.expect;
        item.path.assign(r.d, r.len);
        have = true;
        if (idle) {
          idle = false;
          X->idle--;
        }
      } else if (!idle) {
        idle = true;
        X->idle++;
      }
      xunlock();
    }
    if (!have) {
      if (X->idle >= nworkers) break;
      struct timespec ts = {0, 200000};
      syscall(SYS_nanosleep, &ts, nullptr);
      continue;
    }
    Status st = execute(item.path, item.expect, false, false);
    std::string path = g_path;
    if (path.size() > X->maxdepth) X->maxdepth = path.size();
    std::string wrong;
    if (st == ST_PRUNED) {
      X->pruned++;
      if (getenv("SIM_TRACE")) {
        execute(path, 0, true, true);
        dprintf(g_err, "pruned after %zu: %s\n%s\n", path.size(), path_text(path).c_str(), g_trace.c_str());
      }
    } else if (st == ST_NONDET) {
      X->nondet++;
      dprintf(g_err, "nondeterministic replay in %s: %s %s\n", g_scname.c_str(), path_text(item.path).c_str(), g_fail.c_str());
    } else if (st == ST_FAIL) {
      wrong = g_fail;
    } else {
      X->terminals++;
      auto e = make_execution(st == ST_TERMINAL ? End::terminal : st == ST_DEADLINE ? End::deadline : End::livelock);
      uint64_t oh = 1;
      {
        std::vector<uint64_t> per(e.procs.size(), 5);
        for (auto &l : e.log)
          per[l.proc] = mix(mix(mix(hash_bytes(l.what.data(), l.what.size(), per[l.proc]), l.a), l.b), hash_bytes(l.s.data(), l.s.size()));
        for (auto h : per) oh = mix(oh, h);
      }
      if (table_insert(OUT, kOutMask, oh)) X->outcomes++;
      try {
        wrong = g_sc->oracle ? g_sc->oracle(e) : "";
      } catch (const std::exception &ex) {
        wrong = std::string("oracle: ") + ex.what();
      }
      if (wrong.empty() && w == 0 && X->terminals <= 2) {
        execute(path, 0, true, true);
        mc::sample(g_scname + ": choices " + path_text(path) + "\n" + g_trace.substr(0, 1500));
      }
    }
    if (!wrong.empty()) {
      auto key = wrong.substr(0, 80);
      if (seen[key]++ < 1) report(wrong, path);
    }
  }
  itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &off, nullptr);
}

static void run_scenario(const Scenario &sc, const std::map<std::string, std::string> &flavors, const std::string &dir) {
  g_sc = &sc;
  g_o = sc.opt;
  if (getenv("SIM_NOCACHE")) g_o.no_cache = true;
  g_scname = sc.name;
  for (auto &e : sc.env) setenv(e.first.c_str(), e.second.c_str(), 1);
  // the configuration is compiled by the repository's own tmloadcf, for real
  std::string cfg = dir + "/tuxconfig";
  setenv("TUXCONFIG", cfg.c_str(), 1);
  if (!sc.config.empty()) {
    std::string ubb = dir + "/ubb";
    FILE *f = fopen(ubb.c_str(), "w");
    std::string text = sc.config;
    for (size_t i; (i = text.find("@TUXCONFIG@")) != std::string::npos;) text.replace(i, 11, cfg);
    fputs(text.c_str(), f);
    fclose(f);
    unlink(cfg.c_str());
    pid_t p = fork();
    if (p == 0) {
      void *h = dlopen(flavors.at("app").c_str(), RTLD_NOW | RTLD_LOCAL);
      auto m = h ? (int (*)(int, char **))dlsym(h, "sim_tmloadcf") : nullptr;
      if (!m) {
        dprintf(g_err, "tmloadcf: %s\n", dlerror());
        _exit(3);
      }
      char *argv[] = {(char *)"tmloadcf", (char *)"-y", (char *)ubb.c_str(), nullptr};
      _exit(m(3, argv) == 0 ? 0 : 1);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      mc::violation(sc.name + "|config", "tmloadcf refused or crashed on a correct configuration (status " + std::to_string(st) + ")");
      return;
    }
  }
  g_arenas = (char *)mmap(nullptr, kMaxProcs * kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_stacks = (char *)mmap(nullptr, kMaxTasks * kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  char *guard = (char *)mmap(nullptr, kShm + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_shm = guard + 4096;
  // guard page at the bottom of every stack
  for (int i = 0; i < kMaxTasks; i++) mprotect(g_stacks + i * kStack, 4096, PROT_NONE);
  if (!sc.config.empty()) {
    FILE *f = fopen(cfg.c_str(), "r");
    std::string d;
    char b[4096];
    size_t n;
    while (f && (n = fread(b, 1, sizeof(b), f)) > 0) d.append(b, n);
    if (f) fclose(f);
    S.k.files[cfg] = std::make_shared<std::string>(d);
  }
  g_shm_points = g_mem_points = false;
  for (size_t i = 0; i < sc.actors.size(); i++) {
    auto &a = sc.actors[i];
    std::string so = dir + "/p" + std::to_string(i) + ".so";
    std::string src = flavors.at(a.flavor);
    int in = open(src.c_str(), O_RDONLY), out = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0700);
    char b[65536];
    ssize_t n;
    while ((n = read(in, b, sizeof(b))) > 0)
      if (write(out, b, n) != n) abort();
    close(in);
    close(out);
    g_proc = i;
    Proc p;
    p.name = a.name;
    p.daemon = a.daemon;
    p.crashable = a.crashable;
    p.dormant = !a.program.empty();
    p.alive = !p.dormant;
    g_static[i].program = a.program;
    S.p.push_back(p);
    void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    g_user = false;
    if (!h) {
      dprintf(g_err, "dlopen: %s\n", dlerror());
      _exit(3);
    }
    unlink(so.c_str());
    g_static[i].handle = h;
    g_static[i].entry = (int (*)(int))dlsym(h, a.fn.c_str());
    if (!g_static[i].entry) {
      dprintf(g_err, "no function %s\n", a.fn.c_str());
      _exit(3);
    }
    g_static[i].arg = a.arg;
    std::string nm = "/p" + std::to_string(i) + ".so";
    PhdrArg pa{nm.c_str(), (int)i};
    dl_iterate_phdr(on_phdr, &pa);
  }
  {
    PhdrArg pa{"libstdc++.so", -1};
    dl_iterate_phdr(on_phdr, &pa);
  }
  // setup: one actor after the other, default schedule
  stack_t ss;
  ss.ss_sp = __libc_malloc(1 << 16);
  ss.ss_size = 1 << 16;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  bool ok = true;
  g_tracing = true;
  if (sigsetjmp(g_main_jmp, 0) == 0) {
    for (size_t i = 0; i < sc.actors.size(); i++) {
      g_steps = 0;
      if (S.p[i].dormant) continue;
      new_task(i, nullptr, nullptr);
      g_cur = -1;
      while (true) {
        int t = schedule();
        if (t < 0) break;
        load_task(t);
        sim_swtch(&g_main_sp, S.t[t].sp);
        if (g_cur < 0) break;
      }
    }
  } else {
    ok = false;
  }
  g_user = false;
  if (!ok) {
    mc::violation(sc.name + "|setup|" + g_fail, "setup failed: " + (g_fail.empty() ? "no end" : g_fail) + "\n" + g_trace);
    return;
  }
  g_tracing = false;
  g_shm_points = g_o.shm_points;
  g_mem_points = g_o.mem_points;
  g_races = g_o.races;
  // of the setup only the entries whose names begin with '+' are kept
  S.log.erase(std::remove_if(S.log.begin(), S.log.end(), [](auto &l) { return l.what[0] != '+'; }), S.log.end());
  g_shm_used0 = g_shm_used;
  take_snapshot();
  X->lock = 0;
  X->ring_n = 1;
  X->ring[0].expect = 0;
  X->ring[0].len = 0;
  int nw = 8;
  if (const char *e = getenv("MC_WORKERS")) nw = atoi(e);
  pid_t pid[16];
  for (int w = 0; w < nw; w++) {
    pid[w] = fork();
    if (pid[w] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      worker(w, nw);
      _exit(0);
    }
  }
  for (int w = 0; w < nw; w++) {
    int st;
    waitpid(pid[w], &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      mc::violation("internal|" + sc.name, "explorer worker died, status " + std::to_string(st));
      X->stop = 1;
    }
  }
}

int run(const std::vector<Scenario> &all, const std::map<std::string, std::string> &flavors) {
  mc::start();
  if (const char *b = getenv("MC_BUDGET")) mc::budget() = atof(b);
  mc::sh() = (mc::Shared *)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int bits = mc::thorough() ? 28 : 25;
  V_mask = (1ULL << bits) - 1;
  char dir[] = "/tmp/simXXXXXX";
  if (!mkdtemp(dir)) return 3;
  std::string more = ", \"more\": {\"scenarios\": [";
  bool first = true;
  int internal = 0;
  for (auto &sc : all) {
    if (mc::out_of_time()) {
      mc::add(mc::cnt().truncated);
      continue;
    }
    double t0 = mc::now();
    X = (SharedX *)mmap(nullptr, sizeof(SharedX), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t vsize = (V_mask + 1) * 8;
    V = (std::atomic<uint64_t> *)mmap(nullptr, vsize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    OUT = (std::atomic<uint64_t> *)mmap(nullptr, (kOutMask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fflush(stdout);
    int nv0 = mc::sh()->nviol;
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      // what the processes print is of no interest
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      g_err = dup(2);
      if (!getenv("SIM_STDERR")) dup2(nul, 2);
      run_scenario(sc, flavors, dir);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      fprintf(stderr, "scenario %s: the explorer failed, status %d\n", sc.name.c_str(), st);
      internal = 1;
    }
    if (X->nondet) {
      fprintf(stderr, "scenario %s: %lu nondeterministic replays\n", sc.name.c_str(), (unsigned long)X->nondet);
      internal = 1;
    }
    if (!X->terminals && mc::sh()->nviol == nv0 && !mc::out_of_time()) {
      fprintf(stderr, "scenario %s: no execution completed\n", sc.name.c_str());
      internal = 1;
    }
    mc::add(mc::cnt().states, X->visited);
    mc::add(mc::cnt().transitions, X->steps);
    mc::add(mc::cnt().validated, X->terminals);
    if (X->table_full) mc::add(mc::cnt().truncated);
    more += mc::fmt("%s{\"name\": %s, \"states\": %lu, \"steps\": %lu, \"executions\": %lu, \"complete_executions\": %lu, \"pruned\": %lu, "
                    "\"distinct_outcomes\": %lu, \"max_choices\": %lu, \"exhaustive\": %s, \"wall_s\": %.2f}",
                    first ? "" : ", ", mc::jesc(sc.name.c_str()).c_str(), (unsigned long)X->visited, (unsigned long)X->steps,
                    (unsigned long)X->executions, (unsigned long)X->terminals, (unsigned long)X->pruned, (unsigned long)X->outcomes,
                    (unsigned long)X->maxdepth, X->table_full ? "false" : "true", mc::now() - t0);
    first = false;
    if (getenv("SIM_VERBOSE"))
      fprintf(stderr, "%-40s states %8lu execs %8lu terminals %8lu outcomes %5lu depth %4lu %.2fs%s\n", sc.name.c_str(), (unsigned long)X->visited,
              (unsigned long)X->executions, (unsigned long)X->terminals, (unsigned long)X->outcomes, (unsigned long)X->maxdepth,
              mc::now() - t0, X->table_full ? " TRUNCATED" : "");
    munmap(X, sizeof(SharedX));
    munmap((void *)V, vsize);
    munmap((void *)OUT, (kOutMask + 1) * 8);
    if (mc::sh()->nviol >= 20) break;
  }
  more += "]}";
  std::string cmd = dir;
  for (const char *f : {"/tuxconfig", "/ubb"}) unlink((cmd + f).c_str());
  rmdir(dir);
  if (internal && !mc::sh()->nviol) return 3;
  auto &c = mc::sh()->c;
  std::string out = mc::fmt("RESULT {\"jobs\": %zu, \"states\": %lu, \"transitions\": %lu, \"validated\": %lu, \"evaluations\": 0, \"nontrivial\": 0, \"truncated\": %lu, \"wall\": %.3f",
                            all.size(), c.states, c.transitions, c.validated, c.truncated, mc::now() - mc::start());
  out += ", \"samples\": [";
  for (int i = 0; i < mc::sh()->nsamples && i < 8; i++) out += (i ? ", " : "") + mc::jesc(mc::sh()->samples[i]);
  out += "], \"violations\": [";
  for (int i = 0; i < mc::sh()->nviol && i < 64; i++) {
    std::string v = mc::sh()->viol[i];
    auto p = v.find('\n');
    out += std::string(i ? ", " : "") + "{\"sig\": " + mc::jesc(v.substr(0, p).c_str()) + ", \"text\": " + mc::jesc(v.substr(p + 1).c_str()) + "}";
  }
  out += "]" + more + "}\n";
  fputs(out.c_str(), stdout);
  fflush(stdout);
  return 0;
}

}  // namespace sim
