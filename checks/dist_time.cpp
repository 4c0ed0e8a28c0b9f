// Actors of the time-out scenarios (C04). Client times are read from the simulated clock.
#include <time.h>
#include "act.h"

// sleeps as long as the request says: "r<client>.<n>:<ms>"
extern "C" void WAIT(TPSVCINFO *s) {
  std::string in = show(s->data);
  sim_log("exec", sim_now(), s->flags, in.c_str());
  auto p = in.find(':');
  long ms = p == std::string::npos ? 0 : atol(in.c_str() + p + 1);
  if (ms) {
    struct timespec t = {ms / 1000, ms % 1000 * 1000000};
    nanosleep(&t, nullptr);
  }
  sim_log("reply", sim_now(), 0, in.c_str());
  tpreturn(TPSUCCESS, 7, str(in + "/WAIT", 300), 0, 0);
}
// a service with a limit of its own for the call it makes: "...;<limit of it>;<delay>"
extern "C" void INNER(TPSVCINFO *s);
static struct tmdsptchtbl_t t_wait[] = {{"WAIT", "WAIT", WAIT, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
static struct tmdsptchtbl_t t_inner[] = {{"INNER", "INNER", INNER, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
extern "C" int srv_wait(int a) { return start(a / 100 % 100, a % 100, t_wait); }
extern "C" int srv_inner(int a) { return start(a / 100 % 100, a % 100, t_inner); }
int bbl_main(int, char **);
void booted(int grpno, int srvid);
extern "C" int bbl(int) {
  char *argv[] = {(char *)"BBL", (char *)"-g", (char *)"0", (char *)"-i", (char *)"0", (char *)"-A", nullptr};
  booted(0, 0);
  return bbl_main(6, argv);
}

namespace {
struct Timed {
  int self = sim_self();
  int n = 0;
  std::vector<std::pair<int, std::string>> out;  // descriptor, tag

  std::string mk(long delay) { return tag(self, ++n) + ":" + std::to_string(delay); }
  // what the oracle needs of a call: kind, when, result, tag, start
  void done(const char *kind, long t0, int err, const std::string &t, const std::string &got) {
    sim_log(kind, err, sim_now(), ("from=" + std::to_string(t0) + " tag=" + t + " data=" + got).c_str());
  }
  int call(const char *svc, const std::string &t, long flags) {
    char *p = str(t), *r = str("unset", 300);
    long len = -1, t0 = sim_now();
    int rc = tpcall((char *)svc, p, 0, &r, &len, flags);
    int err = rc == -1 ? tperrno : 0;
    done(flags & TPNOTIME ? "call-notime" : flags & TPNOBLOCK ? "call-noblock" : "call", t0, err, t, show(r));
    tpfree(p);
    tpfree(r);
    return err;
  }
  void acall(const char *svc, long delay, long flags = 0, size_t pad = 0) {
    std::string t = mk(delay);
    char *p = str(t, 64);
    long t0 = sim_now();
    int cd = tpacall((char *)svc, p, 0, flags);
    int err = cd == -1 ? tperrno : 0;
    bool nb = flags & TPNOBLOCK, nt = flags & TPNOTIME;
    done(nb ? "send-noblock" : nt ? "send-notime" : "send", t0, err, t, "");
    tpfree(p);
    if (cd > 0) out.push_back({cd, t});
  }
  void get(bool any, long flags) {
    if (out.empty()) return;
    char *r = str("unset", 300);
    long len = -1, t0 = sim_now();
    int cd = any ? -5 : out.front().first;
    int rc = tpgetrply(&cd, &r, &len, flags | (any ? TPGETANY : 0));
    int err = rc == -1 ? tperrno : 0;
    std::string t;
    if (rc != -1 || !any) {
      for (size_t i = 0; i < out.size(); i++)
        if (out[i].first == cd) {
          t = out[i].second;
          if (rc != -1) out.erase(out.begin() + i);
          break;
        }
      if (t.empty()) sim_fail("waiting for a reply gave the descriptor %d", cd);
    } else
      for (auto &o : out) t += (t.empty() ? "" : ",") + o.second;
    std::string k = any ? "any" : "get";
    if (flags & TPNOBLOCK) k += "-noblock";
    else if (flags & TPNOTIME) k += "-notime";
    done(k.c_str(), t0, err, t, show(r));
    tpfree(r);
  }
  void limit(long ms, long flags) {
    int rc = tpsblktime(flags & 0xf0 ? ms : ms / 1000, flags);
    if (rc == -1) sim_fail("tpsblktime(%ld) failed with %d", ms, tperrno);
    sim_log(flags & TPBLK_NEXT ? "next" : "all", ms, 0, "");
    long what = flags & 0x0f;
    if (tpgblktime(what | TPBLK_MILLISECOND) != ms) sim_fail("tpgblktime says %d after setting %ld", tpgblktime(what | TPBLK_MILLISECOND), ms);
  }
  void end() {
    if (tpterm() == -1) sim_fail("tpterm failed");
    sim_log("end", 0, 0, "");
  }
};
void nap(long ms) {
  if (!ms) return;
  struct timespec t = {ms / 1000, ms % 1000 * 1000000};
  nanosleep(&t, nullptr);
}
}  // namespace

extern "C" void INNER(TPSVCINFO *s) {
  std::string in = show(s->data);
  auto p = in.find(';'), q = in.rfind(';');
  long lim = atol(in.c_str() + p + 1), delay = atol(in.c_str() + q + 1);
  static int calls;
  Timed c;
  c.n = 50 + calls++;
  if (lim) c.limit(lim, TPBLK_NEXT | TPBLK_MILLISECOND);
  int err = c.call("WAIT", c.mk(delay), 0);
  sim_log("reply", sim_now(), 0, in.c_str());
  tpreturn(TPSUCCESS, err, str(in + "/INNER", 300), 0, 0);
}

// One limited call at every phase of the supervisor's scans, then quick calls.
// arg: index of the limit + 10 * way of setting it (0 NEXT ms, 1 ALL ms, 2 NEXT seconds, 3 ALL seconds, 4 configured)
extern "C" int cl_limit(int arg) {
  static const long limits[] = {300, 1000, 1500, 2000, 2900, 15000, 100, 200};
  Timed c;
  init();
  sim_ready();
  long l = limits[arg % 10];
  int how = arg / 10 % 10;
  if (arg >= 100) nap(50L * sim_choose(20, "phase"));
  else nap(100L * sim_choose(10, "phase"));
  const long delays[] = {0, l - 100, l - 1, l, l + 1, l + 100, l + 500, l + 900, l + 999, l + 1000, l + 1001, l + 2500};
  long d = delays[sim_choose(12, "delay")];
  if (d < 0) d = 0;
  if (how == 0) c.limit(l, TPBLK_NEXT | TPBLK_MILLISECOND);
  if (how == 1) c.limit(l, TPBLK_ALL | TPBLK_MILLISECOND);
  if (how == 2) c.limit(l, TPBLK_NEXT | TPBLK_SECOND);
  if (how == 3) c.limit(l, TPBLK_ALL | TPBLK_SECOND);
  c.call("WAIT", c.mk(d), 0);
  if (how == 1 || how == 3) c.limit(0, TPBLK_ALL | TPBLK_MILLISECOND);
  c.call("WAIT", c.mk(0), 0);
  c.acall("WAIT", 0);
  c.get(sim_choose(2, "any"), 0);
  c.end();
  return 0;
}
static void program(Timed &c, int arg);
// Programs. arg: number of operations * 10 + set
extern "C" int cl_timed(int arg) {
  Timed c;
  init();
  sim_ready();
  program(c, arg);
  return 0;
}
static void program(Timed &c, int arg) {
  nap(sim_choose(2, "phase") * 400);
  for (int i = 0; i < arg / 10; i++) switch (arg % 10) {
      case 0:
        switch (sim_choose(6, "operation")) {
          case 0: c.limit(700, TPBLK_NEXT | TPBLK_MILLISECOND); break;
          case 1: c.limit(1000, TPBLK_ALL | TPBLK_SECOND); break;
          case 2: c.call("WAIT", c.mk(0), 0); break;
          case 3: c.call("WAIT", c.mk(900), 0); break;
          case 4: c.call("WAIT", c.mk(1900), 0); break;
          case 5: c.call("WAIT", c.mk(1200), TPNOTIME); break;
        }
        break;
      case 1:
        switch (sim_choose(7, "operation")) {
          case 0: c.limit(600, TPBLK_NEXT | TPBLK_MILLISECOND); break;
          case 1: c.limit(1000, TPBLK_ALL | TPBLK_MILLISECOND); break;
          case 2: c.acall("WAIT", 800); break;
          case 3: c.acall("WAIT", 1700); break;
          case 4: c.get(false, 0); break;
          case 5: c.get(true, 0); break;
          case 6: c.get(sim_choose(2, "any"), TPNOBLOCK); break;
        }
        break;
      case 2:
        switch (sim_choose(5, "operation")) {
          case 0: c.acall("WAIT", 0); break;
          case 1: c.acall("WAIT", 1300); break;
          case 2: c.get(true, 0); break;
          case 3: c.get(false, TPNOTIME); break;
          case 4: nap(500); break;
        }
        break;
    }
  c.end();
}
// calls with a limit for all; arg: limit / 100 * 100 + delay / 100
extern "C" int cl_each(int arg) {
  Timed c;
  init();
  sim_ready();
  c.limit(arg / 100 * 100, TPBLK_ALL | TPBLK_MILLISECOND);
  for (int i = 0; i < 2; i++) c.call("WAIT", c.mk(arg % 100 * 100), 0);
  c.end();
  return 0;
}
// calls, is silent for 40 s, calls without waiting for the reply for 5 s. arg: 0, or 1: only calls once, 42 s later
extern "C" int cl_silent(int arg) {
  Timed c;
  init();
  sim_ready();
  if (arg) {
    nap(42000);
    c.limit(1500, TPBLK_ALL | TPBLK_MILLISECOND);
    c.call("WAIT", c.mk(0), 0);
    c.end();
    return 0;
  }
  int how = sim_choose(5, "call");
  if (how != 4) c.limit(how == 3 ? 15000 : 400, TPBLK_NEXT | TPBLK_MILLISECOND);
  if (how == 1) {
    c.acall("WAIT", 0);
    c.limit(400, TPBLK_NEXT | TPBLK_MILLISECOND);
    c.get(true, 0);
  } else {
    c.call("WAIT", c.mk(how == 2 ? 2500 : 0), 0);
  }
  nap(40000);
  c.acall("WAIT", 0);
  nap(5000);
  c.get(false, 0);
  c.end();
  return 0;
}
// the same, ends at once after one call
extern "C" int cl_once(int arg) {
  Timed c;
  init();
  sim_ready();
  c.limit(arg / 100 * 100, TPBLK_ALL | TPBLK_MILLISECOND);
  c.call("WAIT", c.mk(arg % 100 * 100), 0);
  c.end();
  return 0;
}
// calls the service that calls; the outer call has no limit
extern "C" int cl_inner(int) {
  static const long lim[] = {0, 400, 1000, 1600};
  Timed c;
  init();
  sim_ready();
  nap(300 * sim_choose(3, "phase"));
  for (int i = 0; i < 2; i++) {
    long l = lim[sim_choose(4, "limit of the inner call")];
    long d = std::max(0L, l - 100 + 300 * sim_choose(4, "delay of the inner call"));
    c.call("INNER", c.mk(0) + ";" + std::to_string(l) + ";" + std::to_string(d), TPNOTIME);
  }
  c.end();
  return 0;
}
static void fill(Timed &c, const char *first) {
  char *p = str("h" + tag(c.self, 0) + first);
  if (tpacall((char *)"WAIT", p, 0, TPNOREPLY | TPNOBLOCK) == -1) sim_fail("sending failed with %d", tperrno);
  nap(10);
  strcpy(p, ("f" + tag(c.self, 0) + ":0").c_str());
  for (int i = 0; i < 200; i++)
    if (tpacall((char *)"WAIT", p, 0, TPNOREPLY | TPNOBLOCK) == -1) {
      if (tperrno == TPEBLOCK) break;
      sim_fail("sending failed with %d", tperrno);
    }
  tpfree(p);
}
// A long history, during the setup; arg: kind + 10 * program of cl_timed
extern "C" int cl_manyt(int arg) {
  const int N = 1100;
  Timed c;
  init();
  sim_history(1);
  auto bad = [&](const char *what, int i, int want) {
    if (tperrno != want) sim_fail("%s number %d gave %d instead of %d", what, i, tperrno, want);
  };
  char *s = str("h" + tag(c.self, 0) + ":0", 64), *r = str("", 64);
  long len;
  if (arg % 10 < 4) fill(c, ":600000");
  if (arg % 10 >= 4) strcpy(s, ("h" + tag(c.self, 0) + ":1500").c_str());
  for (int i = 1; i <= N; i++) switch (arg % 10) {
      case 0:
        if (tpacall((char *)"WAIT", s, 0, TPNOBLOCK) != -1) sim_fail("a call was sent although the queue is full");
        bad("call that would block", i, TPEBLOCK);
        break;
      case 1:
        if (tpcall((char *)"WAIT", s, 0, &r, &len, TPNOBLOCK) != -1) sim_fail("a call was sent although the queue is full");
        bad("call that would block", i, TPEBLOCK);
        break;
      case 2:
        tpsblktime(100, TPBLK_NEXT | TPBLK_MILLISECOND);
        if (tpacall((char *)"WAIT", s, 0, 0) != -1) sim_fail("a call was sent although the queue is full");
        bad("call into a full queue", i, TPETIME);
        break;
      case 3:
        tpsblktime(100, TPBLK_NEXT | TPBLK_MILLISECOND);
        if (tpcall((char *)"WAIT", s, 0, &r, &len, 0) != -1) sim_fail("a call was sent although the queue is full");
        bad("call into a full queue", i, TPETIME);
        break;
      case 4:
        tpsblktime(100, TPBLK_NEXT | TPBLK_MILLISECOND);
        if (tpcall((char *)"WAIT", s, 0, &r, &len, 0) != -1) sim_fail("a call was answered before the service finished");
        bad("call that takes too long", i, TPETIME);
        nap(2000);
        break;
      case 5: {
        int cd = tpacall((char *)"WAIT", s, 0, 0);
        if (cd == -1) bad("asynchronous call", i, 0);
        tpsblktime(100, TPBLK_NEXT | TPBLK_MILLISECOND);
        if (tpgetrply(&cd, &r, &len, i % 2 ? TPGETANY : 0) != -1) sim_fail("a call was answered before the service finished");
        bad("reply that takes too long", i, TPETIME);
        if (tpgetrply(&cd, &r, &len, TPNOBLOCK | TPGETANY) != -1) sim_fail("a call was answered before the service finished");
        bad("reply that is not there", i, TPEBLOCK);
        cd = -1;
        if (tpgetrply(&cd, &r, &len, TPNOTIME | TPGETANY) == -1) bad("reply", i, 0);
        break;
      }
      case 6: {
        int cd = tpacall((char *)"WAIT", s, 0, 0);
        if (cd == -1) bad("asynchronous call", i, 0);
        tpsblktime(100, TPBLK_NEXT | TPBLK_MILLISECOND);
        if (tpgetrply(&cd, &r, &len, 0) != -1) sim_fail("a call was answered before the service finished");
        bad("reply that takes too long", i, TPETIME);
        if (tpcancel(cd) == -1) bad("cancelling", i, 0);
        nap(2000);
        break;
      }
    }
  if (arg % 10 < 4) nap(600000);
  tpfree(s);
  tpfree(r);
  sim_history(0);
  sim_ready();
  program(c, arg / 10);
  return 0;
}
// fills the request queue of a busy server, then sends in the given way:
// arg: delay of the first request / 100 (99: around the limit) + 1000 * index of the limit + 100 * how (0 limited, 1 no blocking, 2 no time limit, 3 both)
extern "C" int cl_full(int arg) {
  Timed c;
  long first = arg % 100 * 100;
  init();
  sim_ready();
  static const long limits[] = {1000, 390, 1050, 999, 401, 1001};
  long l = limits[arg / 1000];
  if (l != 1000 || arg % 100 == 99) {  // the server may finish around the limit
    static const long around[] = {-300, -101, -99, -50, -1, 1, 49, 51, 99, 101, 150, 151, 199, 201, 249, 251, 299, 301};
    arg -= arg % 100;
    first = std::max(1L, l + around[sim_choose(18, "first request")]);
    nap(sim_choose(2, "phase") * 33);
  }
  c.limit(l, TPBLK_ALL | TPBLK_MILLISECOND);
  c.acall("WAIT", first, TPNOREPLY | TPNOBLOCK);
  nap(10);
  for (int i = 0; i < 200; i++) {
    int before = c.n;
    char *p = str("f" + tag(c.self, ++before) + ":0");
    int rc = tpacall((char *)"WAIT", p, 0, TPNOREPLY | TPNOBLOCK);
    int err = rc == -1 ? tperrno : 0;
    tpfree(p);
    if (err == TPEBLOCK) break;
    if (err) sim_fail("sending failed with %d", err);
  }
  static const long flags[] = {0, TPNOBLOCK, TPNOTIME, TPNOBLOCK | TPNOTIME};
  c.acall("WAIT", 0, TPNOREPLY | flags[arg / 100 % 10]);
  nap(5000);
  c.call("WAIT", c.mk(0), 0);
  c.end();
  return 0;
}
