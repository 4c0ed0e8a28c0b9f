// Actors: servers and clients of the request/response scenarios.
#include "act.h"
#include <stdexcept>

int tmloadcf_main(int, char **);
extern "C" int sim_tmloadcf(int argc, char **argv) { return tmloadcf_main(argc, argv); }

// the log is checked elsewhere (M04); here it only shows in traces
int userlog(const char *fmt, ...) {
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  sim_vlog("%s", b);
  return 0;
}

// ---------------------------------------------------------------- services
static int num_of(const std::string &in) {
  auto p = in.find('.');
  return p == std::string::npos ? 0 : atoi(in.c_str() + p + 1);
}
static std::string seen(TPSVCINFO *s) {
  std::string in = show(s->data);
  sim_log("exec", s->len, s->flags, (std::string(s->name) + " " + in).c_str());
  return in;
}
// The reply is a function of the request, so any mix-up shows
extern "C" void ECHO(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPSUCCESS, num_of(in) + 100, str(in + "/" + s->name, 300), 0, 0);
}
extern "C" void FAIL(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPFAIL, num_of(in) + 200, str(in + "/" + s->name, 300), 0, 0);
}
extern "C" void SAME(TPSVCINFO *s) {  // returns the buffer it was given
  auto in = seen(s);
  tpreturn(TPSUCCESS, num_of(in) + 100, s->data, 0, 0);
}
extern "C" void FWD(TPSVCINFO *s) {  // forwards a new buffer
  auto in = seen(s);
  tpforward((char *)"ECHO", str(in + ">", 300), 0, 0);
}
extern "C" void FWDS(TPSVCINFO *s) {  // forwards the same buffer
  auto in = seen(s);
  tpforward((char *)"FAIL", s->data, 0, 0);
}
extern "C" void FWD2(TPSVCINFO *s) {
  auto in = seen(s);
  tpforward((char *)"FWD", str(in + ">", 300), 0, 0);
}
extern "C" void FWDX(TPSVCINFO *s) {  // nobody offers that
  auto in = seen(s);
  tpforward((char *)"NOSUCH", str(in + ">", 300), 0, 0);
}
extern "C" void FWDXS(TPSVCINFO *s) {
  seen(s);
  tpforward((char *)"NOSUCH", s->data, 0, 0);
}
extern "C" void EXITS(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPEXIT, num_of(in) + 300, str(in + "/" + s->name, 300), 0, 0);
}
extern "C" void BADRV(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(12345, num_of(in) + 300, str(in + "/" + s->name, 300), 0, 0);
}
extern "C" void FORGET(TPSVCINFO *s) { seen(s); }  // returns without tpreturn
extern "C" void THROWS(TPSVCINFO *s) {
  seen(s);
  throw std::runtime_error("service failed");
}
extern "C" void BADFLAG(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPSUCCESS, num_of(in) + 300, str(in, 300), 0, 4);
}
extern "C" void NODATA(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPSUCCESS, num_of(in) + 100, nullptr, 0, 0);
}
extern "C" void CALLS(TPSVCINFO *s) {  // a service that calls another one
  auto in = seen(s);
  char *r = str("", 300);
  long len = -1;
  char *p = str(in + "+");
  int rc = tpcall((char *)"ECHO", p, 0, &r, &len, 0);
  sim_log("inner", rc == -1 ? -tperrno : tpurcode, len, show(r).c_str());
  tpfree(p);
  tpreturn(TPSUCCESS, num_of(in) + 100, r, 0, 0);
}
// withdraws or offers the service OPT
extern "C" void OPT(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPSUCCESS, num_of(in) + 100, str(in + "/" + s->name, 300), 0, 0);
}
extern "C" void OPT2(TPSVCINFO *s) {
  auto in = seen(s);
  tpreturn(TPSUCCESS, num_of(in) + 100, str(in + "/OPT2", 300), 0, 0);
}
extern "C" void CTL(TPSVCINFO *s) {
  auto in = seen(s);
  long rc = 0;
  char what = in.back();
  sim_event("ctl", 0, what, "");
  if (what == '+') rc = tpadvertise((char *)"OPT", OPT);
  if (what == '-') rc = tpunadvertise((char *)"OPT");
  if (what == '*') rc = tpadvertise((char *)"OPT", OPT2);
  sim_event("ctl-end", rc == -1 ? tperrno : 0, what, "");
  tpreturn(TPSUCCESS, 0, s->data, 0, 0);
}

#define SVC(n) {#n, #n, n, 0, 0, NULL}
#define SVCEND {NULL, NULL, NULL, 0, 0, NULL}
static struct tmdsptchtbl_t t_echo[] = {SVC(ECHO), SVCEND};
static struct tmdsptchtbl_t t_fail[] = {SVC(FAIL), SVCEND};
static struct tmdsptchtbl_t t_two[] = {SVC(ECHO), SVC(FAIL), SVCEND};
static struct tmdsptchtbl_t t_fwd[] = {SVC(FWD), SVC(FWDS), SVC(FWDX), SVC(FWDXS), SVCEND};
static struct tmdsptchtbl_t t_fwd2[] = {SVC(FWD2), SVCEND};
static struct tmdsptchtbl_t t_bad[] = {SVC(EXITS), SVC(BADRV), SVC(FORGET), SVC(THROWS), SVC(BADFLAG), SVC(NODATA), SVC(ECHO), SVC(FAIL), SVC(SAME), SVCEND};
static struct tmdsptchtbl_t t_calls[] = {SVC(CALLS), SVCEND};
static struct tmdsptchtbl_t t_ctl[] = {SVC(CTL), SVCEND};
static struct tmdsptchtbl_t t_opt[] = {SVC(OPT), SVCEND};
static struct tmdsptchtbl_t t_none[] = {SVCEND};
static struct tmdsptchtbl_t *tables[] = {t_echo, t_fail, t_two, t_fwd, t_fwd2, t_bad, t_calls, t_ctl, t_opt, t_none};

static int my_svrinit(int, char **) {
  sim_log("+up", 0, 0, "");
  return tx_open() == TX_OK ? 0 : -1;
}
static void my_svrdone() {
  sim_log("svrdone", 0, 0, "");
  tx_close();
}
static int my_thrinit(int, char **) {
  sim_log("+thrinit", 0, 0, "");
  return tx_open() == TX_OK ? 0 : -1;
}
static void my_thrdone() {
  sim_log("thrdone", 0, 0, "");
  tx_close();
}
void booted(int grpno, int srvid);
int start(int grpno, int srvid, struct tmdsptchtbl_t *tbl, xa_switch_t *xa) {
  static struct tmsvrargs_t args = {xa,   tbl,  0,    my_svrinit, my_svrdone, _tmrunserver, NULL,
                                    NULL, NULL, NULL, tprminit,   my_thrinit, my_thrdone,   NULL};
  std::string g = std::to_string(grpno), i = std::to_string(srvid);
  char *argv[] = {(char *)"server", (char *)"-g", (char *)g.c_str(), (char *)"-i", (char *)i.c_str(), (char *)"-A", nullptr};
  booted(grpno, srvid);
  int rc = _tmstartserver(6, argv, &args);
  sim_log("server-end", rc, 0, "");
  return rc;
}
// arg: table * 10000 + group * 100 + server
extern "C" int srv(int a) { return start(a / 100 % 100, a % 100, tables[a / 10000]); }
extern "C" int srv_mt(int a) {
  _tmbuilt_with_thread_option = 1;
  return srv(a);
}

// ---------------------------------------------------------------- clients
static const char *svcname[] = {"ECHO", "FAIL", "FWD", "FWDS", "FWDX", "FWDXS", "FWD2", "SAME", "EXITS", "BADRV",
                                "FORGET", "THROWS", "BADFLAG", "NODATA", "CALLS", "OPT", "NOSUCH"};
namespace {
struct Client {
  int self = sim_self();
  int n = 0;
  std::vector<int> out, old;  // outstanding and finished descriptors

  int acall(const char *svc, long flags) {
    std::string t = tag(self, ++n);
    char *p = str(t);
    int cd = tpacall((char *)svc, p, 0, flags);
    sim_log("acall", cd == -1 ? -tperrno : cd, flags, (std::string(svc) + " " + t).c_str());
    if (strcmp(p, t.c_str())) sim_fail("tpacall changed the caller's buffer");
    tpfree(p);
    if (cd > 0) out.push_back(cd);
    return cd;
  }
  void got(const char *what, int asked, int rc, int cd, long len, char *r) {
    int err = rc == -1 ? tperrno : 0;
    sim_log(what, asked, err, ("cd=" + std::to_string(cd) + " urcode=" + std::to_string(tpurcode) + " len=" + std::to_string(len) +
                               " data=" + show(r)).c_str());
    if (err == 0 || err == TPESVCFAIL || err == TPESVCERR)
      for (size_t i = 0; i < out.size(); i++)
        if (out[i] == cd) {
          old.push_back(cd);
          out.erase(out.begin() + i);
          break;
        }
  }
  void get(int cd, long flags = 0) {
    char *r = str("unset", 300);
    long len = -1;
    int c = cd;
    int rc = tpgetrply(&c, &r, &len, flags);
    got("get", cd, rc, c, len, r);
    tpfree(r);
  }
  void any(long flags = 0, int before = -77) {
    char *r = str("unset", 300);
    long len = -1;
    int c = before;
    int rc = tpgetrply(&c, &r, &len, TPGETANY | flags);
    got("any", 0, rc, c, len, r);
    tpfree(r);
  }
  void cancel(int cd) {
    int rc = tpcancel(cd);
    sim_log("cancel", cd, rc == -1 ? tperrno : 0, "");
    for (size_t i = 0; i < out.size(); i++)
      if (rc != -1 && out[i] == cd) {
        old.push_back(cd);
        out.erase(out.begin() + i);
        break;
      }
  }
  void call(const char *svc, long flags) {
    std::string t = tag(self, ++n);
    char *p = str(t);
    char *r = str("unset", 300);
    long len = -1;
    int rc = tpcall((char *)svc, p, 0, &r, &len, flags);
    int err = rc == -1 ? tperrno : 0;
    sim_log("call", err, flags, (std::string(svc) + " " + t + " urcode=" + std::to_string(tpurcode) + " len=" + std::to_string(len) +
                                 " data=" + show(r)).c_str());
    tpfree(p);
    tpfree(r);
  }
  // every operation that makes sense, as a choice
  void step(const std::vector<int> &ops) {
    struct Alt {
      int op, arg;
    };
    std::vector<Alt> alt;
    for (int o : ops) {
      int op = o % 100, svc = o / 100;
      switch (op) {
        case 0: case 1: case 2: alt.push_back({op, svc}); break;  // acall, noreply, call
        case 3:
          for (int cd : out) alt.push_back({3, cd});
          break;
        case 4:
          if (!out.empty()) alt.push_back({4, 0});
          break;
        case 5:
          for (int cd : out) alt.push_back({5, cd});
          break;
        case 6:
          if (!old.empty()) alt.push_back({5, old.back()});
          break;
        case 7:
          if (!old.empty()) alt.push_back({3, old.back()});
          break;
        case 8: alt.push_back({5, 4711}); break;
        case 9: alt.push_back({3, 4711}); break;
        case 11:
          for (int cd : out) alt.push_back({4, cd});
          break;
        case 10: alt.push_back({5, 0}); break;
      }
    }
    if (alt.empty()) return;
    int c = sim_choose(alt.size(), "operation");
    auto a = alt[c];
    switch (a.op) {
      case 0: acall(svcname[a.arg], 0); break;
      case 1: acall(svcname[a.arg], TPNOREPLY); break;
      case 2: call(svcname[a.arg], 0); break;
      case 3: get(a.arg); break;
      case 4: any(0, a.arg ? a.arg : -77); break;
      case 5: cancel(a.arg); break;
    }
  }
  void drain(bool by_any) {
    while (!out.empty()) {
      size_t n = out.size();
      if (by_any) any();
      else get(out.back());
      if (out.size() == n) break;
    }
  }
  void end() {
    if (tpterm() == -1) sim_fail("tpterm failed");
    sim_log("end", 0, 0, "");
  }
};
}  // namespace

static void prog(Client &c, int arg) {
  static const std::vector<int> sets[] = {
      {0, 100, 3, 4, 2},                     // 0: two services, both ways of waiting
      {0, 3, 4, 5, 6, 7, 8, 9},              // 1: cancelling
      {0, 1, 101, 100, 3, 4},                // 2: without a reply
      {0, 1, 2, 1600, 1602, 1601, 3},        // 3: unknown services
      {0, 3, 4, 5},                          // 4: cancelling, fewer alternatives
      {2, 102, 0, 3},                        // 5
      {0, 4, 5},                             // 6
      {0, 3, 11},                            // 7: any reply, the descriptor set to any of the outstanding ones before
      {200, 300, 400, 600, 2, 201, 3},       // 8: forwarded
      {2, 702, 802, 902, 1002, 1102, 1202, 1302, 102},  // 9: every outcome of a service
  };
  for (int i = 0; i < arg / 10; i++) c.step(sets[arg % 10]);
  c.drain(arg % 2);
  c.end();
}
// arg: number of operations * 10 + set of operations
extern "C" int cl_prog(int arg) {
  Client c;
  init();
  sim_ready();
  prog(c, arg);
  return 0;
}
extern "C" int cl_prog2(int arg) {
  static const std::vector<int> sets[] = {
      {0, 700, 800, 1000, 1100, 1200, 1001, 801, 1101, 3},  // 0: every outcome, asynchronous
      {0, 1100, 3},  // 1
      {0, 1000, 3},  // 2
      {0, 800, 3},   // 3
  };
  Client c;
  init();
  sim_ready();
  for (int i = 0; i < arg / 10; i++) c.step(sets[arg % 10]);
  c.drain(arg % 2);
  c.end();
  return 0;
}
// n requests of any outcome, ends without fetching the replies
extern "C" int cl_leave(int n) {
  Client c;
  init();
  sim_ready();
  for (int i = 0; i < n; i++) c.step({0, 700, 800, 1000, 1100, 1300, 1200});
  c.end();
  return 0;
}
// arg: digits from the lowest: 1 asynchronous ECHO, 2 synchronous ECHO, 3 get all replies,
// 4 one without a reply, 5 an asynchronous call of a service that throws, 6 raise signal 1, 7 wait for signal 2
extern "C" int cl_seq(int arg) {
  Client c;
  init();
  sim_ready();
  for (; arg; arg /= 10) switch (arg % 10) {
      case 1: c.acall("ECHO", 0); break;
      case 2: c.call("ECHO", 0); break;
      case 3: c.drain(false); break;
      case 4: c.acall("ECHO", TPNOREPLY); break;
      case 5: c.acall("THROWS", 0); break;
      case 6: sim_signal(1); break;
      case 7: sim_wait(2); break;
    }
  c.drain(false);
  c.end();
  return 0;
}
// A long history, during the setup; arg: kind + 100 * set of operations of cl_prog + 1000 * number of operations afterwards
extern "C" int cl_many(int arg) {
  const int N = 2300;
  Client c;
  int kind = arg % 100;
  init();
  sim_history(1);
  auto bad = [&](const char *what, int i, int want) {
    if (tperrno != want) sim_fail("%s number %d gave %d instead of %d", what, i, tperrno, want);
  };
  char *s = str("h", kind == 8 ? 20000 : 64), *r = str("", 64);
  if (kind == 8) {
    memset(s, 'x', 19999);
    s[19999] = 0;
  }
  long len;
  std::vector<int> cds;
  if (kind == 7) sim_failing("msgsnd");
  if (kind == 8) sim_failing("mkstemp");
  for (int i = 1; i <= N; i++) switch (kind) {
      case 0:
        if (tpcall((char *)"SAME", s, 0, &r, &len, 0) == -1) bad("synchronous call", i, 0);
        break;
      case 1:
      case 2: {
        int cd = tpacall((char *)"SAME", s, 0, 0);
        if (cd == -1) bad("asynchronous call", i, 0);
        if (tpgetrply(&cd, &r, &len, kind == 2 ? TPGETANY : 0) == -1) bad("reply", i, 0);
        break;
      }
      case 3: {
        int cd = tpacall((char *)"SAME", s, 0, 0);
        if (cd == -1) bad("asynchronous call", i, 0);
        if (tpcancel(cd) == -1) bad("cancelling a call", i, 0);
        if (i % 20 == 0 && tpcall((char *)"SAME", s, 0, &r, &len, 0) == -1) bad("synchronous call", i, 0);
        break;
      }
      case 4:
        if (tpacall((char *)"SAME", s, 0, TPNOREPLY) == -1) bad("call without a reply", i, 0);
        break;
      case 5:
        if (tpacall((char *)"NOSUCH", s, 0, i % 3 ? 0 : TPNOREPLY) != -1) sim_fail("an unknown service could be called");
        bad("call of an unknown service", i, TPENOENT);
        if (tpcall((char *)"NOSUCH", s, 0, &r, &len, 0) != -1) sim_fail("an unknown service could be called");
        bad("call of an unknown service", i, TPENOENT);
        break;
      case 6: {  // 1000 at once
        if (i % 2 == 0) break;
        int cd = tpacall((char *)"SAME", s, 0, 0);
        if (cd == -1) bad("asynchronous call", i, 0);
        cds.push_back(cd);
        if (cds.size() == 20)
          for (; !cds.empty(); cds.pop_back())
            if (tpgetrply(&cds.back(), &r, &len, 0) == -1) bad("reply", i, 0);
        break;
      }
      case 7:
      case 8:
        if (tpacall((char *)"SAME", s, 0, i % 2 ? 0 : TPNOBLOCK) != -1) sim_fail("a call was sent although that is not possible");
        if (tperrno == TPELIMIT || tperrno == 0) bad("call that cannot be sent", i, TPEOS);
        break;
      case 9: {  // fails in the service
        int cd = tpacall((char *)"FAIL", s, 0, 0);
        if (cd == -1) bad("asynchronous call", i, 0);
        if (tpgetrply(&cd, &r, &len, 0) != -1) sim_fail("a service that fails succeeded");
        bad("call that fails", i, TPESVCFAIL);
        if (tpcall((char *)"THROWS", s, 0, &r, &len, 0) != -1) sim_fail("a service that throws succeeded");
        bad("call that fails", i, TPESVCERR);
        break;
      }
      case 10:
        if (tpterm() == -1 || tpinit(nullptr) == -1) bad("attaching again", i, 0);
        if (tpcall((char *)"SAME", s, 0, &r, &len, 0) == -1) bad("synchronous call", i, 0);
        break;
      case 11: {  // bad descriptors
        if (tpcancel(i * 7 + 1) != -1) sim_fail("an unknown descriptor could be cancelled");
        bad("cancelling an unknown descriptor", i, TPEBADDESC);
        int cd = i * 7 + 1;
        if (tpgetrply(&cd, &r, &len, 0) != -1) sim_fail("an unknown descriptor has a reply");
        bad("waiting for an unknown descriptor", i, TPEBADDESC);
        break;
      }
    }
  sim_failing(nullptr);
  for (int cd : cds)
    if (tpgetrply(&cd, &r, &len, 0) == -1) bad("reply", 0, 0);
  if (kind == 4)
    if (tpcall((char *)"SAME", s, 0, &r, &len, 0) == -1) bad("synchronous call", 0, 0);
  tpfree(s);
  tpfree(r);
  sim_history(0);
  sim_ready();
  prog(c, arg / 1000 * 10 + arg / 100 % 10);
  return 0;
}
// n synchronous calls
extern "C" int cl_calls(int n) {
  Client c;
  init();
  sim_ready();
  for (int i = 1; i <= n; i++) c.call("ECHO", 0);
  c.end();
  return 0;
}
// n requests, then the replies in the opposite order
extern "C" int cl_reverse(int n) {
  Client c;
  init();
  sim_ready();
  for (int i = 1; i <= n; i++) c.acall("ECHO", 0);
  c.drain(false);
  c.end();
  return 0;
}
// calls all the given services: arg = list of service indexes in base 100, +1 each
static int call_list(int arg, bool async, long flags) {
  Client c;
  init();
  sim_ready();
  for (; arg; arg /= 100) {
    if (async || flags) c.acall(svcname[arg % 100 - 1], flags);
    else c.call(svcname[arg % 100 - 1], 0);
  }
  c.drain(false);
  c.end();
  return 0;
}
extern "C" int cl_list(int arg) { return call_list(arg, false, 0); }
extern "C" int cl_alist(int arg) { return call_list(arg, true, 0); }
extern "C" int cl_nlist(int arg) { return call_list(arg, false, TPNOREPLY); }

// ---------------------------------------------------------------- advertising
namespace {
void opt_call(Client &c) {
  std::string t = tag(c.self, ++c.n);
  char *p = str(t), *r = str("unset", 300);
  long len = -1;
  sim_event("opt", 0, 0, t.c_str());
  int rc = tpcall((char *)"OPT", p, 0, &r, &len, 0);
  sim_event("opt-end", rc == -1 ? tperrno : 0, rc == -1 ? 0 : tpurcode, (t + " data=" + show(r)).c_str());
  tpfree(p);
  tpfree(r);
}
void opt_acall(Client &c) {
  std::string t = tag(c.self, ++c.n);
  char *p = str(t), *r = str("unset", 300);
  long len = -1;
  sim_event("opt", 0, 0, t.c_str());
  int cd = tpacall((char *)"OPT", p, 0, 0);
  int rc = cd;
  if (cd != -1) rc = tpgetrply(&cd, &r, &len, 0);
  sim_event("opt-end", rc == -1 ? tperrno : 0, rc == -1 ? 0 : tpurcode, (t + " data=" + show(r)).c_str());
  tpfree(p);
  tpfree(r);
}
void ctl(const char *what) {
  char *p = str(what), *r = str("unset", 300);
  long len = -1;
  if (tpcall((char *)"CTL", p, 0, &r, &len, 0) == -1) sim_fail("the service that advertises could not be called: %d", tperrno);
  if (strcmp(r, what)) sim_fail("wrong reply %s to %s", r, what);
  tpfree(p);
  tpfree(r);
}
}  // namespace
// arg: number of operations * 10 + kind; operations: advertise, withdraw, advertise another routine, call
extern "C" int cl_adv(int arg) {
  Client c;
  init();
  sim_ready();
  for (int i = 0; i < arg / 10; i++) switch (sim_choose(arg % 10 == 1 ? 3 : 4, "operation")) {
      case 0: opt_call(c); break;
      case 1: ctl("-"); break;
      case 2: ctl("+"); break;
      case 3: ctl("*"); break;
    }
  c.end();
  return 0;
}
// the given operations one after the other, first in the lowest digit:
// 1 call, 2 asynchronous call, 3 withdraw, 4 advertise, 5 advertise another routine,
// 6 raise signal 1, 7 wait for signal 2, 8 synchronous call of ECHO
extern "C" int cl_advlist(int arg) {
  Client c;
  init();
  sim_ready();
  for (; arg; arg /= 10) switch (arg % 10) {
      case 1: opt_call(c); break;
      case 2: opt_acall(c); break;
      case 3: ctl("-"); break;
      case 4: ctl("+"); break;
      case 5: ctl("*"); break;
      case 6: sim_signal(1); break;
      case 7: sim_wait(2); break;
      case 8: c.call("ECHO", 0); break;
    }
  c.end();
  return 0;
}
// tmshutdown of one server once signal 1 is raised; raises signal 2. arg: group * 100 + server
int tmshutdown_main(int, char **);
static int shut(int arg, bool wait) {
  std::string id = std::to_string(arg % 100), g = "G" + std::to_string(arg / 100);
  init();
  tpterm();
  sim_ready();
  if (wait) sim_wait(1);
  sim_event("stop", arg / 100, arg % 100, "");
  char *argv[] = {(char *)"tmshutdown", (char *)"-y", (char *)"-i", (char *)id.c_str(), (char *)"-g", (char *)g.c_str(), nullptr};
  int rc = tmshutdown_main(6, argv);
  if (rc) sim_fail("tmshutdown gave %d", rc);
  sim_event("stop-end", arg / 100, arg % 100, "");
  sim_signal(2);
  return 0;
}
extern "C" int shut_after(int arg) { return shut(arg, true); }
extern "C" int shut_now(int arg) { return shut(arg, false); }
