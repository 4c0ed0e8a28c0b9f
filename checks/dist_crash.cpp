// Actors of the scenarios in which processes are killed (C09).
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include "act.h"

std::string tables_check(std::string &services, int &clients, int (*alive)(int));
std::string tables_text();
int own_entries(int &rpid);
int dead_servers(int (*alive)(int));
int tmshutdown_main(int, char **);
extern "C" int srv(int);
extern "C" int srv_wait(int);
extern "C" int bbl(int);
static int is_alive(int pid) { return kill(pid, 0) == 0; }
static void nap(long ms) {
  struct timespec t = {ms / 1000, ms % 1000 * 1000000};
  nanosleep(&t, nullptr);
}
namespace {
struct C {
  int self = sim_self(), n = 0;
  void limit(long ms) {
    if (tpsblktime(ms, TPBLK_ALL | TPBLK_MILLISECOND) == -1) sim_fail("tpsblktime failed with %d", tperrno);
  }
  void call(const char *svc, const char *more = "") {
    std::string t = tag(self, ++n) + more;
    sim_log("send", 0, 0, t.c_str());
    char *p = str(t), *r = str("unset", 300);
    long len = -1;
    int rc = tpcall((char *)svc, p, 0, &r, &len, 0);
    int err = rc == -1 ? tperrno : 0;
    sim_log("call", err, sim_now(), ("tag=" + t + " svc=" + svc + " data=" + show(r)).c_str());
    tpfree(p);
    tpfree(r);
  }
  void look(bool bbl = true) {
    int q = -1, c = 0;
    std::string s;
    int own = own_entries(q);
    if (own != 1) sim_fail("the table of clients has %d entries of this client", own);
    if (sim_queue_len(q) < 0) sim_fail("the reply queue of this client is gone");
    auto w = tables_check(s, c, is_alive);
    if (!w.empty()) sim_fail("%s", w.c_str());
    int d = dead_servers(is_alive);
    if (d && bbl) sim_fail("%d dead servers are still said to be running", d);
    sim_log("look", c, 0, s.c_str());
  }
  void end() {
    if (tpterm() == -1) sim_fail("tpterm failed with %d", tperrno);
    sim_log("end", 0, 0, "");
  }
};
}  // namespace
// joins, calls and leaves n times
extern "C" int victim(int n) {
  C c;
  sim_ready();
  for (int i = 0; i < n; i++) {
    sim_log("joining", 0, 0, "");
    init();
    sim_log("joined", 0, 0, "");
    c.limit(1000);
    c.call("ECHO");
    sim_log("leaving", 0, 0, "");
    tpterm();
    sim_log("left", 0, 0, "");
  }
  sim_log("end", 0, 0, "");
  return 0;
}
// sends n requests and never looks at the replies
extern "C" int victim_full(int n) {
  init();
  sim_ready();
  for (int i = 0; i < n; i++) {
    char *p = str("x" + tag(sim_self(), i + 1), 200);
    tpacall((char *)"ECHO", p, 0, TPNOBLOCK);
    tpfree(p);
  }
  kill(getpid(), SIGKILL);
  return 0;
}
// calls before, while and after somebody dies. arg: calls before + 10 * calls after
extern "C" int survivor(int arg) {
  C c;
  init();
  sim_ready();
  c.limit(1000);
  for (int i = 0; i < arg % 10; i++) c.call("ECHO");
  nap(500);
  sim_signal(63);
  nap(4000);
  sim_log("final", 0, 0, "");
  c.look();
  for (int i = 0; i < arg / 10; i++) c.call("ECHO");
  c.end();
  return 0;
}
// joins when everything is over
extern "C" int latecomer(int) {
  C c;
  sim_ready();
  nap(4000);
  sim_signal(63);
  sim_log("final", 0, 0, "");
  init();
  c.look();
  c.limit(1000);
  c.call("ECHO");
  c.end();
  return 0;
}
// calls while a server dies: each digit a service (1 ECHO, 2 FAIL, 3 OPT, 4 CTL +, 5 CTL -), once more after everything is over
extern "C" int cl_kill(int arg) {
  C c;
  init();
  sim_ready();
  c.limit(1000);
  auto go = [&](int d) {
    switch (d) {
      case 1: c.call("ECHO"); break;
      case 2: c.call("FAIL"); break;
      case 3: c.call("OPT"); break;
      case 4: c.call("CTL", "+"); break;
      case 5: c.call("CTL", "-"); break;
      case 6: c.call("WAIT", ":500"); break;
      case 7:
        c.call("WAIT", ":3000");
        nap(4000);
        break;
    }
  };
  bool bbl = arg > 0;  // there is one to the end
  if (!bbl) arg = -arg;
  for (int a = arg; a; a /= 10) go(a % 10);
  sim_signal(63);
  nap(4000);
  sim_log("final", 0, 0, "");
  c.look(bbl);
  for (int k = 0; k < 2; k++)
    for (int a = arg; a; a /= 10) go(a % 10);
  c.end();
  return 0;
}
extern "C" int srv_now(int a) {
  sim_ready();
  return srv(a);
}
// starts the server again once process p is gone. arg: p * 1000000 + what srv wants
extern "C" int again(int arg) {
  sim_ready();
  sim_wait_done(arg / 1000000);
  nap(100);
  return srv(arg % 1000000);
}
extern "C" int again_bbl(int arg) {
  sim_ready();
  sim_wait_done(arg);
  nap(100);
  return bbl(0);
}
// looks at everything when it is over
extern "C" int overseer(int) {
  sim_ready();
  nap(3000);
  sim_signal(63);
  int c = 0;
  std::string s;
  auto w = tables_check(s, c, is_alive);
  if (!w.empty()) sim_fail("%s", w.c_str());
  sim_log("tables", 0, 0, tables_text().c_str());
  sim_log("end", c, 0, s.c_str());
  return 0;
}
// kills BBL (process 0) and shuts everything down
extern "C" int shut_all(int) {
  init();
  tpterm();
  sim_ready();
  kill(1000, SIGKILL);
  nap(10);
  char *argv[] = {(char *)"tmshutdown", (char *)"-y", nullptr};
  int rc = tmshutdown_main(2, argv);
  sim_signal(63);
  sim_log("end", rc, sim_now(), "");
  return 0;
}
// shuts down what another one, who may be killed, was to shut down. arg: its number * 10000 + ...
extern "C" int shut_again(int arg) {
  sim_ready();
  sim_wait_done(arg / 10000);
  arg %= 10000;
  std::string id = std::to_string(arg % 100), g = "G" + std::to_string(arg / 100);
  char *argv[] = {(char *)"tmshutdown", (char *)"-y", (char *)"-i", (char *)id.c_str(), (char *)"-g", (char *)g.c_str(), nullptr};
  int rc = tmshutdown_main(6, argv);
  sim_log("end", rc, sim_now(), "");
  return 0;
}
extern "C" int killer_shut(int arg) {
  std::string id = std::to_string(arg % 100), g = "G" + std::to_string(arg / 100);
  sim_ready();
  char *argv[] = {(char *)"tmshutdown", (char *)"-y", (char *)"-i", (char *)id.c_str(), (char *)"-g", (char *)g.c_str(), nullptr};
  int rc = tmshutdown_main(6, argv);
  sim_signal(63);
  sim_log("end", rc, sim_now(), "");
  return 0;
}
