// Actors of the scenarios in which the real tmboot, tmshutdown and tmipcrm are run (B01).
#include <signal.h>
#include <sys/ipc.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <iostream>
#include <sstream>
#include "act.h"

int tmboot_main(int, char **);
int tmshutdown_main(int, char **);
int tmipcrm_main(int, char **);
int bbl_main(int, char **);

static std::vector<char *> args() {
  std::vector<char *> v;
  for (int i = 0; sim_argv(i); i++) v.push_back((char *)sim_argv(i));
  return v;
}
// ---------------------------------------------------------------- the programs tmboot starts
extern "C" int prog_bbl(int) {
  auto v = args();
  v.push_back(nullptr);
  return bbl_main(v.size() - 1, v.data());
}
static int g_arg;
extern "C" void B_SVC(TPSVCINFO *s) { tpreturn(TPSUCCESS, 0, str(std::string(s->name) + "/" + std::to_string(sim_self()), 100), 0, 0); }
// what a program finds while the application starts or stops: the services of those before it
static void others(const char *when) {
  for (int i = 1; i < g_arg % 10; i++) {
    char *r = str("unset", 100);
    long len = -1;
    std::string svc = "S" + std::to_string(i);
    int rc = tpcall((char *)svc.c_str(), nullptr, 0, &r, &len, 0);
    int err = rc == -1 ? tperrno : 0;
    sim_log(when, err, 0, (svc + " " + show(r)).c_str());
    tpfree(r);
  }
}
static int b_init(int, char **) {
  int rc = g_arg / 10 % 10 == 1 ? -1 : 0;
  if (!rc && g_arg / 10 % 10 == 3) others("starts");
  sim_log("up", rc, 0, "");
  return rc;
}
static void b_done() {
  if (g_arg / 10 % 10 == 3) others("stops");
  sim_log("down", 0, 0, "");
}
// arg: number of its service + 10 * (0: works, 1: its initialization fails, 2: ends at once, 3: calls the others)
extern "C" int prog(int arg) {
  g_arg = arg;
  if (arg / 10 % 10 == 2) return 1;
  static char name[8];
  snprintf(name, sizeof(name), "S%d", arg % 10);
  static struct tmdsptchtbl_t tbl[] = {{name, (char *)"B_SVC", B_SVC, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmsvrargs_t a = {&tmnull_switch, tbl,  0,    b_init,   b_done,       _tmrunserver, NULL,
                                 NULL,           NULL, NULL, tprminit, tpsvrthrinit, tpsvrthrdone, NULL};
  auto v = args();
  v.push_back(nullptr);
  int rc = _tmstartserver(v.size() - 1, v.data(), &a);
  sim_log("server-end", rc, 0, "");
  return rc;
}
// ---------------------------------------------------------------- the administrator
namespace {
// what a program prints, line by line
struct Lines : std::streambuf {
  std::string line;
  void add(char c) {
    if (c != '\n') {
      line += c;
      return;
    }
    sim_log("out", 0, 0, line.c_str());
    line.clear();
  }
  int overflow(int c) override {
    if (c != EOF) add(c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; i++) add(s[i]);
    return n;
  }
};
void run(int (*m)(int, char **), std::vector<std::string> a, const char *in = "") {
  Lines l;
  std::stringbuf b(in);
  auto *o = std::cout.rdbuf(&l), *i = std::cin.rdbuf(&b);
  std::cin.clear();
  std::vector<char *> v;
  for (auto &s : a) v.push_back((char *)s.c_str());
  v.push_back(nullptr);
  int rc = m(a.size(), v.data());
  std::cout.rdbuf(o);
  std::cin.rdbuf(i);
  sim_log("rc", rc, 0, a[0].c_str());
}
}  // namespace
// One step of an administrator. arg: what + 100 * (1 + index of the process to wait for) + 10000 * number of services
extern "C" int admin(int arg) {
  int what = arg % 100, after = arg / 100 % 100, n = arg / 10000;
  if (what == 0) {
    // resources of somebody else
    int q = msgget(IPC_PRIVATE, 0600), s = semget(IPC_PRIVATE, 1, 0600), m = shmget(IPC_PRIVATE, 64, 0600);
    semctl(s, 0, SETVAL, 5);
    struct {
      long t;
      char x[8];
    } b = {1, "foreign"};
    if (q == -1 || s == -1 || m == -1 || msgsnd(q, &b, 8, 0) == -1) sim_fail("no resources %d %d %d %d", q, s, m, errno);
    sim_ready();
    return 0;
  }
  sim_ready();
  if (after) sim_wait_done(after - 1);
  switch (what) {
    case 1: run(tmboot_main, {"tmboot", "-y"}); break;
    case 2: run(tmboot_main, {"tmboot", "-n"}); break;
    case 3: run(tmshutdown_main, {"tmshutdown", "-y"}); break;
    case 4: run(tmipcrm_main, {"tmipcrm", "-y"}); break;
    case 5: run(tmipcrm_main, {"tmipcrm"}, "what\nn\n"); break;
    case 6: run(tmipcrm_main, {"tmipcrm"}, "x\ny\n"); break;
    case 7: run(tmshutdown_main, {"tmshutdown", "-y", "-i", "1", "-g", "G1"}); break;
    case 8: run(tmboot_main, {"tmboot", "-y", "-i", "1"}); break;
    case 9: run(tmboot_main, {"tmboot", "-y", "-g", "G2"}); break;
    case 10: run(tmboot_main, {"tmboot", "-y", "-i", "2", "-g", "G1"}); break;
    case 11: run(tmboot_main, {"tmboot", "-h"}); break;
    case 12: run(tmipcrm_main, {"tmipcrm"}, ""); break;
    case 13: run(tmshutdown_main, {"tmshutdown", "-y", "-g", "G2"}); break;
    case 14:  // from now on nobody is killed
      sim_signal(63);
      run(tmboot_main, {"tmboot", "-y"});
      break;
    case 20:  // everything is killed
      for (int i = 0; i < sim_self(); i++)
        if (kill(1000 + i, 0) == 0) kill(1000 + i, SIGKILL);
      break;
    case 21:  // the first server
      kill(1001, SIGKILL);
      break;
    case 22: {  // nothing happens for a while
      struct timespec t = {3, 0};
      nanosleep(&t, nullptr);
      break;
    }
    case 24: {  // until the supervisor looks
      long ms = 1000 - sim_now() % 1000;
      struct timespec t = {ms / 1000, ms % 1000 * 1000000};
      nanosleep(&t, nullptr);
      break;
    }
    case 23:  // a client that does not leave
    case 30: {
      if (tpinit(nullptr) == -1) sim_fail("tpinit failed with %d", tperrno);
      for (int i = 1; i <= n; i++) {
        char *r = str("unset", 100);
        long len = -1;
        std::string svc = "S" + std::to_string(i);
        int rc = tpcall((char *)svc.c_str(), nullptr, 0, &r, &len, 0);
        int err = rc == -1 ? tperrno : 0;
        sim_log("call", err, i, (svc + " " + show(r)).c_str());
        tpfree(r);
      }
      if (what == 23) kill(getpid(), SIGKILL);
      tpterm();
    }
  }
  sim_log("end", 0, 0, "");
  return 0;
}
