// Actors of the scenarios about the bulletin board (C10, C09).
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include "act.h"

std::string tables_text();
std::string tables_check(std::string &services, int &clients, int (*alive)(int));
int own_entries(int &rpid);
static int is_alive(int pid) { return kill(pid, 0) == 0; }
static void nap(long ms) {
  struct timespec t = {ms / 1000, ms % 1000 * 1000000};
  nanosleep(&t, nullptr);
}

// attaches, says what it sees
extern "C" int attach(int) {
  sim_ready();
  sim_log("tables", 0, 0, tables_text().c_str());
  return 0;
}
// joins and leaves n times; when it cannot join says so
extern "C" int join(int n) {
  sim_ready();
  for (int i = 0; i < n; i++) {
    sim_event("join", 0, 0, "");
    int rc = tpinit(nullptr);
    sim_event("joined", rc == -1 ? tperrno : 0, 0, "");
    if (rc == -1) {
      int q;
      if (own_entries(q)) sim_fail("joining failed with %d and left an entry", tperrno);
      continue;
    }
    int q = -1, c;
    std::string s;
    int own = own_entries(q);
    if (own != 1) sim_fail("the table of clients has %d entries of this client", own);
    auto w = tables_check(s, c, nullptr);
    if (!w.empty()) sim_fail("%s", w.c_str());
    if (sim_queue_len(q) < 0) sim_fail("the reply queue of this client does not exist");
    sim_pause();
    own = own_entries(q);
    if (own != 1) sim_fail("the table of clients has %d entries of this client, later", own);
    sim_event("leave", 0, 0, "");
    if (tpterm() == -1) sim_fail("tpterm failed with %d", tperrno);
    sim_event("left", 0, 0, "");
  }
  sim_log("end", 0, 0, "");
  return 0;
}
// starts together with everybody else
extern "C" void NAME(TPSVCINFO *s) { tpreturn(TPSUCCESS, 0, str(std::string(s->name) + "/" + std::to_string(sim_self()), 100), 0, 0); }
// names that begin with each other
#define SA "ACCOUNT"
#define SB "ACC"
#define SC "ACCOUNTS"
#define SD "Acc"
#define N(x) {(char *)x, (char *)"NAME", NAME, 0, 0, NULL}
#define END {NULL, NULL, NULL, 0, 0, NULL}
static struct tmdsptchtbl_t n0[] = {N(SA), END}, n1[] = {N(SB), END}, n2[] = {N(SA), N(SB), END}, n3[] = {N(SB), N(SA), END}, n4[] = {N(SC), N(SA), END},
                            n5[] = {N(SC), N(SD), END}, n6[] = {END};
static struct tmdsptchtbl_t *names[] = {n0, n1, n2, n3, n4, n5, n6};
// arg: table * 10000 + group * 100 + server
extern "C" int boot(int a) {
  sim_ready();
  return start(a / 100 % 100, a % 100, names[a / 10000]);
}
// once everything is quiet: the tables, and a call of every service
extern "C" int inspect(int calls) {
  sim_ready();
  nap(100);
  std::string s;
  int c = 0;
  auto w = tables_check(s, c, is_alive);
  if (!w.empty()) sim_fail("%s", w.c_str());
  sim_log("tables", 0, 0, tables_text().c_str());
  sim_log("services", c, 0, s.c_str());
  for (int i = 0; i < calls; i++)
    for (const char *n : {SA, SB, SC, SD, "A"}) {
      char *r = str("unset", 100);
      long len = -1;
      int rc = tpcall((char *)n, nullptr, 0, &r, &len, 0);
      int err = rc == -1 ? tperrno : 0;
      sim_log("call", err, 0, (std::string(n) + " " + show(r)).c_str());
      tpfree(r);
    }
  tpterm();
  sim_log("end", 0, 0, "");
  return 0;
}
