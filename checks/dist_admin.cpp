// Actors of A01: administrative queries, in the calling process and through the
// supervisor, after and while servers advertise and withdraw services.
#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include "act.h"

int tmadmin_main(int, char **);

namespace {
typedef std::map<std::string, std::string> Row;
typedef std::vector<Row> Rows;

// ---------------------------------------------------------------- servers
void A_ECHO(TPSVCINFO *s) { tpreturn(TPSUCCESS, 0, s->data, 0, 0); }
// "+X" offers the service X, "-X" withdraws it; fills: "*n" offers n services
void A_CTL(TPSVCINFO *s) {
  std::string in = show(s->data), name = in.substr(1);
  int rc = 0;
  if (in[0] == '+') rc = tpadvertise((char *)name.c_str(), A_ECHO);
  if (in[0] == '-') rc = tpunadvertise((char *)name.c_str());
  if (in[0] == '*')
    for (int i = 0; i < atoi(name.c_str()) && rc != -1; i++) rc = tpadvertise((char *)("MANY" + std::to_string(i)).c_str(), A_ECHO);
  tpreturn(TPSUCCESS, rc == -1 ? tperrno : 0, s->data, 0, 0);
}
}  // namespace
// arg: group * 100 + number; the service is called C<arg>
extern "C" int adm_srv(int arg) {
  static char name[16];
  snprintf(name, sizeof(name), "C%d", arg);
  static struct tmdsptchtbl_t tbl[] = {{name, (char *)"A_CTL", A_CTL, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
  return start(arg / 100, arg % 100, tbl);
}

namespace {
// ---------------------------------------------------------------- queries
const struct {
  const char *klass;
  FLDID32 fields[16];
  const char *names[16];
} kClass[] = {
    {"T_DOMAIN", {TA_IPCKEY, TA_MASTER, TA_MODEL, TA_MAXSERVERS, TA_MAXSERVICES, TA_MAXQUEUES, TA_MAXGROUPS, TA_MAXACCESSERS},
     {"ipckey", "master", "model", "servers", "services", "queues", "groups", "accessers"}},
    {"T_MACHINE", {TA_LMID, TA_PMID, TA_APPDIR, TA_TUXDIR, TA_ULOGPFX, TA_TLOGDEVICE, TA_BLOCKTIME}, {"lmid", "pmid", "appdir", "tuxdir", "ulogpfx", "tlogdevice", "blocktime"}},
    {"T_GROUP", {TA_SRVGRP, TA_GRPNO, TA_OPENINFO, TA_CLOSEINFO, TA_TMSNAME}, {"grp", "grpno", "open", "close", "tms"}},
    {"T_SERVER", {TA_SRVGRP, TA_GRPNO, TA_SRVID, TA_SERVERNAME, TA_STATE, TA_CLOPT, TA_LMID, TA_BASESRVID, TA_MIN, TA_MAX, TA_MINDISPATCHTHREADS, TA_MAXDISPATCHTHREADS},
     {"grp", "grpno", "id", "name", "state", "clopt", "lmid", "base", "min", "max", "minthreads", "maxthreads"}},
    {"T_SERVICE", {TA_SERVICENAME, TA_STATE, TA_LOAD, TA_PRIO, TA_AUTOTRAN, TA_TRANTIME, TA_BUFTYPE}, {"svc", "state", "load", "prio", "autotran", "trantime", "buftype"}},
    {"T_SVCGRP", {TA_SERVICENAME, TA_GRPNO, TA_SRVID, TA_RQADDR, TA_STATE, TA_LMID, TA_LOAD, TA_PRIO, TA_AUTOTRAN, TA_TRANTIME, TA_BUFTYPE},
     {"svc", "grpno", "id", "queue", "state", "lmid", "load", "prio", "autotran", "trantime", "buftype"}},
    {"T_QUEUE", {TA_RQADDR, TA_SERVERCNT, TA_LMID, TA_SERVERNAME}, {"queue", "servers", "lmid", "name"}},
};
enum { DOMAIN_, MACHINE, GROUP, SERVER, SERVICE, SVCGRP, QUEUE, CLASSES };

FBFR32 *buf(long size) {
  auto b = (FBFR32 *)tpalloc((char *)"FML32", nullptr, size);
  if (!b) sim_fail("tpalloc: %d", tperrno);
  return b;
}
void set(FBFR32 *b, FLDID32 f, const char *v) {
  if (Fchg32(b, f, 0, (char *)v, 0) == -1) sim_fail("Fchg32: %d", Ferror32);
}
// via 0: in this process, 1: through the supervisor, 2: in this process with little room for the answer
FBFR32 *ask(const char *klass, const char *operation, int via, int *rc, int *err) {
  FBFR32 *in = buf(1024);
  if (klass) set(in, TA_CLASS, klass);
  if (operation) set(in, TA_OPERATION, operation);
  FBFR32 *out = buf(via == 2 ? 64 : 1024);
  tperrno = 0;
  if (via == 1) {
    long len = 0;
    *rc = tpcall((char *)".TMIB", (char *)in, 0, (char **)&out, &len, TPNOTIME);
  } else
    *rc = tpadmcall(in, &out, 0);
  *err = *rc == -1 ? tperrno : 0;
  tpfree((char *)in);
  return out;
}
long num(FBFR32 *b, FLDID32 f, long none) {
  long v;
  return CFget32(b, f, 0, (char *)&v, nullptr, FLD_LONG) == -1 ? none : v;
}
Rows query(int c, int via) {
  int rc, err;
  FBFR32 *out = ask(kClass[c].klass, "GET", via, &rc, &err);
  if (rc == -1) sim_fail("GET of %s failed: %d", kClass[c].klass, err);
  if (num(out, TA_ERROR, -99) != TAOK) sim_fail("GET of %s: TA_ERROR %ld", kClass[c].klass, num(out, TA_ERROR, -99));
  long n = num(out, TA_OCCURS, -99);
  if (n < 0) sim_fail("GET of %s: TA_OCCURS %ld", kClass[c].klass, n);
  Rows rows(n);
  for (long i = 0; i < n; i++)
    for (int k = 0; k < 16 && kClass[c].fields[k]; k++) {
      char v[300];
      FLDLEN32 len = sizeof(v);
      if (CFget32(out, kClass[c].fields[k], i, v, &len, FLD_STRING) == -1)
        sim_fail("GET of %s: %s of number %ld of %ld is missing: %d", kClass[c].klass, kClass[c].names[k], i, n, Ferror32);
      rows[i][kClass[c].names[k]] = v;
    }
  for (int k = 0; k < 16 && kClass[c].fields[k]; k++)
    if (Foccur32(out, kClass[c].fields[k]) != n)
      sim_fail("GET of %s: %d occurrences of %s instead of %ld", kClass[c].klass, Foccur32(out, kClass[c].fields[k]), kClass[c].names[k], n);
  tpfree((char *)out);
  return rows;
}
std::string text(const Rows &rows) {
  std::string s;
  for (auto &r : rows) {
    s += "[";
    for (auto &x : r) s += " " + x.first + "=" + x.second;
    s += " ]";
  }
  return s;
}
// every wanted row is there once, with at least these values, and no other
void expect(int c, const Rows &got, const Rows &want, const Rows &may = {}) {
  std::vector<bool> used(got.size());
  auto take = [&](const Row &w) {
    for (size_t i = 0; i < got.size(); i++) {
      bool same = !used[i];
      for (auto &x : w) same = same && got[i].at(x.first) == x.second;
      if (same) return used[i] = true, true;
    }
    return false;
  };
  for (auto &w : want)
    if (!take(w)) sim_fail("GET of %s: there is no%s in%s", kClass[c].klass, text({w}).c_str(), text(got).c_str());
  for (auto &w : may) take(w);
  for (size_t i = 0; i < got.size(); i++)
    if (!used[i]) sim_fail("GET of %s: unexpected%s in%s", kClass[c].klass, text({got[i]}).c_str(), text(got).c_str());
}
std::string S(int n) { return std::to_string(n); }

// the application of checks/dist_a01.cpp
struct Model {
  std::set<std::pair<std::string, int>> offered;  // service, group * 100 + number
  std::set<std::string> known;                    // services that were offered some time
  std::vector<std::pair<int, std::string>> servers;  // group * 100 + number, queue
  std::set<int> running;
  std::map<std::string, int> queues;
  std::string maxservices = "12";
  void offer(const std::string &s, int at) { offered.insert({s, at}), known.insert(s); }
  std::string queue(int at) {
    for (auto &x : servers)
      if (x.first == at) return x.second;
    return "?";
  }
} model;
std::string server_of(const std::string &queue) { return queue == ".BBL" ? "BBL" : queue == "3.TM" ? "TMSX" : "srv1"; }
Row svcgrp(const std::string &s, int at) {
  return {{"svc", s}, {"grpno", S(at / 100)}, {"id", S(at % 100)}, {"queue", model.queue(at)}, {"state", "ACT"}, {"lmid", "tux1"}, {"load", "50"}, {"prio", "50"}, {"autotran", "N"}, {"trantime", "30"}, {"buftype", "ALL"}};
}
void build(int shared) {
  model.servers = {{0, ".BBL"}, {101, shared ? "shared" : "1.1"}, {201, shared ? "shared" : "2.1"}};
  model.running = {0, 101, 201};
  model.servers.push_back({102, shared ? "shared" : "1.2"});  // may be added to 101, is not booted
  for (auto &x : model.servers) model.queues[x.second]++;
  model.queues["3.TM"] = 2;
  model.offer(".TMIB", 0);
  model.offer("C101", 101);
  model.offer("C201", 201);
}
void check(int c, int via, const std::vector<std::pair<std::string, int>> &maybe = {}) {
  Rows want, may;
  auto is_maybe = [&](const std::string &s, int at) { return std::find(maybe.begin(), maybe.end(), std::make_pair(s, at)) != maybe.end(); };
  switch (c) {
    case DOMAIN_:
      want = {{{"ipckey", "52617"}, {"master", "tux1"}, {"model", "SHM"}, {"servers", "7"}, {"services", "12"}, {"queues", "9"}, {"groups", "4"}, {"accessers", "10"}}};
      want[0]["services"] = model.maxservices;
      break;
    case MACHINE:
      want = {{{"lmid", "tux1"}, {"pmid", "host"}, {"appdir", "/tmp/app"}, {"tuxdir", "/tmp"}, {"ulogpfx", "/tmp/ULOG"}, {"tlogdevice", "/tmp/TLOG"}, {"blocktime", "15000"}}};
      break;
    case GROUP:
      want = {{{"grp", "G1"}, {"grpno", "1"}, {"open", ""}, {"close", "close one"}, {"tms", ""}},
              {{"grp", "G2"}, {"grpno", "2"}, {"open", ""}, {"close", "close two"}, {"tms", ""}},
              {{"grp", "G3"}, {"grpno", "3"}, {"open", "RM:open three"}, {"close", ""}, {"tms", "TMSX"}}};
      break;
    case SERVER:
      for (auto &x : model.servers) {
        Row r = {{"grpno", S(x.first / 100)}, {"id", S(x.first % 100)}, {"name", x.first ? "srv" + S(x.first % 100) : "BBL"}, {"lmid", "tux1"}};
        if (x.first) {
          bool two = x.first / 100 == 2;
          r["name"] = "srv1";
          r["grp"] = "G" + S(x.first / 100), r["clopt"] = "-A";
          r["base"] = "1", r["min"] = "1", r["max"] = two ? "1" : "2";
          r["minthreads"] = two ? "2" : "1", r["maxthreads"] = two ? "3" : "1";
        }
        if (model.running.count(x.first)) r["state"] = "ACT";
        want.push_back(r);
      }
      for (int id : {30001, 30002}) want.push_back({{"grp", "G3"}, {"grpno", "3"}, {"id", S(id)}, {"name", "TMSX"}, {"clopt", "-A"}, {"lmid", "tux1"}});
      break;
    case SERVICE: {
      // the ones offered; those that nobody offers any more may still be known
      std::set<std::string> now;
      for (auto &x : model.offered)
        if (!is_maybe(x.first, x.second)) now.insert(x.first);
      for (auto &s : now) want.push_back({{"svc", s}, {"state", "ACT"}, {"load", "50"}, {"prio", "50"}});
      for (auto &s : model.known)
        if (!now.count(s)) may.push_back({{"svc", s}});
      for (auto &x : maybe)
        if (!now.count(x.first) && !model.known.count(x.first)) may.push_back({{"svc", x.first}});
      break;
    }
    case SVCGRP:
      for (auto &x : model.offered)
        if (!is_maybe(x.first, x.second)) want.push_back(svcgrp(x.first, x.second));
      for (auto &x : maybe) may.push_back(svcgrp(x.first, x.second));
      break;
    case QUEUE:
      for (auto &x : model.queues) want.push_back({{"queue", x.first}, {"servers", S(x.second)}, {"lmid", "tux1"}, {"name", server_of(x.first)}});
      break;
  }
  expect(c, query(c, via), want, may);
}
// asks a server to offer or withdraw a service
long ctl(int at, const std::string &what) {
  char *p = str(what);
  long len = 0;
  int rc = tpcall((char *)("C" + S(at)).c_str(), p, 0, &p, &len, 0);
  long r = rc == -1 ? -tperrno : tpurcode;
  tpfree(p);
  return r;
}
void change(int at, const std::string &what) {
  std::string name = what.substr(1);
  bool is = model.offered.count({name, at});
  long rc = ctl(at, what), want = what[0] == '+' || is ? 0 : TPENOENT;
  if (rc != want) sim_fail("server %d was told %s: %ld instead of %ld", at, what.c_str(), rc, want);
  if (what[0] == '+') model.offer(name, at);
  else model.offered.erase({name, at});
}
void nothing(const char *klass, const char *operation, int via) {
  int rc, err;
  FBFR32 *out = ask(klass, operation, via, &rc, &err);
  long e = num(out, TA_ERROR, -99);
  if (rc != -1 && e >= 0) sim_fail("%s of %s is no query, but succeeds", operation ? operation : "nothing", klass ? klass : "nothing");
  if (rc == -1 && err == 0) sim_fail("%s of %s fails without an error", operation ? operation : "nothing", klass ? klass : "nothing");
  tpfree((char *)out);
}
}  // namespace

// arg: changes before the queries + 10 * (1: the servers share a queue)
extern "C" int adm_history(int arg) {
  build(arg / 10 % 10);
  init();
  sim_ready();
  static const char *what[] = {"+A", "-A", "+B", "-B"};
  for (int i = 0; i < arg % 10; i++) {
    int c = sim_choose(8, "change");
    change(c / 4 ? 201 : 101, what[c % 4]);
  }
  int via = sim_choose(3, "through");
  for (int c = 0; c < CLASSES; c++) check(c, via);
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
// queries that do not exist, then ones that do; arg: how many of them
extern "C" int adm_wrong(int arg) {
  build(0);
  init();
  sim_ready();
  static const char *wrong[][2] = {{"T_NOSUCH", "GET"}, {"T_DOMAIN", "NOSUCH"}, {nullptr, "GET"}, {"T_QUEUE", nullptr}, {nullptr, nullptr}, {"", ""}, {"T_QUEUE", "GETNEXT"}, {"T_QUEU", "GET"}, {"T_SERVERS", "GET"}};
  int via = sim_choose(3, "through");
  for (int i = 0; i < arg; i++) {
    int c = sim_choose(9, "query");
    nothing(wrong[c][0], wrong[c][1], via);
  }
  for (int c = 0; c < CLASSES; c++) check(c, via);
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
// an answer that is longer than the room that was given; arg: how many services
extern "C" int adm_many(int arg) {
  build(0);
  model.maxservices = "120";
  init();
  sim_ready();
  if (long rc = ctl(201, "*" + S(arg))) sim_fail("services cannot be offered: %ld", rc);
  for (int i = 0; i < arg; i++) model.offer("MANY" + S(i), 201);
  int via = sim_choose(3, "through");
  for (int c = 0; c < CLASSES; c++) check(c, via);
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
// queries while somebody else has A of server 201 withdrawn and offered; arg: number of queries + 10 * what
extern "C" int adm_asks(int arg) {
  build(0);
  model.offer("A", 201);
  init();
  sim_wait(1);
  sim_ready();
  int via = sim_choose(2, "through");
  for (int i = 0; i < arg % 10; i++) {
    int c = arg / 10 % 10 ? (arg / 10 % 10 == 1 ? SVCGRP : SERVICE) : sim_choose(CLASSES, "class");
    check(c, via, {{"A", 201}});
  }
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
// arg: how often it is withdrawn or offered
extern "C" int adm_flips(int arg) {
  build(0);
  init();
  change(201, "+A");
  sim_signal(1);
  sim_ready();
  for (int i = 0; i < arg; i++) ctl(201, i % 2 ? "+A" : "-A");
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
// asks once whoever may be killed had time to come to its end; arg: 1: a server, 2: who queries
extern "C" int adm_after(int arg) {
  build(0);
  init();
  sim_ready();
  sim_wait_done(2);
  std::vector<std::pair<std::string, int>> maybe = {{"A", 201}};
  if (arg == 1) maybe.push_back({"C201", 201}), model.running.erase(201);
  for (int via = 0; via < 2; via++)
    for (int c = 0; c < CLASSES; c++) check(c, via, maybe);
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
// the queues as tmadmin prints them; arg: 10 * (1: the servers share a queue)
extern "C" int adm_tmadmin(int arg) {
  build(arg / 10 % 10);
  sim_ready();
  static const char *inputs[] = {"pq\n", "printqueue\n", "\nhelp\nnosuch\npq\n", "pq\npq\n"};
  int c = sim_choose(4, "commands");
  std::stringbuf in(inputs[c]), out;
  auto *o = std::cout.rdbuf(&out), *i = std::cin.rdbuf(&in);
  std::cin.clear();
  char *argv[] = {(char *)"tmadmin", nullptr};
  int rc = tmadmin_main(1, argv);
  std::cout.rdbuf(o);
  std::cin.rdbuf(i);
  if (rc) sim_fail("tmadmin ends with %d", rc);
  std::map<std::string, int> lines;
  std::istringstream ss(out.str());
  for (std::string line; std::getline(ss, line);) {
    std::istringstream l(line);
    std::string name, queue, servers, wk, n, len, lmid;
    if (l >> name >> queue >> servers >> wk >> n >> len >> lmid && model.queues.count(queue)) {
      lines[queue]++;
      if (servers != S(model.queues[queue]) || lmid != "tux1" || name != server_of(queue)) sim_fail("tmadmin prints %s", line.c_str());
    }
  }
  for (auto &q : model.queues)
    if (lines[q.first] != (c == 3 ? 2 : 1)) sim_fail("tmadmin prints the queue %s %d times: %s", q.first.c_str(), lines[q.first], out.str().c_str());
  sim_log("end", 0, 0, "");
  tpterm();
  return 0;
}
