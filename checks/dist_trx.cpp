// C11 - C14: global transactions with a resource manager that checks every call.
#include "dist.h"

namespace {
string groups(int n, const string &more = "") {
  string s;
  // three groups are listed in another order than their numbers
  for (int g : n == 3 ? vector<int>{3, 1, 2} : n == 2 ? vector<int>{1, 2} : vector<int>{1}) s += mc::fmt("G%d GRPNO=%d LMID=tux1 TMSNAME=TMS TMSCOUNT=2 %s\n", g, g, more.c_str());
  return s;
}
string config(const vector<Srv> &v, int n, const string &more = "") {
  string s = ubb(v, "", groups(n, more));
  // with one or two groups the table of groups is full
  for (auto &c : {std::make_pair("MAXGROUPS 4", n == 1 ? "MAXGROUPS 1" : n == 2 ? "MAXGROUPS 2" : "MAXGROUPS 4"), {"MAXSERVERS 8", "MAXSERVERS 20"}, {"MAXSERVICES 12", "MAXSERVICES 40"}, {"MAXQUEUES 8", "MAXQUEUES 16"}})
    s.replace(s.find(c.first), strlen(c.first), c.second);
  return s;
}
Actor A(const string &name, const string &fn, int arg, bool daemon = false) { return Actor{name, "app", fn, arg, daemon}; }
Actor T(int g, int n = 0) { return A(mc::fmt("TMS%d%s", g, n ? "b" : ""), "tms", g * 100 + n, true); }

string ended(const Execution &e) {
  string w = stuck(e);
  if (!w.empty()) return w;
  for (size_t p = 0; p < e.procs.size(); p++) {
    auto &n = e.procs[p].name;
    bool daemon = n.compare(0, 3, "TMS") == 0 || n.compare(0, 6, "server") == 0 || n == "BBL";
    if (daemon) {
      if (e.procs[p].done) return n + " ended";
      continue;
    }
    if (!e.procs[p].done) return n + " never ends: " + e.procs[p].at;
    bool end = false;
    for (auto &l : e.of(p)) end |= l.what == "end";
    if (!end) return n + " did not come to its end";
  }
  return "";
}

void programs(vector<Scenario> &r) {
  bool th = mc::thorough();
  auto add = [&](const string &name, bool server, const string &prefix, const string &ops, int depth, int refused, std::map<string, string> env = {}, const string &more = "") {
    Scenario s;
    s.name = name;
    s.config = config({{1, 1}}, 1, more);
    s.actors = server ? vector<Actor>{T(1), A("program", "tx_prog", 1)} : vector<Actor>{A("program", "tx_client", 0)};
    s.env = env;
    s.env["TX_PREFIX"] = prefix;
    s.env["TX_OPS"] = ops;
    s.env["TX_DEPTH"] = std::to_string(depth);
    s.env["TX_REFUSED"] = std::to_string(refused);
    s.opt.max_steps = 20000;
    s.oracle = ended;
    r.push_back(s);
  };
  // everything, from the beginning and with open resource managers
  const string all = "OXBbCcRr102LK3TtfSPFZU";
  add("all calls", true, "", all, th ? 5 : 4, 99);
  add("all calls, opened", true, "O", all, th ? 5 : 4, 99);
  add("all calls, in a transaction", true, "OB", all, th ? 5 : 4, 99);
  add("all calls, chained", true, "O1B", all, th ? 5 : 4, 99);
  add("demarcation", true, "O", "BCR10SPOX", th ? 7 : 6, th ? 2 : 1);
  add("tp demarcation", true, "o", "becr10SF", th ? 8 : 6, 1);
  add("from closed", true, "", "OXBC1S", th ? 9 : 7, 2);
  add("all calls of a client", false, "", all, th ? 5 : 4, 99);
  add("all calls of a client, opened", false, "O", all, th ? 5 : 4, 99);
  add("demarcation by a client", false, "O", "BCR10SPOX", th ? 7 : 6, th ? 2 : 1);
  // services work in the transactions, some fail
  auto svc = [&](const string &name, const string &prefix, const string &ops, int depth) {
    add(name, false, prefix, ops, depth, 1, {{"TX_SVC", "1"}});
    auto &s = r.back();
    s.actors.insert(s.actors.begin(), {A("server1.1", "worker", 101, true), T(1)});
  };
  svc("services of a client", "O", "BCRWD1SP", th ? 7 : 6);
  svc("services of a client, tp", "o", "bcrWDNSF", th ? 7 : 6);
  svc("services of a client, in a chained transaction", "O1BD", "BCRWDN0SP", th ? 6 : 5);
  // one call of the resource manager gives an unusual answer
  std::map<string, string> odd = {{"RM_BUDGET", "1"}, {"RM_OPEN", "0,-3,-7"}, {"RM_CLOSE", "0,-3,-7"}, {"RM_START", "0,-3,-7,-9"},
                                  {"RM_END", "0,-3,-7,100,107"}, {"RM_PREPARE", "0,3,100,103,107,-3,-7"}, {"RM_COMMIT", "0,5,6,7,8,-3,-7"}, {"RM_ROLLBACK", "0,5,6,7,8,-3,-7,100"}};
  add("odd answers", true, "", "OXBCR1", th ? 7 : 6, 0, odd);
  add("odd answers, opened", true, "O", "BCR10SP", th ? 7 : 6, 0, odd);
  add("odd answers, tp", true, "o", "bcr1", th ? 7 : 6, 0, odd);
  odd["RM_BUDGET"] = "2";
  add("two odd answers", true, "OB", "BCR10", th ? 6 : 5, 0, odd);
}
Actor W(int g, int id) { return A(mc::fmt("server%d.%d", g, id), "worker", g * 100 + id, true); }

void endings(vector<Scenario> &r) {
  bool th = mc::thorough();
  // groups, who starts it, services, ends
  auto add = [&](const string &name, int n, bool server, const string &calls, const string &end, std::map<string, string> env, const vector<Actor> &more = {}, int clients = 1,
                 const vector<Srv> &more_srv = {}, int notm = 0) {
    Scenario s;
    s.name = name;
    vector<Srv> v;
    for (int g = 1; g <= n; g++) {
      v.push_back({g, 1});
      s.actors.push_back(W(g, 1));
      if (g != notm) s.actors.push_back(T(g));
    }
    if (server) v.push_back({1, 9});
    for (auto &x : more_srv) v.push_back(x);
    for (auto &x : more) s.actors.push_back(x);
    s.config = config(v, n);
    if (server) s.actors.push_back(A("program", "tx_two_server", 1));
    else
      for (int i = 0; i < clients; i++) s.actors.push_back(A(mc::fmt("client%d", i + 1), "tx_two", 1));
    s.env = env;
    s.env["TX_CALLS"] = calls;
    s.env["TX_END"] = end;
    if (clients > 1) s.env["TX_ALONE"] = "0";
    s.opt.max_steps = 20000;
    s.oracle = ended;
    r.push_back(s);
  };
  std::map<string, string> none, votes = {{"RM_BUDGET", "9"}, {"RM_PREPARE", "0,3,100,107,-3,-7"}, {"RM_ROLLBACK", "0"}}, heur = votes, fails = votes;
  heur["RM_PREPARE"] = "0,3";
  heur["RM_COMMIT"] = "0,5,6,7,8,-3";
  auto back = votes;
  back["RM_PREPARE"] = "0,100,-3";
  back["RM_ROLLBACK"] = "0,5,6,7,8,-3,100";
  for (bool server : {false, true}) {
    string by = server ? ", by a server" : "";
    for (auto &e : {string("C"), string("c")}) {
      string E = e == "C" ? "" : " tp";
      add("votes of two" + E + by, 2, server, "W1W2", e, votes);
      add("heuristics of two" + E + by, 2, server, "W1W2", e, heur);
      add("failing rollbacks of two" + E + by, 2, server, "W1W2", e, back);
      if (th || server == (e == "c")) add("votes of three" + E + by, 3, server, "W3W1W2", e, votes);
    }
    add("votes of one" + by, 1, server, server ? "" : "W1", "C", votes);
    add("rolled back" + by, 2, server, "W1W2", "R", back);
    add("tp rolled back" + by, 2, server, "W1W2", "r", back);
    if (th || !server) add("heuristics of three" + by, 3, server, "W1W2W3", "C", heur);
    add("a failed service" + by, 3, server, "W1F2W3", "c", back);
    add("a failed service last" + by, 2, server, "W1F2", "C", back);
    add("a failed service first" + by, 2, server, "F1W2", "C", back);
    add("work twice in a group" + by, 2, server, "W1W2W1W2", "C", votes);
    add("no transaction manager" + by, 2, server, "W1W2", "C", {{"TX_UNFINISHED", "1"}}, {}, 1, {}, 2);
    add("no transaction manager first" + by, 2, server, "W1W2", "c", {{"TX_UNFINISHED", "1"}}, {}, 1, {}, 1);
  }
  auto lost = votes;
  lost["RM_COMMIT"] = "0,-7";
  lost["RM_ROLLBACK"] = "0,-7";
  lost["TX_UNFINISHED"] = "1";
  add("unreachable resource managers", 2, false, "W1W2", "C", lost);
  add("no work", 1, false, "", "C", none);
  add("no work tp", 1, false, "", "r", none);
  // services at the same time
  auto async = votes;
  async["TX_ASYNC"] = "1";
  async["RM_BUDGET"] = "1";
  add("services at the same time", 2, false, "W1W2", "C", async);
  async["RM_PAUSE"] = "1";
  add("two servers of a group at the same time", 1, false, "W1W1", "C", async, {A("server1.2", "worker", 102, true)}, 1, {{1, 2}});
  // both start the branch
  auto join = async;
  join["RM_JOIN"] = "0,-3,100";
  join["RM_START"] = "0,-3,-7";
  join["RM_END"] = "0,-3,100";
  join["RM_BUDGET"] = "2";
  add("servers that cannot take part", 2, false, "W1W2", "C", join);
  add("servers of a group that cannot take part", 1, false, "W1W1", "C", join, {A("server1.2", "worker", 102, true)}, 1, {{1, 2}});
  // two transactions at the same time
  std::map<string, string> some = {{"RM_BUDGET", "1"}, {"RM_PREPARE", "0,3,100"}}, few = {{"RM_BUDGET", "1"}, {"RM_PREPARE", "0,100"}};
  auto limit = [&](int n) { r.back().opt.preempt = n; };
  add("two clients, one group", 1, false, "W1", "C", some, {}, 2);
  add("two clients, one group, both roll back", 1, false, "W1", "R", none, {}, 2);
  add("two clients", 2, false, "W1W2", "C", none, {}, 2);
  limit(th ? 1 : 0);
  add("two clients that fail", 2, false, "F2W1", "C", none, {}, 2);
  limit(th ? 1 : 0);
  if (th) {
    add("two clients, one vote against", 2, false, "W1W2", "C", few, {}, 2);
    limit(0);
    add("two clients and four transaction managers", 2, false, "W1W2", "C", none, {T(1, 1), T(2, 1)}, 2);
    limit(0);
  }
}
void identities(vector<Scenario> &r) {
  bool th = mc::thorough();
  auto add = [&](const string &name, const vector<Actor> &actors, const vector<Srv> &v, std::map<string, string> env, int preempt = -1, bool points = false) {
    Scenario s;
    s.name = name;
    s.config = config(v, 2);
    s.actors = actors;
    s.env = env;
    s.opt.preempt = preempt;
    s.opt.shm_points = points;
    s.opt.max_steps = 400000;
    s.oracle = ended;
    r.push_back(s);
  };
  vector<Srv> none = {{1, 1}}, both = {{1, 1}, {2, 1}};
  auto M = [&](int i, int n) { return A(mc::fmt("client%d", i), "tx_many", n); };
  for (auto &e : {string("C"), string("R"), string("CR")}) add("many transactions one after another, " + e, {M(1, 250)}, none, {{"TX_ENDS", e}});
  add("transactions that do not begin", {A("program", "tx_fails", 1), T(1)}, {{1, 9}}, {});
  for (int i = 0; i < 3; i++)
    add(mc::fmt("full table %d", i), {A("client1", "tx_fill", i), A("client2", "tx_undisturbed", 0), W(1, 1), W(2, 1), T(1), T(2)}, both, {}, 0);
  // at the same time
  std::map<string, string> two = {{"TX_ALONE", "0"}};
  add("two clients, every access", {M(1, 1), M(2, 1)}, none, two, th ? 4 : 3, true);
  add("two clients twice, every access", {M(1, 2), M(2, 2)}, none, two, th ? 3 : 2, true);
  add("three clients, every access", {M(1, 1), M(2, 1), M(3, 1)}, none, two, th ? 3 : 2, true);
  two["TX_ENDS"] = "RC";
  add("two clients", {M(1, th ? 3 : 2), M(2, 2)}, none, two);
  add("three clients", {M(1, 1), M(2, 1), M(3, 1)}, none, two, th ? -1 : 4);
  two["TX_SVC"] = "W1";
  add("two clients and a service", {M(1, 1), M(2, 1), W(1, 1), T(1)}, both, two, th ? -1 : 3);
  add("two clients and a service twice", {M(1, 2), M(2, 2), W(1, 1), T(1)}, both, two, th ? 1 : 0);
}

void contexts(vector<Scenario> &r) {
  bool th = mc::thorough();
  auto add = [&](const string &name, const string &prefix, const string &ops, int depth, const string &suffix, std::map<string, string> env = {}, int limit = 0, bool slow = false, int clients = 1) {
    Scenario s;
    s.name = name;
    vector<Srv> v = {{1, 1}, {2, 1}};
    s.actors = {W(1, 1), W(2, 1), T(1), T(2)};
    if (slow) {
      v.push_back({1, 2});
      s.actors.push_back(A("server1.2", "worker", 902, true));
      s.actors.push_back(A("BBL", "bbl", 0, true));
    }
    for (int i = 0; i < clients; i++) s.actors.push_back(A(mc::fmt("client%d", i + 1), "tx_context_program", limit));
    s.config = config(v, 2);
    s.env = env;
    s.env["TX_PREFIX"] = prefix;
    s.env["TX_OPS"] = ops;
    s.env["TX_DEPTH"] = std::to_string(depth);
    s.env["TX_SUFFIX"] = suffix;
    if (clients > 1) s.env["TX_ALONE"] = "0";
    s.opt.max_steps = 40000;
    s.oracle = ended;
    r.push_back(s);
  };
  const string every = "W1 F1 X1 T1 R1 N1 M1 V1 D1 E1 H1 Q1 Y1 Z1 J1 I1";
  add("one service", "B", every + " W1- F1- X1- T1- R1- N1- M1- V1- D1- E1- H1- Q1- Y1- Z1- J1- I1- NO NO- W2! W2!-", 1, "");
  add("two services", "B", every + " F1- J1-", 2, "");
  add("services outside of transactions", "", every, 2, "B W1 C");
  // a second transaction while another one is suspended: their entries in the table must not be confused
  add("one service, two transactions", "B S B", every + " F1- N1- O1", 1, "W2 C", {{"RM_LENIENT", "k"}});
  add("after a failure", "B", "F1 X1 T1 V1 Q1 H1", 1, "R B W1 W2 C");
  add("begin, call, suspend", "", "B C R S P W1 F2- J1", th ? 6 : 5, "");
  add("begin, fail, suspend", "", "B C S P W1 F1", th ? 6 : 5, "");
  add("calls and replies", "B", "W1& W2&- G A K C", th ? 4 : 3, "", {{"RM_LENIENT", "p"}});
  add("longer calls and replies", "B", "W1& W2&- G A K C", th ? 5 : 4, "", {{"RM_LENIENT", "k"}});
  r.back().opt.preempt = 0;
  add("calls without replies", "B W1&", "C R G F2", 2, "B W1 C", {{"RM_LENIENT", "p"}});
  add("calls without replies, killed", "B W1&", "C R G F2", 2, "B W1 C", {{"RM_LENIENT", "k"}});
  add("a service that does not wait", "B O1", "C R", 1, "B W2 C", {{"RM_LENIENT", "p"}});
  add("a service that does not wait, outside", "O1", "B", 1, "W2 C", {{"RM_LENIENT", "p"}});
  add("time-out", "B", "S1 S1- W1 C", 2, "C", {{"RM_LENIENT", "k"}}, 1000, true);
  add("time-out and next", "B S1 R", "B W1 C", 2, "", {{"RM_LENIENT", "p"}}, 1000, true);
  add("two clients", "B", "W1 F1", 1, "", {{"RM_LENIENT", "k"}}, 0, false, 2);
  r.back().opt.preempt = th ? 2 : 1;
}
}  // namespace

void scenarios_trx(const string &set, vector<Scenario> &r) {
  if (set == "C12") programs(r);
  if (set == "C11") endings(r);
  if (set == "C13") identities(r);
  if (set == "C14") contexts(r);
}
