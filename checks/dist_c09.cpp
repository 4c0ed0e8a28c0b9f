// C09: any process may be killed at any point.
#include "dist.h"

namespace {
struct Kill {
  int queues = -1;     // request queues when it is over
  int clients = -1;    // clients that are there for good
  string services;     // offered in the end
  bool starting = false;  // servers are started while the others run
  bool leak = false;   // a killed server may leave a queue nobody knows yet
  string text;         // the configured tables
  bool stopped = false;  // tmshutdown has stopped the servers
};
string judge(const Execution &e, const Kill &k) {
  string w = stuck(e);
  if (!w.empty()) return w;
  std::set<string> execs;
  std::set<int> crashed;
  std::map<int, string> phase;
  bool final_after = false;
  std::set<int> final;
  int spare = 0, looks = 0;
  for (auto &l : e.log) {
    if (l.what == "exec" && l.s[0] == 'r' && !execs.insert(l.s).second) return "request " + l.s + " was executed twice";
    if (l.what == "joining" || l.what == "joined" || l.what == "leaving" || l.what == "left") phase[l.proc] = l.what;
    if (l.what == "crash") {
      crashed.insert(l.proc);
      // killed between creating its reply queue and saying so
      if (phase[l.proc] == "joining") spare++;
      if (e.procs[l.proc].name.compare(0, 6, "server") == 0 && k.leak) spare++;
      if (e.procs[l.proc].name.compare(0, 6, "victim") == 0 && k.stopped) spare++;
    }
    if (l.what == "final") final.insert(l.proc);
    if (l.what == "look") {
      looks++;
      if (k.clients >= 0 && l.a > k.clients) return mc::fmt("%ld clients are registered, there are %d", l.a, k.clients);
      if (!k.services.empty() && l.s != k.services) return "the services are " + l.s + ", expected " + k.services;
    }
    if (l.what == "tables" && !k.text.empty() && l.s != k.text) return e.procs[l.proc].name + " sees the tables\n    " + l.s + "\n  configured are\n    " + k.text;
    if (l.what == "call") {
      string t = field(l.s, "tag"), svc = field(l.s, "svc"), data = field(l.s, "data");
      bool served = l.a == 0 || l.a == 11, late = t.find(":3000") != string::npos;
      auto say = [&](const string &x) { return mc::fmt("%s calls %s with %s, result %ld %s: ", e.procs[l.proc].name.c_str(), svc.c_str(), t.c_str(), l.a, data.c_str()) + x; };
      if (late != (l.a == 13)) {
        if (late) return say("that takes longer than the caller waits");
      } else if (late)
        continue;
      if (served) {
        string want = svc == "CTL" ? t : t + "/" + svc;
        if (data != want) return say("wrong reply");
        if ((l.a == 11) != (svc == "FAIL")) return say("wrong result");
        continue;
      }
      if (svc == "OPT" && l.a == 6) continue;
      bool server_crash = false;
      for (int c : crashed) server_crash |= e.procs[c].name.compare(0, 6, "server") == 0;
      if (final.count(l.proc)) return say("everybody is up again");
      if (k.starting && l.a == 6) continue;
      if (!server_crash) return say("its server is alive");
      if (l.a != 13 && l.a != 6) return say("neither a time-out nor an unknown service");
    }
  }
  (void)final_after;
  (void)looks;
  for (size_t p = 0; p < e.procs.size(); p++) {
    auto &n = e.procs[p].name;
    bool must = n.compare(0, 6, "client") == 0 || n == "survivor" || n == "latecomer" || n == "overseer" || n.compare(0, 10, "tmshutdown") == 0;
    if (must && !e.procs[p].done && !e.procs[p].crashed) return n + " never ends: " + e.procs[p].at;
    if (must) {
      bool ended = e.procs[p].crashed;
      for (auto &l : e.of(p)) ended |= l.what == "end";
      if (!ended) return n + " did not come to its end";
    }
    if (n.compare(0, 6, "server") == 0 && e.procs[p].done) {
      bool stop = false;
      for (auto &x : e.procs) stop |= x.name.compare(0, 10, "tmshutdown") == 0;
      if (!stop) return n + " ended";
    }
    if (k.stopped && n.compare(0, 6, "server") == 0 && !e.procs[p].done && !e.procs[p].crashed) return n + " was not stopped: " + e.procs[p].at;
  }
  for (int v : e.sems)
    if (v != 1 && !(v == 0 && &v != nullptr && e.sems.size() > 1)) return mc::fmt("a bulletin board lock is left at %d", v);
  if (k.queues >= 0 && ((int)e.queue_len.size() < k.queues || (int)e.queue_len.size() > k.queues + spare))
    return mc::fmt("%zu queues are left, expected %d", e.queue_len.size(), k.queues);
  return "";
}
}  // namespace

void scenarios_crash(const string &set, vector<Scenario> &r) {
  if (set != "C09") return;
  bool th = mc::thorough();
  vector<Srv> one = {{1, 1}}, two = {{1, 1}, {1, 2}}, mssq = {{1, 1, "q1"}, {1, 2, "q1"}};
  enum { T_ECHO = 0, T_FAIL = 10000, T_TWO = 20000, T_CTL = 70000 };
  auto S = [](const string &name, int tbl, int id, bool crash = false) {
    Actor a{name, "app", "srv", tbl + 100 + id, true};
    a.crashable = crash;
    return a;
  };
  auto X = [](const string &name, const string &fn, int arg, bool crash = false, bool daemon = false) {
    Actor a{name, "app", fn, arg, daemon};
    a.crashable = crash;
    return a;
  };
  Actor B{"BBL", "app", "bbl", 0, true};
  auto opt = [](int preempt, bool points, int crashes = 1) {
    Options o;
    o.preempt = preempt;
    o.shm_points = points;
    o.crashes = crashes;
    o.max_ms = 60000;
    o.max_steps = 20000;
    return o;
  };
  auto add = [&](const string &name, const string &config, const vector<Actor> &actors, const Options &op, const Kill &k) {
    Scenario s;
    s.name = name;
    s.config = config;
    s.actors = actors;
    s.opt = op;
    s.oracle = [k](const Execution &e) { return judge(e, k); };
    r.push_back(s);
  };
  auto caps = [](string c, const string &what, int n) {
    auto p = c.find(what + " ");
    auto e = c.find('\n', p);
    return c.replace(p, e - p, mc::fmt("%s %d", what.c_str(), n));
  };
  auto K = [](int queues, int clients, const string &services) {
    Kill k;
    k.queues = queues;
    k.clients = clients;
    k.services = services;
    return k;
  };
  // queues: the server's
  add("a client is killed", caps(ubb(one), "MAXACCESSERS", 2),
      {B, S("server", T_ECHO, 1), X("victim", "victim", 1, true), X("survivor", "survivor", 21)}, opt(th ? 4 : 2, false), K(2, 1, ""));
  add("a client is killed, another takes its entry", caps(ubb(one), "MAXACCESSERS", 1),
      {B, S("server", T_ECHO, 1), X("victim", "victim", 2, true), X("latecomer", "latecomer", 0)}, opt(th ? 4 : 3, false), K(2, 1, ""));
  add("a client is killed, every access", caps(ubb(one), "MAXACCESSERS", 2),
      {B, S("server", T_ECHO, 1), X("victim", "victim", 1, true), X("survivor", "survivor", 21)}, opt(th ? 1 : 0, true), K(2, 1, ""));
  add("a client is killed, another takes its entry, every access", caps(ubb(one), "MAXACCESSERS", 1),
      {B, S("server", T_ECHO, 1), X("victim", "victim", 2, true), X("latecomer", "latecomer", 0)}, opt(th ? 2 : 1, true), K(2, 1, ""));
  Options few = opt(1, false);
  few.qbytes = 600;
  add("a client with a full reply queue is gone", caps(ubb(one), "MAXACCESSERS", 2),
      {B, S("server", T_ECHO, 1), X("victim", "victim_full", 8), X("survivor", "survivor", 21)}, few, K(2, 1, ""));
  // servers that are started again
  auto again = [&](int server, int tbl, int id) { return X("again" + std::to_string(id), "again", server * 1000000 + tbl + 100 + id, false, true); };
  auto both = [&](const string &n, const string &config, const vector<Actor> &a, int preempt, const Kill &k, int crashes = 1, int points = mc::thorough() ? 2 : 1) {
    add(n, config, a, opt(preempt, false, crashes), k);
    add(n + ", every access", config, a, opt(points, true, crashes), k);
  };
  auto leaky = [&](Kill k) {
    k.leak = true;
    return k;
  };
  both("a server is killed and started again", ubb(one), {B, S("server1", T_TWO, 1, true), again(1, T_TWO, 1), X("client", "cl_kill", 21)}, th ? 3 : 2,
       leaky(K(2, 1, "")));
  both("a server is killed and started again, 2 clients", ubb(one),
       {B, S("server1", T_TWO, 1, true), again(1, T_TWO, 1), X("client1", "cl_kill", 1), X("client2", "cl_kill", 2)}, 1, leaky(K(2, 2, "")));
  both("1 of 2 servers of a queue is killed", ubb(mssq), {B, S("server1", T_TWO, 1, true), S("server2", T_TWO, 2), X("client", "cl_kill", 121)}, th ? 3 : 2,
       leaky(K(2, 1, "")));
  both("1 of 2 servers is killed and started again", ubb(two),
       {B, S("server1", T_TWO, 1, true), S("server2", T_ECHO, 2), again(1, T_TWO, 1), X("client", "cl_kill", 121)}, th ? 3 : 2, leaky(K(3, 1, "")));
  both("a server is killed while it advertises", ubb(one), {B, S("server1", T_CTL, 1, true), again(1, T_CTL, 1), X("client", "cl_kill", 354)}, th ? 3 : 2,
       leaky(K(2, 1, "")));
  both("a server is killed while it advertises, another advertises", ubb(two),
       {B, S("server1", T_CTL, 1, true), S("server2", T_CTL, 2), again(1, T_CTL, 1), X("client", "cl_kill", 3454)}, th ? 2 : 1, leaky(K(3, 1, "")));
  auto starting = [&](Kill k) {
    k.leak = k.starting = true;
    return k;
  };
  auto N = [&](const string &name, int tbl, int id) { return X(name, "srv_now", tbl + 100 + id, true, true); };
  both("a server is killed while it starts", caps(ubb(one), "MAXSERVICES", 3), {B, N("server1", T_TWO, 1), again(1, T_TWO, 1), X("client", "cl_kill", 21)}, th ? 3 : 2, starting(K(2, 1, "")));
  both("a server of a shared queue is killed while it starts", caps(ubb(mssq), "MAXSERVICES", 3),
       {B, N("server1", T_TWO, 1), N("server2", T_TWO, 2), again(1, T_TWO, 1), again(2, T_TWO, 2), X("client", "cl_kill", 21)}, th ? 2 : 1, starting(K(2, 1, "")), 1, th ? 1 : 0);
  for (int n : {2, 3})
    for (auto *v : {&one, &mssq}) {
      Kill k;
      k.queues = 0;
      k.text = tables(*v, "8/12/8/4/8");
      vector<Actor> a;
      for (int i = 0; i < n; i++) a.push_back(X(mc::fmt("victim%d", i + 1), "attach", 0, true));
      a.push_back(X("overseer", "overseer", 0));
      string t = mc::fmt("1 of %d processes that attach is killed, %zu servers configured", n, v->size());
      add(t, ubb(*v), a, opt(n == 2 ? -1 : th ? 4 : 2, false), k);
      add(t + ", every access", ubb(*v), a, opt(n == 2 ? (th ? 2 : 1) : (th ? 1 : 0), true), k);
    }
  Actor KB = B;
  KB.crashable = true;
  auto lone = [&](const string &n, const string &config, const vector<Actor> &a, int preempt, const Kill &k) { both(n, config, a, preempt, k); };
  Actor AB = X("again0", "again_bbl", 0, false, true);
  lone("BBL is killed and started again", ubb(one), {KB, S("server1", T_TWO, 1), AB, X("client", "cl_kill", 21)}, th ? 3 : 2, K(2, 1, ""));
  lone("BBL is killed and started again, calls that time out", ubb(one), {KB, X("server1", "srv_wait", 101, false, true), AB, X("client", "cl_kill", 76)}, th ? 3 : 2,
       K(2, 1, ""));
  lone("BBL is killed and started again, a client is gone", ubb(one),
       {KB, S("server1", T_ECHO, 1), AB, X("victim", "victim", 1, false), X("survivor", "survivor", 21)}, th ? 2 : 1, K(2, 1, ""));
  lone("BBL is killed, nobody starts it again", ubb(one), {KB, S("server1", T_TWO, 1), X("client", "cl_kill", -2121)}, th ? 3 : 2, K(2, 1, ""));
  auto stopped = [&](int queues) {
    Kill k;
    k.queues = queues;
    k.stopped = true;
    return k;
  };
  string two_s = "BLOCKTIME 2\n";
  lone("a server is killed while tmshutdown stops it", ubb(one, two_s), {B, S("server1", T_TWO, 1, true), X("tmshutdown", "killer_shut", 101)}, th ? 4 : 3, stopped(2));
  lone("1 of 2 servers is killed while tmshutdown stops it", ubb(mssq, two_s),
       {B, S("server1", T_TWO, 1, true), S("server2", T_TWO, 2), X("tmshutdown", "killer_shut", 101), X("tmshutdown2", "shut_again", 30102)}, th ? 2 : 1, [&] {
         auto k = stopped(2);
         return k;
       }());
  lone("tmshutdown is killed, another goes on", ubb(one, two_s),
       {B, S("server1", T_TWO, 1), X("victim", "killer_shut", 101, true), X("tmshutdown2", "shut_again", 20101)}, th ? 3 : 2, stopped(2));
  lone("BBL is gone, tmshutdown stops everything", ubb(one, two_s), {B, S("server1", T_TWO, 1), X("tmshutdown", "shut_all", 0)}, th ? 3 : 2, stopped(0));
  if (th)
    both("a server is killed twice", caps(ubb(one), "MAXSERVICES", 2),
         {B, S("server1", T_CTL, 1, true), [&] { auto a = again(1, T_CTL, 1); a.crashable = true; a.name = "server1b"; return a; }(), again(2, T_CTL, 1),
          X("client", "cl_kill", 3454)}, 1, leaky(K(2, 1, "")), 2, 1);
}
