// A01: administrative queries.
#include "dist.h"

void scenarios_admin(const string &set, vector<Scenario> &r) {
  if (set != "A01") return;
  bool th = mc::thorough();
  const string one = "MAX=2", more = "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=3";
  vector<Srv> two = {{1, 1, "", one}, {2, 1, "", more}}, shared = {{1, 1, "shared", one}, {2, 1, "shared", more}};
  // every attribute differs from the others
  auto ubb = [](const vector<Srv> &v) {
    string s = ::ubb(v, "", "G1 GRPNO=1 LMID=tux1 CLOSEINFO=\"close one\"\nG2 GRPNO=2 LMID=tux1 CLOSEINFO=\"close two\"\n"
                            "G3 GRPNO=3 LMID=tux1 TMSNAME=TMSX TMSCOUNT=2 OPENINFO=\"RM:open three\"\n");
    auto set = [&](const string &a, const string &b) { s.replace(s.find(a), a.size(), b); };
    set("MAXSERVERS 8", "MAXSERVERS 7");
    set("MAXQUEUES 8", "MAXQUEUES 9");
    set("MAXACCESSERS 8", "MAXACCESSERS 10");
    set("APPDIR=\"/tmp\"", "APPDIR=\"/tmp/app\" ULOGPFX=\"/tmp/ULOG\" TLOGDEVICE=\"/tmp/TLOG\"");
    return s;
  };
  auto A = [](const string &name, const string &fn, int arg, bool daemon = false) { return Actor{name, "app", fn, arg, daemon}; };
  Actor B = A("BBL", "bbl", 0, true);
  auto add = [&](const string &name, const string &config, vector<Actor> actors, int preempt, bool points = false, int crashes = 0) {
    Scenario s;
    s.name = name;
    s.config = config;
    s.actors = actors;
    s.opt.preempt = preempt;
    s.opt.shm_points = points;
    s.opt.crashes = crashes;
    s.opt.max_ms = 60000;
    s.opt.max_steps = 200000;
    s.oracle = [](const Execution &e) -> string {
      if (auto w = stuck(e); !w.empty()) return w;
      for (size_t p = 0; p < e.procs.size(); p++) {
        bool ended = false, killed = false;
        for (auto &l : e.log) killed |= l.what == "crash" && l.proc == (int)p;
        for (auto &l : e.of(p)) ended |= l.what == "end";
        auto &n = e.procs[p].name;
        if (n.compare(0, 6, "client") == 0 && !ended && !killed) return n + " did not come to its end";
        if (n.compare(0, 6, "client") && !killed && (e.procs[p].done || e.procs[p].crashed)) return n + " ended";
      }
      return "";
    };
    r.push_back(s);
  };
  auto srv = [&](int at) { return A(mc::fmt("server%d", at), "adm_srv", at, true); };
  add("queries after changes", ubb(two), {srv(101), srv(201), B, A("client", "adm_history", th ? 5 : 4)}, 0);
  add("queries after changes, servers that share a queue", ubb(shared), {srv(101), srv(201), B, A("client", "adm_history", 10)}, 0);
  add("tmadmin", ubb(two), {srv(101), srv(201), B, A("client", "adm_tmadmin", 0)}, 0);
  add("tmadmin, servers that share a queue", ubb(shared), {srv(101), srv(201), B, A("client", "adm_tmadmin", 10)}, 0);
  add("queries that do not exist", ubb(two), {srv(101), srv(201), B, A("client", "adm_wrong", th ? 4 : 3)}, 0);
  string many = ubb(two);
  many.replace(many.find("MAXSERVICES 12"), 14, "MAXSERVICES 120");
  for (int n : {1, 20, 100}) add(mc::fmt("%d more services", n), many, {srv(101), srv(201), B, A("client", "adm_many", n)}, 0);
  for (int what = 0; what < 3; what++)
    add(mc::fmt("queries while a service is withdrawn and offered, %s", what == 0 ? "any" : what == 1 ? "services of servers" : "services"), ubb(two),
        {srv(101), srv(201), B, A("client1", "adm_asks", what * 10 + (what ? 2 : 1)), A("client2", "adm_flips", 2)}, th ? 3 : what ? 2 : 1, what != 0);
  auto killable = [](Actor a) { return a.crashable = true, a; };
  add("a server may be killed while it withdraws and offers", ubb(two), {srv(101), killable(srv(201)), A("client2", "adm_flips", 2), B, A("client1", "adm_after", 1)}, th ? 1 : 0, true, 1);
  add("who asks may be killed", ubb(two), {srv(101), srv(201), killable(A("client2", "adm_asks", 11)), B, A("client3", "adm_flips", 0), A("client1", "adm_after", 2)}, th ? 1 : 0, true, 1);
}
