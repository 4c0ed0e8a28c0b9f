// B01: booting, shutting down and cleaning up an application.
#include "dist.h"

namespace {
struct Prog {
  int grp, id;
  string bin;
  bool works = true;
};
struct Step {
  string kind;         // boot, calls, or empty: not judged
  vector<int> starts;  // boot: the programs it is to start, as indexes of Prog
  vector<int> running; // boot: and those that it is to leave alone
  vector<int> up;      // calls: numbers of the services that are there
  bool loose = false;  // somebody may be killed meanwhile
  bool calls_loose = false;
};
struct World {
  vector<Prog> progs;
  std::map<string, Step> steps;  // by name of the process
  int queues = 0, sems = 0, shms = 0;  // left in the end
  bool others_up = true;  // while they start and stop, those before are there
};
string judge(const Execution &e, const World &w) {
  if (auto s = stuck(e); !s.empty()) return s;
  bool crash = false;
  for (auto &l : e.log) crash |= l.what == "crash";
  for (size_t p = 0; p < e.procs.size(); p++) {
    auto log = e.of(p);
    auto &name = e.procs[p].name;
    for (auto &l : log)
      if ((l.what == "starts" || l.what == "stops") && w.others_up && !crash && l.a)
        return mc::fmt("%s calls %s while it %s: error %ld", name.c_str(), l.s.c_str(), l.what.c_str(), l.a);
    auto it = w.steps.find(name);
    if (it == w.steps.end()) continue;
    auto &s = it->second;
    auto say = [&](const string &t) {
      string o;
      for (auto &l : log) o += "\n      " + l.what + " " + std::to_string(l.a) + " " + l.s;
      return name + ": " + t + o;
    };
    if (!e.procs[p].done || log.empty() || log.back().what != "end") {
      if (e.procs[p].crashed && crash) continue;
      return say("did not finish");
    }
    if (s.kind == "calls") {
      for (auto &l : log) {
        if (l.what != "call") continue;
        bool up = std::count(s.up.begin(), s.up.end(), (int)l.b);
        bool late = s.calls_loose && (l.a == 6 || l.a == 0);
        if (late) continue;
        if (up && l.a) return say(mc::fmt("a service that was started cannot be called: error %ld", l.a));
        if (!up && l.a != 6) return say(mc::fmt("a service that is not there: error %ld", l.a));
        if (!l.a && l.s.compare(0, 3, mc::fmt("S%ld ", l.b)) == 0 && l.s.find(mc::fmt("S%ld/", l.b)) == string::npos) return say("wrong reply " + l.s);
      }
      continue;
    }
    vector<string> run;
    int started = 0, failed = 0, dup = 0;
    for (auto &l : log) {
      if (l.what == "run") run.push_back(l.s);
      if (l.what == "out") {
        started += l.s.find("Started") != string::npos;
        failed += l.s.find("Failed") != string::npos;
        dup += l.s.find("uplicate") != string::npos;
      }
      if (l.what == "rc" && l.a) return say(mc::fmt("result %ld", l.a));
    }
    if (s.kind.empty()) {
      if (!run.empty()) return say("started a program");
      continue;
    }
    if (s.loose && crash) {
      if (started + failed != (int)run.size()) return say(mc::fmt("%zu programs were started, it is said of %d and %d", run.size(), started, failed));
      continue;
    }
    if (run.size() != s.starts.size()) return say(mc::fmt("%zu programs were started, %zu were to be", run.size(), s.starts.size()));
    int works = 0;
    for (size_t i = 0; i < run.size(); i++) {
      auto &x = w.progs[s.starts[i]];
      works += x.works;
      vector<string> a;
      for (size_t j = 0; j <= run[i].size();) {
        auto k = run[i].find(' ', j);
        if (k == string::npos) k = run[i].size();
        a.push_back(run[i].substr(j, k - j));
        j = k + 1;
      }
      auto arg = [&](const char *f) {
        for (size_t j = 1; j + 1 < a.size(); j++)
          if (a[j] == f) return atoi(a[j + 1].c_str());
        return -1;
      };
      auto sl = a[0].rfind('/');
      if (sl != string::npos) a[0] = a[0].substr(sl + 1);
      if (a[0] != x.bin || arg("-g") != x.grp || arg("-i") != x.id)
        return say(mc::fmt("program number %zu is not %s of group %d and number %d", i + 1, x.bin.c_str(), x.grp, x.id));
      if (std::find(a.begin(), a.end(), "-A") == a.end()) return say("the program is not told to advertise its services");
    }
    if (started != works || failed != (int)run.size() - works) return say(mc::fmt("%d programs work and %d do not, said to are %d and %d", works, (int)run.size() - works, started, failed));
    if (dup != (int)s.running.size()) return say(mc::fmt("%zu were running, %d are said to", s.running.size(), dup));
  }
  if (w.queues >= 0 && (int)e.queue_id.size() != w.queues) return mc::fmt("%zu message queues are left, expected %d", e.queue_id.size(), w.queues);
  if (w.sems >= 0 && (int)e.sems.size() != w.sems) return mc::fmt("%zu semaphores are left, expected %d", e.sems.size(), w.sems);
  if (w.shms >= 0 && e.shms != w.shms) return mc::fmt("%d shared memory segments are left, expected %d", e.shms, w.shms);
  if (!e.procs.empty())
    for (size_t p = 0; p < e.procs.size(); p++)
      if (e.procs[p].name == "foreign") {
        // the resources that are not ours: made first
        if (e.queue_id.empty() || e.queue_id[0] != 0 || e.queue_len[0] != 1) return "another application's queue was touched";
        if (e.sems.empty() || e.sems[0] != 5) return "another application's semaphore was touched";
      }
  return "";
}
}  // namespace

void scenarios_boot(const string &set, vector<Scenario> &r) {
  if (set != "B01") return;
  bool th = mc::thorough();
  struct P {
    int grp, id, kind = 0, service = 0;
    string queue = "", params = "";
    int copies = 1;
    bool autostart = true;
  };
  // One scenario: programs (the first is always BBL), the administrator's steps
  struct Builder {
    string name;
    vector<Actor> actors;
    World w;
    string config;
    int progs, last = 0;
    int svcs = 0;
  };
  auto make = [&](const string &name, const vector<P> &ps, const string &groups = "", int bbls = 1, const vector<int> &crashable = {}) {
    Builder b;
    b.name = name;
    b.config = "*RESOURCES\nMASTER tux1\nMODEL SHM\nIPCKEY 52617\nMAXSERVERS 8\nMAXSERVICES 12\nMAXQUEUES 8\nMAXGROUPS 4\nMAXACCESSERS 8\n"
               "*MACHINES\n\"host\" LMID=tux1 TUXCONFIG=\"@TUXCONFIG@\" TUXDIR=\"/tmp\" APPDIR=\"/tmp\"\n*GROUPS\n" +
               (groups.empty() ? string("G1 GRPNO=1 LMID=tux1\nG2 GRPNO=2 LMID=tux1\n") : groups) + "*SERVERS\n";
    b.w.progs.push_back({0, 0, "BBL"});
    auto act = [&](const string &n, const string &bin, const string &fn, int arg, bool cr) {
      Actor a{n, "app", fn, arg, true, cr};
      a.program = bin;
      b.actors.push_back(a);
    };
    act("BBL", "BBL", "prog_bbl", 0, false);
    for (size_t i = 0; i < ps.size(); i++) {
      auto &p = ps[i];
      string bin = mc::fmt("prog%zu", i + 1);
      int svc = i + 1;
      b.svcs = std::max(b.svcs, svc);
      b.config += mc::fmt("%s SRVGRP=G%d SRVID=%d CLOPT=\"-A\"%s%s %s\n", bin.c_str(), p.grp, p.id, p.queue.empty() ? "" : " RQADDR=", p.queue.c_str(), p.params.c_str());
      // the number that the configuration gives the group
      auto at = b.config.find(mc::fmt("G%d GRPNO=", p.grp));
      int number = atoi(b.config.c_str() + b.config.find('=', at) + 1);
      b.w.progs.push_back({number, p.id, bin, p.kind == 0 || p.kind == 3});
      for (int c = 0; c < p.copies; c++)
        if (p.kind != 4)
          act(bin + (c ? mc::fmt("#%d", c + 1) : string()), bin, "prog", svc + 10 * p.kind, std::count(crashable.begin(), crashable.end(), (int)i + 1) && c == 0);
    }
    for (int c = 1; c < bbls; c++) act(mc::fmt("BBL#%d", c + 1), "BBL", "prog_bbl", 0, false);
    b.config += "*SERVICES\n";
    b.progs = b.actors.size();
    return b;
  };
  auto step = [&](Builder &b, const string &name, int what, Step s = {}, bool alone = true) {
    int arg = what + (b.last && alone ? 100 * b.last : 0) + 10000 * b.svcs;
    b.actors.push_back(Actor{name, "app", "admin", arg});
    b.last = b.actors.size();
    b.w.steps[name] = s;
  };
  auto foreign = [&](Builder &b) {
    // it is the first that runs
    b.actors.push_back(Actor{"foreign", "app", "admin", 0});
    b.w.queues = b.w.sems = b.w.shms = 1;
  };
  auto boot = [](vector<int> starts, vector<int> running = {}, bool loose = false) {
    Step s;
    s.kind = "boot";
    s.starts = starts;
    s.running = running;
    s.loose = loose;
    return s;
  };
  auto calls = [](vector<int> up, bool loose = false) {
    Step s;
    s.kind = "calls";
    s.up = up;
    s.calls_loose = loose;
    return s;
  };
  auto add = [&](Builder b, int preempt, int crashes = 0) {
    Scenario s;
    s.name = b.name;
    s.config = b.config;
    s.actors = b.actors;
    s.opt.preempt = preempt;
    s.opt.crashes = crashes;
    s.opt.max_ms = 80000;
    s.opt.max_steps = 20000;
    auto w = b.w;
    s.oracle = [w](const Execution &e) { return judge(e, w); };
    r.push_back(s);
  };
  int d = th ? 2 : 1;
  {
    auto b = make("boot, calls, shut down", {{1, 1}, {1, 2, 3}});
    foreign(b);
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown", 3);
    add(b, d + 1);
  }
  {
    auto b = make("booted twice", {{1, 1}, {1, 2}});
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "tmboot2", 1, boot({}, {0, 1, 2}));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("only what would be done", {{1, 1}});
    step(b, "tmboot", 2, Step{});
    step(b, "client", 30, calls({}));
    step(b, "tmboot2", 1, boot({0, 1}));
    step(b, "tmboot3", 2, Step{});
    step(b, "client2", 30, calls({1}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("help", {{1, 1}});
    step(b, "tmboot", 11, Step{});
    step(b, "client", 30, calls({}));
    step(b, "tmboot2", 1, boot({0, 1}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("shut down and booted again", {{1, 1, 0, 1, "", "", 2}, {2, 1, 3, 2, "", "", 2}}, "", 2);
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "tmshutdown", 3);
    step(b, "tmboot2", 1, boot({0, 1, 2}));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown2", 3);
    add(b, d);
  }
  for (int kind : {1, 2, 4}) {
    static const char *k[] = {"", "whose initialization fails", "that ends at once", "", "that does not exist"};
    for (int pos : {0, 1}) {
      vector<P> ps = {{1, 1}, {1, 2}};
      ps[pos].kind = kind;
      ps[pos].copies = 2;
      auto b = make(mc::fmt("a program %s, number %d of 2", k[kind], pos + 1), ps);
      step(b, "tmboot", 1, boot({0, 1, 2}));
      step(b, "client", 30, calls({2 - pos}));
      step(b, "tmboot2", 1, boot({pos + 1}, {0, 2 - pos}));
      step(b, "client2", 30, calls({2 - pos}));
      step(b, "tmshutdown", 3);
      add(b, d);
    }
  }
  {
    auto b = make("a server is killed and booted again", {{1, 1, 0, 1, "", "", 2}, {1, 2}});
    foreign(b);
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "kill", 21);
    step(b, "tmboot2", 1, boot({1}, {0, 2}));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("a server is killed, later booted again", {{1, 1, 0, 1, "Q", "", 2}, {1, 2, 0, 2}});
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "kill", 21);
    step(b, "later", 22);
    step(b, "tmboot2", 1, boot({1}, {0, 2}));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("a server is killed and booted again while the supervisor looks", {{1, 1, 0, 1, "Q", "", 2}});
    step(b, "tmboot", 1, boot({0, 1}));
    step(b, "kill", 21);
    step(b, "then", 24);
    step(b, "tmboot2", 1, boot({1}, {0}));
    step(b, "client", 30, calls({1}));
    step(b, "tmboot3", 1, boot({}, {0, 1}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  for (int rm : {4, 6}) {
    auto b = make(rm == 4 ? "everything is killed, tmipcrm" : "everything is killed, tmipcrm asks", {{1, 1}, {1, 2}});
    foreign(b);
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "client", 23);
    step(b, "kill", 20);
    step(b, "tmipcrm", rm);
    b.w.steps.erase("client");
    add(b, d);
  }
  {
    auto b = make("everything is killed, tmipcrm, booted again", {{1, 1, 0, 1, "", "", 2}}, "", 2);
    step(b, "tmboot", 1, boot({0, 1}));
    step(b, "kill", 20);
    step(b, "tmipcrm", 4);
    step(b, "tmboot2", 1, boot({0, 1}));
    step(b, "client", 30, calls({1}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("everything is killed, booted again", {{1, 1, 0, 1, "", "", 2}, {1, 2, 0, 2, "", "", 2}}, "", 2);
    step(b, "tmboot", 1, boot({0, 1, 2}));
    step(b, "kill", 20);
    step(b, "tmboot2", 1, boot({0, 1, 2}));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  for (int rm : {5, 12}) {
    auto b = make(rm == 5 ? "tmipcrm is told no before anything is booted" : "tmipcrm gets no answer before anything is booted", {{1, 1}});
    step(b, "tmipcrm", rm);
    step(b, "tmboot", 1, boot({0, 1}));
    step(b, "tmipcrm2", rm);
    step(b, "client", 30, calls({1}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("a client that was killed is there", {{1, 1}});
    foreign(b);
    step(b, "tmboot", 1, boot({0, 1}));
    step(b, "victim", 23);
    b.w.steps.erase("victim");
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("one server is stopped and booted again", {{1, 1, 0, 1, "", "", 2}, {1, 2}, {2, 1}});
    step(b, "tmboot", 1, boot({0, 1, 2, 3}));
    step(b, "tmshutdown", 7);
    step(b, "client", 30, calls({2, 3}));
    step(b, "tmboot2", 1, boot({1}, {0, 2, 3}));
    step(b, "client2", 30, calls({1, 2, 3}));
    step(b, "tmshutdown2", 3);
    add(b, d);
  }
  for (int numbers = 0; numbers < 5; numbers++) {
    // the numbers of the groups are not their positions
    static const char *gs[] = {"G1 GRPNO=1 LMID=tux1\nG2 GRPNO=2 LMID=tux1\n", "G1 GRPNO=2 LMID=tux1\nG2 GRPNO=1 LMID=tux1\n",
                               "G1 GRPNO=7 LMID=tux1\nG2 GRPNO=3 LMID=tux1\n", "G3 GRPNO=2 LMID=tux1\nG1 GRPNO=29999 LMID=tux1\nG2 GRPNO=1 LMID=tux1\n",
                               "G12 GRPNO=4 LMID=tux1\nG1 GRPNO=2 LMID=tux1\nG22 GRPNO=5 LMID=tux1\nG2 GRPNO=1 LMID=tux1\n"};
    auto b = make("a group is stopped and booted again" + (numbers ? mc::fmt(", numbers #%d", numbers) : string()),
                  {{1, 1}, {2, 1, 0, 1, "", "", 2}, {2, 2, 0, 2, "", "", 2}}, gs[numbers]);
    step(b, "tmboot", 1, boot({0, 1, 2, 3}));
    step(b, "tmshutdown", 13);
    step(b, "client", 30, calls({1}));
    step(b, "tmboot2", 9, boot({2, 3}));
    step(b, "client2", 30, calls({1, 2, 3}));
    add([&] { auto x = b; x.w.queues = x.w.sems = x.w.shms = -1; return x; }(), d);
  }
  {
    auto b = make("one by one", {{1, 1}, {1, 2}, {2, 1}});
    step(b, "tmboot", 8, boot({1, 3}));
    step(b, "client", 30, calls({1, 3}));
    step(b, "tmboot2", 10, boot({2}));
    step(b, "client2", 30, calls({1, 2, 3}));
    step(b, "tmboot3", 1, boot({0}, {1, 2, 3}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("2 servers share a queue", {{1, 1, 0, 1, "Q"}, {1, 2, 0, 2, "Q"}, {2, 1, 0, 3}});
    foreign(b);
    step(b, "tmboot", 1, boot({0, 1, 2, 3}));
    step(b, "tmshutdown", 3);
    add(b, d);
  }
  {
    auto b = make("a client attaches meanwhile", {{1, 1}, {1, 2}});
    step(b, "tmboot", 1, boot({0, 1, 2}));
    int boots = b.last;
    step(b, "client", 30, calls({1, 2}, true), false);
    b.last = boots;
    step(b, "client2", 30, calls({1, 2}));
    add([&] { auto x = b; x.w.queues = x.w.sems = x.w.shms = -1; return x; }(), th ? 3 : 2);
  }
  {
    auto b = make("a server may be killed while it boots", {{1, 1, 0, 1, "", "", 2}, {1, 2}}, "", 1, {1});
    step(b, "tmboot", 1, boot({0, 1, 2}, {}, true));
    step(b, "tmboot2", 14, boot({}, {0, 1, 2}, true));
    step(b, "client", 30, calls({1, 2}));
    step(b, "tmshutdown", 3);
    add(b, th ? 2 : 1, 1);
  }
}
