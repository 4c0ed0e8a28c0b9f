// C04: time-outs fire when due, and only then.
#include "dist.h"

namespace {
struct TmOpt {
  long configured = 15000;  // limit of calls that set none
  bool early = false;       // the clock may advance while somebody is still running
  long scan = 1000;         // the supervisor's interval
  bool full = false;        // the program waits for everything it sent
  bool loose = false;       // time limits are not judged
  bool room = false;        // the queue has room before the limit
  string served;            // every call of this one is answered
};

string judge(const Execution &e, const TmOpt &o) {
  string w = stuck(e);
  if (!w.empty()) return w;
  std::map<string, long> replied;
  for (auto &l : e.log)
    if (l.what == "reply") replied[l.s] = l.a;
  std::set<string> execs;
  for (auto &l : e.log)
    if (l.what == "exec" && l.s[0] == 'r' && !execs.insert(l.s).second) return "request " + l.s + " was executed twice";
  std::set<string> must;
  for (size_t p = 0; p < e.procs.size(); p++) {
    long next = 0, all = 0;
    bool client = false, ended = false;
    std::set<string> fetched;
    for (auto &l : e.of(p)) {
      if (l.what == "next") next = l.a, client = true;
      if (l.what == "all") all = l.a, client = true;
      if (l.what == "end") ended = true;
      auto dash = l.what.find('-');
      string op = l.what.substr(0, dash), how = dash == string::npos ? "" : l.what.substr(dash + 1);
      if (op != "call" && op != "send" && op != "get" && op != "any") continue;
      long t0 = atol(field(l.s, "from").c_str()), t1 = l.b;
      string tag = field(l.s, "tag"), data = field(l.s, "data");
      long limit = next ? next : all ? all : o.configured;
      next = 0;
      auto say = [&](const string &what) {
        return mc::fmt("%s of %s from %ld to %ld ms, limit %s: ", l.what.c_str(), tag.c_str(), t0, t1,
                       how.empty() ? mc::fmt("%ld ms", limit).c_str() : how.c_str()) + what;
      };
      if (o.loose) {
        // only that nothing is mixed up
        if (op == "send" ? l.a != 0 && l.a != 13 && l.a != 3 : l.a != 0 && l.a != 13 && l.a != 3) return say(mc::fmt("failed with %ld", l.a));
        if (op == "send" || (l.a == 3 && op == "call")) {
          if (l.a == 0) must.insert(tag);
          else if (execs.count(tag)) return say("it failed and was executed");
          continue;
        }
        if (l.a == 0 && data != tag + (tag.find(';') == string::npos ? "/WAIT" : "/INNER")) return say("wrong reply " + data);
        if (l.a == 0 && !fetched.insert(tag).second) return say("the reply was returned before");
        continue;
      }
      if (op == "send") {
        client = true;
        if (l.a == 0) {
          if (how == "noblock" && t1 != t0 && !o.early) return say("waited although it must not block");
          must.insert(tag);
          continue;
        }
        if (how == "noblock") {
          if (l.a != 3) return say(mc::fmt("failed with %ld", l.a));
          if (t1 != t0 && !o.early) return say("waited although it must not block");
        } else if (how == "notime") {
          return say(mc::fmt("failed with %ld", l.a));
        } else {
          if (l.a != 13) return say(mc::fmt("failed with %ld", l.a));
          if (t1 < t0 + limit) return say("timed out too early");
          if (t1 > t0 + limit + o.scan) return say("timed out too late");
          if (o.room) return say("timed out although there was room in the queue");
        }
        if (execs.count(tag)) return say("the request was executed");
        continue;
      }
      client = true;
      // when the replies it may return became available
      long avail = -1;
      for (size_t i = 0; i < tag.size();) {
        auto c = tag.find(',', i);
        if (c == string::npos) c = tag.size();
        auto it = replied.find(tag.substr(i, c - i));
        if (it != replied.end() && (avail == -1 || it->second < avail)) avail = it->second;
        i = c + 1;
      }
      if (l.a == 0) {
        if (avail == -1 || avail > t1) return say("a reply that was not sent yet");
        if (data != tag + (tag.find(';') == string::npos ? "/WAIT" : "/INNER")) return say("wrong reply " + data);
        if (fetched.count(tag)) return say("the reply was returned before");
        fetched.insert(tag);
        if (!o.early && t1 != std::max(avail, t0)) return say(mc::fmt("the reply was there at %ld", avail));
        if (how.empty() && !o.early && t1 > t0 + limit + o.scan) return say("the reply came long after the limit");
        continue;
      }
      if (e.procs[p].name == o.served) return say(mc::fmt("failed with %ld, the server has nothing to do", l.a));
      if (how == "noblock") {
        if (op == "call") {
          if (l.a != 3) return say(mc::fmt("failed with %ld", l.a));
        } else {
          if (l.a != 3) return say(mc::fmt("failed with %ld", l.a));
          if (avail != -1 && avail < t0 && !o.early) return say(mc::fmt("said there is no reply, it was there at %ld", avail));
        }
        if (t1 != t0 && !o.early) return say("waited although it must not block");
        continue;
      }
      if (how == "notime") return say(mc::fmt("failed with %ld", l.a));
      if (l.a != 13) return say(mc::fmt("failed with %ld", l.a));
      if (t1 < t0 + limit) return say("timed out too early");
      if (t1 > t0 + limit + o.scan && !o.early) return say("timed out too late");
      if (avail != -1 && avail < t0 + limit && !o.early) return say(mc::fmt("timed out although the reply was there at %ld", avail));
    }
    if (client && !ended && e.procs[p].name.compare(0, 6, "client") == 0) return "a client never finishes: " + e.procs[p].at;
  }
  if (o.full)
    for (auto &t : must)
      if (!execs.count(t)) return "request " + t + " was accepted and not executed";
  for (size_t p = 0; p < e.procs.size(); p++)
    if (e.procs[p].name == "BBL" && !e.procs[p].blocked) return "the supervisor ended";
  for (int v : e.sems)
    if (v != 1) return mc::fmt("a bulletin board lock is left at %d", v);
  return "";
}
}  // namespace

void scenarios_time(const string &set, vector<Scenario> &r) {
  if (set != "C04" && set != "C03" && set != "C02") return;
  bool th = mc::thorough();
  vector<Srv> one = {{1, 1}}, two = {{1, 1}, {1, 2}};
  auto S = [](const string &name, const string &fn, int id) { return Actor{name, "app", fn, 100 + id, true}; };
  auto C = [](const string &name, const string &fn, int arg) { return Actor{name, "app", fn, arg}; };
  Actor B{"BBL", "app", "bbl", 0, true};
  auto add = [&](const string &name, const string &config, const vector<Actor> &actors, TmOpt mo = {}, Options op = {}) {
    Scenario s;
    s.name = name;
    s.config = config;
    s.actors = actors;
    op.max_ms = 80000;
    s.opt = op;
    if (op.early_ticks) mo.early = true;
    s.oracle = [mo](const Execution &e) { return judge(e, mo); };
    r.push_back(s);
  };
  auto SW = [&](int id) { return S(id == 1 ? "server" : "server2", "srv_wait", id); };
  auto full_queue = [&](bool loose) {
    Options full;
    full.qbytes = 2000;
    for (int how : {0, 1, 3})
      for (int l = 0; l < 6; l++) {
        if (l && how) continue;
        static const char *limits[] = {"1000", "390", "1050", "999", "401", "1001"};
        TmOpt m;
        m.full = true;
        m.loose = loose;
        add(mc::fmt("full request queue, kind %d, limit %s ms, room around the limit", how, limits[l]), ubb(one), {B, SW(1), C("client", "cl_full", l * 1000 + how * 100 + 99)}, m, full);
      }
  };
  if (set == "C03" || set == "C04") {
    TmOpt m;
    m.loose = set == "C03";
    Options small;
    small.qbytes = 2000;
    static const char *kinds[] = {"calls that would block", "synchronous calls that would block", "calls that cannot be sent in time", "synchronous calls that cannot be sent in time",
                                  "calls that time out", "replies that are late", "late calls that are cancelled"};
    for (int k = 0; k < 7; k++)
      add(mc::fmt("after 1100 %s: all programs of 3 (4) operations", kinds[k]), ubb(one), {B, SW(1), C("client", "cl_manyt", (th ? 410 : 310) + k)}, m, small);
  }
  if (set == "C03") return;
  full_queue(set == "C02");
  if (set == "C02") return;
  static const char *ways[] = {"next, ms", "all, ms", "next, s", "all, s"};
  for (int how = 0; how < 4; how++)
    for (int l = 0; l < 5; l++) {
      if (how >= 2 && l != 1 && l != 3) continue;
      add(mc::fmt("limit %d set for %s", l, ways[how]), ubb(one), {B, SW(1), C("client", "cl_limit", (th ? 100 : 0) + how * 10 + l)});
    }
  struct {
    const char *text;
    long ms;
    int idx;
  } confs[] = {{"", 15000, 5}, {"BLOCKTIME 1\n", 1000, 1}, {"BLOCKTIME 2\n", 2000, 3}, {"BLOCKTIME 3\nSCANUNIT 500MS\n", 1500, 2},
               {"BLOCKTIME 1\nSCANUNIT 1\n", 1000, 1}, {"SCANUNIT 100MS\n", 1500, 2}, {"BLOCKTIME 1\nSCANUNIT 15\n", 15000, 5}, {"SCANUNIT 1\n", 15000, 5},
               {"BLOCKTIME 2\nSCANUNIT 100MS\n", 200, 7}};
  for (auto &c : confs) {
    TmOpt m;
    m.configured = c.ms;
    string n = c.text;
    for (auto &ch : n)
      if (ch == '\n') ch = ' ';
    add("configured: " + n, ubb(one, c.text), {B, SW(1), C("client", "cl_limit", (th ? 140 : 40) + c.idx)}, m);
  }
  add("all programs of 4 (5) limited calls", ubb(one), {B, SW(1), C("client", "cl_timed", th ? 50 : 40)});
  add("all programs of 4 (5) asynchronous operations", ubb(one), {B, SW(1), C("client", "cl_timed", th ? 51 : 41)});
  add("all programs of 5 (6) operations, configured limit", ubb(one, "BLOCKTIME 1\n"), {B, SW(1), C("client", "cl_timed", th ? 62 : 52)}, {1000});
  add("2 clients with different limits", ubb(one), {B, SW(1), C("client1", "cl_each", 707), C("client2", "cl_each", 1505)});
  add("2 clients with different limits, both late", ubb(two), {B, SW(1), SW(2), C("client1", "cl_each", 714), C("client2", "cl_each", 1012)});
  {
    Options few;
    few.preempt = th ? 2 : 1;
    add("5 clients with different limits, most late", ubb(two),
        {B, SW(1), SW(2), C("client1", "cl_once", 914), C("client2", "cl_once", 1012), C("client3", "cl_once", 430), C("client4", "cl_once", 1303), C("client5", "cl_once", 2240)}, {}, few);
  }
  {
    TmOpt m;
    m.served = "client2";
    Options small;
    small.qbytes = 2000;
    add("a client that is silent for 40 s does not keep the server from others", ubb(one), {B, SW(1), C("client1", "cl_silent", 0), C("client2", "cl_silent", 1)}, m, small);
  }
  add("clients that end when their time-out is due", ubb(one), {B, SW(1), C("client1", "cl_once", 910), C("client2", "cl_once", 512)});
  add("a service that calls", ubb(two), {B, S("server1", "srv_inner", 1), S("server2", "srv_wait", 2), C("client", "cl_inner", 0)});
  Options full;
  full.qbytes = 2000;
  for (int how = 0; how < 4; how++)
    for (int d : {5, 8, 15, 30}) {
      TmOpt m;
      m.full = true;
      m.room = d < 9;
      add(mc::fmt("full request queue, kind %d, %d ms", how, d * 100), ubb(one), {B, SW(1), C("client", "cl_full", how * 100 + d)}, m, full);
    }
  Options early;
  early.early_ticks = th ? 2 : 1;
  add("clock advances while they run", ubb(one), {B, SW(1), C("client", "cl_each", 710)}, {}, early);
  add("clock advances while they run, client ends", ubb(one), {B, SW(1), C("client", "cl_once", 909)}, {}, early);
  Options mem;
  mem.shm_points = true;
  mem.preempt = th ? 3 : 2;
  add("every access to the bulletin board", ubb(one), {B, SW(1), C("client", "cl_each", 910)}, {}, mem);
  add("every access to the bulletin board, client ends", ubb(one), {B, SW(1), C("client", "cl_once", 910)}, {}, mem);
}
