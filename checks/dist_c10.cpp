// C10: the tables of the bulletin board under concurrent use.
#include "dist.h"

namespace {
// servers and their services, by process
struct Boot {
  std::map<int, vector<string>> offers;
  std::map<int, string> queue;
  int maxservices = 12;
};
string common(const Execution &e, const string &want) {
  string w = stuck(e);
  if (!w.empty()) return w;
  for (auto &l : e.log)
    if (l.what == "tables" && l.s != want) return e.procs[l.proc].name + " sees the tables\n    " + l.s + "\n  configured are\n    " + want;
  if (e.sems.size() != 1) return mc::fmt("%zu sets of locks exist", e.sems.size());
  if (e.sems[0] != 1) return mc::fmt("a bulletin board lock is left at %d", e.sems[0]);
  return "";
}
string judge_join(const Execution &e, const string &want, size_t cap) {
  string w = common(e, want);
  if (!w.empty()) return w;
  std::set<int> in, maybe;
  std::map<int, bool> full;  // who is joining -> others may have filled the table meanwhile
  for (auto &l : e.log) {
    int p = l.proc;
    if (l.what == "join") full[p] = maybe.size() >= cap, maybe.insert(p);
    if (l.what == "joined") {
      if (l.a == 0) {
        in.insert(p);
        if (in.size() > cap) return mc::fmt("%zu clients have joined, %zu is the limit", in.size(), cap);
      } else {
        maybe.erase(p);
        if (!full[p]) return mc::fmt("%s could not join (%ld) although there were free entries", e.procs[p].name.c_str(), l.a);
      }
      full.erase(p);
    }
    if (l.what == "leave") in.erase(p);
    if (l.what == "left") maybe.erase(p);
    for (auto &x : full)
      if (maybe.size() - maybe.count(x.first) >= cap) x.second = true;
  }
  for (auto &p : e.procs)
    if (!p.done) return "a client never ends: " + p.at;
  if (!e.queue_len.empty()) return mc::fmt("%zu queues are left behind", e.queue_len.size());
  return "";
}
string judge_boot(const Execution &e, const string &want, const Boot &b) {
  string w = common(e, want);
  if (!w.empty()) return w;
  std::set<string> named, queues;
  std::map<string, std::set<int>> who;
  std::map<int, bool> ended;
  bool inspected = false;
  for (auto &l : e.log) {
    if (l.what == "server-end") ended[l.proc] = true;
    if (l.what == "end") inspected = true;
  }
  if (!inspected) return "the tables cannot be looked at any more";
  std::set<string> all;
  for (auto &x : b.offers) {
    queues.insert(b.queue.at(x.first));
    for (auto &s : x.second) all.insert(s);
    if (!ended.count(x.first))
      for (auto &s : x.second) who[s].insert(x.first);
  }
  for (auto &x : ended)
    if (all.size() <= (size_t)b.maxservices) return e.procs[x.first].name + " could not start";
  if (e.queue_len.size() != queues.size()) return mc::fmt("%zu request queues exist for %zu addresses", e.queue_len.size(), queues.size());
  for (auto &l : e.log) {
    if (l.what == "services") {
      size_t n = l.s.empty() ? 0 : std::count(l.s.begin(), l.s.end(), ',') + 1;
      if (n > (size_t)b.maxservices) return mc::fmt("%zu services, %d is the limit", n, b.maxservices);
      if (!ended.empty() && n < (size_t)b.maxservices) return "a server could not start although there was room for its services (" + l.s + ")";
      if (l.a != 0) return mc::fmt("%ld clients are registered, there are none", l.a);
    }
    if (l.what == "call") {
      string n = l.s.substr(0, l.s.find(' '));
      if (who[n].empty() != (l.a == 6)) return mc::fmt("calling %s gives %ld, %zu servers offer it", n.c_str(), l.a, who[n].size());
      if (who[n].empty()) continue;
      if (l.a != 0) return mc::fmt("calling %s gives %ld", n.c_str(), l.a);
      bool ok = false;
      for (int p : who[n]) ok |= l.s == n + " " + n + "/" + std::to_string(p);
      if (!ok) return "wrong reply of " + l.s;
    }
  }
  return "";
}
}  // namespace

void scenarios_tables(const string &set, vector<Scenario> &r) {
  if (set != "C10") return;
  bool th = mc::thorough();
  vector<Srv> one = {{1, 1}}, two = {{1, 1}, {1, 2}}, mssq = {{1, 1, "q1"}, {1, 2, "q1"}}, many = {{1, 1}, {1, 2, "q1"}, {2, 1, "q1"}, {2, 3}, {1, 4, "q2"}, {2, 5}};
  auto opt = [](int preempt, bool points) {
    Options o;
    o.preempt = preempt;
    o.shm_points = points;
    return o;
  };
  auto A = [](const string &name, const string &fn, int arg, bool daemon = false) { return Actor{name, "app", fn, arg, daemon}; };
  auto add = [&](const string &name, const string &config, const vector<Actor> &actors, const Options &op, std::function<string(const Execution &)> oracle) {
    Scenario s;
    s.name = name;
    s.config = config;
    s.actors = actors;
    s.opt = op;
    s.oracle = oracle;
    r.push_back(s);
  };
  auto caps = [](string c, const string &what, int n) {
    auto p = c.find(what + " ");
    auto e = c.find('\n', p);
    return c.replace(p, e - p, mc::fmt("%s %d", what.c_str(), n));
  };
  string M = "8/12/8/4/8";
  for (auto *v : {&one, &many})
    for (int n : {2, 3}) {
      string want = tables(*v, M);
      vector<Actor> a;
      for (int i = 0; i < n; i++) a.push_back(A(mc::fmt("client%d", i + 1), "attach", 0));
      auto o = [want](const Execution &e) {
        for (auto &p : e.procs)
          if (!p.done && e.end == End::terminal) return "never ends: " + p.at;
        return common(e, want);
      };
      string t = mc::fmt("%d processes attach, %zu servers configured", n, v->size());
      add(t, ubb(*v), a, opt(-1, false), o);
      add(t + ", every access", ubb(*v), a, opt(n == 2 ? (th ? 3 : 2) : (th ? 2 : 1), true), o);
    }
  for (int cap : {1, 2})
    for (int n : {2, 3}) {
      string want = tables(one, mc::fmt("8/12/8/4/%d", cap));
      vector<Actor> a;
      for (int i = 0; i < n; i++) a.push_back(A(mc::fmt("client%d", i + 1), "join", n == 2 ? 2 : 1));
      auto o = [want, cap](const Execution &e) { return judge_join(e, want, cap); };
      string t = mc::fmt("%d clients join and leave, %d entries", n, cap);
      string c = caps(ubb(one), "MAXACCESSERS", cap);
      add(t, c, a, opt(th ? -1 : n == 2 ? 6 : 3, false), o);
      add(t + ", every access", c, a, opt(n == 2 ? (th ? 3 : 2) : (th ? 2 : 1), true), o);
    }
  static const string A_ = "ACCOUNT", B_ = "ACC", C_ = "ACCOUNTS", D_ = "Acc";
  static const vector<vector<string>> offers = {{A_}, {B_}, {A_, B_}, {B_, A_}, {C_, A_}, {C_, D_}, {}};
  auto boots = [&](const string &name, const vector<Srv> &v, const vector<int> &tbl, int maxservices) {
    Boot b;
    b.maxservices = maxservices;
    vector<Actor> a;
    for (size_t i = 0; i < v.size(); i++) {
      a.push_back(A(mc::fmt("server%zu", i + 1), "boot", tbl[i] * 10000 + v[i].grp * 100 + v[i].id, true));
      b.offers[i] = offers[tbl[i]];
      b.queue[i] = v[i].queue.empty() ? mc::fmt("%d.%d", v[i].grp, v[i].id) : v[i].queue;
    }
    a.push_back(A("inspector", "inspect", 2));
    string want = tables(v, mc::fmt("8/%d/8/4/8", maxservices));
    auto o = [want, b](const Execution &e) { return judge_boot(e, want, b); };
    string c = caps(ubb(v), "MAXSERVICES", maxservices);
    add(name, c, a, opt(v.size() == 2 ? (th ? 5 : 4) : (th ? 3 : 2), false), o);
    add(name + ", every access", c, a, opt(th ? 2 : 1, true), o);
  };
  vector<Srv> three = {{1, 1, "q1"}, {1, 2, "q1"}, {2, 3}};
  boots("2 servers start, same services", two, {2, 3}, 12);
  boots("2 servers of one queue start", mssq, {2, 2}, 12);
  boots("3 servers start, one queue for two", three, {0, 0, 4}, 12);
  boots("2 servers start, too many services", two, {2, 5}, 3);
  boots("2 servers start, too many services for one", two, {2, 4}, 2);
}
