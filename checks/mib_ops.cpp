// C10 (sequential part): every sequence of operations on small bulletin board
// tables, compared with reference tables.
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_map>
#include <unistd.h>
#include "../lib/mc.h"
#include "mib.h"
#include "trx.h"

struct Model {
  struct Srv { int id, grp; std::string name, clopt; size_t queue; };
  std::vector<std::pair<int, std::string>> groups;
  std::vector<Srv> servers;
  std::vector<std::pair<std::string, int>> queues;  // address, servers
  std::vector<std::string> services;
  std::set<std::pair<std::string, size_t>> adv;  // service, server
  std::vector<int> clients;                      // pids, 0: free
};
static size_t QN = sizeof(queue::rqaddr);
enum Res { OK, DUP, FULL, LONG, OTHER };
static const char *rn[] = {"succeeds", "logic_error", "out_of_range", "length_error", "something else"};

struct Caps { int servers, services, queues, groups, clients; };
struct World {
  Caps c;
  tuxconfig cfg;
  std::unique_ptr<mib> m;
  size_t size;
  Model x;
  std::string image() { return std::string((char *)m->operator->(), size); }
  void restore(const std::string &s) { memcpy((void *)m->operator->(), s.data(), size); }
};
static World make(const Caps &c) {
  World w;
  w.c = c;
  memset(&w.cfg, 0, sizeof(w.cfg));
  w.cfg.maxservers = c.servers; w.cfg.maxservices = c.services; w.cfg.maxqueues = c.queues; w.cfg.maxgroups = c.groups; w.cfg.maxaccessers = c.clients;
  w.m = std::make_unique<mib>(w.cfg, fux::mib::in_heap());
  w.size = mib::needed(w.cfg);
  return w;
}
static Res guard(const std::function<void()> &f) {
  try { f(); return OK; }
  catch (const std::out_of_range &) { return FULL; }
  catch (const std::length_error &) { return LONG; }
  catch (const std::logic_error &) { return DUP; }
  catch (...) { return OTHER; }
}
struct Operation {
  std::string text;
  std::function<std::string(World &)> run;  // "" or what is wrong
};
static std::string differs(const std::string &what, Res got, Res want) { return got == want ? "" : what + " " + rn[got] + ", expected: " + rn[want]; }

static std::string compare(World &w) {
  auto &m = *w.m;
  auto &x = w.x;
  if (m.groups()->len != x.groups.size()) return mc::fmt("%zu groups, expected %zu", m.groups()->len, x.groups.size());
  for (size_t i = 0; i < x.groups.size(); i++) {
    if (m.find_group(x.groups[i].first) != i) return mc::fmt("group %d not found at its place", x.groups[i].first);
    if (m.group_by_id(x.groups[i].first).srvgrp != x.groups[i].second) return "group " + x.groups[i].second + " is called " + m.groups().at(i).srvgrp;
    if (m.group_index(x.groups[i].second) > i) return "group " + x.groups[i].second + " not found by name";
  }
  for (auto n : {"", "G", "GROUP2", "GROUP", "GROUP22", "X", "XY", "g"}) {
    size_t at = mib::badoff;
    for (size_t i = 0; i < x.groups.size() && at == mib::badoff; i++)
      if (x.groups[i].second == n) at = i;
    if (m.group_index(n) != at) return std::string("the group called \"") + n + "\" is not found or not there";
  }
  for (int g : {0, 7, 9})
    if (m.find_group(g) != mib::badoff) return "a group is found that is not there";
  if (m.servers()->len != x.servers.size()) return mc::fmt("%zu servers, expected %zu", m.servers()->len, x.servers.size());
  for (size_t i = 0; i < x.servers.size(); i++) {
    auto &s = x.servers[i];
    if (m.find_server(s.id, s.grp) != i) return mc::fmt("server %d.%d not found at its place", s.grp, s.id);
    auto &r = m.servers().at(i);
    if (r.servername != s.name || r.clopt != s.clopt) return "server " + s.name + " " + s.clopt + " is called " + r.servername + " " + r.clopt;
    if (r.rqaddr != s.queue) return mc::fmt("server %d.%d has queue %zu, expected %zu", s.grp, s.id, r.rqaddr, s.queue);
  }
  for (int i = 0; i < 7; i++)
    for (int g = 0; g < 4; g++) {
      bool there = false;
      for (auto &y : x.servers) there |= y.id == i && y.grp == g;
      if (!there && m.find_server(i, g) != mib::badoff) return mc::fmt("a server %d.%d is found that is not there", g, i);
    }
  if (m.queues()->len != x.queues.size()) return mc::fmt("%zu queues, expected %zu", m.queues()->len, x.queues.size());
  for (size_t i = 0; i < x.queues.size(); i++) {
    if (m.find_queue(x.queues[i].first) != i) return "queue " + x.queues[i].first + " not found at its place";
    if (m.queues().at(i).rqaddr != x.queues[i].first) return "queue " + x.queues[i].first + " is called " + m.queues().at(i).rqaddr;
    if (m.queues().at(i).servercnt != x.queues[i].second) return mc::fmt("queue %s has %ld servers, expected %d", x.queues[i].first.c_str(), m.queues().at(i).servercnt, x.queues[i].second);
  }
  for (auto n : {"", "q", "q1", "q11", "Q1", "queue", "queue2", "queue22", "q6", "nosuch"}) {
    bool there = false;
    for (auto &y : x.queues) there |= y.first == n;
    if (!there && m.find_queue(n) != mib::badoff) return std::string("a queue is found that is not there: \"") + n + "\"";
  }
  if (m.services()->len != x.services.size()) return mc::fmt("%zu services, expected %zu", m.services()->len, x.services.size());
  for (size_t i = 0; i < x.services.size(); i++) {
    if (m.find_service(x.services[i]) != i || m.find_service(x.services[i].c_str()) != i) return "service " + x.services[i] + " not found at its place";
    if (m.services().at(i).servicename != x.services[i]) return "service " + x.services[i] + " is called " + m.services().at(i).servicename;
  }
  for (auto n : {"", "A", "AB", "Ab", "ABC", "a", "B", "S", "SERVICE", "SERVICES", "z", "nosuch"})
    if (std::find(x.services.begin(), x.services.end(), n) == x.services.end())
      if (m.find_service(std::string(n)) != mib::badoff || m.find_service(n) != mib::badoff) return std::string("a service is found that is not there: \"") + n + "\"";
  std::set<std::pair<std::string, size_t>> adv;
  auto a = m.advertisements();
  if (a->len > a->size) return "more advertisements than there is room for";
  for (size_t i = 0; i < a->len; i++) {
    auto &e = a.at(i);
    if (e.service == mib::badoff) continue;
    if (e.service >= x.services.size() || e.server >= x.servers.size()) return "an advertisement of nothing";
    if (e.queue != x.servers[e.server].queue) return "an advertisement on another queue";
    if (!adv.insert({x.services[e.service], e.server}).second) return "advertised twice: " + x.services[e.service];
  }
  if (adv != x.adv) return mc::fmt("%zu advertisements, expected %zu", adv.size(), x.adv.size());
  if (m.accessers()->len > m.accessers()->size) return "more clients than there is room for";
  std::multiset<int> pids, want;
  for (size_t i = 0; i < m.accessers()->len; i++)
    if (m.accessers().at(i).valid()) pids.insert(m.accessers().at(i).pid);
  for (int p : x.clients)
    if (p) want.insert(p);
  if (pids != want) return mc::fmt("%zu clients, expected %zu", pids.size(), want.size());
  return "";
}

static std::vector<Operation> operations(bool th) {
  std::vector<Operation> r;
  auto add = [&](const std::string &t, std::function<std::string(World &)> f) { r.push_back({t, f}); };
  std::string LG(29, 'g'), TG(30, 'g'), LQ(QN - 1, 'q'), TQ(QN, 'q'), LI(255, 'o'), TI(256, 'o');
  struct G { int n; std::string name, open; };
  for (auto &g : std::vector<G>{{1, "G", ""}, {2, "GROUP2", "o"}, {1, "X", ""}, {3, LG, LI}, {4, TG, ""}, {5, "LONGINFO", TI}})
    add(mc::fmt("make_group(%d,%s,%zu)", g.n, g.name.c_str(), g.open.size()), [g](World &w) {
      size_t at = 0;
      Res e = guard([&] { at = w.m->make_group(g.n, g.name, g.open, "", ""); }), want = OK;
      for (auto &y : w.x.groups)
        if (y.first == g.n) want = DUP;
      if (want == OK && (int)w.x.groups.size() >= w.c.groups) want = FULL;
      if (want == OK && (g.name.size() > 29 || g.open.size() > 255)) want = LONG;
      if (want == OK && at != w.x.groups.size()) return std::string("make_group gives another index");
      if (want == OK) w.x.groups.push_back({g.n, g.name});
      return differs("make_group", e, want);
    });
  struct S { int id, grp; std::string name, q, clopt; };
  std::string LN(127, 'n'), TN(128, 'n'), LC(1023, 'c'), TC(1024, 'c');
  std::vector<S> srv = {{1, 1, "srv", "q1", "-A"}, {2, 1, "server2", "q1", ""}, {1, 2, "s", "queue2", "-A -v"}, {1, 1, "other", "q1", ""}, {3, 1, LN, LQ, LC}, {4, 1, TN, "q1", ""}, {5, 1, "longqueue", TQ, ""}, {6, 1, "longclopt", "q6", TC}};
  for (auto &s : srv)
    add(mc::fmt("make_server(%d,%d,%s,%s,%zu)", s.id, s.grp, s.name.c_str(), s.q.c_str(), s.clopt.size()), [s](World &w) {
      size_t at = 0;
      auto &x = w.x;
      Res e = guard([&] { at = w.m->make_server(s.id, s.grp, s.name, s.clopt, s.q); }), want = OK;
      for (auto &y : x.servers)
        if (y.id == s.id && y.grp == s.grp) want = DUP;
      if (want == OK && (int)x.servers.size() >= w.c.servers) want = FULL;
      if (want == OK && (s.name.size() > 127 || s.clopt.size() > 1023)) want = LONG;
      size_t q = 0;
      while (q < x.queues.size() && x.queues[q].first != s.q) q++;
      if (want == OK && q == x.queues.size()) {
        if ((int)q >= w.c.queues) want = FULL;
        else if (s.q.size() >= QN) want = LONG;
        else x.queues.push_back({s.q, 0});
      }
      if (want == OK) {
        if (e == OK && at != x.servers.size()) return std::string("make_server gives another index");
        x.servers.push_back({s.id, s.grp, s.name, s.clopt, q});
        x.queues[q].second++;
      }
      return differs("make_server", e, want);
    });
  std::string LS(sizeof(service::servicename) - 1, 'z'), TS(sizeof(service::servicename), 'z');
  std::vector<std::string> names = {"AB", "A", "Ab", LS, TS};
  for (auto &n : names)
    for (int s = 0; s < 2; s++) {
      add("advertise(" + n + "," + std::to_string(s) + ")", [n, s](World &w) {
        auto &x = w.x;
        if (s >= (int)x.servers.size()) return std::string("-");
        Res e = guard([&] { w.m->advertise(n, x.servers[s].queue, s); }), want = OK;
        bool known = std::find(x.services.begin(), x.services.end(), n) != x.services.end();
        if (x.adv.count({n, s})) want = DUP;
        else if ((int)x.adv.size() >= w.c.servers * w.c.services) want = FULL;
        else if (!known && (int)x.services.size() >= w.c.services) want = FULL;
        else if (!known && n.size() >= sizeof(service::servicename)) want = LONG;
        // a table without room may be noticed before the duplicate
        if (want == DUP && e == FULL && (int)x.adv.size() >= w.c.servers * w.c.services) want = FULL;
        if (want == OK) {
          if (!known) x.services.push_back(n);
          x.adv.insert({n, s});
        }
        return differs("advertise", e, want);
      });
      if (n != TS)
        add("unadvertise(" + n + "," + std::to_string(s) + ")", [n, s](World &w) {
          auto &x = w.x;
          if (s >= (int)x.servers.size()) return std::string("-");
          Res e = guard([&] { w.m->unadvertise(n, x.servers[s].queue, s); });
          Res want = x.adv.erase({n, s}) ? OK : DUP;
          return differs("unadvertise", e, want);
        });
    }
  for (int s = 0; s < 2; s++)
    add(mc::fmt("unadvertise(%d)", s), [s](World &w) {
      auto &x = w.x;
      if (s >= (int)x.servers.size()) return std::string("-");
      Res e = guard([&] { w.m->unadvertise(s); });
      for (auto i = x.adv.begin(); i != x.adv.end();) i = (int)i->second == s ? x.adv.erase(i) : std::next(i);
      return differs("unadvertise", e, OK);
    });
  for (auto n : {"A", "SERVICE"})
    add(std::string("make_service(") + n + ")", [n](World &w) {
      auto &x = w.x;
      size_t at = 0;
      Res e = guard([&] { at = w.m->make_service(n); });
      bool known = std::find(x.services.begin(), x.services.end(), n) != x.services.end();
      Res want = known ? DUP : (int)x.services.size() >= w.c.services ? FULL : OK;
      if (want == OK && at != x.services.size()) return std::string("make_service gives another index");
      if (want == OK) x.services.push_back(n);
      return differs("make_service", e, want);
    });
  for (int p : {100, 200})
    add(mc::fmt("make_accesser(%d)", p), [p](World &w) {
      auto &x = w.x;
      size_t at = 0;
      Res e = guard([&] { at = w.m->make_accesser(p); });
      int used = 0;
      for (int y : x.clients) used += y != 0;
      Res want = used >= w.c.clients ? FULL : OK;
      if (e == OK && want == OK) {
        if (at >= (size_t)w.c.clients) return std::string("make_accesser gives an index beyond the table");
        if (x.clients.size() <= at) x.clients.resize(at + 1);
        if (x.clients[at]) return std::string("make_accesser gives an entry in use");
        if (w.m->accessers().at(at).rpid != -1) return std::string("a new client has a reply queue");
        w.m->accessers().at(at).rpid = p;
        x.clients[at] = p;
      }
      return differs("make_accesser", e, want);
    });
  for (int i = 0; i < 2; i++)
    add(mc::fmt("invalidate(%d)", i), [i](World &w) {
      auto &x = w.x;
      if (i >= (int)x.clients.size() || !x.clients[i]) return std::string("-");
      w.m->accessers().at(i).invalidate();
      x.clients[i] = 0;
      return std::string();
    });
  (void)th;
  return r;
}
// the part of the state that matters for what comes
static uint64_t key(World &w) {
  auto img = w.image();
  auto *mm = w.m->operator->();
  for (size_t i = 0; i < w.m->services()->size; i++) {
    size_t off = (char *)&w.m->services()[i].revision - (char *)mm;
    memset(&img[off], 0, sizeof(uint64_t));
  }
  mc::Hash h;
  h.feed(img.data(), img.size());
  return h.get().first ^ h.get().second;
}

int main() {
  bool th = mc::thorough();
  static auto ops = operations(th);
  std::vector<Caps> caps = {{2, 2, 2, 2, 2}, {1, 1, 1, 1, 1}, {2, 3, 1, 3, 1}, {3, 2, 3, 1, 3}, {2, 1, 2, 2, 2}};
  int depth = th ? 6 : 5;
  struct Job { int cap, first; };
  std::vector<Job> jobs;
  for (size_t c = 0; c < caps.size(); c++)
    for (size_t o = 0; o < ops.size(); o++) jobs.push_back({(int)c, (int)o});
  return mc::run(jobs.size(), [&](int j) {
    auto &jb = jobs[j];
    auto &cp = caps[jb.cap];
    World w = make(cp);
    std::unordered_map<uint64_t, int> seen;
    std::vector<int> path;
    auto text = [&] {
      std::string s = mc::fmt("tables for %d servers, %d services, %d queues, %d groups, %d clients:", cp.servers, cp.services, cp.queues, cp.groups, cp.clients);
      for (int o : path) s += " " + ops[o].text;
      return s;
    };
    uint64_t n = 0, states = 0;
    std::function<void(int)> go = [&](int left) {
      auto img = w.image();
      auto x = w.x;
      for (size_t o = 0; o < ops.size(); o++) {
        if (path.empty() && (int)o != jb.first) continue;
        path.push_back(o);
        if (n % 16 == 0 || left < 2) mc::trace(text());
        n++;
        auto e = ops[o].run(w);
        if (e != "-") {
          if (e.empty()) e = compare(w);
          if (!e.empty()) {
            mc::violation(ops[o].text + "|" + e, text() + "\n" + e);
          } else if (left > 1) {
            auto &s = seen[key(w)];
            if (s < left) {
              if (!s) states++;
              s = left;
              go(left - 1);
            }
          }
          w.restore(img);
          w.x = x;
        }
        path.pop_back();
        if (mc::enough()) return;
      }
    };
    go(depth);
    mc::add(mc::cnt().transitions, n);
    mc::add(mc::cnt().states, states);
    mc::add(mc::cnt().validated, n);
    if (jb.first == 6 && jb.cap == 0) mc::sample(text() + mc::fmt(" first operation %s: %lu operations compared", ops[jb.first].text.c_str(), n));
  });
}
