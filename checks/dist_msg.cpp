// Requests and replies: C01, C02, C03, C06, C07, C08
#include "dist.h"

namespace {
// XATMI error codes
constexpr int EBADDESC = 2, EINVAL_ = 4, ENOENT_ = 6, EPROTO_ = 9, ESVCERR = 10, ESVCFAIL = 11, ETIME_ = 13, EBLOCK_ = 3;

// What a call of a service must give
struct Want {
  int err;  // 0, TPESVCFAIL, TPESVCERR
  long urcode;  // -1: not defined
  string data;  // "*": not defined
  vector<string> execs;  // "SERVICE data", in order
};
Want want(const string &svc, const string &tag) {
  int n = atoi(tag.c_str() + tag.find('.') + 1);
  if (svc == "ECHO" || svc == "OPT") return {0, 100 + n, tag + "/" + svc, {svc + " " + tag}};
  if (svc == "SAME") return {0, 100 + n, tag, {svc + " " + tag}};
  if (svc == "NODATA") return {0, 100 + n, "*", {svc + " " + tag}};
  if (svc == "FAIL") return {ESVCFAIL, 200 + n, tag + "/FAIL", {svc + " " + tag}};
  if (svc == "FWD") return {0, 100 + n, tag + ">/ECHO", {svc + " " + tag, "ECHO " + tag + ">"}};
  if (svc == "FWD2") return {0, 100 + n, tag + ">>/ECHO", {svc + " " + tag, "FWD " + tag + ">", "ECHO " + tag + ">>"}};
  if (svc == "FWDS") return {ESVCFAIL, 200 + n, tag + "/FAIL", {svc + " " + tag, "FAIL " + tag}};
  if (svc == "CALLS") return {0, 100 + n, tag + "+/ECHO", {svc + " " + tag, "ECHO " + tag + "+"}};
  if (svc == "NOSUCH") return {ENOENT_, -1, "*", {}};
  return {ESVCERR, -1, "*", {svc + " " + tag}};
}

struct MsgOpt {
  bool noent = false;       // a request may also fail because nobody offers the service
  int live_queues = -1;     // queues that exist at the end
  std::map<int, int> stopped;  // process -> dispatch threads: servers that are stopped, others are not
  bool stops = false;
};

// Judges the logs of all clients and servers
string judge(const Execution &e, const MsgOpt &o = {}) {
  string w = stuck(e);
  if (!w.empty()) return w;
  std::map<string, int> execs, expect;  // "SERVICE data" -> how often
  std::set<string> noreply;
  for (size_t p = 0; p < e.procs.size(); p++) {
    std::map<int, string> out;  // descriptor -> "SERVICE tag"
    bool client = false, ended = false;
    for (auto &l : e.of(p)) {
      if (l.what == "exec") {
        execs[l.s]++;
        auto data = l.s.substr(l.s.find(' ') + 1);
        if (l.a != (long)data.size() + 1) return mc::fmt("service %s was told its data has %ld bytes instead of %zu", l.s.c_str(), l.a, data.size() + 1);
        string root = data.substr(0, data.find_first_of(">+"));
        bool nr = data.find('+') == string::npos && noreply.count(root);
        (void)nr;
        continue;
      }
      auto sp = l.s.find(' ');
      string svc = l.s.substr(0, sp), rest = sp == string::npos ? "" : l.s.substr(sp + 1);
      string tg = rest.substr(0, rest.find(' '));
      auto check_reply = [&](const string &svc, const string &tag, int err) -> string {
        auto x = want(svc, tag);
        if (err != x.err) return mc::fmt("request %s to %s: result %d, should be %d", tag.c_str(), svc.c_str(), err, x.err);
        if (x.urcode != -1 && field(l.s, "urcode") != std::to_string(x.urcode))
          return mc::fmt("request %s to %s: return code %s, should be %ld", tag.c_str(), svc.c_str(), field(l.s, "urcode").c_str(), x.urcode);
        if (x.data != "*") {
          if (field(l.s, "data") != x.data)
            return mc::fmt("request %s to %s: got the data \"%s\", should be \"%s\"", tag.c_str(), svc.c_str(), field(l.s, "data").c_str(), x.data.c_str());
          if (field(l.s, "len") != std::to_string(x.data.size() + 1))
            return mc::fmt("request %s to %s: length %s reported for %zu bytes of data", tag.c_str(), svc.c_str(), field(l.s, "len").c_str(), x.data.size() + 1);
        }
        return "";
      };
      if (l.what == "acall") {
        client = true;
        bool nr = l.b & 4;  // TPNOREPLY
        if (svc == "NOSUCH" || (o.noent && l.a == -ENOENT_)) {
          if (l.a != -ENOENT_) return mc::fmt("request %s to a service nobody offers: %ld", tg.c_str(), l.a);
          continue;
        }
        if (l.a < 0) return mc::fmt("request %s to %s failed with %ld", tg.c_str(), svc.c_str(), -l.a);
        if (nr) {
          if (l.a != 0) return mc::fmt("request without a reply returned the descriptor %ld", l.a);
          noreply.insert(tg);
        } else {
          if (l.a == 0) return "descriptor 0 for a request with a reply";
          if (out.count(l.a)) return mc::fmt("descriptor %ld given out although it is in use", l.a);
          out[l.a] = svc + " " + tg;
        }
        for (auto &x : want(svc, tg).execs) expect[x]++;
      } else if (l.what == "get" || l.what == "any") {
        int cd = atoi(field(l.s, "cd").c_str());
        if (l.what == "get" && !out.count(l.a)) {
          if (l.b != EBADDESC) return mc::fmt("waiting for the invalid descriptor %ld gave %ld instead of the bad-descriptor error", l.a, l.b);
          continue;
        }
        if (l.what == "get" && cd != l.a) return mc::fmt("waiting for descriptor %ld changed it to %d", l.a, cd);
        if (!out.count(cd)) return mc::fmt("waiting for any reply gave %ld and the descriptor %d, which is not outstanding", l.b, cd);
        string r = out[cd];
        w = check_reply(r.substr(0, r.find(' ')), r.substr(r.find(' ') + 1), l.b);
        if (!w.empty()) return w;
        out.erase(cd);
      } else if (l.what == "cancel") {
        bool have = out.count(l.a);
        if (l.b != (have ? 0 : EBADDESC)) return mc::fmt("cancelling the %s descriptor %ld gave %ld", have ? "outstanding" : "invalid", l.a, l.b);
        out.erase(l.a);
      } else if (l.what == "call") {
        client = true;
        if (o.noent && l.a == ENOENT_) continue;
        for (auto &x : want(svc, tg).execs) expect[x]++;
        w = check_reply(svc, tg, l.a);
        if (!w.empty()) return w;
      } else if (l.what == "end") {
        ended = true;
      } else if (l.what == "inner") {
        if (l.a < 0) return mc::fmt("a call made by a service failed with %ld", -l.a);
      }
    }
    if (client && !ended) return "a client never finishes: " + e.procs[p].at;
  }
  if (o.stops) {
    std::map<int, std::map<string, int>> n;
    for (auto &l : e.log) {
      n[l.proc][l.what]++;
      if (l.what == "server-end" && l.a != 0) return mc::fmt("a server ended with %ld", l.a);
    }
    for (size_t p = 0; p < e.procs.size(); p++) {
      if (!n[p]["+up"]) continue;
      auto it = o.stopped.find(p);
      bool end = it != o.stopped.end();
      auto &name = e.procs[p].name;
      if (n[p]["server-end"] != end) return mc::fmt("%s %s", name.c_str(), end ? "did not end although it was told to" : "ended although another server was told to");
      if (n[p]["svrdone"] != end) return mc::fmt("the shutdown routine of %s ran %d times", name.c_str(), n[p]["svrdone"]);
      int thr = end ? it->second : n[p]["+thrinit"];
      if (n[p]["+thrinit"] != thr || (end && n[p]["thrdone"] != thr))
        return mc::fmt("%s: %d threads were initialised and %d shut down instead of %d", name.c_str(), n[p]["+thrinit"], n[p]["thrdone"], thr);
    }
  }
  for (auto &x : expect)
    if (execs[x.first] != x.second)
      return mc::fmt("%s was executed %d times, %d requests accepted", x.first.c_str(), execs[x.first], x.second);
  for (auto &x : execs)
    if (!expect.count(x.first)) return x.first + " was executed although no such request was accepted";
  // the flags each service saw
  for (auto &l : e.log)
    if (l.what == "exec") {
      auto data = l.s.substr(l.s.find(' ') + 1);
      string root = data.substr(0, data.find_first_of(">+"));
      bool nr = data.find('+') == string::npos && noreply.count(root);
      if (bool(l.b & 4) != nr) return mc::fmt("service %s saw the flags %ld, the request was sent %s", l.s.c_str(), l.b, nr ? "without wanting a reply" : "wanting a reply");
      if (l.b & 16) return "service " + l.s + " thinks it is in a transaction";
    }
  for (size_t i = 0; i < e.queue_len.size(); i++)
    if (e.queue_len[i]) return mc::fmt("%zu messages stay in queue %d for ever", e.queue_len[i], e.queue_id[i]);
  if (o.live_queues >= 0 && (int)e.queue_len.size() != o.live_queues) return mc::fmt("%zu queues exist at the end instead of %d", e.queue_len.size(), o.live_queues);
  if (!e.files.empty()) return "the temporary file " + e.files[0] + " is left behind";
  for (int v : e.sems)
    if (v != 1) return mc::fmt("a bulletin board lock is left at %d", v);
  return "";
}

// C06: calls of OPT against what was advertised when. ctl: the servers that
// offer OPT on demand, fixed: the number of servers that always do, by group * 100 + server id
string judge_adv(const Execution &e, const std::map<int, int> &ctl, const std::map<int, int> &fixed) {
  string w = stuck(e);
  if (!w.empty()) return w;
  // per server, what it may be offering: bit 0 nothing, bit 1 OPT, bit 2 the other routine
  std::map<int, int> st;
  std::map<int, bool> busy;
  for (auto &x : ctl) st[x.first] = 1;
  for (auto &x : fixed) st[x.first] = 2;
  std::map<int, int> by_srv;
  for (auto &x : ctl) by_srv[x.second] = x.first;
  for (auto &x : fixed) by_srv[x.second] = x.first;
  struct Open {
    bool none = false, opt = false, opt2 = false;
    std::map<int, int> seen;
    string tag;
  };
  std::map<int, Open> open;
  std::map<string, int> execs;
  std::map<string, int> expect;
  auto update = [&] {
    bool none = true, opt = false, opt2 = false;
    for (auto &x : st) {
      if (!(x.second & 1)) none = false;
      if (x.second & 2) opt = true;
      if (x.second & 4) opt2 = true;
    }
    for (auto &o : open) {
      o.second.none |= none;
      // the server that was picked may withdraw the service before it gets to the request
      for (auto &x : st) {
        o.second.seen[x.first] |= x.second;
        if ((o.second.seen[x.first] & 1) && (o.second.seen[x.first] & 6)) o.second.none = true;
      }
      o.second.opt |= opt;
      o.second.opt2 |= opt2;
    }
  };
  for (auto &l : e.log) {
    if (l.what == "exec" && l.s.compare(0, 4, "OPT ") == 0) execs[l.s.substr(4)]++;
    if (l.what == "ctl") {
      int &s = st[l.proc];
      // from now until the end it may be in the old or the new state
      if (l.b == '-') s |= 1;
      if (l.b == '+' && (s & 1)) s |= 2;
      if (l.b == '*' && (s & 1)) s |= 4;
      update();
    } else if (l.what == "ctl-end") {
      int &s = st[l.proc];
      int was = s;
      int want;
      if (l.b == '-') {
        want = was == 1 ? ENOENT_ : 0;
        s = 1;
      } else {
        int bit = l.b == '+' ? 2 : 4;
        int old = was & 1 ? 1 : was;
        want = old == 1 || old == bit ? 0 : 23;  // TPEMATCH
        if (old == 1) s = bit;
      }
      if (l.a != want) return mc::fmt("a server %s: error %ld, should be %d", l.b == '-' ? "withdrawing OPT" : l.b == '+' ? "advertising OPT" : "advertising OPT with another routine", l.a, want);
      update();
    } else if (l.what == "stop") {
      int id = l.a * 100 + l.b;
      if (by_srv.count(id) || true)
        for (auto &x : ctl)
          if (x.second == id) st[x.first] |= 1;
      for (auto &x : fixed)
        if (x.second == id) st[x.first] |= 1;
      update();
    } else if (l.what == "stop-end") {
      int id = l.a * 100 + l.b;
      for (auto &x : ctl)
        if (x.second == id) st[x.first] = 1;
      for (auto &x : fixed)
        if (x.second == id) st[x.first] = 1;
      update();
    } else if (l.what == "opt") {
      open[l.proc] = {};
      open[l.proc].tag = l.s;
      update();
    } else if (l.what == "opt-end") {
      auto o = open[l.proc];
      open.erase(l.proc);
      if (l.a == ENOENT_) {
        if (!o.none) return "request " + o.tag + " failed with no entry although a server offered the service all the time";
        continue;
      }
      if (l.a != 0) return mc::fmt("request %s to OPT gave %ld", o.tag.c_str(), l.a);
      string d = field(l.s, "data");
      bool ok = d == o.tag + "/OPT" ? o.opt : d == o.tag + "/OPT2" ? o.opt2 : false;
      if (!ok) return "request " + o.tag + " was answered with \"" + d + "\" although no server offered that while it was made";
      expect[o.tag]++;
    }
  }
  if (!open.empty()) return "a call of OPT never ends: " + open.begin()->second.tag;
  for (auto &x : expect)
    if (execs[x.first] != 1) return mc::fmt("request %s was executed %d times", x.first.c_str(), execs[x.first]);
  for (auto &x : execs)
    if (!expect.count(x.first)) return "request " + x.first + " was executed although it failed";
  for (size_t p = 0; p < e.procs.size(); p++)
    if (!e.procs[p].done && e.procs[p].name.compare(0, 6, "client") == 0) return "a client never finishes: " + e.procs[p].at;
  for (size_t i = 0; i < e.queue_len.size(); i++)
    if (e.queue_len[i]) return mc::fmt("%zu messages stay in queue %d for ever", e.queue_len[i], e.queue_id[i]);
  for (int v : e.sems)
    if (v != 1) return mc::fmt("a bulletin board lock is left at %d", v);
  return "";
}

Actor S(const string &name, int table, int id, int grp = 1) { return {name, "app", "srv", table * 10000 + grp * 100 + id, true}; }
Actor C(const string &name, const string &fn, int arg) { return {name, "app", fn, arg}; }
enum { T_ECHO, T_FAIL, T_TWO, T_FWD, T_FWD2, T_BAD, T_CALLS, T_CTL, T_OPT, T_NONE };

void add(vector<Scenario> &r, const string &name, const string &config, const vector<Actor> &actors, const MsgOpt &mo = {}, const Options &op = {}) {
  Scenario s;
  s.name = name;
  s.config = config;
  s.actors = actors;
  s.opt = op;
  s.oracle = [mo](const Execution &e) { return judge(e, mo); };
  r.push_back(s);
}
}  // namespace

void scenarios_msg(const string &set, vector<Scenario> &r) {
  bool th = mc::thorough();
  vector<Srv> one = {{1, 1}}, two = {{1, 1}, {1, 2}}, mssq = {{1, 1, "q1"}, {1, 2, "q1"}};
  MsgOpt q1, q2;
  q1.live_queues = 1 + 0;
  q2.live_queues = 2;
  if (set == "C01") {
    add(r, "2 clients x 2 calls, 1 server", ubb(one), {S("server", T_ECHO, 1), C("client1", "cl_calls", 2), C("client2", "cl_calls", 2)}, q1);
    add(r, "2 clients x 2 calls, 2 servers", ubb(two), {S("server1", T_ECHO, 1), S("server2", T_ECHO, 2), C("client1", "cl_calls", 2), C("client2", "cl_calls", 2)}, q2);
    add(r, "2 clients x 2 calls, 2 servers on one queue", ubb(mssq), {S("server1", T_ECHO, 1), S("server2", T_ECHO, 2), C("client1", "cl_calls", 2), C("client2", "cl_calls", 2)}, q1);
    add(r, "client: all programs of 6 (7) operations, 1 server", ubb(one), {S("server", T_TWO, 1), C("client", "cl_prog", th ? 70 : 60)}, q1);
    add(r, "client: all programs of 5 (6) operations, 2 servers", ubb(two), {S("server1", T_TWO, 1), S("server2", T_TWO, 2), C("client", "cl_prog", th ? 60 : 50)}, q2);
    add(r, "client: all programs of 5 (6) operations, 2 servers on one queue", ubb(mssq), {S("server1", T_TWO, 1), S("server2", T_TWO, 2), C("client", "cl_prog", th ? 60 : 50)}, q1);
    add(r, "client: all programs of 6 (7) operations, any reply with a descriptor set before, 1 server", ubb(one), {S("server", T_TWO, 1), C("client", "cl_prog", th ? 77 : 67)}, q1);
    add(r, "2 clients: all programs of 2 and 3 (3 and 3) operations, 1 server", ubb(one), {S("server", T_TWO, 1), C("client1", "cl_prog", th ? 30 : 20), C("client2", "cl_prog", 30)}, q1);
    add(r, "3 requests in flight, replies fetched in reverse, 2 servers on one queue", ubb(mssq), {S("server1", T_ECHO, 1), S("server2", T_ECHO, 2), C("client", "cl_reverse", 3)}, q1);
  }
  if (set == "C02") {
    add(r, "client: all programs of 5 (6) operations with and without replies, 1 server", ubb(one), {S("server", T_TWO, 1), C("client", "cl_prog", th ? 62 : 52)}, q1);
    add(r, "client: all programs of 4 (5) operations with and without replies, 2 servers", ubb(two), {S("server1", T_TWO, 1), S("server2", T_TWO, 2), C("client", "cl_prog", th ? 52 : 42)}, q2);
    add(r, "client: all programs of 4 (5) operations with and without replies, 2 servers on one queue", ubb(mssq), {S("server1", T_TWO, 1), S("server2", T_TWO, 2), C("client", "cl_prog", th ? 52 : 42)}, q1);
    add(r, "2 clients: all programs of 2 (2 and 3) operations with and without replies, 1 server", ubb(one), {S("server", T_TWO, 1), C("client1", "cl_prog", 22), C("client2", "cl_prog", th ? 32 : 22)}, q1);
    add(r, "client: all programs of 5 (6) operations with unknown services", ubb(one), {S("server", T_ECHO, 1), C("client", "cl_prog", th ? 63 : 53)}, q1);
    add(r, "different services on 2 servers", ubb(two), {S("server1", T_ECHO, 1), S("server2", T_FAIL, 2), C("client", "cl_prog", th ? 52 : 42)}, q2);
    add(r, "a service that calls a service", ubb(two), {S("server1", T_CALLS, 1), S("server2", T_ECHO, 2), C("client1", "cl_list", 1515), C("client2", "cl_alist", 1501)}, {});
  }
  if (set == "C03") {
    add(r, "client: all programs of 6 (7) operations with cancelling, 1 server", ubb(one), {S("server", T_ECHO, 1), C("client", "cl_prog", th ? 71 : 61)}, q1);
    add(r, "client: all programs of 7 (8) operations with cancelling, 1 server", ubb(one), {S("server", T_ECHO, 1), C("client", "cl_prog", th ? 84 : 74)}, q1);
    add(r, "client: all programs of 8 (10) operations with cancelling, any reply", ubb(one), {S("server", T_ECHO, 1), C("client", "cl_prog", th ? 106 : 86)}, q1);
    add(r, "client: all programs of 5 (6) operations with cancelling, 2 servers on one queue", ubb(mssq), {S("server1", T_ECHO, 1), S("server2", T_ECHO, 2), C("client", "cl_prog", th ? 64 : 54)}, q1);
    add(r, "2 clients: all programs of 3 (4) operations with cancelling", ubb(one), {S("server", T_ECHO, 1), C("client1", "cl_prog", th ? 44 : 34), C("client2", "cl_prog", th ? 44 : 34)}, q1);
  }
  if (set == "C03") {
    static const char *kinds[] = {"calls", "asynchronous calls", "asynchronous calls and any reply", "cancelled calls", "calls without a reply", "calls of unknown services",
                                  "20 calls at a time", "calls that cannot be sent", "calls that cannot be written", "failing calls", "attachments", "bad descriptors"};
    for (int k = 0; k < 12; k++)
      add(r, mc::fmt("after 2300 %s: all programs of 4 (5) operations", kinds[k]), ubb(one), {S("server", T_BAD, 1), C("client", "cl_many", (th ? 5000 : 4000) + 100 + k)}, q1);
  }
  auto bounded = [](int n) {
    Options o;
    o.preempt = n;
    return o;
  };
  auto adv = [&](const string &name, const string &config, const vector<Actor> &actors, const std::map<int, int> &ctl, const std::map<int, int> &fixed, const Options &op = {}) {
    Scenario s;
    s.opt = op;
    s.name = name;
    s.config = config;
    s.actors = actors;
    s.oracle = [ctl, fixed](const Execution &e) { return judge_adv(e, ctl, fixed); };
    r.push_back(s);
  };
  if (set == "C06") {
    adv("1 server, 1 client: all programs of 5 operations", ubb(one), {S("server", T_CTL, 1), C("client", "cl_adv", th ? 60 : 50)}, {{0, 101}}, {});
    adv("2 servers that advertise and withdraw, 1 client", ubb(two), {S("server1", T_CTL, 1), S("server2", T_CTL, 2), C("client", "cl_adv", th ? 60 : 50)}, {{0, 101}, {1, 102}}, {});
    adv("1 server that withdraws, 1 that does not, 1 client", ubb(two), {S("server1", T_CTL, 1), S("server2", T_OPT, 2), C("client", "cl_adv", th ? 60 : 50)}, {{0, 101}}, {{1, 102}});
    adv("1 server, 2 clients", ubb(one), {S("server", T_CTL, 1), C("client1", "cl_adv", th ? 31 : 21), C("client2", "cl_adv", th ? 31 : 21)}, {{0, 101}}, {});
    adv("2 servers that advertise and withdraw, 2 clients", ubb(two), {S("server1", T_CTL, 1), S("server2", T_CTL, 2), C("client1", "cl_advlist", 131), C("client2", "cl_adv", 21)}, {{0, 101}, {1, 102}}, {});
    adv("1 server that withdraws, 1 that does not, 2 clients", ubb(two), {S("server1", T_CTL, 1), S("server2", T_OPT, 2), C("client1", "cl_advlist", 12134), C("client2", "cl_advlist", 121)}, {{0, 101}}, {{1, 102}});
    adv("1 server, clients that call while it advertises and withdraws", ubb(one), {S("server", T_CTL, 1), C("client1", "cl_advlist", 34534), C("client2", "cl_advlist", 121)}, {{0, 101}}, {});
    adv("a server that stops", ubb(one), {S("server", T_OPT, 1), C("client1", "cl_advlist", 2176121), Actor{"stopper", "app", "shut_after", 101}}, {}, {{0, 101}});
    adv("a server that stops, another goes on", ubb(two), {S("server1", T_OPT, 1), S("server2", T_OPT, 2), C("client1", "cl_advlist", 21217621), Actor{"stopper", "app", "shut_after", 101}}, {}, {{0, 101}, {1, 102}});
    adv("a server that advertised on demand and stops", ubb(one), {S("server", T_CTL, 1), C("client1", "cl_advlist", 217614), Actor{"stopper", "app", "shut_after", 101}}, {{0, 101}}, {});
  }
  if (set == "C07") {
    MsgOpt s1, s2, sm;
    s1.stops = s2.stops = sm.stops = true;
    s1.stopped = {{0, 0}};
    sm.stopped = {{0, 2}};
    auto stop = [](int id) { return Actor{"stopper", "app", "shut_after", id}; };
    auto now = [](int id) { return Actor{"stopper", "app", "shut_now", id}; };
    add(r, "all sequences of 3 outcomes", ubb(one), {S("server", T_BAD, 1), C("client", "cl_prog", th ? 49 : 39)}, q1);
    add(r, "all asynchronous sequences of outcomes", ubb(one), {S("server", T_BAD, 1), C("client", "cl_prog2", th ? 40 : 30)}, q1);
    add(r, "all asynchronous sequences of outcomes, 2 servers on one queue", ubb(mssq), {S("server1", T_BAD, 1), S("server2", T_BAD, 2), C("client", "cl_prog2", th ? 30 : 20)}, q1);
    add(r, "a client ends without its replies", ubb(one), {S("server", T_BAD, 1), C("client1", "cl_leave", th ? 3 : 2), C("client2", "cl_list", 1)}, q1);
    add(r, "2 clients, throwing services", ubb(one), {S("server", T_BAD, 1), C("client1", "cl_prog2", 21), C("client2", "cl_prog2", 22)}, q1);
    add(r, "2 clients, failing services", ubb(one), {S("server", T_BAD, 1), C("client1", "cl_prog2", 23), C("client2", "cl_list", 10913)}, q1);
    add(r, "a server is stopped with requests in its queue", ubb(one), {S("server", T_BAD, 1), C("client", "cl_seq", 641511), stop(101)}, s1);
    add(r, "an idle server is stopped", ubb(one), {S("server", T_BAD, 1), now(101)}, s1);
    add(r, "a server of two is stopped, same number in another group", ubb({{1, 1}, {2, 1}}), {S("server1", T_BAD, 1), S("server2", T_BAD, 1, 2), C("client", "cl_seq", 2276211), stop(101)}, s1);
    vector<Srv> gms = {{1, 1, "q1"}, {2, 1, "q1"}};
    add(r, "a server of two on one queue is stopped, same number in another group", ubb(gms), {S("server1", T_BAD, 1), S("server2", T_BAD, 1, 2), C("client", "cl_seq", 276311), stop(101)}, s1);
    MsgOpt s2nd = s1;
    s2nd.stopped = {{1, 0}};
    add(r, "the second server of two on one queue is stopped, same number in another group", ubb(gms), {S("server1", T_BAD, 1), S("server2", T_BAD, 1, 2), C("client", "cl_seq", 276311), stop(201)}, s2nd);
    add(r, "a server of two on one queue is stopped", ubb(mssq), {S("server1", T_BAD, 1), S("server2", T_BAD, 2), C("client", "cl_seq", 276311), stop(101)}, s1);
    add(r, "a server of two on one queue is stopped while requests arrive", ubb(mssq), {S("server1", T_BAD, 1), S("server2", T_BAD, 2), C("client", "cl_seq", th ? 211 : 21), now(101)}, s1);
    MsgOpt both = s1;
    both.stopped = {{0, 0}, {1, 0}};
    add(r, "both servers on one queue are stopped", ubb(mssq), {S("server1", T_BAD, 1), S("server2", T_BAD, 2), C("client", "cl_seq", 631), stop(102), now(101)}, both, bounded(th ? 4 : 2));
  }
  if (set == "C07" || set == "C06") {
    MsgOpt sm;
    sm.stops = true;
    sm.stopped = {{0, 2}};
    auto mt = [](const string &n, int table, int id) { return Actor{n, "app", "srv_mt", table * 10000 + 100 + id, true}; };
    vector<Srv> m1 = {{1, 1, "", "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2"}};
    if (set == "C07") add(r, "threads", ubb(m1), {mt("server", T_BAD, 1), C("client1", "cl_list", 101), C("client2", "cl_list", 101)});
    if (set == "C07") add(r, "threads, asynchronous", ubb(m1), {mt("server", T_BAD, 1), C("client1", "cl_seq", 11)});
    if (set == "C07") add(r, "threads, any outcome", ubb(m1), {mt("server", T_BAD, 1), C("client1", "cl_prog2", 20)});
    Options rc;
    rc.races = true;
    rc.preempt = th ? 3 : 2;
    if (set == "C07") add(r, "threads, races", ubb(m1), {mt("server", T_BAD, 1), C("client1", "cl_seq", 511)}, {}, rc);
    if (set == "C07") add(r, "threads, races while stopping", ubb(m1), {mt("server", T_BAD, 1), C("client1", "cl_seq", 61), Actor{"stopper", "app", "shut_after", 101}}, sm, rc);
    if (set == "C06") adv("threads, advertising", ubb(m1), {mt("server", T_CTL, 1), C("client1", "cl_advlist", 13143), C("client2", "cl_advlist", 1)}, {{0, 101}}, {}, bounded(th ? 3 : 2));
    if (set == "C06") adv("threads, advertising, races", ubb(m1), {mt("server", T_CTL, 1), C("client1", "cl_advlist", 34), C("client2", "cl_advlist", 1)}, {{0, 101}}, {}, rc);
    if (set == "C07") add(r, "threads, stop", ubb(m1), {mt("server", T_BAD, 1), C("client1", "cl_seq", 611), Actor{"stopper", "app", "shut_after", 101}}, sm);
  }
  if (set == "C08") {
    vector<Srv> f3 = {{1, 1}, {1, 2}, {2, 3}};
    auto srvs = [&](int a, int b, int c) { return vector<Actor>{S("server1", a, 1), S("server2", b, 2), S("server3", c, 3, 2)}; };
    auto with = [](vector<Actor> v, const vector<Actor> &w) {
      for (auto &a : w) v.push_back(a);
      return v;
    };
    // service numbers + 1, base 100, first call in the lowest digits: ECHO 1, FAIL 2, FWD 3, FWDS 4, FWDX 5, FWDXS 6, FWD2 7
    for (const char *fn : {"cl_list", "cl_alist", "cl_nlist"}) {
      string f = fn;
      string how = f == "cl_list" ? "synchronous" : f == "cl_alist" ? "asynchronous" : "without reply";
      add(r, "forwarded " + how + " requests", ubb(f3), with(srvs(T_FWD, T_TWO, T_FWD2), {C("client", fn, 7040301)}), {});
      add(r, "forwarding to unknown services, " + how, ubb(f3), with(srvs(T_FWD, T_TWO, T_FWD2), {C("client", fn, 5060503)}), {});
      add(r, "chain of forwards, 2 clients, " + how, ubb(f3), with(srvs(T_FWD, T_TWO, T_FWD2), {C("client1", fn, 703), C("client2", fn, 704)}), {});
    }
    vector<Srv> ms = {{1, 1, "q1"}, {1, 2, "q2"}, {1, 3, "q2"}};
    add(r, "forwarding to 2 servers on one queue", ubb(ms), {S("server1", T_FWD, 1), S("server2", T_TWO, 2), S("server3", T_TWO, 3), C("client1", "cl_alist", 30403), C("client2", "cl_list", 4)}, {});
    // the queues take a message or two: forwarding waits, nothing is lost
    for (int q : {400, 700, 1100}) {
      Options full;
      full.qbytes = q;
      add(r, mc::fmt("queues of %d bytes, forwarded requests of 3 clients", q), ubb(f3),
          with(srvs(T_FWD, T_TWO, T_FWD2), {C("client1", "cl_list", 1), C("client2", "cl_list", 3), C("client3", "cl_list", 4)}), {}, full);
      add(r, mc::fmt("queues of %d bytes, chains of forwards, 2 clients", q), ubb(f3),
          with(srvs(T_FWD, T_TWO, T_FWD2), {C("client1", "cl_list", 703), C("client2", "cl_list", 107)}), {}, full);
      add(r, mc::fmt("queues of %d bytes, forwarding without reply", q), ubb(f3),
          with(srvs(T_FWD, T_TWO, T_FWD2), {C("client1", "cl_nlist", 30303), C("client2", "cl_list", 1)}), {}, full);
    }
    if (th) add(r, "2 clients, all programs mixing forwarded and direct requests", ubb(f3), with(srvs(T_FWD, T_TWO, T_FWD2), {C("client1", "cl_prog", 28), C("client2", "cl_prog", 28)}), {});
  }
}
