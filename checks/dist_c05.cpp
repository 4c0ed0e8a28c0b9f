// C05: requests and replies arrive intact whatever their size, type and path.
#include <deque>
#include "dist.h"

namespace {
struct SzOpt {
  bool faults = false;
  bool strict = false;  // the last call works whatever failed before
  bool refuse = false;  // requests may be refused because the queue is full
};

string judge(const Execution &e, const SzOpt &o) {
  string w = stuck(e);
  if (!w.empty()) return w;
  bool fault = false, recent = false;
  string where;
  std::multiset<string> sent, seen, unsure;
  std::map<string, std::deque<string>> dummy;
  // replies and forwarded requests, matched by their unique contents
  std::multiset<string> replies, got, fwd;
  int none = 0, gotnone = 0;
  std::map<int, string> last;
  std::map<int, bool> faulted;
  for (auto &l : e.log) {
    if (l.what == "fault") {
      fault = recent = true;
      where = l.s;
      faulted[l.proc] = true;
    } else if (l.what == "send") {
      last[l.proc] = l.s;
      recent = false;
      sent.insert(l.s);
    } else if (l.what == "sendn") {
      sent.insert(l.s);
      none--;  // the service still makes a reply
    } else if (l.what == "refused") {
      if (!o.refuse && !fault) return mc::fmt("sending %s failed with %ld", l.s.c_str(), l.a);
      if (o.refuse && !fault && l.a != 3) return mc::fmt("sending %s to a full queue failed with %ld", l.s.c_str(), l.a);
    } else if (l.what == "fw") {
      fwd.insert(l.s);
    } else if (l.what == "rq") {
      seen.insert(l.s);
    } else if (l.what == "rp") {
      replies.insert(l.s);
      if (l.s == "none") none++;
    } else if (l.what == "got" || l.what == "gotr" || l.what == "maybe" || l.what == "last") {
      if (l.a != 0) {
        if (l.what != "maybe" && (o.strict || l.what != "last")) return mc::fmt("the call with %s failed with %ld", last[l.proc].c_str(), l.a);
        if (!recent) return mc::fmt("the call with %s failed with %ld although nothing went wrong", last[l.proc].c_str(), l.a);
        // the request may or may not have been sent
        auto it = sent.find(last[l.proc]);
        unsure.insert(*it);
        sent.erase(it);
        continue;
      }
      if (l.b && !replies.count(l.s)) {
        if (!replies.count("none")) return "the reply buffer was left alone although the service replied with data";
        gotnone++;
      } else {
        if (!replies.count(l.s)) return "a client got the reply " + l.s + " that no service made";
        got.insert(l.s);
      }
    } else if (l.what == "server-end") {
      return mc::fmt("a server ended (%s failed)", where.c_str());
    }
  }
  for (auto &s : fwd) sent.insert(s);
  for (auto &s : seen) {
    auto it = sent.find(s);
    if (it != sent.end()) {
      sent.erase(it);
      continue;
    }
    auto iu = unsure.find(s);
    if (iu == unsure.end()) return "a service got the request " + s + " that nobody sent";
    unsure.erase(iu);
  }
  // a server that cannot read a message file loses the request
  bool lost = false;
  for (size_t p = 0; p < e.procs.size(); p++)
    if (faulted[p] && e.procs[p].name.compare(0, 6, "server") == 0) lost = true;
  if (!sent.empty() && !(lost && sent.size() == 1)) return "the request " + *sent.begin() + " never reached a service";
  for (auto &s : got)
    if (s != "none" && got.count(s) > replies.count(s) + replies.count("none")) return "the reply " + s + " was received more often than it was sent";
  for (size_t p = 0; p < e.procs.size(); p++)
    if (e.procs[p].name.compare(0, 6, "client") == 0 && !e.procs[p].done) return "a client never finishes: " + e.procs[p].at;
  for (size_t i = 0; i < e.queue_len.size(); i++)
    if (e.queue_len[i]) return mc::fmt("%zu messages stay in queue %d for ever", e.queue_len[i], e.queue_id[i]);
  // a file that could not be removed is not the library's fault
  if (!e.files.empty() && where != "unlink") return "the temporary file " + e.files[0] + " is left behind" + (fault ? " after " + where + " failed" : "");
  if (!e.open_files.empty()) return "the file " + e.open_files[0] + " stays open" + (fault ? " after " + where + " failed" : "");
  for (int v : e.sems)
    if (v != 1) return mc::fmt("a bulletin board lock is left at %d", v);
  return "";
}

void add(vector<Scenario> &r, const string &name, const string &config, const vector<Actor> &actors, const SzOpt &so = {}, const Options &op = {}) {
  Scenario s;
  s.name = name;
  s.config = config;
  s.actors = actors;
  s.opt = op;
  s.oracle = [so](const Execution &e) { return judge(e, so); };
  r.push_back(s);
}
}  // namespace

void scenarios_sizes(const string &set, vector<Scenario> &r) {
  if (set != "C05") return;
  bool th = mc::thorough();
  // kinds: 0 every size, 1 some sizes, 2 six kinds, 3 three, 4 none/small/file, 5 a file, 9 one
  auto S = [](const string &name, int mode, int id, int fwd = 0, bool faults = true) {
    Actor a{name, "app", "srv_size", mode * 10000 + fwd * 1000 + 100 + id, true};
    a.faults = faults;
    return a;
  };
  auto C = [](const string &name, int svc, int mode, int buf, int n, int style, bool faults = true) {
    Actor a{name, "app", "cl_size", svc * 1000000 + mode * 100000 + buf * 10000 + n * 100 + style};
    a.faults = faults;
    return a;
  };
  vector<Srv> one = {{1, 1}}, two = {{1, 1}, {1, 2}};
  add(r, "requests of every size", ubb(one), {S("server", 9, 1), C("client", 0, 0, 3, 1, 0)});
  add(r, "replies of every size", ubb(one), {S("server", 0, 1), C("client", 0, 9, 3, 1, 0)});
  add(r, "requests of every size, returned", ubb(one), {S("server", 9, 1), C("client", 1, 0, 3, 1, 0)});
  add(r, "requests and replies of some sizes", ubb(one), {S("server", 1, 1), C("client", 0, 1, 3, 1, 0)});
  add(r, "sequences of 3 calls", ubb(one), {S("server", 2, 1), C("client", 0, 2, 0, 3, 0)});
  add(r, "sequences of 4 calls, data returned", ubb(one), {S("server", 2, 1), C("client", 1, 2, 1, th ? 6 : 4, 0)});
  add(r, "requests without replies", ubb(one), {S("server", 4, 1), C("client", 0, 1, 0, th ? 3 : 2, 2)});
  add(r, "forwarded requests of some sizes", ubb(two), {S("server1", 1, 1, 1), S("server2", 4, 2), C("client", 2, 4, 0, 1, 0)});
  add(r, "forwarded requests of every size", ubb(two), {S("server1", 0, 1, 1), S("server2", 9, 2), C("client", 2, 9, 0, 1, 0)});
  add(r, "requests of every size, forwarded unchanged", ubb(two), {S("server1", 9, 1, 1), S("server2", 9, 2), C("client", 3, 0, 0, 1, 0)});
  add(r, "2 asynchronous requests, replies in the opposite order", ubb(one), {S("server", th ? 2 : 4, 1), C("client", 0, 2, 0, 2, 1)});
  add(r, "2 clients with big messages", ubb(one), {S("server", 3, 1), C("client1", 0, 5, 0, 1, 0), C("client2", 0, 3, 2, 1, 0)});
  add(r, "a client that ends without its replies", ubb(one), {S("server", 4, 1), C("client", 0, 2, 0, 2, 8)});
  SzOpt refuse;
  refuse.refuse = true;
  Options full;
  full.qbytes = 4200;
  add(r, "a full queue, non-blocking", ubb(one), {S("server", 9, 1), C("client", 0, 2, 0, th ? 5 : 4, 3)}, refuse, full);
  full.qbytes = 700;
  add(r, "a full queue, non-blocking, big messages", ubb(one), {S("server", 9, 1), C("client", 0, 4, 0, 5, 3)}, refuse, full);
  add(r, "a full queue, without a time limit", ubb(one), {S("server", 9, 1), C("client", 0, 4, 0, th ? 4 : 3, 6), C("client2", 0, 4, 0, th ? 2 : 1, 6)}, {}, full);
  SzOpt f;
  f.faults = true;
  Options o1;
  o1.faults = th ? 2 : 1;
  add(r, "failing system calls of the caller", ubb(one), {S("server", 4, 1, 0, false), C("client", 0, 4, 0, 1, 4)}, f, o1);
  add(r, "failing system calls of the caller, 2 calls", ubb(one), {S("server", 4, 1, 0, false), C("client", 0, 4, 0, 2, 4)}, f, o1);
  Options o2;
  o2.faults = 1;
  o2.fault_calls = {"mkstemp", "write", "close", "msgsnd"};
  add(r, "failing system calls of the service's reply", ubb(one), {S("server", 4, 1), C("client", 0, 9, 0, 2, 7, false)}, f, o2);
  add(r, "failing system calls of the forwarding service", ubb(two), {S("server1", 4, 1, 1), S("server2", 9, 2, 0, false), C("client", 2, 9, 0, 2, 7, false)}, f, o2);
  Options o3;
  SzOpt fs = f;
  fs.strict = true;
  o3.faults = 1;
  o3.fault_calls = {"stat", "open", "read", "close", "unlink"};
  add(r, "failing system calls of the receiving service", ubb(one), {S("server", 9, 1), C("client", 0, 5, 0, 1, 5, false)}, fs, o3);
}
