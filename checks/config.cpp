// M03: configuration files. Every configuration made of a base and up to two
// (three) deviations, every damaged text, every truncated binary file, and a
// crash or a failing system call anywhere in tmloadcf.
#include <algorithm>
#include <dirent.h>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <unistd.h>
#include "../lib/mc.h"
#include "mib.h"
#include "ubbreader.h"

int tmloadcf_main(int argc, char **argv);
int tmunloadcf_main(int argc, char **argv);
void ubb2mib(ubbconfig &u, mib &m);

using std::string;
using std::vector;
// What tmloadcf allocates is not freed: it ends. Here it does not.
static vector<void *> *g_keep;
extern "C" void *__real_calloc(size_t a, size_t b);
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (g_keep) g_keep->push_back(p);
  return p;
}

namespace {
string dir, bin, txt, txt2;
uint64_t n = 0, states = 0;

string slurp(const string &f, bool *there = nullptr) {
  string s;
  FILE *p = fopen(f.c_str(), "rb");
  if (there) *there = p;
  if (!p) return s;
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof(b), p)) > 0) s.append(b, k);
  fclose(p);
  return s;
}
void spit(const string &f, const string &s) {
  FILE *p = fopen(f.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), p);
  fclose(p);
}
struct Keep {
  vector<void *> v;
  Keep() { g_keep = &v; }
  ~Keep() {
    g_keep = nullptr;
    for (void *p : v) free(p);
  }
};
string g_err;
int tool(int (*f)(int, char **), const vector<string> &args, string *out = nullptr) {
  n++;
  Keep k;
  vector<char *> av;
  string name = "tool";
  av.push_back(&name[0]);
  auto a = args;
  for (auto &x : a) av.push_back(&x[0]);
  av.push_back(nullptr);
  std::ostringstream so, se;
  auto *o = std::cout.rdbuf(so.rdbuf()), *e = std::cerr.rdbuf(se.rdbuf());
  int rc = f(av.size() - 1, av.data());
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  std::cin.clear();
  if (out) *out = so.str();
  g_err = se.str();
  return rc & 255;
}
int load(const string &f, bool check_only = false) { return check_only ? tool(tmloadcf_main, {"-n", f}) : tool(tmloadcf_main, {"-y", f}); }

// ---------------------------------------------------------------- configurations
typedef vector<std::pair<string, string>> KV;
struct Obj {
  string name;
  KV kv;
};
struct Cfg {
  KV res;
  vector<Obj> mach, grp, srv;
  // layout
  string order = "RMGS", gap = " ", eq = "=", between, comment;
  bool quote = false, lines = false, split = false;
};
void set(KV &k, const string &key, const string &v) {
  for (auto &x : k)
    if (x.first == key) {
      x.second = v;
      return;
    }
  k.push_back({key, v});
}
void drop(KV &k, const string &key) {
  k.erase(std::remove_if(k.begin(), k.end(), [&](auto &x) { return x.first == key; }), k.end());
}
string value(const Cfg &c, const string &v) {
  bool q = c.quote || v.empty();
  for (char ch : v) q |= isspace((unsigned char)ch) || ch == '#' || ch == '=';
  return q ? "\"" + v + "\"" : v;
}
string render(const Cfg &c) {
  string s = c.comment;
  auto objects = [&](const vector<Obj> &v) {
    for (auto &o : v) {
      s += c.quote ? "\"" + o.name + "\"" : o.name;
      int i = 0;
      for (auto &k : o.kv) {
        s += c.lines && i++ ? "\n" + (c.gap.empty() ? " " : c.gap) : c.gap;
        s += k.first + c.eq + value(c, k.second);
      }
      s += "\n" + c.between;
    }
  };
  for (char w : c.order) {
    s += string("*") + (w == 'R' ? "RESOURCES" : w == 'M' ? "MACHINES" : w == 'G' ? "GROUPS" : "SERVERS") + (c.comment.empty() ? "\n" : " # that was a section\n");
    if (w == 'R')
      for (auto &k : c.res) s += (c.quote ? "\"" + k.first + "\"" : k.first) + c.gap + value(c, k.second) + "\n" + c.between;
    if (w == 'M') objects(c.mach);
    if (w == 'G') objects(c.grp);
    if (w == 'S') objects(c.srv);
    if (c.split && (w == 'G' || w == 'S')) {
      // the section is there twice
      s += string("*") + (w == 'G' ? "GROUPS" : "SERVERS") + "\n";
    }
  }
  return s;
}
Cfg base() {
  Cfg c;
  c.res = {{"IPCKEY", "33333"}, {"MASTER", "tux1"}, {"MODEL", "SHM"}, {"MAXSERVERS", "12"}, {"MAXSERVICES", "7"}, {"MAXQUEUES", "11"}, {"MAXGROUPS", "4"}, {"MAXACCESSERS", "5"}};
  c.mach = {{"host-1", {{"LMID", "tux1"}, {"TUXCONFIG", bin}, {"TUXDIR", "/opt/tux dir"}, {"APPDIR", "/app"}}}};
  c.grp = {{"G1", {{"LMID", "tux1"}, {"GRPNO", "1"}}}, {"G2", {{"LMID", "tux1"}, {"GRPNO", "2"}, {"TMSNAME", "TMS"}, {"TMSCOUNT", "2"}, {"OPENINFO", "RM:a=b # c"}, {"CLOSEINFO", ""}}}};
  c.srv = {{"one", {{"SRVGRP", "G1"}, {"SRVID", "1"}, {"CLOPT", "-A -- x"}}}, {"two", {{"SRVGRP", "G2"}, {"SRVID", "10"}, {"MIN", "1"}, {"MAX", "3"}, {"CLOPT", ""}}}};
  return c;
}
// ---------------------------------------------------------------- what it should be
enum Verdict { ok, refuse, either };
struct Expected {
  Verdict v = ok;
  string why;
  std::map<string, string> t;
};
struct Judge {
  Expected e;
  void bad(const string &w) {
    if (e.v != refuse) e.v = refuse, e.why = w;
  }
  void unsure() {
    if (e.v == ok) e.v = either;
  }
  const string *get(const KV &k, const string &key) {
    const string *r = nullptr;
    for (auto &x : k)
      if (x.first == key) {
        if (r) unsure();
        if (!r) r = &x.second;
      }
    return r;
  }
  long number(const KV &k, const string &key, long lo, long hi, long def, bool required = false) {
    auto *s = get(k, key);
    if (!s) {
      if (required) bad(key + " is missing");
      return def;
    }
    size_t i = !s->empty() && (*s)[0] == '-';
    bool digits = i < s->size();
    for (size_t p = i; p < s->size(); p++) digits &= isdigit((*s)[p]) != 0;
    if (!digits) {
      // an empty text may stand for the default
      if ((s->empty() && (key == "BLOCKTIME" || key == "SCANUNIT")) || (!s->empty() && ((*s)[0] == '+' || isspace((*s)[0])))) unsure();
      else bad(key + " is not a number");
      return def;
    }
    if (s->size() > 17) {
      bad(key + " is out of range");
      return def;
    }
    long v = atol(s->c_str());
    if (v < lo || v > hi) bad(key + " is out of range");
    return v;
  }
  string text(const KV &k, const string &key, size_t len, bool required = false) {
    auto *s = get(k, key);
    if (!s) {
      if (required) bad(key + " is missing");
      return "";
    }
    if (s->size() > len) unsure();
    return *s;
  }
};
Expected expected(const Cfg &c) {
  Judge j;
  auto &t = j.e.t;
  long ms = j.number(c.res, "MAXSERVERS", 1, 8192, 50), mv = j.number(c.res, "MAXSERVICES", 1, 1048575, 100), mg = j.number(c.res, "MAXGROUPS", 1, 32768, 100),
       mq = j.number(c.res, "MAXQUEUES", 1, 8192, 50), ma = j.number(c.res, "MAXACCESSERS", 1, 32768, 50), key = j.number(c.res, "IPCKEY", 1, 0x7fffffff, 0, true);
  if (ms * mv > 15000000) j.unsure();  // may need more memory than there is
  t["limits"] = mc::fmt("servers %ld services %ld groups %ld queues %ld accessers %ld key %ld", ms, mv, mg, mq, ma, key);
  long bt = j.number(c.res, "BLOCKTIME", 0, 1000000, 15);
  long unit = 1000;
  if (auto *s = j.get(c.res, "SCANUNIT")) {
    string x = *s;
    long f = 1000;
    if (x.size() > 2 && strcasecmp(x.c_str() + x.size() - 2, "ms") == 0) x.resize(x.size() - 2), f = 1;
    KV one = {{"SCANUNIT", x}};
    unit = f * j.number(one, "SCANUNIT", 0, 1000000, 1);
  }
  if (c.mach.size() != 1) {
    j.bad("there is not exactly one machine");
    return j.e;
  }
  auto &m = c.mach[0];
  if (m.name.size() > 50) j.unsure();
  if (j.text(m.kv, "TUXCONFIG", 200, true) != bin) j.bad("TUXCONFIG is another file");
  t["machine"] = m.name + " lmid " + j.text(m.kv, "LMID", 25, true) + " tuxdir " + j.text(m.kv, "TUXDIR", 200, true) + " appdir " + j.text(m.kv, "APPDIR", 200, true) + " ulogpfx " +
                 j.text(m.kv, "ULOGPFX", 200) + " tlogdevice " + j.text(m.kv, "TLOGDEVICE", 200) + mc::fmt(" blocktime %ld", bt * unit);
  std::map<string, long> groups;
  std::map<string, int> queues;
  std::set<long> numbers;
  long servers = 0;
  std::set<std::pair<long, long>> ids;
  auto server = [&](long grp, long id, const string &name, const string &clopt, const string &q, bool start, long lo, long hi) {
    if (!ids.insert({grp, id}).second) j.bad("two servers have the same id");
    servers++;
    queues[q]++;
    if (name.size() > 78 || clopt.size() > 200 || q.size() > 25) j.unsure();
    t[mc::fmt("server %ld.%ld", grp, id)] = name + " clopt " + clopt + " queue " + q + (start ? " started" : "") + (lo >= 0 ? mc::fmt(" threads %ld-%ld", lo, hi) : "");
  };
  server(0, 0, "BBL", "-A", ".BBL", true, -1, -1);
  for (auto &g : c.grp) {
    long no = j.number(g.kv, "GRPNO", 1, 30000, 0, true);
    if (!numbers.insert(no).second) j.bad("two groups have the same number");
    if (!groups.emplace(g.name, no).second) j.bad("two groups have the same name");
    if (g.name.size() > 25) j.unsure();
    string tms = j.text(g.kv, "TMSNAME", 200);
    t[mc::fmt("group %ld", no)] = g.name + " open " + j.text(g.kv, "OPENINFO", 200) + " close " + j.text(g.kv, "CLOSEINFO", 200) + " tms " + tms;
    if (tms.empty()) {
      if (j.get(g.kv, "TMSCOUNT")) j.unsure();
      continue;
    }
    long k = j.number(g.kv, "TMSCOUNT", 2, 10, 3);
    for (long i = 0; i < k; i++) server(no, 30001 + i, tms, "-A", mc::fmt("%ld.TM", no), true, -1, -1);
  }
  if ((long)groups.size() > mg) j.bad("too many groups");
  for (auto &s : c.srv) {
    string g = j.text(s.kv, "SRVGRP", 25, true);
    if (!groups.count(g)) j.bad("no such group");
    long id = j.number(s.kv, "SRVID", 1, 30000, 0, true), lo = j.number(s.kv, "MIN", 1, 1000, 1), hi = j.number(s.kv, "MAX", 1, 1000, lo);
    long tl = j.number(s.kv, "MINDISPATCHTHREADS", 1, 1000, 1), th = j.number(s.kv, "MAXDISPATCHTHREADS", 1, 1000, 1);
    if (tl > th) j.unsure();
    if (hi < lo) j.bad("MAX is below MIN");
    if (id + hi > 30000 + 1) j.unsure();
    string q = j.text(s.kv, "RQADDR", 25), clopt = j.text(s.kv, "CLOPT", 200);
    if (!j.get(s.kv, "CLOPT")) j.unsure();
    for (long i = 0; i < hi && i < 1100; i++) server(groups.count(g) ? groups[g] : -1, id + i, s.name, clopt, q.empty() ? mc::fmt("%ld.%ld", groups[g], id + i) : q, i < lo, tl, th);
  }
  if (servers > ms) j.bad("too many servers");
  if ((long)queues.size() > mq) j.bad("too many queues");
  for (auto &q : queues) t["queue " + q.first] = mc::fmt("%d servers", q.second);
  return j.e;
}
// what a process that attaches would find; throws what the library throws
std::map<string, string> loaded() {
  std::map<string, string> t;
  Keep keep;
  ubbconfig u;
  auto cfg = getconfig(&u);
  mib m(cfg, fux::mib::in_heap());
  m->conf = cfg;
  ubb2mib(u, m);
  auto &d = m.domain();
  if (d.maxservers != cfg.maxservers || d.maxservices != cfg.maxservices || d.maxgroups != cfg.maxgroups || d.maxqueues != cfg.maxqueues || d.maxaccessers != cfg.maxaccessers) t["domain"] = "differs from the limits";
  t["limits"] = mc::fmt("servers %ld services %ld groups %ld queues %ld accessers %ld key %ld", (long)cfg.maxservers, (long)cfg.maxservices, (long)cfg.maxgroups, (long)cfg.maxqueues, (long)cfg.maxaccessers, (long)cfg.ipckey);
  auto &h = m.mach();
  t["machine"] = string(h.address) + " lmid " + h.lmid + " tuxdir " + h.tuxdir + " appdir " + h.appdir + " ulogpfx " + h.ulogpfx + " tlogdevice " + h.tlogdevice + mc::fmt(" blocktime %ld", (long)h.blocktime);
  for (size_t i = 0; i < m.groups().length(); i++) {
    auto &g = m.groups().at(i);
    t[mc::fmt("group %d", g.grpno)] = string(g.srvgrp) + " open " + g.openinfo + " close " + g.closeinfo + " tms " + g.tmsname;
  }
  for (size_t i = 0; i < m.servers().length(); i++) {
    auto &s = m.servers().at(i);
    t[mc::fmt("server %d.%d", s.grpno, s.srvid)] = string(s.servername) + " clopt " + s.clopt + " queue " + m.queues().at(s.rqaddr).rqaddr + (s.autostart ? " started" : "") +
                                                    (s.srvid == 0 || s.srvid > 30000 ? "" : mc::fmt(" threads %d-%d", s.mindispatchthreads, s.maxdispatchthreads));
  }
  for (size_t i = 0; i < m.queues().length(); i++) t[string("queue ") + m.queues().at(i).rqaddr] = mc::fmt("%ld servers", m.queues().at(i).servercnt);
  return t;
}
string differs(const std::map<string, string> &want, const std::map<string, string> &got) {
  for (auto &w : want) {
    auto it = got.find(w.first);
    if (it == got.end()) return w.first + " (" + w.second + ") is missing";
    if (it->second != w.second) return w.first + " is: " + it->second + ", configured: " + w.second;
  }
  for (auto &g : got)
    if (!want.count(g.first)) return g.first + " (" + g.second + ") was not configured";
  return "";
}
std::set<string> listing() {
  std::set<string> r;
  DIR *d = opendir(dir.c_str());
  while (auto *e = readdir(d))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.insert(e->d_name);
  closedir(d);
  return r;
}
string g_old;
// Runs everything on one text. want: nullptr if only consistency is judged
string judge(const string &text, const Expected *want, bool had) {
  spit(txt, text);
  if (had) spit(bin, g_old);
  else unlink(bin.c_str());
  auto files = listing();
  auto unchanged = [&]() -> string {
    bool there;
    string s = slurp(bin, &there);
    if (there != had) return had ? "the binary configuration is gone" : "a binary configuration was written";
    if (there && s != g_old) return "the binary configuration was overwritten";
    if (listing() != files) return "files were left behind";
    return "";
  };
  states++;
  int e1 = load(txt, true);
  string w = unchanged();
  if (!w.empty()) return "checking the syntax: " + w;
  int e2 = load(txt);
  string err = g_err;
  if (e1 != e2) return mc::fmt("checking the syntax exits with %d, loading with %d", e1, e2);
  if (e2 != 0) {
    w = unchanged();
    if (!w.empty()) return "refused (" + err + "), but " + w;
    if (err.empty()) return "refused without a message";
    if (want && want->v == ok) return "refused: " + err;
    return "";
  }
  if (want && want->v == refuse) return "accepted, but " + want->why;
  auto now = listing();
  now.erase("tuxconfig");
  files.erase("tuxconfig");
  if (now != files) return "other files were left behind";
  std::map<string, string> got;
  try {
    got = loaded();
  } catch (const std::exception &e) {
    return string("accepted, but can not be used: ") + e.what();
  }
  if (want && want->v == ok) {
    w = differs(want->t, got);
    if (!w.empty()) return w;
  }
  string out;
  if (tool(tmunloadcf_main, {}, &out) != 0) return "unloading failed: " + g_err;
  spit(txt2, out);
  spit(bin, g_old);
  if (load(txt2) != 0) return "the unloaded text is refused: " + g_err;
  try {
    w = differs(got, loaded());
  } catch (const std::exception &e) {
    w = string("can not be used: ") + e.what();
  }
  if (!w.empty()) return "the unloaded text: " + w;
  return "";
}
typedef std::pair<string, std::function<void(Cfg &)>> Dev;
vector<Dev> deviations() {
  vector<Dev> d;
  auto add = [&](const string &name, std::function<void(Cfg &)> f) { d.push_back({name, f}); };
  // layout
  for (string o : {"MRGS", "SGMR", "GSRM"}) add("sections " + o, [o](Cfg &c) { c.order = o; });
  add("tabs", [](Cfg &c) { c.gap = "\t"; });
  add("wide", [](Cfg &c) { c.gap = " \t  "; c.eq = " =\t"; });
  add("quotes", [](Cfg &c) { c.quote = true; });
  add("a line for every parameter", [](Cfg &c) { c.lines = true; });
  add("empty lines", [](Cfg &c) { c.between = "\n  \n\n"; });
  add("comments", [](Cfg &c) { c.between = "# a \"comment\" = *X\n   # another\n"; c.comment = "# first\n\n#\n"; });
  add("sections twice", [](Cfg &c) { c.split = true; });
  // numbers
  const vector<string> odd = {"", "x", "5x", "x5", "1.5", "0x10", "1 2", "99999999999999999999999", "-1"};
  struct N { int where; string key; long lo, hi; bool huge; };
  vector<N> ns = {{0, "MAXSERVERS", 1, 8192}, {0, "MAXSERVICES", 1, 1048575}, {0, "MAXQUEUES", 1, 8192}, {0, "MAXGROUPS", 1, 32768}, {0, "MAXACCESSERS", 1, 32768}, {0, "IPCKEY", 32769, 0x7fffffff},
                  {0, "BLOCKTIME", 1, 30000}, {0, "SCANUNIT", 1, 60}, {1, "GRPNO", 1, 30000}, {1, "TMSCOUNT", 2, 10}, {2, "SRVID", 1, 30000}, {2, "MIN", 1, 1000}, {2, "MAX", 1, 1000},
                  {2, "MINDISPATCHTHREADS", 1, 1000}, {2, "MAXDISPATCHTHREADS", 1, 1000}};
  auto kv = [](Cfg &c, int where) -> KV & {
    static KV none;
    if (where == 0) return c.res;
    if (where == 1) return c.grp.empty() ? none : c.grp.back().kv;
    return c.srv.empty() ? none : c.srv.back().kv;
  };
  for (auto &x : ns) {
    bool free = x.key == "BLOCKTIME" || x.key == "SCANUNIT" || x.key == "IPCKEY";
    vector<string> vals = odd;
    vals.push_back(std::to_string(x.lo));
    vals.push_back(std::to_string(x.lo + 1));
    if (!free) vals.push_back(std::to_string(x.lo - 1)), vals.push_back(std::to_string(x.hi + 1)), vals.push_back(std::to_string(x.hi + 65536));
    vals.push_back(std::to_string(x.hi));
    if (x.key == "MAXSERVICES") vals.push_back("65536"), vals.push_back("70000");
    for (auto &v : vals) {
      if (free && v == "-1") continue;
      add(x.key + "=" + v, [=](Cfg &c) { set(kv(c, x.where), x.key, v); });
    }
    add("no " + x.key, [=](Cfg &c) { drop(kv(c, x.where), x.key); });
  }
  for (string v : {"50ms", "1500MS", "20Ms", "ms", "5xms", "MS"}) add("SCANUNIT=" + v, [=](Cfg &c) { set(c.res, "SCANUNIT", v); });
  // machines
  add("no machine", [](Cfg &c) { c.mach.clear(); });
  add("two machines", [](Cfg &c) { c.mach.push_back(c.mach.empty() ? base().mach[0] : c.mach[0]), c.mach.back().name = "host-2"; });
  for (string k : {"LMID", "TUXCONFIG", "TUXDIR", "APPDIR"}) add("no " + k, [=](Cfg &c) { if (!c.mach.empty()) drop(c.mach[0].kv, k); });
  add("TUXCONFIG differs", [](Cfg &c) { if (!c.mach.empty()) set(c.mach[0].kv, "TUXCONFIG", bin + "2"); });
  for (string k : {"ULOGPFX", "TLOGDEVICE", "LMID", "TUXDIR", "APPDIR"})
    for (size_t l : {1, 20, 100, 255, 256, 300})
      add(k + mc::fmt(" of %zu bytes", l), [=](Cfg &c) { if (!c.mach.empty()) set(c.mach[0].kv, k, string(l, 'm')); });
  add("long machine name", [](Cfg &c) { if (!c.mach.empty()) c.mach[0].name = string(70, 'h'); });
  // groups and servers
  add("no groups", [](Cfg &c) { c.grp.clear(); });
  add("no servers", [](Cfg &c) { c.srv.clear(); });
  add("one more group", [](Cfg &c) { c.grp.push_back({"G3", {{"GRPNO", "3"}}}); });
  add("two more groups", [](Cfg &c) { c.grp.insert(c.grp.begin(), {{"G30000", {{"GRPNO", "30000"}, {"TMSNAME", "T"}}}, {"G7", {{"GRPNO", "7"}}}}); });
  add("three more groups", [](Cfg &c) { for (int i = 20; i < 23; i++) c.grp.push_back({mc::fmt("G%d", i), {{"GRPNO", mc::fmt("%d", i)}}}); });
  add("a group number twice", [](Cfg &c) { c.grp.push_back({"G9", {{"GRPNO", "1"}}}); });
  add("a group name twice", [](Cfg &c) { c.grp.push_back({"G1", {{"GRPNO", "9"}}}); });
  add("a long group name", [](Cfg &c) { c.grp.push_back({string(30, 'g'), {{"GRPNO", "9"}}}); });
  add("a group name of 25", [](Cfg &c) { c.grp.push_back({string(25, 'g'), {{"GRPNO", "9"}}}); });
  for (string k : {"OPENINFO", "CLOSEINFO", "TMSNAME"})
    for (size_t l : {0, 1, 100, 255, 256, 300}) add(k + mc::fmt(" of %zu bytes", l), [=](Cfg &c) { if (!c.grp.empty()) set(c.grp[0].kv, k, string(l, 'o')); });
  add("TMS of the first group", [](Cfg &c) { if (!c.grp.empty()) set(c.grp[0].kv, "TMSNAME", "TMSX"); });
  add("unknown group of a server", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "SRVGRP", "G"); });
  add("no group of a server", [](Cfg &c) { if (!c.srv.empty()) drop(c.srv[0].kv, "SRVGRP"); });
  add("no CLOPT", [](Cfg &c) { if (!c.srv.empty()) drop(c.srv[0].kv, "CLOPT"); });
  add("a server twice", [](Cfg &c) { if (!c.srv.empty()) c.srv.push_back(c.srv[0]); });
  add("overlapping servers", [](Cfg &c) { c.srv.push_back({"three", {{"SRVGRP", "G2"}, {"SRVID", "12"}, {"CLOPT", "-A"}}}); });
  add("touching servers", [](Cfg &c) { c.srv.push_back({"three", {{"SRVGRP", "G2"}, {"SRVID", "13"}, {"CLOPT", "-A"}}}); });
  add("the same id in another group", [](Cfg &c) { c.srv.push_back({"two", {{"SRVGRP", "G1"}, {"SRVID", "10"}, {"CLOPT", "-s A,B:C"}, {"RQADDR", "q"}}}); });
  add("MIN=2", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "MIN", "2"); });
  add("MIN=2 MAX=4", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "MIN", "2"), set(c.srv[0].kv, "MAX", "4"); });
  add("MIN=3 MAX=2", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "MIN", "3"), set(c.srv[0].kv, "MAX", "2"); });
  add("threads", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "MINDISPATCHTHREADS", "2"), set(c.srv[0].kv, "MAXDISPATCHTHREADS", "5"); });
  for (string q : {"shared", "1.1", "2.TM", ".BBL", ""}) add("RQADDR=" + q, [=](Cfg &c) { for (auto &s : c.srv) set(s.kv, "RQADDR", q); });
  add("a shared queue", [](Cfg &c) { if (!c.srv.empty()) set(c.srv.back().kv, "RQADDR", "a b#c=d"); });
  for (size_t l : {31, 32, 40}) add(mc::fmt("RQADDR of %zu bytes", l), [=](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "RQADDR", string(l, 'q')); });
  for (size_t l : {1, 127, 128, 200}) add(mc::fmt("a server name of %zu bytes", l), [=](Cfg &c) { if (!c.srv.empty()) c.srv[0].name = string(l, 's'); });
  for (size_t l : {200, 1023, 1024, 2000}) add(mc::fmt("CLOPT of %zu bytes", l), [=](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "CLOPT", string(l, 'c')); });
  add("12 servers", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "MAX", "6"), set(c.srv[0].kv, "RQADDR", "one"); });
  add("13 servers", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "MAX", "7"), set(c.srv[0].kv, "RQADDR", "one"); });
  add("other parameters", [](Cfg &c) {
    set(c.res, "LDBAL", "Y");
    if (!c.mach.empty()) set(c.mach[0].kv, "TYPE", "x");
    if (!c.grp.empty()) set(c.grp[0].kv, "SEC_PRINCIPAL", "\t ");
    if (!c.srv.empty()) set(c.srv[0].kv, "RESTART", "Y");
  });
  add("backslashes", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "CLOPT", "-A \\n ' \\ \xc3\xa4*"); });
  add("a value with a line end", [](Cfg &c) { if (!c.srv.empty()) set(c.srv[0].kv, "CLOPT", "-A\n-B"); });
  return d;
}
vector<Dev> D;
void combination(const vector<int> &v) {
  Cfg c = base();
  string name;
  for (int i : v) {
    D[i].second(c);
    name += (name.empty() ? "" : ", ") + D[i].first;
  }
  mc::trace("configuration with " + (name.empty() ? "nothing special" : name));
  auto e = expected(c);
  string t = render(c), w = judge(t, &e, (v.empty() ? 0 : v[0] + v.size()) % 2);
  if (!w.empty()) mc::violation("config|" + w.substr(0, 50), "configuration with " + (name.empty() ? "nothing special" : name) + ": " + w + "\n" + t);
}
void malformed() {
  auto lines = [](const string &s) {
    vector<string> r;
    std::istringstream in(s);
    string l;
    while (std::getline(in, l)) r.push_back(l);
    return r;
  };
  auto join = [](const vector<string> &v) {
    string s;
    for (auto &l : v) s += l + "\n";
    return s;
  };
  auto b = lines(render(base()));
  // a line that can not be understood, everywhere
  for (size_t i = 0; i <= b.size(); i++) {
    bool in_res = false, in_obj = false;
    for (size_t k = 0; k < i; k++)
      if (b[k][0] == '*') in_res = b[k] == "*RESOURCES", in_obj = !in_res;
    vector<string> bad = {"*", "*1", "*NOSUCHSECTION", "*RESOURCES x", "\"unfinished", "NAME \"unfinished"};
    if (in_res) bad.insert(bad.end(), {"MAXSERVERS", "MAXSERVERS 5 6", "=", "MAXSERVERS 5=6"});
    if (in_obj) bad.insert(bad.end(), {"X =1", "X SRVID", "X SRVID=", "X SRVID 1", "X SRVID==", "X SRVID=1 =2", "X SRVID=1 2"});
    if (!in_res && !in_obj) bad.insert(bad.end(), {"X SRVID=1", "MAXSERVERS 5"});
    for (auto &x : bad) {
      auto v = b;
      v.insert(v.begin() + i, x);
      Expected e;
      e.v = refuse;
      e.why = "line " + x + " can not be understood";
      mc::trace("line " + x + mc::fmt(" before line %zu", i));
      auto w = judge(join(v), &e, i % 2);
      if (!w.empty()) mc::violation("malformed|" + w.substr(0, 40), mc::fmt("before line %zu: ", i) + w);
    }
  }
  // lines removed, doubled, exchanged
  for (size_t i = 0; i < b.size(); i++)
    for (size_t k = i; k < b.size(); k++) {
      vector<string> x = b, y = b, z = b;
      x.erase(x.begin() + i, x.begin() + k + 1);
      std::swap(y[i], y[k]);
      z.insert(z.begin() + k, z[i]);
      for (auto *v : {&x, &y, &z}) {
        mc::trace(mc::fmt("lines %zu %zu removed or exchanged: ", i, k) + join(*v));
        auto w = judge(join(*v), nullptr, k % 2);
        if (!w.empty()) mc::violation("damaged|" + w.substr(0, 40), join(*v) + w);
      }
    }
}
void damaged(int part, int parts) {
  string b = render(base());
  string with = string(" \n\t\"=#*a0,-") + '\0' + '\xff';
  for (size_t i = 0; i <= b.size(); i++) {
    if ((int)(i % parts) != part) continue;
    vector<string> v = {b.substr(0, i), b.substr(i)};
    if (i < b.size()) v.push_back(b.substr(0, i) + b.substr(i + 1));
    for (char c : with) {
      v.push_back(b.substr(0, i) + c + b.substr(i));
      if (i < b.size()) v.push_back(b.substr(0, i) + c + b.substr(i + 1));
    }
    for (auto &t : v) {
      mc::trace("damaged text: " + t);
      auto w = judge(t, nullptr, i % 2);
      if (!w.empty()) mc::violation("damaged|" + w.substr(0, 40), t + "\n" + w);
      if (mc::enough()) return;
    }
  }
}
// Every truncation and extension of a binary file
void truncated(int k) {
  Cfg c = base();
  if (k == 1) c.srv.clear();
  spit(txt, render(c));
  unlink(bin.c_str());
  if (load(txt) != 0) {
    mc::violation("truncated|refused", "the configuration is refused: " + g_err);
    return;
  }
  string good = slurp(bin);
  auto one = [&](const string &s, const string &what) {
    spit(bin, s);
    states++;
    mc::trace(what);
    bool a = false, u = false;
    try {
      loaded();
    } catch (const std::exception &) {
      a = true;
    }
    u = tool(tmunloadcf_main, {}) != 0;
    if (!a || !u) mc::violation("truncated|accepted", what + (a ? " is unloaded" : " is used"));
  };
  for (size_t l = 0; l < good.size(); l++) one(good.substr(0, l), mc::fmt("the first %zu of %zu bytes", l, good.size()));
  for (char x : {'\0', '\n', ' ', '#'})
    for (int m : {1, 2, 100}) one(good + string(m, x), mc::fmt("%d bytes more", m));
  unlink(bin.c_str());
  bool thrown = false;
  try {
    loaded();
  } catch (const std::exception &) {
    thrown = true;
  }
  if (!thrown || tool(tmunloadcf_main, {}) == 0) mc::violation("truncated|none", "a file that does not exist is used");
}
// Stops at system call number at of tmloadcf and ends it there (fail == 0), or
// makes the call fail. Returns false if there are not that many.
bool interrupted(int at, int fail, bool had, const string &text, const string &good, string &w) {
  spit(txt, text);
  if (had) spit(bin, g_old);
  else unlink(bin.c_str());
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    int rc = load(txt);
    _exit(rc);
  }
  n++;
  int st, calls = 0;
  waitpid(p, &st, __WALL);
  ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  bool in = false, hit = false, inject = false;
  string what;
  int sig = 0;
  while (true) {
    ptrace(PTRACE_SYSCALL, p, 0, sig);
    sig = 0;
    if (waitpid(p, &st, __WALL) != p || WIFEXITED(st) || WIFSIGNALED(st)) break;
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
      sig = WSTOPSIG(st);
      continue;
    }
    in = !in;
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, p, 0, &r);
    long nr = r.orig_rax;
    if (in) {
      bool counts = nr == SYS_write || nr == SYS_writev || nr == SYS_openat || nr == SYS_open || nr == SYS_close || nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_unlink ||
                    nr == SYS_ftruncate || nr == SYS_fsync || nr == SYS_fdatasync || nr == SYS_link || nr == SYS_sendfile || nr == SYS_copy_file_range || nr == SYS_fchmod || nr == SYS_unlinkat;
      if (fail && (nr == SYS_close || nr == SYS_unlink || nr == SYS_unlinkat)) counts = false;
      if ((nr == SYS_write || nr == SYS_writev) && (long)r.rdi <= 2) counts = false;
      if (!counts || hit) continue;
      if (calls++ != at) continue;
      hit = true;
      what = mc::fmt("system call %d (number %ld)", at, nr);
      if (!fail) {
        kill(p, SIGKILL);
        continue;
      }
      inject = true;
      if (fail == 2 && nr == SYS_write && r.rdx > 1) {
        // only a part of it
        r.rdx /= 2;
        inject = false;
      } else {
        r.orig_rax = -1;
      }
      ptrace(PTRACE_SETREGS, p, 0, &r);
    } else if (inject) {
      inject = false;
      r.rax = -(long)ENOSPC;
      ptrace(PTRACE_SETREGS, p, 0, &r);
    }
  }
  if (!hit) return false;
  states++;
  bool there;
  string s = slurp(bin, &there);
  bool is_old = there == had && (!there || s == g_old), is_new = there && s.size() == good.size() && s.substr(sizeof(tuxconfig)) == good.substr(sizeof(tuxconfig));
  if (!is_old && !is_new) w = "tmloadcf " + string(fail == 0 ? "killed" : fail == 1 ? "whose call failed" : "whose write was short") + " at " + what + mc::fmt(" leaves %zu bytes, %s", s.size(), there ? "neither the old nor the new configuration" : "no configuration");
  if (fail && w.empty() && WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 0 && !is_new) w = "tmloadcf reports success though a call failed at " + what;
    if (WEXITSTATUS(st) != 0 && !is_old) w = "tmloadcf reports failure at " + what + " but has replaced the configuration";
  }
  if (fail && w.empty() && WIFSIGNALED(st)) w = mc::fmt("tmloadcf is killed by signal %d after a failing call at ", WTERMSIG(st)) + what;
  if (!w.empty()) return true;
  // and the next one works
  if (load(txt) != 0) w = "after an interruption at " + what + " tmloadcf fails: " + g_err;
  else if (slurp(bin).size() != good.size()) w = "after an interruption at " + what + " tmloadcf writes something else";
  return true;
}
void crashes(bool had) {
  Cfg c = base();
  set(c.srv[0].kv, "CLOPT", "-A -- y");
  c.comment = "# " + string(20000, 'x') + "\n";  // several writes
  string text = render(c);
  spit(txt, text);
  unlink(bin.c_str());
  if (load(txt) != 0) {
    mc::violation("crash|refused", "the configuration is refused: " + g_err);
    return;
  }
  string good = slurp(bin);
  for (int fail = 0; fail < 3; fail++)
    for (int at = 0; at < 1000; at++) {
      string w;
      mc::trace(mc::fmt("interruption %d at %d", fail, at));
      if (!interrupted(at, fail, had, text, good, w)) break;
      if (!w.empty()) {
        mc::violation("interrupted|" + w.substr(0, 40), w);
        break;
      }
    }
  for (auto &f : listing())
    if (f != "ubb" && f != "ubb2" && f != "tuxconfig") unlink((dir + "/" + f).c_str());
}
}  // namespace

int main() {
  bool th = mc::thorough();
  char t[] = "/tmp/configXXXXXX";
  if (!mkdtemp(t)) return 1;
  string b = t;
  bin = b + "/w0/tuxconfig";
  D = deviations();
  int nd = D.size();
  const int special = 2 + 2 + 8 + 1;
  int r = mc::run(special + nd, [&](int j) {
    n = states = 0;
    dir = b + "/w" + std::to_string(mc::me());
    mkdir(dir.c_str(), 0700);
    bin = dir + "/tuxconfig";
    txt = dir + "/ubb";
    txt2 = dir + "/ubb2";
    setenv("TUXCONFIG", bin.c_str(), 1);
    // a configuration that is there already
    {
      Cfg c = base();
      set(c.res, "IPCKEY", "77777");
      spit(txt, render(c));
      spit(txt2, "");
      unlink(bin.c_str());
      if (load(txt) != 0) {
        mc::violation("base|refused", "a plain configuration is refused: " + g_err + "\n" + render(c));
        return;
      }
      g_old = slurp(bin);
    }
    if (j < 2) crashes(j);
    else if (j < 4) truncated(j - 2);
    else if (j < 12) damaged(j - 4, 8);
    else if (j == 12) malformed(), combination({});
    else {
      int a = j - special;
      combination({a});
      for (int k = 0; k < nd; k++) {
        if (k == a || (!th && k < a)) continue;
        combination({a, k});
        if (mc::enough()) break;
        if (th && k > a)
          for (int l = k + 1; l < nd; l += 1 + (a + k) % 3) {
            combination({a, k, l});
            if (mc::enough()) break;
          }
      }
      if (a == 3) mc::sample("configurations with " + D[a].first + " and every other deviation: " + mc::fmt("%lu", states));
    }
    mc::add(mc::cnt().transitions, n);
    mc::add(mc::cnt().states, states);
    mc::add(mc::cnt().validated, states);
  });
  for (int w = 0; w < 16; w++) {
    dir = b + "/w" + std::to_string(w);
    if (access(dir.c_str(), F_OK) != 0) continue;
    for (auto &f : listing()) unlink((dir + "/" + f).c_str());
    rmdir(dir.c_str());
  }
  rmdir(b.c_str());
  return r;
}
