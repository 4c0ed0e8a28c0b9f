// Helpers shared by the scenario files.
#pragma once
#include <cstring>
#include <set>
#include "lib/sim/core.h"
using namespace sim;
using std::string;
using std::vector;

struct Srv {
  int grp = 1, id;
  string queue;   // RQADDR, empty: its own
  string params;  // more parameters
};
// configuration text
inline string ubb(const vector<Srv> &servers, const string &extra = "", const string &groups = "") {
  string s = "*RESOURCES\nMASTER tux1\nMODEL SHM\nIPCKEY 52617\nMAXSERVERS 8\nMAXSERVICES 12\nMAXQUEUES 8\nMAXGROUPS 4\nMAXACCESSERS 8\n" + extra +
             "*MACHINES\n\"host\" LMID=tux1 TUXCONFIG=\"@TUXCONFIG@\" TUXDIR=\"/tmp\" APPDIR=\"/tmp\"\n*GROUPS\n" +
             (groups.empty() ? string("G1 GRPNO=1 LMID=tux1\nG2 GRPNO=2 LMID=tux1\n") : groups) + "*SERVERS\n";
  for (auto &v : servers)
    s += mc::fmt("srv%d SRVGRP=G%d SRVID=%d CLOPT=\"-A\"%s%s %s\n", v.id, v.grp, v.id, v.queue.empty() ? "" : " RQADDR=", v.queue.c_str(), v.params.c_str());
  return s + "*SERVICES\n";
}
inline string stuck(const Execution &e) {
  if (e.end == End::livelock) return "the execution does not end (livelock)";
  if (e.end == End::deadline) {
    string w;
    for (auto &p : e.procs)
      if (p.blocked) w += " " + p.name + " at " + p.at + ";";
    return "nothing completes any more:" + w;
  }
  return "";
}
// "key=value" in a log text
inline string field(const string &s, const string &key) {
  auto p = s.find(key + "=");
  if (p == string::npos) return "";
  p += key.size() + 1;
  return key == "data" ? s.substr(p) : s.substr(p, s.find(' ', p) - p);
}
inline string tables(const vector<Srv> &v, const string &max) {
  string s = "ipckey=52617 max=" + max + " lmid=tux1 blocktime=15000; group G1:1 group G2:2 server BBL:0.0@.BBL", q = " queue .BBL*1";
  vector<std::pair<string, int>> qs;
  for (auto &x : v) {
    string a = x.queue.empty() ? mc::fmt("%d.%d", x.grp, x.id) : x.queue;
    s += mc::fmt(" server srv%d:%d.%d@%s", x.id, x.grp, x.id, a.c_str());
    bool have = false;
    for (auto &y : qs)
      if (y.first == a) y.second++, have = true;
    if (!have) qs.push_back({a, 1});
  }
  for (auto &x : qs) q += mc::fmt(" queue %s*%d", x.first.c_str(), x.second);
  return s + q;
}
void scenarios_msg(const string &set, vector<Scenario> &r);
void scenarios_sizes(const string &set, vector<Scenario> &r);
void scenarios_tables(const string &set, vector<Scenario> &r);
void scenarios_trx(const string &set, vector<Scenario> &r);
void scenarios_crash(const string &set, vector<Scenario> &r);
void scenarios_time(const string &set, vector<Scenario> &r);
void scenarios_boot(const string &set, vector<Scenario> &r);
void scenarios_admin(const string &set, vector<Scenario> &r);
void scenarios_fld(const string &set, vector<Scenario> &r);
