// The part of the actors that looks into the bulletin board.
#include <signal.h>
#include <unistd.h>
#include <set>
#include <string>
#include <tuple>
#include "lib/sim/sim.h"
#include "mib.h"
#include <tx.h>
#include "trx.h"

static std::string mark(const char *what, const char *name) { return std::string(what) + name; }

// the configured part of the tables, as text
std::string tables_text() {
  auto &m = getmib();
  sim_quiet(1);
  std::string r = "ipckey=" + std::to_string(m.domain().ipckey) + " max=" + std::to_string(m.domain().maxservers) + "/" + std::to_string(m.domain().maxservices) +
                  "/" + std::to_string(m.domain().maxqueues) + "/" + std::to_string(m.domain().maxgroups) + "/" + std::to_string(m.domain().maxaccessers) +
                  " lmid=" + m.mach().lmid + " blocktime=" + std::to_string(m.mach().blocktime) + ";";
  for (size_t i = 0; i < m.groups()->len; i++) r += mark(" group ", m.groups().at(i).srvgrp) + ":" + std::to_string(m.groups().at(i).grpno);
  for (size_t i = 0; i < m.servers()->len; i++) {
    auto &s = m.servers().at(i);
    r += mark(" server ", s.servername) + ":" + std::to_string(s.grpno) + "." + std::to_string(s.srvid) + mark("@", m.queues().at(s.rqaddr).rqaddr);
  }
  for (size_t i = 0; i < m.queues()->len; i++) r += mark(" queue ", m.queues().at(i).rqaddr) + "*" + std::to_string(m.queues().at(i).servercnt);
  sim_quiet(0);
  return r;
}
// what is wrong with the tables of services and clients; the names of the services
std::string tables_check(std::string &services, int &clients, int (*alive)(int)) {
  auto &m = getmib();
  sim_quiet(1);
  std::string w;
  std::set<std::string> names;
  if (m.services()->len > m.services()->size) w = "more services than configured";
  if (m.advertisements()->len > m.advertisements()->size) w = "more advertisements than configured";
  if (m.accessers()->len > m.accessers()->size) w = "more clients than configured";
  if (w.empty())
    for (size_t i = 0; i < m.services()->len; i++)
      if (!names.insert(m.services().at(i).servicename).second) w = mark("service entered twice: ", m.services().at(i).servicename);
  services = "";
  for (auto &n : names) services += (services.empty() ? "" : ",") + n;
  std::set<std::tuple<size_t, size_t, size_t>> adv;
  if (w.empty())
    for (size_t i = 0; i < m.advertisements()->len; i++) {
      auto &a = m.advertisements().at(i);
      bool none = a.service == m.badoff;
      if (none && a.queue == m.badoff && a.server == m.badoff) continue;
      if (none) continue;
      if (a.service >= m.services()->len || a.queue >= m.queues()->len || a.server >= m.servers()->len) w = "an advertisement refers to nothing";
      else if (!adv.insert({a.service, a.queue, a.server}).second) w = mark("advertised twice: ", m.services().at(a.service).servicename);
      else if (m.servers().at(a.server).rqaddr != a.queue) w = "a service is advertised on the queue of another server";
    }
  std::set<int> rp;
  clients = 0;
  if (w.empty())
    for (size_t i = 0; i < m.accessers()->len; i++) {
      auto &a = m.accessers().at(i);
      if (!a.valid()) continue;
      clients++;
      if (alive && !alive(a.pid)) w = "an entry of a client that is not there";
      if (a.rpid != -1 && !rp.insert(a.rpid).second) w = "two clients with the same queue";
    }
  sim_quiet(0);
  return w;
}
int own_entries(int &rpid) {
  auto &m = getmib();
  sim_quiet(1);
  int n = 0;
  for (size_t i = 0; i < m.accessers()->len; i++)
    if (m.accessers().at(i).valid() && m.accessers().at(i).pid == getpid()) {
      n++;
      rpid = m.accessers().at(i).rpid;
    }
  sim_quiet(0);
  return n;
}
// what tmboot does after starting a server
void booted(int grpno, int srvid) {
  auto &m = getmib();
  auto i = m.find_server(srvid, grpno);
  if (i != m.badoff) m.servers().at(i).pid = getpid();
}
// servers that are entered as running and are not
int dead_servers(int (*alive)(int)) {
  auto &m = getmib();
  sim_quiet(1);
  int n = 0;
  for (size_t i = 0; i < m.servers()->len; i++) {
    int pid = m.servers().at(i).pid;
    n += pid != 0 && !alive(pid);
  }
  sim_quiet(0);
  return n;
}
// transactions in the table
int transactions_live() {
  auto &m = getmib();
  sim_quiet(1);
  int n = 0;
  auto &t = m.transactions();
  for (size_t i = 0; i < t.len && i < t.size; i++) n += t[i].xid.formatID != -1;
  sim_quiet(0);
  return n;
}
// entries of this transaction
int transactions_with(const XID &x) {
  auto &m = getmib();
  sim_quiet(1);
  int n = 0;
  auto &t = m.transactions();
  for (size_t i = 0; i < t.len && i < t.size; i++)
    n += t[i].xid.formatID == x.formatID && t[i].xid.gtrid_length == x.gtrid_length && t[i].xid.bqual_length == x.bqual_length &&
         !memcmp(t[i].xid.data, x.data, x.gtrid_length + x.bqual_length);
  sim_quiet(0);
  return n;
}
