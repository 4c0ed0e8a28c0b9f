// Shared by the actors: the programs of the simulated processes, written
// against the public API only.
#pragma once
#include <atmi.h>
#include <fml32.h>
#include <tpadm.h>
#include <tx.h>
#include <userlog.h>
#include <xa.h>
#include <xatmi.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "lib/sim/sim.h"

extern "C" {
int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs);
int _tmrunserver(int);
extern struct xa_switch_t tmnull_switch;
extern int _tmbuilt_with_thread_option;
}

inline std::string tag(int self, int n) { return "r" + std::to_string(self) + "." + std::to_string(n); }

inline char *str(const std::string &s, size_t room = 0) {
  char *p = tpalloc((char *)"STRING", nullptr, std::max(s.size() + 1, room ? room : (size_t)64));
  if (!p) sim_fail("tpalloc failed");
  strcpy(p, s.c_str());
  return p;
}
// the printable contents of a buffer, or what is wrong with it
inline std::string show(char *p) {
  if (!p) return "<null>";
  char ty[9] = "", st[17] = "";
  if (tptypes(p, ty, st) == -1) return "<not a buffer>";
  if (strncmp(ty, "STRING", 8)) return std::string("<") + ty + ">";
  return p;
}
inline int init() {
  int rc = tpinit(nullptr);
  if (rc == -1 || tperrno != 0) sim_fail("tpinit failed: %d", tperrno);
  return rc;
}
int start(int grpno, int srvid, struct tmdsptchtbl_t *tbl, xa_switch_t *xa = &tmnull_switch);
