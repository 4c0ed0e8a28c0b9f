// A resource manager for the transaction scenarios. Its branches live in a
// shared memory segment of the simulated system; every call is checked against
// the XA state tables; its answers are chosen by the explorer.
#pragma once
#include <sys/ipc.h>
#include <sys/shm.h>
#include "act.h"

namespace rm {
enum State { none, active, prepared, committed, rolledback, readonly, mixed, hazard };
struct Branch {
  int rmid, st, assoc, susp, rbonly, len;
  int decided;  // one of the transaction was told to commit
  int touched;  // by how many services
  unsigned char id[40];
};
// what a service has seen
struct Seen {
  int tag, lev;
  char xid[20];
  int works;  // the resource manager knows that it works in that transaction
};
struct Shared {
  int budget;  // unusual answers left
  int n, nseen;
  Branch b[400];
  Seen seen[64];
  int nlive;
  char live[256][40];
};
inline Shared *sh;
inline const char *env(const char *n, const char *dflt = "") {
  const char *v = getenv(n);
  return v && *v ? v : dflt;
}
inline bool lenient() { return *env("RM_LENIENT"); }       // branches may be rolled back while somebody works in them
inline bool answers = false;       // xa_open and xa_close give unusual answers
inline thread_local bool opened = false;
inline thread_local int cur = -1;               // the branch this process works in
inline thread_local std::vector<int> susp;      // suspended by this process
inline std::string opened_with;
inline int force_start = 0;          // xa_start says that
inline bool on = false;            // other unusual answers may be given by this process
// the calls so far and the last answer
inline int last_open, last_open_rc, last_close, last_close_rc, last_start, last_start_rc;

inline std::string hex(const void *p, size_t n) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < n; i++) snprintf(b, sizeof(b), "%02x", ((const unsigned char *)p)[i]), s += b;
  return s;
}
inline std::string name(const XID &x) { return x.formatID == -1 ? std::string("-") : hex(x.data, x.gtrid_length); }
inline void attach() {
  if (sh) return;
  int id = shmget(0x7711, sizeof(Shared), IPC_CREAT | 0600);
  sh = (Shared *)shmat(id, nullptr, 0);
  if (id == -1 || sh == (void *)-1) sim_fail("the resource manager has no memory");
  if (sh->n == 0 && sh->budget == 0) sh->budget = atoi(env("RM_BUDGET", "0"));
}
struct Quiet {
  Quiet() { sim_quiet(1); }
  ~Quiet() { sim_quiet(0); }
};
inline const char *text(int st) {
  static const char *t[] = {"none", "active", "prepared", "committed", "rolledback", "readonly", "mixed", "hazard"};
  return t[st];
}
// An answer out of RM_<what>: the first one is the usual one
inline int answer(const char *what) {
  std::vector<int> a;
  std::string l = env((std::string("RM_") + what).c_str(), "0");
  for (const char *p = l.c_str(); *p;) {
    a.push_back(atoi(p));
    while (*p && *p != ',') p++;
    if (*p) p++;
  }
  if (!on || a.size() < 2 || sh->budget <= 0) return a[0];
  int c = sim_choose(a.size(), what);
  if (c) sh->budget--;
  return a[c];
}
inline void check_xid(XID *x) {
  if (x->formatID < 0 || x->gtrid_length < 1 || x->gtrid_length > 64 || x->bqual_length < 1 || x->bqual_length > 64)
    sim_fail("the resource manager is given an invalid identifier: format %ld, lengths %ld and %ld", x->formatID, x->gtrid_length, x->bqual_length);
}
inline int find(int rmid, XID *x) {
  int n = x->gtrid_length + x->bqual_length;
  for (int i = 0; i < sh->n; i++)
    if (sh->b[i].rmid == rmid && sh->b[i].len == n && !memcmp(sh->b[i].id, x->data, n)) return i;
  return -1;
}
inline bool same_gtrid(const Branch &a, const Branch &b) { return a.len == b.len && !memcmp(a.id, b.id, 8); }
inline void say(const char *fn, int rmid, XID *x, long flags, int rc) {
  sim_log("rm", rmid, rc, (std::string(fn) + " " + (x ? name(*x) : std::string("-")) + (flags & TMJOIN ? " join" : "") + (flags & TMRESUME ? " resume" : "") +
                           (flags & TMSUSPEND ? " suspend" : "") + (flags & TMFAIL ? " fail" : "")).c_str());
}
inline void bad(const char *fn, int rmid, const char *why) { sim_fail("%s is not permitted for the resource manager of group %d: %s", fn, rmid, why); }

inline int xa_open(char *info, int rmid, long) {
  Quiet q;
  attach();
  int rc = answers ? answer("OPEN") : XA_OK;
  opened_with = info ? info : "<null>";
  if (rc == XA_OK) opened = true;
  last_open++, last_open_rc = rc;
  say("open", rmid, nullptr, 0, rc);
  return rc;
}
inline int xa_close(char *, int rmid, long) {
  Quiet q;
  attach();
  if (cur != -1) bad("xa_close", rmid, "the caller works in a transaction");
  int rc = answers ? answer("CLOSE") : XA_OK;
  if (rc == XA_OK) opened = false;
  last_close++, last_close_rc = rc;
  say("close", rmid, nullptr, 0, rc);
  return rc;
}
inline int start2(XID *x, int rmid, long flags) {
  check_xid(x);
  if (!opened) bad("xa_start", rmid, "it is not open");
  if (cur != -1) bad("xa_start", rmid, "the caller works in a transaction already");
  int i = find(rmid, x);
  if (flags & TMRESUME) {
    size_t k = 0;
    while (k < susp.size() && susp[k] != i) k++;
    if (i == -1 || k == susp.size()) bad("xa_start", rmid, "resumes what was not suspended");
    if (sh->b[i].st != active) return lenient() ? XAER_NOTA : (bad("xa_start", rmid, "resumes a branch that is over"), 0);
    int rc = answer("RESUME");
    if (rc != XA_OK) return rc;
    susp.erase(susp.begin() + k);
    sh->b[i].susp--;
    sh->b[i].assoc++;
    cur = i;
    return XA_OK;
  }
  if (flags & TMJOIN) {
    if (i == -1 || (lenient() && sh->b[i].st > prepared)) return XAER_NOTA;
    if (sh->b[i].st != active) bad("xa_start", rmid, (std::string("joins a branch that is ") + text(sh->b[i].st)).c_str());
    if (sh->b[i].rbonly) return XA_RBROLLBACK;
    int rc = answer("JOIN");
    if (rc != XA_OK) return rc;
  } else {
    if (i != -1 && sh->b[i].st <= prepared) return XAER_DUPID;
    if (i != -1 && !lenient()) bad("xa_start", rmid, (std::string("starts a branch that is ") + text(sh->b[i].st)).c_str());
    int rc = force_start ? force_start : answer("START");
    if (rc != XA_OK) return rc;
    if (sh->n == 400) sim_fail("too many transactions for this scenario");
    if (i == -1) i = sh->n++;
    Branch &b = sh->b[i];
    b = Branch();
    b.rmid = rmid;
    b.len = x->gtrid_length + x->bqual_length;
    if (b.len > (int)sizeof(b.id)) sim_fail("identifier of %d bytes", b.len);
    memcpy(b.id, x->data, b.len);
    b.st = active;
  }
  sh->b[i].assoc++;
  sh->b[i].touched++;
  cur = i;
  return XA_OK;
}
inline int xa_start(XID *x, int rmid, long flags) {
  if (*env("RM_PAUSE")) sim_pause();
  Quiet q;
  attach();
  int rc = start2(x, rmid, flags);
  last_start++, last_start_rc = rc;
  say("start", rmid, x, flags, rc);
  return rc;
}
inline int end2(XID *x, int rmid, long flags) {
  check_xid(x);
  if (!opened) bad("xa_end", rmid, "it is not open");
  int i = find(rmid, x);
  if (i == -1) bad("xa_end", rmid, "no such branch");
  Branch &b = sh->b[i];
  if (cur == i) {
    cur = -1;
    b.assoc--;
    if (flags & TMSUSPEND) susp.push_back(i), b.susp++;
  } else {
    size_t k = 0;
    while (k < susp.size() && susp[k] != i) k++;
    if (k == susp.size()) bad("xa_end", rmid, "the caller does not work in that branch");
    if (flags & TMSUSPEND) bad("xa_end", rmid, "suspended already");
    susp.erase(susp.begin() + k);
    b.susp--;
  }
  if (b.st != active) {
    if (!lenient()) bad("xa_end", rmid, "the branch is over");
    return XA_RBROLLBACK;
  }
  if (flags & TMFAIL) b.rbonly = 1;
  if (b.rbonly) return flags & TMFAIL ? XA_OK : XA_RBROLLBACK;
  int rc = flags & TMSUSPEND ? XA_OK : answer("END");
  if (rc != XA_OK) b.rbonly = 1;
  return rc;
}
inline int xa_end(XID *x, int rmid, long flags) {
  Quiet q;
  attach();
  int rc = end2(x, rmid, flags);
  say("end", rmid, x, flags, rc);
  return rc;
}
inline int prepare2(XID *x, int rmid) {
  check_xid(x);
  int i = find(rmid, x);
  if (i == -1) return XAER_NOTA;
  Branch &b = sh->b[i];
  if (b.st != active) bad("xa_prepare", rmid, (std::string("the branch is ") + text(b.st)).c_str());
  if (b.assoc + b.susp) bad("xa_prepare", rmid, "somebody works in the branch");
  if (b.rbonly) {
    b.st = rolledback;
    return XA_RBROLLBACK;
  }
  int rc = answer("PREPARE");
  if (rc == XA_OK) b.st = prepared;
  if (rc == XA_RDONLY) b.st = readonly;
  if (rc >= XA_RBBASE && rc <= XA_RBEND) b.st = rolledback;
  return rc;
}
inline int xa_prepare(XID *x, int rmid, long) {
  Quiet q;
  attach();
  int rc = prepare2(x, rmid);
  say("prepare", rmid, x, 0, rc);
  return rc;
}
// how the branch ends after this answer
inline int ended(int rc, int ok, int st) {
  if (rc == XA_OK) return ok;
  if (rc == XA_HEURCOM) return committed;
  if (rc == XA_HEURRB || rc == XAER_RMERR || (rc >= XA_RBBASE && rc <= XA_RBEND)) return rolledback;
  if (rc == XA_HEURMIX) return mixed;
  if (rc == XA_HEURHAZ) return hazard;
  return st;
}
inline int commit2(XID *x, int rmid, long flags) {
  check_xid(x);
  int i = find(rmid, x);
  if (i == -1) bad("xa_commit", rmid, "no such branch");
  Branch &b = sh->b[i];
  bool one = flags & TMONEPHASE;
  if (b.st != prepared && !(one && b.st == active)) bad("xa_commit", rmid, (std::string("the branch is ") + text(b.st)).c_str());
  if (b.assoc + b.susp) bad("xa_commit", rmid, "somebody works in the branch");
  if (!b.decided)
    for (int k = 0; k < sh->n; k++) {
      Branch &o = sh->b[k];
      if (!same_gtrid(o, b)) continue;
      if (k != i && one) sim_fail("group %d is committed in one phase, group %d is part of the transaction", rmid, o.rmid);
      if (k != i && o.st != prepared && o.st != readonly)
        sim_fail("the branch of group %d is committed while the one of group %d is %s", rmid, o.rmid, text(o.st));
      o.decided = 1;
    }
  if (one && b.rbonly) {
    b.st = rolledback;
    return XA_RBROLLBACK;
  }
  int rc = answer("COMMIT");
  b.st = ended(rc, committed, b.st);
  return rc;
}
inline int xa_commit(XID *x, int rmid, long flags) {
  Quiet q;
  attach();
  int rc = commit2(x, rmid, flags);
  say("commit", rmid, x, 0, rc);
  return rc;
}
inline int rollback2(XID *x, int rmid) {
  check_xid(x);
  int i = find(rmid, x);
  if (i == -1 || sh->b[i].st > prepared) return XAER_NOTA;
  if (*env("RM_LENIENT") == 'p' && sh->b[i].assoc) return XAER_PROTO;  // somebody else works in it
  Branch &b = sh->b[i];
  if (b.decided) sim_fail("the branch of group %d is rolled back while others are told to commit", rmid);
  if (!lenient() && b.assoc) bad("xa_rollback", rmid, "somebody works in the branch");
  int rc = answer("ROLLBACK");
  b.st = ended(rc, rolledback, b.st);
  return rc;
}
inline int xa_rollback(XID *x, int rmid, long) {
  Quiet q;
  attach();
  int rc = rollback2(x, rmid);
  say("rollback", rmid, x, 0, rc);
  return rc;
}
inline int xa_recover(XID *, long, int, long) { return 0; }
inline int xa_forget(XID *x, int rmid, long) {
  Quiet q;
  attach();
  int i = find(rmid, x);
  if (i == -1) bad("xa_forget", rmid, "no such branch");
  say("forget", rmid, x, 0, 0);
  return XA_OK;
}
inline int xa_complete(int *, int *, int, long) { return XA_OK; }

inline xa_switch_t sw = {"MOCK", TMNOFLAGS, 0, xa_open, xa_close, xa_start, xa_end, xa_rollback, xa_prepare, xa_commit, xa_recover, xa_forget, xa_complete};

// the states of the branches of one transaction: "1:committed 2:readonly"
inline std::string branches(const std::string &gtrid) {
  Quiet q;
  attach();
  std::string r;
  for (int g = 1; g < 10; g++)
    for (int i = 0; i < sh->n; i++)
      if (sh->b[i].rmid == g && hex(sh->b[i].id, 8) == gtrid) r += (r.empty() ? "" : " ") + std::to_string(g) + ":" + text(sh->b[i].st) + (sh->b[i].st == committed && !sh->b[i].decided ? "(alone)" : "");
  return r;
}
}  // namespace rm
