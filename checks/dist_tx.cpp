// Actors of the transaction scenarios (C11 - C14).
#include <time.h>
#include <map>
#include <set>
#include <stdexcept>
#include "mockrm.h"

int transactions_live();
static void nap(long ms) {
  struct timespec t = {ms / 1000, ms % 1000 * 1000000};
  nanosleep(&t, nullptr);
}
extern "C" void TM(TPSVCINFO *);
static struct tmdsptchtbl_t t_tms[] = {{".TM", "TM", TM, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
// arg: group * 100 + number
extern "C" int tms(int a) {
  rm::on = true;
  return start(a / 100, 30001 + a % 100, t_tms, &rm::sw);
}

// ---------------------------------------------------------------- programs of demarcation calls (C12)
namespace {
// what the transaction became, from the resource manager: TX_OK, TX_ROLLBACK, TX_MIXED, TX_HAZARD, 1: cannot tell, 2: mixed or hazard
int fate(const std::string &x, std::string *t = nullptr) {
  std::string s = rm::branches(x);
  if (t) *t = s;
  auto has = [&](const char *w) { return s.find(w) != std::string::npos; };
  if (has("active") || has("prepared")) return 1;
  bool c = has("committed"), r = has("rolledback");
  if (has("mixed") || (c && r)) return has("hazard") ? 2 : TX_MIXED;
  if (has("hazard")) return TX_HAZARD;
  return r ? TX_ROLLBACK : TX_OK;
}
static bool failed_before = false;  // a service has failed in the transaction
int inner(const char *svc, int tag, long flags);
// must say that
std::string verdict(const char *what, bool commit, int f, const std::string &st, bool nobegin, int rc, bool is_tp, int err) {
  std::vector<int> want;
  if (commit) {
    if (f == TX_OK) want = {TX_OK};
    if (st.empty() && failed_before) want = {TX_ROLLBACK};  // nothing was done because it failed
    if (f == TX_ROLLBACK) want = {TX_ROLLBACK};
    if (f == 1) want = {TX_HAZARD, TX_MIXED, TX_FAIL};
    if (f == 1 && st.find("active") != std::string::npos) want = {TX_ROLLBACK, TX_MIXED, TX_HAZARD, TX_FAIL};
    if (f == 1 && st.find("committed") == std::string::npos) want.push_back(TX_ROLLBACK);
  } else {
    if (f == TX_ROLLBACK) want = {TX_OK};
    if (f == TX_OK) want = {st.find("committed") == std::string::npos ? TX_OK : TX_COMMITTED};
    if (f == 1) want = {TX_OK, TX_MIXED, TX_HAZARD, TX_FAIL};
  }
  if (f == TX_MIXED || f == TX_HAZARD) want = {f};
  if (f == 2) want = {TX_MIXED, TX_HAZARD};
  bool ok = false;
  if (!is_tp) {
    for (int w : want) ok |= rc == (nobegin ? w + TX_NO_BEGIN : w);
  } else
    for (int w : want) {
      if (w == TX_OK && !nobegin) ok |= rc == 0;
      else if (nobegin || f == 1) ok |= rc == -1;
      else if (w == TX_ROLLBACK) ok |= rc == -1 && err == TPEABORT;
      else if (w == TX_MIXED) ok |= rc == -1 && err == TPEHEURISTIC;
      else if (w == TX_HAZARD) ok |= rc == -1 && err == TPEHAZARD;
      else ok |= rc == -1;
    }
  if (ok) return "";
  std::string r = std::string(what) + "=" + std::to_string(rc);
  if (is_tp && rc == -1) r += " with tperrno=" + std::to_string(err);
  return r + ", the transaction is " + (st.empty() ? "without branches" : st) + (nobegin ? " and no other one has begun" : "") + ", expected " +
         std::to_string(want.empty() ? 99 : want[0] + (nobegin ? TX_NO_BEGIN : 0));
}
// The X/Open TX state table and characteristics
struct Model {
  bool open = false, in = false, chained = false;
  long ret = TX_COMMIT_COMPLETED, timeout = 0;
  std::string xid = "-";
  bool operator==(const Model &o) const {
    return open == o.open && in == o.in && chained == o.chained && ret == o.ret && timeout == o.timeout && xid == o.xid;
  }
};
struct Prog {
  Model m;
  bool rm_yes;  // the caller has a resource manager
  std::string did;
  std::vector<std::pair<TPTRANID, std::string>> suspended;
  std::vector<std::pair<TPTRANID, std::string>> over;
  std::set<std::string> xids;
  int refused = 0;
  bool fatal = false;
  bool svc = false;  // services work in its transactions
  std::set<std::string> doomed;

  void wrong(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    sim_fail("after %s: %s", did.c_str(), b);
  }
  // what the caller is told must be the truth
  void look() {
    TXINFO i;
    memset(&i, 0x55, sizeof(i));
    int rc = tx_info(&i), lev = tpgetlev(), err = lev == -1 ? tperrno : 0, rc0 = tx_info(nullptr);
    if (rc != rc0) wrong("tx_info(NULL)=%d, tx_info(&info)=%d", rc0, rc);
    if (!m.open) {
      if (rc != TX_PROTOCOL_ERROR) wrong("tx_info()=%d without open resource managers", rc);
      if (lev != -1 || err != TPEPROTO) wrong("tpgetlev()=%d tperrno=%d without open resource managers", lev, err);
      return;
    }
    if (rc != m.in) wrong("tx_info()=%d, expected %d", rc, m.in);
    if (lev != m.in) wrong("tpgetlev()=%d, expected %d", lev, m.in);
    if (i.when_return != m.ret) wrong("when_return is %ld, expected %ld", i.when_return, m.ret);
    if (i.transaction_control != m.chained) wrong("transaction_control is %ld, expected %d", i.transaction_control, m.chained);
    if (i.transaction_timeout != m.timeout) wrong("transaction_timeout is %ld, expected %ld", i.transaction_timeout, m.timeout);
    std::string x = rm::name(i.xid);
    if (m.in && m.xid == "new") {
      if (x == "-") wrong("the transaction has no identifier");
      if (!xids.insert(x).second) wrong("transaction %s existed before", x.c_str());
      m.xid = x;
    } else if (x != (m.in ? m.xid : "-"))
      wrong("the transaction is %s, expected %s", x.c_str(), m.in ? m.xid.c_str() : "-");
    if (m.in && (i.transaction_state != TX_ACTIVE) != !!doomed.count(m.xid))
      wrong("the state of transaction is %ld, it %s", i.transaction_state, doomed.count(m.xid) ? "can only be rolled back" : "is active");
  }
  bool is_associated(const std::string &x) const {
    rm::Quiet q;
    return rm::cur != -1 && rm::hex(rm::sh->b[rm::cur].id, 8) == x;
  }
  void looks() {
    look();
    if (!rm_yes || !m.open) return;
    if (m.in && !is_associated(m.xid)) wrong("the resource manager does not know that the caller works in transaction %s", m.xid.c_str());
    if (!m.in && rm::cur != -1) wrong("the resource manager still thinks that the caller works in a transaction");
  }
  void tx(const char *what, int rc, std::initializer_list<int> ok) {
    for (int o : ok)
      if (rc == o) return;
    wrong("%s is %d, expected %d%s", what, rc, *ok.begin(), ok.size() > 1 ? " or similar" : "");
  }
  void tp(const char *what, int rc, int err, int want, bool any = false) {
    if (want == 0 ? rc != 0 : rc != -1 || (err != want && !any)) wrong("%s=%d with tperrno=%d, expected tperrno=%d", what, rc, err, want);
  }

  // the new transaction of a chained one, or TX_NO_BEGIN
  void chain(bool begun) {
    m.in = begun;
    m.xid = begun ? "new" : "-";
  }
  void finish(const char *what, bool commit, int rc, bool is_tp, int err) {
    bool legal = m.open && m.in;
    if (!legal) {
      if (is_tp) tp(what, rc, err, TPEPROTO);
      else tx(what, rc, {TX_PROTOCOL_ERROR});
      refused++;
      return;
    }
    std::string x = m.xid, st;
    int f = rm_yes || svc ? fate(x, &st) : (commit ? TX_OK : TX_ROLLBACK);
    failed_before = doomed.count(x);
    if (svc && commit && failed_before && st.find("committed") != std::string::npos) wrong("the transaction has committed although a service has failed");
    if (svc && commit && !failed_before && f != TX_OK) wrong("the transaction has not committed: %s", st.c_str());
    if (svc && !commit && st.find("committed") != std::string::npos) wrong("the transaction has committed");
    m.in = false;
    m.xid = "-";
    bool nobegin = false;
    if (m.chained) {
      nobegin = rm_yes && rm::cur == -1;
      chain(!nobegin);
    }
    std::string w = verdict(what, commit, f, st, nobegin, rc, is_tp, err);
    if (!w.empty()) wrong("%s", w.c_str());
    if (f == 1) fatal = true;
  }
  void op(char c) {
    did += c;
    bool idle = m.open && !m.in;
    switch (c) {
      case 'O':
      case 'o': {
        int seq = rm::last_open;
        int rc = c == 'O' ? tx_open() : tpopen(), err = c == 'o' && rc == -1 ? tperrno : 0;
        int a = rm_yes && rm::last_open != seq ? rm::last_open_rc : 0;
        if (rm_yes && !m.open && rm::last_open == seq) wrong("the resource manager was not opened");
        int want = a == XA_OK ? TX_OK : a == XAER_RMERR ? TX_ERROR : TX_FAIL;
        if (c == 'O') tx("tx_open()", rc, {want});
        else tp("tpopen()", rc, err, want == TX_OK ? 0 : TPERMERR);
        if (want == TX_FAIL) fatal = true;
        if (a == XA_OK && !m.open) {
          m = Model();
          m.open = true;
        }
        break;
      }
      case 'X':
      case 'x': {
        if (!suspended.empty()) return;  // not judged
        int seq = rm::last_close;
        int rc = c == 'X' ? tx_close() : tpclose(), err = c == 'x' && rc == -1 ? tperrno : 0;
        int a = rm_yes && rm::last_close != seq ? rm::last_close_rc : 0;
        int want = m.in ? TX_PROTOCOL_ERROR : a == XA_OK ? TX_OK : a == XAER_RMERR ? TX_ERROR : TX_FAIL;
        if (rm_yes && idle && rm::last_close == seq) wrong("the resource manager was not closed");
        if (c == 'X') tx("tx_close()", rc, {want});
        else tp("tpclose()", rc, err, want == TX_OK ? 0 : want == TX_PROTOCOL_ERROR ? TPEPROTO : TPERMERR);
        if (want == TX_FAIL) fatal = true;
        if (want == TX_PROTOCOL_ERROR) refused++;
        if (want == TX_OK) m.open = false;
        break;
      }
      case 'B':
      case 'b':
      case 'e': {
        int seq = rm::last_start;
        int rc = c == 'B' ? tx_begin() : tpbegin(c == 'b' ? 0 : 5, 0), err = c != 'B' && rc == -1 ? tperrno : 0;
        int a = rm_yes && rm::last_start != seq ? rm::last_start_rc : 0;
        int want = !idle ? TX_PROTOCOL_ERROR : a == XA_OK ? TX_OK : a == XAER_OUTSIDE ? TX_OUTSIDE : a == XAER_RMERR ? TX_ERROR : TX_FAIL;
        if (c == 'B') tx("tx_begin()", rc, {want});
        else tp("tpbegin()", rc, err, want == TX_OK ? 0 : want == TX_PROTOCOL_ERROR ? TPEPROTO : want == TX_OUTSIDE ? TPETRAN : TPERMERR);
        if (want == TX_FAIL) fatal = true;
        if (want == TX_PROTOCOL_ERROR) refused++;
        if (want == TX_OK) m.in = true, m.xid = "new";
        if (idle && c != 'B') {
          if (want == TX_OK) m.timeout = c == 'b' ? 0 : 5;
          else {  // free to have set it
            TXINFO i;
            if (tx_info(&i) >= 0 && i.transaction_timeout == (c == 'b' ? 0 : 5)) m.timeout = i.transaction_timeout;
          }
        }
        break;
      }
      case 'f': {  // flags and time-outs that do not exist
        int rc = tpbegin(0, 666), err = rc == -1 ? tperrno : 0;
        tp("tpbegin(0, 666)", rc, err, TPEINVAL, !idle);
        rc = tpcommit(666), err = rc == -1 ? tperrno : 0;
        tp("tpcommit(666)", rc, err, TPEINVAL, !m.in);
        rc = tpabort(666), err = rc == -1 ? tperrno : 0;
        tp("tpabort(666)", rc, err, TPEINVAL, !m.in);
        TPTRANID t;
        memset(&t, 0, sizeof(t));
        rc = tpsuspend(&t, 666), err = rc == -1 ? tperrno : 0;
        tp("tpsuspend(,666)", rc, err, TPEINVAL, !m.in);
        rc = tpsuspend(nullptr, 0), err = rc == -1 ? tperrno : 0;
        tp("tpsuspend(NULL)", rc, err, TPEINVAL, !m.in);
        rc = tpresume(&t, 666), err = rc == -1 ? tperrno : 0;
        tp("tpresume(,666)", rc, err, TPEINVAL, !idle);
        rc = tpresume(nullptr, 0), err = rc == -1 ? tperrno : 0;
        tp("tpresume(NULL)", rc, err, TPEINVAL, !idle);
        refused++;
        break;
      }
      case 'W':    // services that work in the transaction: succeeds, fails
      case 'D':
      case 'N': {  // fails outside of it
        int err = inner(c == 'W' ? "W1" : "F1", 1, c == 'N' ? TPNOTRAN : 0), want = c == 'W' ? 0 : TPESVCFAIL;
        bool was = m.in && doomed.count(m.xid);
        if (err != want && !(c != 'N' && was && err && err != TPENOENT)) wrong("the service returned %d, expected %d", err, want);
        if (c == 'D' && m.in) doomed.insert(m.xid);
        break;
      }
      case 'C': finish("tx_commit()", true, tx_commit(), false, 0); break;
      case 'c': {
        int rc = tpcommit(0), err = rc == -1 ? tperrno : 0;
        finish("tpcommit()", true, rc, true, err);
        break;
      }
      case 'R': finish("tx_rollback()", false, tx_rollback(), false, 0); break;
      case 'r': {
        int rc = tpabort(0), err = rc == -1 ? tperrno : 0;
        finish("tpabort()", false, rc, true, err);
        break;
      }
      case '1':
      case '0':
      case '2': {
        long v = c == '1' ? TX_CHAINED : c == '0' ? TX_UNCHAINED : 2;
        int rc = tx_set_transaction_control(v);
        tx("tx_set_transaction_control()", rc, {!m.open ? TX_PROTOCOL_ERROR : v == 2 ? TX_EINVAL : TX_OK, !m.open && v == 2 ? TX_EINVAL : !m.open ? TX_PROTOCOL_ERROR : v == 2 ? TX_EINVAL : TX_OK});
        if (!m.open || v == 2) refused++;
        else m.chained = v == TX_CHAINED;
        break;
      }
      case 'L':
      case 'K':
      case '3': {
        long v = c == 'L' ? TX_COMMIT_DECISION_LOGGED : c == 'K' ? TX_COMMIT_COMPLETED : 2;
        int rc = tx_set_commit_return(v);
        // a transaction manager may say that it cannot return early
        if (c == 'L' && m.open && rc == TX_NOT_SUPPORTED) break;
        tx("tx_set_commit_return()", rc, {!m.open ? TX_PROTOCOL_ERROR : v == 2 ? TX_EINVAL : TX_OK, !m.open && v == 2 ? TX_EINVAL : !m.open ? TX_PROTOCOL_ERROR : v == 2 ? TX_EINVAL : TX_OK});
        if (!m.open || v == 2) refused++;
        else m.ret = v;
        break;
      }
      case 'T':
      case 't': {
        long v = c == 'T' ? 7 : -1;
        int rc = tx_set_transaction_timeout(v);
        tx("tx_set_transaction_timeout()", rc, {!m.open ? TX_PROTOCOL_ERROR : v < 0 ? TX_EINVAL : TX_OK, !m.open && v < 0 ? TX_EINVAL : !m.open ? TX_PROTOCOL_ERROR : v < 0 ? TX_EINVAL : TX_OK});
        if (!m.open || v < 0) refused++;
        else m.timeout = v;
        break;
      }
      case 'S': {
        TPTRANID t;
        memset(&t, 0, sizeof(t));
        int rc = tpsuspend(&t, 0), err = rc == -1 ? tperrno : 0;
        tp("tpsuspend()", rc, err, m.in && m.open ? 0 : TPEPROTO);
        if (rc == -1) {
          refused++;
          break;
        }
        suspended.push_back({t, m.xid});
        m.in = false;
        m.xid = "-";
        break;
      }
      case 'P':    // the last one
      case 'F': {  // the first one
        if (suspended.empty()) return;
        size_t k = c == 'P' ? suspended.size() - 1 : 0;
        TPTRANID t = suspended[k].first;
        int rc = tpresume(&t, 0), err = rc == -1 ? tperrno : 0;
        tp("tpresume()", rc, err, idle ? 0 : TPEPROTO);
        if (rc == -1) {
          refused++;
          break;
        }
        m.in = true;
        m.xid = suspended[k].second;
        over.push_back({t, m.xid});
        suspended.erase(suspended.begin() + k);
        break;
      }
      case 'Z':    // what was resumed before: it is over or somebody works in it
      case 'U': {  // nonsense
        TPTRANID t;
        memset(&t, 0, sizeof(t));
        if (c == 'Z') {
          if (over.empty()) return;
          t = over.back().first;
          for (auto &x : suspended)
            if (x.second == over.back().second) return;  // suspended again
        }
        int rc = tpresume(&t, 0), err = rc == -1 ? tperrno : 0;
        if (idle) tp("tpresume() of no transaction", rc, err, c == 'U' ? TPEMATCH : TPEMATCH, true);
        else tp("tpresume() of no transaction", rc, err, TPEPROTO, c == 'U');
        refused++;
        break;
      }
      default: sim_fail("no operation %c", c);
    }
    if (!fatal) looks();
  }
};
void program(bool rm_yes, const std::string &prefix, const std::string &ops, int depth, int max_refused) {
  Prog p;
  p.rm_yes = rm_yes;
  p.svc = *rm::env("TX_SVC");
  if (p.svc) rm::attach();
  p.look();
  for (char c : prefix) p.op(c);
  rm::answers = true;
  rm::on = true;
  for (int i = 0; i < depth && !p.fatal; i++) {
    int n = p.refused;
    int c = sim_choose(ops.size() + 1, "operation");
    if (c == (int)ops.size()) break;
    p.op(ops[c]);
    if (p.refused > n && p.refused > max_refused) break;
  }
  if (!p.fatal) {
    int live = transactions_live(), want = (int)p.suspended.size() + p.m.in;
    if (live != want) sim_fail("after %s: %d transactions are in the table, there are %d", p.did.c_str(), live, want);
  }
  sim_log("done", 0, 0, p.did.c_str());
}
int num(const char *n, int d) { return atoi(rm::env(n, std::to_string(d).c_str())); }
int prog_svrinit(int, char **) {
  rm::attach();
  sim_ready();
  program(true, rm::env("TX_PREFIX"), rm::env("TX_OPS"), num("TX_DEPTH", 3), num("TX_REFUSED", 99));
  return -1;
}
}  // namespace
// a server whose initialisation is the program. arg: group
extern "C" int tx_prog(int grp) {
  static struct tmdsptchtbl_t none[] = {{NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmsvrargs_t args = {&rm::sw, none, 0,    prog_svrinit, tpsvrdone, _tmrunserver, NULL,
                                    NULL,    NULL, NULL, tprminit,     tpsvrthrinit, tpsvrthrdone, NULL};
  std::string g = std::to_string(grp);
  char *argv[] = {(char *)"server", (char *)"-g", (char *)g.c_str(), (char *)"-i", (char *)"1", (char *)"-A", nullptr};
  _tmstartserver(6, argv, &args);
  sim_log("end", 0, 0, "");
  return 0;
}
// the same in a client
extern "C" int tx_client(int) {
  init();
  sim_ready();
  program(false, rm::env("TX_PREFIX"), rm::env("TX_OPS"), num("TX_DEPTH", 3), num("TX_REFUSED", 99));
  sim_log("end", 0, 0, "");
  return 0;
}

// ---------------------------------------------------------------- services that work in transactions (C11, C14)
namespace {
int tag_of(TPSVCINFO *s) { return s->data ? atoi(s->data) : 0; }
std::string my_xid() {
  TXINFO i;
  return tx_info(&i) < 0 ? "closed" : rm::name(i.xid);
}
// to be looked at by who has called
int saw(TPSVCINFO *s) {
  int lev = tpgetlev();
  std::string x = my_xid();
  sim_log("exec", lev, tag_of(s), (std::string(s->name) + " in " + x).c_str());
  rm::Quiet q;
  rm::attach();
  if (rm::sh->nseen == 64) sim_fail("too many services for this scenario");
  rm::Seen &e = rm::sh->seen[rm::sh->nseen++];
  e.tag = tag_of(s);
  e.lev = lev;
  snprintf(e.xid, sizeof(e.xid), "%s", x.c_str());
  e.works = rm::cur == -1 ? 0 : rm::hex(rm::sh->b[rm::cur].id, 8) == x ? 1 : -1;
  return e.tag;
}
int inner(const char *svc, int tag, long flags) {
  char *p = str(std::to_string(tag)), *r = str("", 64);
  long len = 0;
  int rc = tpcall((char *)svc, p, 0, &r, &len, flags), err = rc == -1 ? tperrno : 0;
  tpfree(p);
  tpfree(r);
  return err;
}
std::string other(TPSVCINFO *s, const char *n) { return std::string(n) + (s->name[1] == '1' ? "2" : "1"); }
void ret(int rval, int tag) { tpreturn(rval, 0, str(std::to_string(tag)), 0, 0); }
}  // namespace
extern "C" {
void xW(TPSVCINFO *s) { ret(TPSUCCESS, saw(s)); }
void xF(TPSVCINFO *s) { ret(TPFAIL, saw(s)); }
void xX(TPSVCINFO *s) { ret(TPEXIT, saw(s)); }
void xT(TPSVCINFO *s) {
  saw(s);
  throw std::runtime_error("service failed");
}
void xR(TPSVCINFO *s) { saw(s); }  // no tpreturn
void xN(TPSVCINFO *s) { tpforward((char *)other(s, "W").c_str(), str(std::to_string(saw(s) + 1000)), 0, 0); }
void xM(TPSVCINFO *s) { tpforward((char *)other(s, "F").c_str(), str(std::to_string(saw(s) + 1000)), 0, 0); }
void xV(TPSVCINFO *s) { tpforward((char *)"NOSUCH", str(std::to_string(saw(s) + 1000)), 0, 0); }
void xD(TPSVCINFO *s) {
  int t = saw(s);
  if (inner(other(s, "W").c_str(), t + 1000, 0)) sim_fail("the service of service %s failed", s->name);
  ret(TPSUCCESS, t);
}
void xE(TPSVCINFO *s) {
  int t = saw(s);
  if (inner(other(s, "F").c_str(), t + 2000, TPNOTRAN) != TPESVCFAIL) sim_fail("the service of service %s did not fail", s->name);
  ret(TPSUCCESS, t);
}
void xH(TPSVCINFO *s) {
  int t = saw(s);
  if (inner(other(s, "F").c_str(), t + 1000, 0) != TPESVCFAIL) sim_fail("the service of service %s did not fail", s->name);
  ret(TPSUCCESS, t);
}
void xO(TPSVCINFO *s) {  // does not wait for a reply
  int t = saw(s);
  char *p = str(std::to_string(t + 1000));
  if (tpacall((char *)other(s, "W").c_str(), p, 0, 0) == -1) sim_fail("tpacall failed with %d", tperrno);
  tpfree(p);
  ret(TPSUCCESS, t);
}
void xQ(TPSVCINFO *s) {  // leaves the transaction suspended
  int t = saw(s);
  TPTRANID id;
  tpsuspend(&id, 0);
  ret(TPSUCCESS, t);
}
void xY(TPSVCINFO *s) {
  int t = saw(s);
  TPTRANID id;
  bool in = tpgetlev() == 1;
  std::string x = my_xid();
  if (tpsuspend(&id, 0) != (in ? 0 : -1)) sim_fail("tpsuspend failed");
  if (in && tpgetlev() != 0) sim_fail("in a transaction after tpsuspend");
  if (in && tpresume(&id, 0) == -1) sim_fail("tpresume failed");
  if (my_xid() != x) sim_fail("transaction %s after tpsuspend and tpresume, it was %s", my_xid().c_str(), x.c_str());
  ret(TPSUCCESS, t);
}
void xZ(TPSVCINFO *s) {  // tries to end the transaction of its caller
  int t = saw(s);
  if (tpgetlev() == 1) {
    std::string x = my_xid();
    if (tpbegin(0, 0) != -1 || tperrno != TPEPROTO) sim_fail("tpbegin in a transaction");
    if (tpcommit(0) != -1 || tperrno != TPEPROTO) sim_fail("a service commits the transaction of its caller");
    if (tpabort(0) != -1 || tperrno != TPEPROTO) sim_fail("a service rolls back the transaction of its caller");
    if (tx_commit() != TX_PROTOCOL_ERROR || tx_rollback() != TX_PROTOCOL_ERROR || tx_close() != TX_PROTOCOL_ERROR) sim_fail("a service ends the transaction of its caller");
    if (my_xid() != x || tpgetlev() != 1) sim_fail("refused calls have changed the transaction");
  }
  ret(TPSUCCESS, t);
}
void xJ(TPSVCINFO *s) {  // leaves its own transaction unfinished
  int t = saw(s);
  if (tpgetlev() == 0) {
    if (tpbegin(0, 0) == -1) sim_fail("tpbegin failed with %d", tperrno);
    inner(other(s, "W").c_str(), t + 3000, 0);
  }
  ret(TPSUCCESS, t);
}
void xI(TPSVCINFO *s) {  // commits its own
  int t = saw(s);
  if (tpgetlev() == 0) {
    if (tpbegin(0, 0) == -1) sim_fail("tpbegin failed with %d", tperrno);
    if (inner(other(s, "W").c_str(), t + 3000, 0)) sim_fail("the service of service %s failed", s->name);
    if (tpcommit(0) == -1) sim_fail("tpcommit of a service failed with %d", tperrno);
  }
  ret(TPSUCCESS, t);
}
void xS(TPSVCINFO *s) {  // slow
  int t = saw(s);
  nap(3000);
  ret(TPSUCCESS, t);
}
}
#define X(n, g) {(char *)#n #g, (char *)"x" #n, x##n, 0, 0, NULL}
#define XEND {NULL, NULL, NULL, 0, 0, NULL}
static struct tmdsptchtbl_t w1[] = {X(W, 1), X(F, 1), X(X, 1), X(T, 1), X(R, 1), X(N, 1), X(M, 1), X(V, 1), X(D, 1), X(E, 1), X(H, 1),
                                    X(O, 1), X(Q, 1), X(Y, 1), X(Z, 1), X(J, 1), X(I, 1), XEND},
                            w2[] = {X(W, 2), X(F, 2), X(D, 2), XEND}, w3[] = {X(W, 3), XEND}, ws[] = {X(S, 1), XEND};
// a server of group 1..3 with those services. arg: group * 100 + server (group 9: the slow one of group 1)
extern "C" int worker(int a) {
  rm::on = true;
  struct tmdsptchtbl_t *t[] = {w1, w2, w3};
  return start(a / 100 == 9 ? 1 : a / 100, a % 100, a / 100 == 9 ? ws : t[a / 100 - 1], &rm::sw);
}

// ---------------------------------------------------------------- one transaction, all answers (C11)
namespace {
int one_call(const char *svc, int tag, long flags) {
  int err = inner(svc, tag, flags);
  sim_log("call", err, flags, svc);
  return err;
}
// all ends of the transaction x
void check_end(const std::string &x, const char *what, bool commit, int rc, bool is_tp, int err, bool unfinished) {
  std::string st;
  int f = fate(x, &st);
  if (f == 1 && !unfinished) sim_fail("%s=%d left the branches %s", what, rc, st.c_str());
  std::string w = verdict(what, commit, f, st, false, rc, is_tp, err);
  if (!w.empty()) sim_fail("%s", w.c_str());
  sim_log("over", rc, err, (x + " " + st).c_str());
}
// TX_CALLS: services (two letters), TX_ASYNC: at the same time, TX_END: C c R r
void one_transaction(int n) {
  int err = 0, rc = tx_begin();
  if (rc != TX_OK) sim_fail("tx_begin()=%d", rc);
  std::string x = my_xid(), calls = rm::env("TX_CALLS"), end = rm::env("TX_END", "C");
  bool async = *rm::env("TX_ASYNC"), doomed = false;
  std::vector<int> cds;
  for (size_t i = 0; i + 1 < calls.size(); i += 2) {
    std::string svc = calls.substr(i, 2);
    int tag = n * 100 + i / 2 + 1;
    if (!async) {
      doomed |= one_call(svc.c_str(), tag, 0) != 0;
      continue;
    }
    char *p = str(std::to_string(tag));
    int cd = tpacall((char *)svc.c_str(), p, 0, 0);
    if (cd == -1) sim_fail("tpacall failed with %d", tperrno);
    tpfree(p);
    cds.push_back(cd);
  }
  for (int cd : cds) {
    char *r = str("", 64);
    long len = 0;
    if (tpgetrply(&cd, &r, &len, 0) == -1) doomed = true;
    tpfree(r);
  }
  bool unfinished = *rm::env("TX_UNFINISHED");
  for (char c : end) {
    bool commit = c == 'C' || c == 'c', tp = c == 'c' || c == 'r';
    rc = c == 'C' ? tx_commit() : c == 'c' ? tpcommit(0) : c == 'R' ? tx_rollback() : tpabort(0);
    err = tp && rc == -1 ? tperrno : 0;
    failed_before = doomed;
    check_end(x, tp ? (commit ? "tpcommit()" : "tpabort()") : commit ? "tx_commit()" : "tx_rollback()", commit, rc, tp, err, unfinished);
    if (commit && doomed && rc == 0 && rm::branches(x).find("alone") == std::string::npos) sim_fail("the transaction committed although a service has failed");
    if (commit && !doomed && rc != 0 && !*rm::env("RM_BUDGET") && !unfinished) sim_fail("the transaction did not commit, result %d, error %d", rc, err);
    break;
  }
}
}  // namespace
// arg: number of transactions
extern "C" int tx_two(int n) {
  init();
  rm::attach();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  sim_ready();
  for (int i = 0; i < n; i++) one_transaction(sim_self() * 10 + i);
  if (tpgetlev() != 0) sim_fail("still in a transaction");
  if (tx_close() != TX_OK) sim_fail("tx_close failed");
  if (n == 1 && *rm::env("TX_ALONE", "1") == '1' && transactions_live() != 0) sim_fail("%d transactions are left in the table", transactions_live());
  tpterm();
  sim_log("end", 0, 0, "");
  return 0;
}
// the same in the initialisation of a server. arg: group
static int two_svrinit(int, char **) {
  rm::attach();
  rm::on = true;
  sim_ready();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  one_transaction(0);
  if (tpgetlev() != 0) sim_fail("still in a transaction");
  if (tx_close() != TX_OK) sim_fail("tx_close failed");
  if (transactions_live() != 0) sim_fail("%d transactions are left in the table", transactions_live());
  return -1;
}
extern "C" int tx_two_server(int grp) {
  static struct tmdsptchtbl_t none[] = {{NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmsvrargs_t args = {&rm::sw, none, 0,    two_svrinit, tpsvrdone, _tmrunserver, NULL,
                                    NULL,    NULL, NULL, tprminit,    tpsvrthrinit, tpsvrthrdone, NULL};
  std::string g = std::to_string(grp);
  char *argv[] = {(char *)"server", (char *)"-g", (char *)g.c_str(), (char *)"-i", (char *)"9", (char *)"-A", nullptr};
  _tmstartserver(6, argv, &args);
  sim_log("end", 0, 0, "");
  return 0;
}

// ---------------------------------------------------------------- identities and table entries (C13)
int transactions_with(const XID &x);
static XID whole_xid() {
  TXINFO i;
  if (tx_info(&i) != 1) sim_fail("tx_info fails in a transaction");
  return i.xid;
}
static void known(const XID &x, int want, const char *when) {
  int n = transactions_with(x);
  if (n != want) sim_fail("%s there are %d entries of transaction %s in the table, expected %d", when, n, rm::name(x).c_str(), want);
}
// the identities of running transactions, of all processes
static void live(const XID &x, bool begin) {
  rm::Quiet q;
  rm::attach();
  std::string me = rm::hex(x.data, x.gtrid_length + x.bqual_length);
  for (int i = 0; i < rm::sh->nlive; i++)
    if (me == rm::sh->live[i]) {
      if (begin) sim_fail("transaction %s is running already", me.c_str());
      rm::sh->live[i][0] = '-';
      return;
    }
  if (!begin) sim_fail("transaction %s was not running", me.c_str());
  if (rm::sh->nlive == 256) sim_fail("too many transactions for this scenario");
  snprintf(rm::sh->live[rm::sh->nlive++], sizeof(rm::sh->live[0]), "%s", me.c_str());
}
// TX_ENDS: how they end, one after the other (Cc Rr), arg: how many
extern "C" int tx_many(int n) {
  init();
  rm::attach();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  std::string ends = rm::env("TX_ENDS", "C"), svc = rm::env("TX_SVC");
  sim_ready();
  for (int i = 0; i < n; i++) {
    if (tx_begin() != TX_OK) sim_fail("transaction %d does not begin", i + 1);
    XID x = whole_xid();
    if (i < 200) live(x, true);
    known(x, 1, "while it is running");
    if (!svc.empty()) {
      int tag = sim_self() * 1000 + i + 1;
      if (inner(svc.c_str(), tag, 0)) sim_fail("the service failed");
      rm::Quiet q;
      bool ok = false;
      for (int k = 0; k < rm::sh->nseen; k++)
        if (rm::sh->seen[k].tag == tag) ok = rm::name(x) == rm::sh->seen[k].xid;
      if (!ok) sim_fail("the service did not work in transaction %s", rm::name(x).c_str());
    }
    known(x, 1, "before it ends");
    if (i < 200) live(x, false);
    char e = ends[i % ends.size()];
    int rc = e == 'C' ? tx_commit() : tx_rollback();
    if (rc != TX_OK) sim_fail("transaction %d ends with %d", i + 1, rc);
    known(x, 0, "after its end");
  }
  if (*rm::env("TX_ALONE", "1") == '1' && transactions_live() != 0) sim_fail("%d transactions are left in the table", transactions_live());
  tpterm();
  sim_log("end", 0, 0, "");
  return 0;
}
// fills the table, while another client (waits for flag 1, raises flag 2) has a transaction. arg: who ends first, 0-2
extern "C" int tx_fill(int arg) {
  init();
  rm::attach();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  sim_ready();
  sim_wait(1);
  std::vector<TPTRANID> t;
  std::vector<XID> x;
  for (;;) {
    int rc = t.size() % 2 ? tx_begin() : tpbegin(0, 0);
    if (rc != 0) {
      if (rc == TX_PROTOCOL_ERROR) sim_fail("tx_begin fails with TX_PROTOCOL_ERROR");
      break;
    }
    if (t.size() == 300) sim_fail("the table has no end");
    x.push_back(whole_xid());
    TPTRANID id;
    memset(&id, 0, sizeof(id));
    if (tpsuspend(&id, 0) == -1) sim_fail("tpsuspend fails with %d", tperrno);
    t.push_back(id);
  }
  sim_log("filled", t.size(), 0, "");
  if (t.size() < 20) sim_fail("only %zu transactions can run at a time", t.size());
  if (tpgetlev() != 0) sim_fail("in a transaction that has not begun");
  if (transactions_live() != (int)t.size() + 1) sim_fail("%d transactions are in the table, there are %zu", transactions_live(), t.size() + 1);
  for (int again = 0; again < 3; again++)
    if (tx_begin() == TX_OK) sim_fail("one more has begun");
  for (auto &y : x) known(y, 1, "when the table is full");
  std::set<std::string> names;
  for (auto &y : x)
    if (!names.insert(rm::name(y)).second) sim_fail("transaction %s runs twice", rm::name(y).c_str());
  // one ends, one can begin, again and again
  size_t k = arg == 0 ? 0 : arg == 1 ? t.size() / 2 : t.size() - 1;
  for (int i = 0; i < 5; i++) {
    if (tpresume(&t[k], 0) == -1) sim_fail("tpresume fails with %d", tperrno);
    if (rm::name(whole_xid()) != rm::name(x[k])) sim_fail("tpresume resumes another transaction");
    // every place of the entry is used
    if (inner("W1", 300 + i, 0) || inner("W2", 400 + i, 0)) sim_fail("the service failed in transaction %zu", k + 1);
    int rc = i % 2 ? tx_rollback() : tx_commit();
    if (rc != TX_OK) sim_fail("a transaction ends with %d", rc);
    known(x[k], 0, "after its end");
    if (tx_begin() != TX_OK) sim_fail("a transaction does not begin after another one has ended");
    x[k] = whole_xid();
    if (!names.insert(rm::name(x[k])).second) sim_fail("transaction %s did exist", rm::name(x[k]).c_str());
    if (tpsuspend(&t[k], 0) == -1) sim_fail("tpsuspend fails with %d", tperrno);
    if (tx_begin() == TX_OK) sim_fail("one more has begun");
  }
  sim_signal(2);
  sim_wait(3);
  for (size_t i = 0; i < t.size(); i++) {
    size_t j = arg == 1 ? t.size() - 1 - i : i;
    if (tpresume(&t[j], 0) == -1) sim_fail("tpresume fails with %d", tperrno);
    known(x[j], 1, "before it ends");
    int rc = i % 3 ? tx_rollback() : tx_commit();
    if (rc != TX_OK) sim_fail("a transaction ends with %d", rc);
    if (transactions_live() != (int)(t.size() - i - 1)) sim_fail("%d transactions are in the table, there are %zu", transactions_live(), t.size() - i - 1);
  }
  tpterm();
  sim_log("end", 0, 0, "");
  return 0;
}
extern "C" int tx_undisturbed(int) {
  init();
  rm::attach();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  sim_ready();
  if (tx_begin() != TX_OK) sim_fail("tx_begin failed");
  XID x = whole_xid();
  if (inner("W1", 1, 0)) sim_fail("the service failed");
  sim_signal(1);
  sim_wait(2);
  if (rm::name(whole_xid()) != rm::name(x)) sim_fail("the transaction has changed");
  if (inner("W2", 2, 0)) sim_fail("the service failed");
  int rc = tx_commit();
  check_end(rm::name(x), "tx_commit()", true, rc, false, 0, false);
  if (rc != TX_OK) sim_fail("tx_commit()=%d", rc);
  if (rm::branches(rm::name(x)) != "1:committed 2:committed") sim_fail("the branches are %s", rm::branches(rm::name(x)).c_str());
  sim_signal(3);
  tpterm();
  sim_log("end", 0, 0, "");
  return 0;
}
// a server whose resource manager refuses to start n times
static int fails_svrinit(int, char **) {
  rm::attach();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  sim_ready();
  for (int i = 0; i < 250; i++) {
    rm::force_start = i % 3 == 0 ? XAER_RMERR : i % 3 == 1 ? XAER_RMFAIL : XAER_OUTSIDE;
    if (tx_begin() == TX_OK) sim_fail("tx_begin succeeds although the resource manager refuses");
    if (transactions_live()) sim_fail("%d transactions are in the table, none has begun", transactions_live());
  }
  rm::force_start = 0;
  if (tx_begin() != TX_OK) sim_fail("tx_begin fails");
  if (tx_commit() != TX_OK) sim_fail("tx_commit fails");
  if (transactions_live()) sim_fail("%d transactions are in the table, all have ended", transactions_live());
  return -1;
}
extern "C" int tx_fails(int grp) {
  static struct tmdsptchtbl_t none[] = {{NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmsvrargs_t args = {&rm::sw, none, 0,    fails_svrinit, tpsvrdone, _tmrunserver, NULL,
                                    NULL,    NULL, NULL, tprminit,      tpsvrthrinit, tpsvrthrdone, NULL};
  std::string g = std::to_string(grp);
  char *argv[] = {(char *)"server", (char *)"-g", (char *)g.c_str(), (char *)"-i", (char *)"9", (char *)"-A", nullptr};
  _tmstartserver(6, argv, &args);
  sim_log("end", 0, 0, "");
  return 0;
}

// ---------------------------------------------------------------- context (C14)
namespace {
struct Trx {
  std::string xid;
  bool doomed = false, harmed = false;  // harmed: might be doomed
  TPTRANID id;
};
struct Call {
  int cd, tag;
  std::string svc, xid;  // "": not in a transaction
};
struct Ctx {
  bool in = false;
  Trx cur;
  std::vector<Trx> susp;
  std::vector<Call> calls;
  std::vector<std::string> all;  // every transaction so far
  int n = 0;
  std::string did;
  bool lenient = rm::lenient();

  void wrong(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    sim_fail("after%s: %s", did.c_str(), b);
  }
  // the results of a service, in a transaction or not
  static int result(char svc, bool tran) {
    if (strchr("FM", svc)) return TPESVCFAIL;
    if (strchr("XTRV", svc)) return TPESVCERR;
    if (strchr("QO", svc) && tran) return TPESVCERR;
    if (svc == 'J' && !tran) return TPESVCERR;
    return 0;
  }
  // where the services worked
  void seen(const Call &c, bool must) {
    rm::Quiet q;
    int found = 0;
    for (int i = 0; i < rm::sh->nseen; i++) {
      auto &s = rm::sh->seen[i];
      if (s.tag % 1000 != c.tag % 1000) continue;
      int kind = s.tag / 1000;
      if (kind == 0) found++;
      bool tran = !c.xid.empty() && kind <= 1;
      std::string want = kind == 3 ? s.xid : tran ? c.xid : "-";
      if (kind == 3) tran = true;
      if (kind == 3 && (!strcmp(s.xid, "-") || c.xid == s.xid)) wrong("the service called by %s worked in transaction %s", c.svc.c_str(), s.xid);
      if (s.lev != tran || want != s.xid)
        wrong("%s%s worked %s transaction %s, expected %s", kind ? "the service called by " : "", c.svc.c_str(), s.lev == 1 ? "in" : "outside, in", s.xid, want.c_str());
      if (s.works != tran) wrong("the resource manager of %s %s transaction %s", c.svc.c_str(), s.works ? "works in another transaction than" : "does not work in", s.xid);
    }
    if (found > 1 || (must && found != 1)) wrong("%s was executed %d times", c.svc.c_str(), found);
  }
  // what a finished call has done to its transaction
  void outcome(const Call &c, int err) {
    Trx *t = nullptr;
    if (!c.xid.empty()) {
      if (in && cur.xid == c.xid) t = &cur;
      for (auto &s : susp)
        if (s.xid == c.xid) t = &s;
    }
    bool refused = t && (t->doomed || t->harmed);  // it may be refused
    int want = result(c.svc[0], !c.xid.empty());
    if (c.svc[0] == 'H' && !c.xid.empty() && err == TPESVCERR) want = err;
    if (refused && err && err != TPENOENT) {
      t->doomed |= t->harmed;
    } else if (c.svc[0] == 'S') {
      if (err != TPETIME) wrong("%s returns %d, it should have timed out", c.svc.c_str(), err);
    } else if (c.svc == "NO") {
      if (err != TPENOENT) wrong("%s returns %d, it does not exist", c.svc.c_str(), err);
      return;
    } else if (err != want)
      wrong("%s returns %d, expected %d", c.svc.c_str(), err, want);
    if (t && (err == TPESVCFAIL || err == TPESVCERR || err == TPETIME || c.svc[0] == 'H')) t->doomed = true;
    seen(c, !refused && err != TPETIME);
  }
  void look() {
    TXINFO i;
    int lev = tpgetlev(), rc = tx_info(&i);
    if (lev != in || rc != in) wrong("tpgetlev()=%d tx_info()=%d, expected %d", lev, rc, in);
    if (rm::name(i.xid) != (in ? cur.xid : "-")) wrong("in transaction %s, expected %s", rm::name(i.xid).c_str(), in ? cur.xid.c_str() : "none");
    if (in && !cur.harmed && (i.transaction_state != TX_ACTIVE) != cur.doomed)
      wrong("the state of the transaction is %ld, it %s", i.transaction_state, cur.doomed ? "can only be rolled back" : "is active");
  }
  void finish(char c) {
    bool pending = false;
    std::vector<int> old;
    for (size_t i = 0; i < calls.size();)
      if (!calls[i].xid.empty() && calls[i].xid == cur.xid) {
        pending = true;
        old.push_back(calls[i].cd);
        calls.erase(calls.begin() + i);
      } else
        i++;
    int rc = c == 'C' ? tpcommit(0) : tpabort(0), err = rc == -1 ? tperrno : 0;
    in = false;
    std::string st;
    int f = fate(cur.xid, &st);
    bool back = c == 'R' || cur.doomed || pending;
    if (back) {
      if (st.find("committed") != std::string::npos) wrong("the transaction must not commit, its branches are %s", st.c_str());
      if (c == 'R' && rc != 0) wrong("tpabort fails with %d", err);
      if (c == 'C' && (rc != -1 || err != TPEABORT)) wrong("tpcommit=%d with error %d, the transaction can only be rolled back", rc, err);
      if (f != TX_ROLLBACK && !st.empty() && !lenient) wrong("the branches are %s", st.c_str());
    } else if (!cur.harmed || rc == 0) {
      if (rc != 0) wrong("tpcommit fails with %d, branches are %s", err, st.c_str());
      if (f != TX_OK) wrong("tpcommit=0, branches are %s", st.c_str());
    }
    for (int cd : old) {
      char *r = str("", 64);
      long len = 0;
      int k = cd;
      if (tpgetrply(&k, &r, &len, TPNOBLOCK) != -1 || tperrno != TPEBADDESC) wrong("the descriptor %d of the finished transaction is valid: %d", cd, tperrno);
      tpfree(r);
    }
  }
  void get(size_t i, bool any) {
    char *r = str("", 64);
    long len = 0;
    int cd = any ? 0 : calls[i].cd;
    int rc = tpgetrply(&cd, &r, &len, any ? TPGETANY : 0), err = rc == -1 ? tperrno : 0;
    tpfree(r);
    for (size_t k = 0; k < calls.size(); k++)
      if (calls[k].cd == cd) {
        Call c = calls[k];
        calls.erase(calls.begin() + k);
        outcome(c, err);
        return;
      }
    wrong("tpgetrply gives descriptor %d with error %d", cd, err);
  }
  void op(const std::string &o) {
    did += " " + o;
    char c = o[0];
    if (o.size() == 1) switch (c) {
        case 'B': {
          int rc = tpbegin(0, 0), err = rc == -1 ? tperrno : 0;
          if (in ? rc != -1 || err != TPEPROTO : rc != 0) wrong("tpbegin=%d with error %d", rc, err);
          if (!in) {
            in = true;
            cur = Trx();
            cur.xid = my_xid();
            for (auto &x : all)
              if (x == cur.xid) wrong("transaction %s existed before", x.c_str());
            all.push_back(cur.xid);
          }
          break;
        }
        case 'C':
        case 'R':
          if (!in) return;
          finish(c);
          break;
        case 'S': {
          if (!in) return;
          for (auto &k : calls)
            if (k.xid == cur.xid) return;  // not judged
          if (tpsuspend(&cur.id, 0) == -1) wrong("tpsuspend fails with %d", tperrno);
          in = false;
          susp.push_back(cur);
          break;
        }
        case 'P': {
          if (susp.empty()) return;
          int rc = tpresume(&susp.back().id, 0), err = rc == -1 ? tperrno : 0;
          if (in ? rc != -1 || err != TPEPROTO : rc != 0) wrong("tpresume=%d with error %d", rc, err);
          if (in) break;
          cur = susp.back();
          susp.pop_back();
          in = true;
          break;
        }
        case 'G':
          if (calls.empty()) return;
          get(0, false);
          break;
        case 'A':
          if (calls.empty()) return;
          get(0, true);
          break;
        case 'K': {
          if (calls.empty()) return;
          int rc = tpcancel(calls[0].cd), err = rc == -1 ? tperrno : 0;
          if (!calls[0].xid.empty()) {
            if (rc != -1 || err != TPETRAN) wrong("tpcancel=%d with error %d for a call in a transaction", rc, err);
          } else {
            if (rc == -1) wrong("tpcancel fails with %d", err);
            calls.erase(calls.begin());
          }
          break;
        }
      }
    else {
      bool async = o.find('&') != std::string::npos, notran = o.find('-') != std::string::npos, noreply = o.find('!') != std::string::npos;
      Call k;
      k.svc = o.substr(0, 2);
      k.tag = sim_self() * 100 + ++n;
      k.xid = in && !notran ? cur.xid : "";
      if (noreply) {
        char *p = str(std::to_string(k.tag));
        int rc = tpacall((char *)k.svc.c_str(), p, 0, TPNOREPLY | (notran ? TPNOTRAN : 0)), err = rc == -1 ? tperrno : 0;
        tpfree(p);
        if (k.xid.empty() ? rc != 0 : rc != -1 || err != TPEINVAL) wrong("tpacall with TPNOREPLY: %d, error %d", rc, err);
      } else if (async) {
        char *p = str(std::to_string(k.tag));
        k.cd = tpacall((char *)k.svc.c_str(), p, 0, notran ? TPNOTRAN : 0);
        if (k.cd == -1) wrong("tpacall fails with %d", tperrno);
        tpfree(p);
        calls.push_back(k);
        if (lenient && in && !k.xid.empty()) cur.harmed |= result(k.svc[0], true) != 0;
      } else
        outcome(k, inner(k.svc.c_str(), k.tag, notran ? TPNOTRAN : 0));
    }
    look();
  }
};
std::vector<std::string> words(std::string s) {
  std::vector<std::string> r;
  for (size_t p; !s.empty();) {
    p = s.find(' ');
    r.push_back(s.substr(0, p));
    s = p == std::string::npos ? "" : s.substr(p + 1);
  }
  return r;
}
}  // namespace
// every sequence of TX_DEPTH operations TX_OPS after TX_PREFIX
extern "C" int tx_context_program(int limit) {
  init();
  rm::attach();
  if (tx_open() != TX_OK) sim_fail("tx_open failed");
  if (limit && tpsblktime(limit, TPBLK_ALL | TPBLK_MILLISECOND) == -1) sim_fail("tpsblktime failed");
  sim_ready();
  Ctx c;
  for (auto &o : words(rm::env("TX_PREFIX"))) c.op(o);
  auto ops = words(rm::env("TX_OPS"));
  int depth = num("TX_DEPTH", 3);
  for (int i = 0; i < depth; i++) {
    int k = sim_choose(ops.size() + 1, "operation");
    if (k == (int)ops.size()) break;
    c.op(ops[k]);
  }
  for (auto &o : words(rm::env("TX_SUFFIX"))) c.op(o);
  // leave nothing behind
  c.did += " end";
  if (c.in) c.finish(sim_choose(2, "end") ? 'R' : 'C');
  while (!c.susp.empty()) {
    c.op("P");
    c.finish('R');
  }
  while (!c.calls.empty()) c.get(0, false);
  nap(limit ? 8000 : 100);
  for (auto &x : c.all) {
    std::string st = rm::branches(x);
    if (st.find("active") != std::string::npos || st.find("prepared") != std::string::npos) c.wrong("branches of a finished transaction are %s", st.c_str());
  }
  {
    rm::Quiet q;
    for (int i = 0; i < rm::sh->n; i++)
      if (rm::sh->b[i].assoc || rm::sh->b[i].susp) c.wrong("somebody still works in a branch of group %d", rm::sh->b[i].rmid);
  }
  if (*rm::env("TX_ALONE", "1") == '1' && transactions_live() != 0) c.wrong("%d transactions are left in the table", transactions_live());
  c.op("W1");
  c.op("W2");
  tpterm();
  sim_log("end", 0, 0, "");
  return 0;
}
