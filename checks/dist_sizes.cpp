// Actors for C05: messages of every size, type and path.
#include "act.h"
#include <string>

int start(int grpno, int srvid, struct tmdsptchtbl_t *tbl, xa_switch_t *xa);

namespace {
struct Kind {
  int type;  // 0 no data, 1 STRING, 2 CARRAY, 3 FML32
  long n;
};
const char *tname[] = {"none", "STRING", "CARRAY", "FML32"};

const std::vector<Kind> &kinds(int mode) {
  static std::vector<Kind> all, some, few, one, big, tiny, bigs;
  if (all.empty()) {
    all.push_back({0, 0});
    for (int t = 1; t <= 3; t++) {
      auto range = [&](long a, long b) {
        for (long n = a; n <= b; n++) all.push_back({t, n});
      };
      range(0, 70);
      range(120, 136);
      range(250, 262);
      range(504, 520);
      range(1016, 1034);
      range(3780, 4110);
      range(5000, 5000);
      range(8180, 8200);
      range(16376, 16392);
      range(65530, 65540);
      range(131070, 131074);
      for (long n : {0, 1, 3, 64, 3800, 3920, 3950, 4000, 4096, 9000, 70000}) some.push_back({t, n});
    }
    some.push_back({0, 0});
    few = {{0, 0}, {1, 5}, {2, 0}, {2, 4500}, {3, 20}, {3, 9000}};
    one = {{1, 7}};
    big = {{1, 5}, {2, 5000}, {3, 9000}};
    tiny = {{0, 0}, {1, 5}, {2, 5000}};
    bigs = {{2, 5000}};
  }
  switch (mode) {
    case 0: return all;
    case 1: return some;
    case 2: return few;
    case 3: return big;
    case 4: return tiny;
    case 5: return bigs;
    default: return one;
  }
}
Kind pick(int mode) {
  auto &k = kinds(mode);
  int n = k.size();
  if (n == 1) return k[0];
  if (n <= 200) return k[sim_choose(n, "kind of buffer")];
  int hi = sim_choose((n + 99) / 100, "kind of buffer (hundreds)");
  return k[hi * 100 + sim_choose(std::min(100, n - hi * 100), "kind of buffer")];
}
unsigned char pat(long i, int salt) { return (unsigned char)((i * 167 + (i >> 8) * 59 + salt * 31) & 0xff); }

char *make(const Kind &k, int salt, long *len) {
  *len = 0;
  if (k.type == 0) return nullptr;
  char *p = tpalloc((char *)tname[k.type], nullptr, k.n + 64 + (k.type == 3 ? 128 : 0));
  if (!p) {
    sim_fail("tpalloc(%s, %ld) failed", tname[k.type], k.n);
    return nullptr;
  }
  if (k.type == 1) {
    for (long i = 0; i < k.n; i++) p[i] = 'A' + pat(i, salt) % 50;
    p[k.n] = 0;
  } else if (k.type == 2) {
    for (long i = 0; i < k.n; i++) p[i] = pat(i, salt);
    *len = k.n;
  } else {
    std::string v;
    for (long i = 0; i < k.n; i++) v += (char)pat(i, salt);
    long l = salt;
    if (Fadd32((FBFR32 *)p, Fmkfldid32(FLD_LONG, 10), (char *)&l, 0) == -1 ||
        Fadd32((FBFR32 *)p, Fmkfldid32(FLD_CARRAY, 20), (char *)v.data(), v.size()) == -1)
      sim_fail("Fadd32 failed: %d", Ferror32);
  }
  return p;
}
unsigned long fnv(const char *p, long n, unsigned long h = 1469598103934665603UL) {
  for (long i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211UL;
  return h;
}
// what a receiver finds
std::string describe(char *p, long len) {
  if (!p) return "none";
  char ty[9] = "", st[17] = "";
  if (tptypes(p, ty, st) == -1) return "not a buffer";
  std::string t(ty, strnlen(ty, 8));
  char b[80];
  unsigned long h = 0;
  long real = len;
  if (t == "STRING") {
    real = strlen(p) + 1;
    h = fnv(p, real);
  } else if (t == "CARRAY") {
    h = fnv(p, len);
  } else if (t == "FML32") {
    auto *f = (FBFR32 *)p;
    real = Fused32(f);
    FLDID32 id = BADFLDID;
    FLDOCC32 oc = 0;
    h = fnv("x", 1);
    while (true) {
      char *v;
      FLDLEN32 l = 0;
      if (Fnext32(f, &id, &oc, nullptr, nullptr) != 1) break;
      v = Ffind32(f, id, oc, &l);
      if (!v) break;
      h = fnv((char *)&id, sizeof(id), h);
      h = fnv(v, l, h);
    }
  }
  snprintf(b, sizeof(b), " %ld %lx", real, h);
  if (real != len) snprintf(b + strlen(b), sizeof(b) - strlen(b), " (told %ld)", len);
  return t + b;
}
std::string describe_own(char *p, long len) {  // before it is sent
  if (!p) return "none";
  char ty[9] = "";
  tptypes(p, ty, nullptr);
  if (!strncmp(ty, "STRING", 8)) len = strlen(p) + 1;
  if (!strncmp(ty, "FML32", 8)) len = Fused32((FBFR32 *)p);
  return describe(p, len);
}

int g_mode = 9;
int g_salt = 0;

void reply_with(const Kind &k) {
  long len;
  char *p = make(k, 100 + ++g_salt, &len);
  sim_log("rp", 0, 0, describe_own(p, len).c_str());
  tpreturn(TPSUCCESS, g_salt, p, len, 0);
}
}  // namespace

extern "C" void SIZE(TPSVCINFO *s) {
  sim_log("rq", s->len, 0, describe(s->data, s->len).c_str());
  reply_with(pick(g_mode));
}
extern "C" void SIZESAME(TPSVCINFO *s) {
  sim_log("rq", s->len, 0, describe(s->data, s->len).c_str());
  sim_log("rp", 0, 0, describe(s->data, s->len).c_str());
  tpreturn(TPSUCCESS, ++g_salt, s->data, s->len, 0);
}
extern "C" void SIZEFWD(TPSVCINFO *s) {
  sim_log("rq", s->len, 0, describe(s->data, s->len).c_str());
  long len;
  char *p = make(pick(g_mode), 200 + ++g_salt, &len);
  sim_log("fw", 0, 0, describe_own(p, len).c_str());
  tpforward((char *)"SIZE", p, len, 0);
}
extern "C" void SIZEFWDSAME(TPSVCINFO *s) {
  sim_log("rq", s->len, 0, describe(s->data, s->len).c_str());
  sim_log("fw", 0, 0, describe(s->data, s->len).c_str());
  tpforward((char *)"SIZE", s->data, s->len, 0);
}
// arg: mode * 10000 + forwarding * 1000 + group * 100 + server
extern "C" int srv_size(int arg) {
  static struct tmdsptchtbl_t t[] = {{"SIZE", "SIZE", SIZE, 0, 0, NULL}, {"SIZESAME", "SIZESAME", SIZESAME, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmdsptchtbl_t f[] = {{"SIZEFWD", "SIZEFWD", SIZEFWD, 0, 0, NULL}, {"SIZEFWDSAME", "SIZEFWDSAME", SIZEFWDSAME, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
  g_mode = arg / 10000;
  return start(arg / 100 % 10, arg % 100, arg / 1000 % 10 ? f : t, &tmnull_switch);
}

namespace {
// the buffer replies go to: STRING of 16, CARRAY of 5000, FML32 of 200
struct Target {
  char *r;
  std::string before;
  long n;
};
Target target(int which) {
  Target t;
  static const Kind k[] = {{1, 5}, {2, 5000}, {3, 20}};
  long len;
  t.r = make(k[which], 77, &len);
  t.n = len ? len : which == 0 ? 6 : Fused32((FBFR32 *)t.r);
  t.before = describe(t.r, t.n);
  return t;
}
void result(const char *what, int rc, Target &t, long len) {
  bool same = len == 0 && describe(t.r, t.n) == t.before;
  int err = rc == -1 ? tperrno : 0;
  sim_log(what, rc == -1 ? (err ? err : -1) : 0, same, rc == -1 ? "" : describe(t.r, len).c_str());
}
}  // namespace

// arg: service * 1000000 + mode * 100000 + reply buffer (3: any) * 10000 + calls * 100 + style
// style 0 tpcall, 1 send all, receive in the opposite order, 2 no reply, 3 no reply non-blocking, then one tpcall,
// 4 tpcalls that may fail, then one that must not, 5 one without reply, then a small tpcall, 7 as 4 with a small one, 8 send all and end, 6 no reply, no time limit
extern "C" int cl_size(int arg) {
  static const char *svc[] = {"SIZE", "SIZESAME", "SIZEFWD", "SIZEFWDSAME"};
  char *s = (char *)svc[arg / 1000000];
  int mode = arg / 100000 % 10, buf = arg / 10000 % 10, n = arg / 100 % 100, style = arg % 100;
  init();
  sim_ready();
  std::vector<int> cds;
  auto call = [&](const Kind &k, int salt, const char *what) {
    long len, olen = -5;
    char *p = make(k, salt, &len);
    auto t = target(buf == 3 ? sim_choose(3, "reply buffer") : buf);
    sim_log("send", 0, 0, describe_own(p, len).c_str());
    int rc = tpcall(s, p, len, &t.r, &olen, 0);
    result(what, rc, t, olen);
    if (p) tpfree(p);
    tpfree(t.r);
  };
  auto send = [&](const Kind &k, int salt, long flags) {
    long len;
    char *p = make(k, salt, &len);
    auto d = describe_own(p, len);
    int cd = tpacall(s, p, len, flags);
    if (cd == -1) sim_log("refused", tperrno ? tperrno : -1, 0, d.c_str());
    else sim_log(flags & TPNOREPLY ? "sendn" : "send", cd, 0, d.c_str());
    if (p) tpfree(p);
    return cd;
  };
  switch (style) {
    case 0:
      for (int i = 0; i < n; i++) call(pick(mode), i, "got");
      break;
    case 1:
      for (int i = 0; i < n; i++) cds.push_back(send(pick(mode), i, 0));
      while (!cds.empty()) {
        long olen = -5;
        auto t = target(buf);
        int cd = cds.back();
        cds.pop_back();
        int rc = tpgetrply(&cd, &t.r, &olen, 0);
        result("gotr", rc, t, olen);
        tpfree(t.r);
      }
      break;
    case 8:
      for (int i = 0; i < n; i++) send(pick(mode), i, 0);
      break;
    case 2: case 3: case 6:
      for (int i = 0; i < n; i++) send(pick(mode), i, style == 2 ? TPNOREPLY : style == 3 ? TPNOREPLY | TPNOBLOCK : TPNOREPLY | TPNOTIME);
      if (style == 3) call({1, 4}, n, "got");
      break;
    case 4:
      for (int i = 0; i < n; i++) call(pick(mode), i, "maybe");
      call({2, 4500}, n, "last");
      break;
    case 7:
      for (int i = 0; i < n; i++) call(pick(mode), i, "maybe");
      call({1, 4}, n, "last");
      break;
    case 5:
      send(pick(mode), 0, TPNOREPLY);
      call({1, 4}, n, "last");
      break;
  }
  if (tpterm() == -1) sim_fail("tpterm failed");
  sim_log("end", 0, 0, "");
  return 0;
}
