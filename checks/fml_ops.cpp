// F01/F03: closes the state space of one real FML32 buffer under all
// single-field operations (bounded occurrences), comparing every transition
// with the reference model; in "cap" mode on buffers of every capacity.
#include <algorithm>
#include <deque>
#include <set>
#include <unordered_set>
#include "fmlmodel.h"

struct Op { int kind; FLDID32 id; int oc; int v; };
enum { ADD, CHG, CHGNULL, CHGADD, DEL, DELALL };
struct Cfg {
  std::vector<FLDID32> f;
  int maxocc, nval;
  size_t cap;  // 0: ample
};
static std::vector<Cfg> cfgs;
static bool capmode;
static size_t state_cap = 200000;

static std::string showop(const Op &o) {
  auto id = fname_(o.id);
  int t = o.id >> 24;
  switch (o.kind) {
    case ADD: return mc::fmt("Fadd32(%s, %s)", id.c_str(), showv(t, mkval(t, o.v).model).c_str());
    case CHG: return mc::fmt("Fchg32(%s, %d, %s)", id.c_str(), o.oc, showv(t, mkval(t, o.v).model).c_str());
    case CHGNULL: return mc::fmt("Fchg32(%s, %d, NULL)", id.c_str(), o.oc);
    case CHGADD: return mc::fmt("Fchg32(%s, -1, %s)", id.c_str(), showv(t, mkval(t, o.v).model).c_str());
    case DEL: return mc::fmt("Fdel32(%s, %d)", id.c_str(), o.oc);
    case DELALL: return mc::fmt("Fdelall32(%s)", id.c_str());
  }
  return "?";
}
static int model_op(Model &m, const Op &o, int &err) {
  auto it = m.find(o.id);
  int n = it == m.end() ? 0 : it->second.size();
  err = 0;
  int t = o.id >> 24;
  switch (o.kind) {
    case ADD: case CHGADD: m[o.id].push_back(mkval(t, o.v).model); return 0;
    case CHG: {
      auto &v = m[o.id];
      while ((int)v.size() <= o.oc) v.push_back(defval(t));
      v[o.oc] = mkval(t, o.v).model;
      return 0;
    }
    case CHGNULL: case DEL:
      if (o.oc >= n) { err = FNOTPRES; return -1; }
      it->second.erase(it->second.begin() + o.oc);
      if (it->second.empty()) m.erase(it);
      return 0;
    case DELALL:
      if (!n) { err = FNOTPRES; return -1; }
      m.erase(it);
      return 0;
  }
  return -1;
}
static int real_op(FBFR32 *b, const Op &o) {
  static std::map<std::pair<int, int>, Val> vals;
  int t = o.id >> 24;
  auto &v = vals[{t, o.v}];
  if (v.model.empty() && v.raw.empty() && v.nest < 0) v = mkval(t, o.v);
  char none[1] = {0};
  char *p = v.nest >= 0 || !v.raw.empty() ? v.ptr() : none;
  switch (o.kind) {
    case ADD: return Fadd32(b, o.id, p, v.len);
    case CHG: return Fchg32(b, o.id, o.oc, p, v.len);
    case CHGADD: return Fchg32(b, o.id, -1, p, v.len);
    case CHGNULL: return Fchg32(b, o.id, o.oc, nullptr, 0);
    case DEL: return Fdel32(b, o.id, o.oc);
    case DELALL: return Fdelall32(b, o.id);
  }
  return -1;
}

// every query, against the model; returns "" when all agree
static std::string queries(FBFR32 *b, const Model &m, const Cfg &c) {
  using mc::fmt;
  char tmp[4096] __attribute__((aligned(8)));
  long size = Fsizeof32(b), used = Fused32(b), un = Funused32(b);
  if (used + un != size) return fmt("Fused32 %ld + Funused32 %ld != Fsizeof32 %ld", used, un, size);
  std::vector<FLDID32> ids = c.f;
  ids.push_back(Fmkfldid32(FLD_STRING, 7777));
  ids.push_back(Fmkfldid32(FLD_SHORT, 1));
  std::string why, cs;
  for (auto id : ids) {
    int t = id >> 24;
    auto it = m.find(id);
    static const std::vector<std::string> none;
    auto &v = it == m.end() ? none : it->second;
    auto nm = fname_(id);
    if (Foccur32(b, id) != (int)v.size()) return fmt("Foccur32(%s) = %d, model %zu", nm.c_str(), Foccur32(b, id), v.size());
    for (int oc = 0; oc <= (int)v.size() + 1; oc++) {
      bool has = oc < (int)v.size();
      if (Fpres32(b, id, oc) != (has ? 1 : 0)) return fmt("Fpres32(%s,%d) wrong", nm.c_str(), oc);
      FLDLEN32 len = 12345;
      char *p = Ffind32(b, id, oc, &len);
      if (!has) {
        if (p || Ferror32 != FNOTPRES) return fmt("Ffind32(%s,%d) of an absent occurrence: %p Ferror32 %d", nm.c_str(), oc, p, Ferror32);
        if (Flen32(b, id, oc) != -1 || Ferror32 != FNOTPRES) return fmt("Flen32(%s,%d) of an absent occurrence", nm.c_str(), oc);
        len = sizeof(tmp);
        if (Fget32(b, id, oc, tmp, &len) != -1 || Ferror32 != FNOTPRES) return fmt("Fget32(%s,%d) of an absent occurrence", nm.c_str(), oc);
        FLDLEN32 ex = 0;
        if (Fgetalloc32(b, id, oc, &ex) != nullptr || Ferror32 != FNOTPRES) return fmt("Fgetalloc32(%s,%d) of an absent occurrence", nm.c_str(), oc);
        continue;
      }
      if (!p) return fmt("Ffind32(%s,%d) failed, Ferror32 %d", nm.c_str(), oc, Ferror32);
      size_t al = t == FLD_LONG || t == FLD_DOUBLE || t == FLD_FML32 ? 8 : t == FLD_FLOAT ? 4 : t == FLD_SHORT ? 2 : 1;
      if ((uintptr_t)p % al) return fmt("Ffind32(%s,%d) misaligned", nm.c_str(), oc);
      std::string got;
      if (t == FLD_FML32) {
        if (!canon((FBFR32 *)p, got, why)) return fmt("nested %s[%d]: ", nm.c_str(), oc) + why;
        if ((FLDLEN32)Fused32((FBFR32 *)p) != len) return fmt("nested %s[%d] length %u, used %ld", nm.c_str(), oc, len, Fused32((FBFR32 *)p));
      } else {
        got.assign(p, len);
      }
      if (got != v[oc]) return fmt("Ffind32(%s,%d) = %s, model %s", nm.c_str(), oc, showv(t, got).c_str(), showv(t, v[oc]).c_str());
      if (Flen32(b, id, oc) != (long)len) return fmt("Flen32(%s,%d) != %u", nm.c_str(), oc, len);
      // exact, ample and short destinations
      FLDLEN32 l2 = len;
      memset(tmp, 0x5a, sizeof(tmp));
      if (t == FLD_FML32) Finit32((FBFR32 *)tmp, 2048), l2 = 2048;
      if (Fget32(b, id, oc, tmp, &l2) == -1 || l2 != len) return fmt("Fget32(%s,%d) with enough room failed", nm.c_str(), oc);
      if (t == FLD_FML32) {
        if (!canon((FBFR32 *)tmp, got, why) || got != v[oc]) return fmt("Fget32(%s,%d) nested differs", nm.c_str(), oc);
        if (Fsizeof32((FBFR32 *)tmp) != 2048) return fmt("Fget32(%s,%d) changed the destination's size", nm.c_str(), oc);
      } else {
        if (std::string(tmp, len) != v[oc]) return fmt("Fget32(%s,%d) value differs", nm.c_str(), oc);
        if (tmp[len] != 0x5a) return fmt("Fget32(%s,%d) wrote beyond the value", nm.c_str(), oc);
      }
      if (len > 0) {
        memset(tmp, 0x5a, sizeof(tmp));
        l2 = len - 1;
        if (Fget32(b, id, oc, tmp, &l2) != -1 || Ferror32 != FNOSPACE || l2 != len) return fmt("Fget32(%s,%d) into a short destination", nm.c_str(), oc);
        if (tmp[0] != 0x5a) return fmt("Fget32(%s,%d) wrote although the destination was short", nm.c_str(), oc);
      }
      FLDLEN32 ex = 3;
      char *a = Fgetalloc32(b, id, oc, &ex);
      if (!a || ex != len || (t != FLD_FML32 && std::string(a, len) != v[oc])) return fmt("Fgetalloc32(%s,%d) differs", nm.c_str(), oc);
      a[len] = a[len + 1] = a[len + 2] = 1;
      free(a);
    }
    FLDOCC32 oc = -7;
    FLDLEN32 len = 0;
    char *p = Ffindlast32(b, id, &oc, &len);
    if (v.empty()) {
      if (p || Ferror32 != FNOTPRES) return fmt("Ffindlast32(%s) of an absent field", nm.c_str());
    } else {
      if (!p || oc != (int)v.size() - 1) return fmt("Ffindlast32(%s) occurrence %d", nm.c_str(), oc);
      if (t != FLD_FML32 && std::string(p, len) != v.back()) return fmt("Ffindlast32(%s) value", nm.c_str());
    }
    if (t != FLD_FML32) {
      for (int i = 0; i < 4; i++) {
        Val x = mkval(t, i);
        int want = -1;
        for (size_t k = 0; k < v.size(); k++)
          if (v[k] == x.model) { want = k; break; }
        char none_[1] = {0};
        int got = Ffindocc32(b, id, x.raw.empty() ? none_ : x.ptr(), x.len);
        if (got != want || (want == -1 && Ferror32 != FNOTPRES)) return fmt("Ffindocc32(%s, %s) = %d, model %d", nm.c_str(), showv(t, x.model).c_str(), got, want);
      }
      if (t == FLD_STRING) {
        // regular expression search: first occurrence containing a match
        struct { const char *re; bool (*f)(const std::string &); } rx[] = {
            {"^lo.*8$", [](const std::string &s) { return s.size() >= 3 && s.compare(0, 2, "lo") == 0 && s.back() == '8'; }},
            {"7+", [](const std::string &s) { return s.find('7') != std::string::npos; }}};
        for (auto &r : rx) {
          int want = -1;
          for (size_t k = 0; k < v.size(); k++)
            if (r.f(v[k].c_str())) { want = k; break; }
          int got = Ffindocc32(b, id, (char *)r.re, 1);
          if (got != want) return fmt("Ffindocc32(%s, /%s/) = %d, model %d", nm.c_str(), r.re, got, want);
        }
      }
    }
  }
  // iteration, with a destination too short for some value
  {
    FLDID32 id = FIRSTFLDID;
    FLDOCC32 oc = 0;
    FLDLEN32 len = 0;
    int r = Fnext32(b, &id, &oc, tmp, &len);
    if (m.empty()) {
      if (r != 0) return "Fnext32 on an empty buffer";
    } else {
      auto &f0 = m.begin()->second[0];
      bool zero = m.begin()->first >> 24 == FLD_CARRAY && f0.empty();
      if (zero ? r != 1 : (r != -1 || Ferror32 != FNOSPACE || len == 0)) return "Fnext32 into a short destination";
    }
    // without value and length
    id = FIRSTFLDID; oc = 0;
    size_t n = 0, tot = 0;
    for (auto &kv : m) tot += kv.second.size();
    while ((r = Fnext32(b, &id, &oc, nullptr, nullptr)) == 1 && n <= tot) n++;
    if (r != 0 || n != tot) return fmt("Fnext32 visits %zu values of %zu", n, tot);
  }
  // arguments that must be refused
  FLDID32 bad = 0x07000001;
  if (Foccur32(b, bad) != -1 || Ferror32 != FTYPERR) return "unknown field type accepted";
  if (Fadd32(b, BADFLDID, tmp, 0) != -1 || Ferror32 != FBADFLD) return "field id 0 accepted";
  if (Fdel32(b, BADFLDID, 0) != -1 || Ferror32 != FBADFLD) return "field id 0 accepted by delete";
  if (Fadd32(nullptr, c.f[0], tmp, 0) != -1 || Ferror32 != FNOTFLD) return "NULL buffer accepted";
  return "";
}

static void job(int j) {
  Cfg c = cfgs[j];
  const size_t ample = 4096;
  size_t cap = c.cap ? c.cap : ample;
  FBFR32 *b = (FBFR32 *)malloc(cap), *big = (FBFR32 *)malloc(ample);
  memset((void *)b, 0xA5, cap);
  memset((void *)big, 0x5A, ample);
  std::string hdr = mc::fmt("config %d: fields", j);
  for (auto id : c.f) hdr += " " + fname_(id);
  hdr += mc::fmt(", <=%d occurrences, %d values, capacity %zu\n", c.maxocc, c.nval, cap);
  if (Finit32(b, cap) == -1) {
    if (cap >= (size_t)Fneeded32(0, 0)) mc::violation("init", hdr + "Finit32 refused");
    free(b); free(big);
    return;
  }
  if (Finit32(b, Fneeded32(0, 0) - 1) != -1) mc::violation("init-small", hdr + "Finit32 accepts a size below the minimum");
  Finit32(b, cap);
  std::vector<Op> ops;
  for (auto id : c.f) {
    for (int v = 0; v < c.nval; v++) {
      ops.push_back({ADD, id, 0, v});
      for (int oc = 0; oc < c.maxocc; oc++) ops.push_back({CHG, id, oc, v});
    }
    ops.push_back({CHGADD, id, 0, 1});
    for (int oc = 0; oc < c.maxocc; oc++) ops.push_back({DEL, id, oc, 0});
    ops.push_back({CHGNULL, id, 0, 0});
    ops.push_back({DELALL, id, 0, 0});
  }
  struct Node { std::string snap; Model m; int parent; Op op; };
  std::deque<Node> q;
  std::set<std::pair<uint64_t, uint64_t>> seen;
  std::map<std::string, long> sums;
  std::map<long, std::string> rsums;
  std::vector<std::pair<int, Op>> back;  // parent links for traces
  auto path = [&](int node) {
    std::vector<std::string> v;
    for (int i = node; i > 0; i = back[i].first) v.push_back(showop(back[i].second));
    std::string s;
    for (auto it = v.rbegin(); it != v.rend(); ++it) s += "  " + *it + "\n";
    return s;
  };
  auto key = [&](FBFR32 *x) {
    mc::Hash h;
    long u = Fused32(x);
    h.feed((char *)(void *)x, std::min<size_t>(u > 0 ? u : 0, cap));
    return h.get();
  };
  q.push_back({std::string((char *)(void *)b, cap), {}, -1, {}});
  back.push_back({-1, {}});
  seen.insert(key(b));
  int id = 0;
  size_t made = 1;
  mc::add(mc::cnt().states);
  {
    std::string w = queries(b, {}, c);
    if (!w.empty()) mc::violation("query|" + w, hdr + w);
  }
  while (!q.empty() && !mc::enough()) {
    Node n = std::move(q.front());
    q.pop_front();
    int my = id++;
    std::string before = canon(n.m);
    for (auto &o : ops) {
      auto it = n.m.find(o.id);
      int have = it == n.m.end() ? 0 : it->second.size();
      if ((o.kind == ADD || o.kind == CHGADD) && have >= c.maxocc) continue;
      memcpy((void *)b, n.snap.data(), cap);
      {
        char t[256];
        snprintf(t, sizeof(t), "fml ops, config %d, node %d, ", j, my);
        // cheap: the full trace is only needed on a crash
        if (1) mc::trace(std::string(t) + showop(o) + " on " + show(n.m) + " capacity " + std::to_string(cap));
      }
      Model m = n.m;
      int err = 0, want = model_op(m, o, err);
      long ubefore = Fused32(b);
      if (c.cap) {
        // what fits: the same operation on an ample copy
        Finit32(big, ample);
        Fcpy32(big, b);
        int r = real_op(big, o);
        if (r == 0 && want == 0 && Fused32(big) > (long)cap) {
          want = -1; err = FNOSPACE; m = n.m;
        }
      }
      int got = real_op(b, o), gerr = Ferror32;
      mc::add(mc::cnt().transitions);
      std::string cs, why;
      std::string ctx = hdr + path(my) + "  -> " + showop(o) + "\n";
      if (got != want || (want == -1 && gerr != err)) {
        mc::violation(mc::fmt("result|%s", showop(o).c_str()),
                      ctx + mc::fmt("returned %d (Ferror32 %d), expected %d (%d); buffer was %s", got, gerr, want, err, show(n.m).c_str()));
        continue;
      }
      if (!canon(b, cs, why)) {
        mc::violation("iterate|" + showop(o), ctx + why + "; expected " + show(m));
        continue;
      }
      if (cs != canon(m)) {
        mc::violation((want == 0 ? "content|" : "failed-op-changed|") + showop(o), ctx + "content differs from the model " + show(m) + ", got " + mc::hexs(cs.data(), cs.size()));
        continue;
      }
      if (want == -1 && Fused32(b) != ubefore) {
        mc::violation("used|" + showop(o), ctx + "a failed operation changed the used size");
        continue;
      }
      auto k = key(b);
      if (seen.insert(k).second) {
        std::string w = queries(b, m, c);
        if (!w.empty()) {
          mc::violation("query|" + w, ctx + w + "; model " + show(m));
          continue;
        }
        long sum = Fchksum32(b);
        auto si = sums.emplace(cs, sum);
        if (!si.second && si.first->second != sum) {
          mc::violation("chksum", ctx + "two buffers with equal contents " + show(m) + " have different checksums");
          continue;
        }
        auto ri = rsums.emplace(sum, cs);
        if (!ri.second && ri.first->second != cs) {
          mc::violation("chksum-collision", ctx + "two small buffers with different contents have one checksum: " + show(m));
          continue;
        }
        mc::add(mc::cnt().states);
        if (++made > state_cap) { mc::add(mc::cnt().truncated); q.clear(); break; }
        back.push_back({my, o});
        q.push_back({std::string((char *)(void *)b, cap), m, my, o});
        if (made == 200 && j % 17 == 0) mc::sample(hdr + path((int)made - 1) + "reaches " + show(m));
      }
    }
    if (mc::out_of_time()) { mc::add(mc::cnt().truncated); break; }
  }
  mc::add(mc::cnt().validated, made);
  free(b);
  // growing keeps contents
  free(big);
}

// Frealloc32 / Falloc32: every (from, to) capacity pair with contents
static void realloc_job(int) {
  for (int n = 0; n < 6; n++)
    for (int f = 1; f < 10; f++)
      for (int v = 1; v < 40; v += 6) {
        FBFR32 *b = Falloc32(4, 40);
        for (int i = 0; i < n; i++) {
          Val x = mkval(types_[i + 1], 1);
          Fadd32(b, Fmkfldid32(types_[i + 1], 10), x.ptr(), x.len);
        }
        std::string a, w, cc;
        canon(b, a, w);
        mc::trace(mc::fmt("Frealloc32 n=%d F=%d V=%d", n, f, v));
        long need = Fneeded32(f, v), used = Fused32(b);
        FBFR32 *r = Frealloc32(b, f, v);
        mc::add(mc::cnt().transitions);
        if (need < used) {
          if (r || Ferror32 != FNOSPACE) mc::violation("realloc-small", mc::fmt("Frealloc32 below the used size (%ld < %ld) accepted", need, used));
          if (r) b = r;
        } else {
          if (!r) { mc::violation("realloc", "Frealloc32 failed"); continue; }
          b = r;
          if (Fsizeof32(b) != need) mc::violation("realloc-size", mc::fmt("size %ld after Frealloc32, expected %ld", Fsizeof32(b), need));
        }
        if (!canon(b, cc, w) || cc != a) mc::violation("realloc-content", mc::fmt("Frealloc32(%d,%d) changed the contents %s", f, v, w.c_str()));
        // and the buffer is usable up to its size
        char big[64];
        memset(big, 'b', 64);
        int k = 0;
        while (Fadd32(b, Fmkfldid32(FLD_CARRAY, 50), big, 24) != -1 && k < 1000) k++;
        if (Ferror32 != FNOSPACE || Funused32(b) >= 32) mc::violation("realloc-fill", mc::fmt("filling stopped with Ferror32 %d and %ld bytes unused", Ferror32, Funused32(b)));
        Ffree32(b);
        mc::add(mc::cnt().states);
      }
}

int main(int argc, char **argv) {
  capmode = argc > 1 && strcmp(argv[1], "cap") == 0;
  bool th = mc::thorough();
  auto F = [](int t, int n) { return Fmkfldid32(t, n); };
  if (!capmode) {
    // all types at once
    {
      Cfg c; c.maxocc = 1; c.nval = 2; c.cap = 0;
      for (int t : types_) c.f.push_back(F(t, 10));
      cfgs.push_back(c);
    }
    // two fields of one type, more occurrences
    for (int t : types_) cfgs.push_back({{F(t, 10), F(t, 11)}, th ? 4 : 3, 2, 0});
    for (int t : types_) cfgs.push_back({{F(t, 10), F(t, 4000000)}, 2, 4, 0});
    // three fields of one type
    for (int t : types_) cfgs.push_back({{F(t, 10), F(t, 11), F(t, 300)}, 2, 2, 0});
    // every pair of types, two fields each
    for (int i = 0; i < 8; i++)
      for (int k = i + 1; k < 8; k++) {
        if (th) cfgs.push_back({{F(types_[i], 10), F(types_[i], 11), F(types_[k], 10), F(types_[k], 11)}, 2, 2, 0});
        else cfgs.push_back({{F(types_[i], 10), F(types_[i], 11), F(types_[k], 10)}, 2, 2, 0}),
             cfgs.push_back({{F(types_[i], 10), F(types_[k], 10), F(types_[k], 11)}, 2, 2, 0});
      }
    // every triple of types
    for (int i = 0; i < 8; i++)
      for (int k = i + 1; k < 8; k++)
        for (int l = k + 1; l < 8; l++) cfgs.push_back({{F(types_[i], 10), F(types_[k], 10), F(types_[l], 10)}, 2, 2, 0});
    if (th)
      for (int i = 0; i < 8; i++)
        for (int k = i + 1; k < 8; k++)
          for (int l = k + 1; l < 8; l++)
            for (int n = l + 1; n < 8; n++)
              cfgs.push_back({{F(types_[i], 10), F(types_[k], 10), F(types_[l], 10), F(types_[n], 12)}, 2, 2, 0});
    std::swap(cfgs[0], cfgs[1]);
    return mc::run(cfgs.size(), job);
  }
  int base = Fneeded32(0, 0);
  for (int t : types_)
    for (int cap = base - 4; cap <= base + 176; cap += (th ? 1 : 4)) {
      cfgs.push_back({{F(t, 10), F(t, 11)}, 3, 2, (size_t)cap});
    }
  for (int i = 0; i < 8; i++)
    for (int k = i; k < 8; k++)
      for (int cap = base; cap <= base + 144; cap += (th ? 4 : 8))
        cfgs.push_back({{F(types_[i], 10), F(types_[k], 12)}, 2, 4, (size_t)cap});
  if (th)
    for (int i = 0; i < 8; i++)
      for (int k = i + 1; k < 8; k++)
        for (int l = k + 1; l < 8; l++)
          for (int cap = base + 16; cap <= base + 144; cap += 16)
            cfgs.push_back({{F(types_[i], 10), F(types_[k], 12), F(types_[l], 13)}, 2, 2, (size_t)cap});
  int n = cfgs.size();
  return mc::run(n + 1, [n](int j) { if (j < n) job(j); else realloc_job(j); });
}
