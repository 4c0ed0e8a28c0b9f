// F02: every pair of small real buffers x every whole-buffer operation,
// compared with the operation's definition on the models.
#include <algorithm>
#include <set>
#include "fmlmodel.h"

struct Cfg { std::vector<FLDID32> f; int maxocc; int pat; };
static std::vector<Cfg> cfgs;
static const size_t ample = 8192;

static FBFR32 *mk(size_t cap) {
  FBFR32 *b = (FBFR32 *)malloc(cap);
  memset((void *)b, 0xA5, cap);
  Finit32(b, cap);
  return b;
}
// the contents of one side: occurrences per field; values depend on side, field, occurrence and pattern
static Model content(const Cfg &c, const std::vector<int> &n, int side, std::vector<std::pair<FLDID32, int>> *vals) {
  Model m;
  for (size_t i = 0; i < c.f.size(); i++)
    for (int o = 0; o < n[i]; o++) {
      int v = c.pat == 0 ? (side ? 2 + (o & 1) : (o & 1)) : ((side * 3 + o * 2 + (int)i + c.pat) & 3);
      m[c.f[i]].push_back(mkval(c.f[i] >> 24, v).model);
      vals->push_back({c.f[i], v});
    }
  return m;
}
static FBFR32 *build(const std::vector<std::pair<FLDID32, int>> &vals, size_t cap) {
  FBFR32 *b = mk(cap);
  // insertion order: reversed by field, so that regions are built back to front
  for (size_t i = 0; i < vals.size(); i++) {
    Val v = mkval(vals[i].first >> 24, vals[i].second);
    char none[1] = {0};
    if (Fadd32(b, vals[i].first, v.nest < 0 && v.raw.empty() ? none : v.ptr(), v.len) == -1) { free(b); return nullptr; }
  }
  return b;
}
static Model m_update(Model d, const Model &s, bool present_only, bool del_missing) {
  if (del_missing) {
    for (auto it = d.begin(); it != d.end();) {
      auto si = s.find(it->first);
      size_t n = si == s.end() ? 0 : si->second.size();
      if (it->second.size() > n) it->second.resize(n);
      if (it->second.empty()) it = d.erase(it); else ++it;
    }
  }
  for (auto &kv : s) {
    auto di = d.find(kv.first);
    for (size_t o = 0; o < kv.second.size(); o++) {
      if (di != d.end() && o < di->second.size()) di->second[o] = kv.second[o];
      else if (!present_only) { d[kv.first].push_back(kv.second[o]); di = d.find(kv.first); }
    }
  }
  return d;
}
static void check(const std::string &what, FBFR32 *b, const Model &want, const std::string &ctx) {
  std::string cs, why;
  mc::add(mc::cnt().transitions);
  long size = Fsizeof32(b), used = Fused32(b), un = Funused32(b);
  if (!canon(b, cs, why)) { mc::violation(what + "|iterate", ctx + why); return; }
  if (cs != canon(want)) { mc::violation(what + "|content", ctx + "expected " + show(want) + ", got " + mc::hexs(cs.data(), cs.size())); return; }
  if (used + un != size) mc::violation(what + "|sizes", ctx + "used+unused != size");
  // the result equals, byte for byte and by checksum, a buffer built directly
  FBFR32 *x = mk(ample);
  for (auto &kv : want)
    for (auto &v : kv.second)
      if (kv.first >> 24 != FLD_FML32) {
        char none[1] = {0};
        Fadd32(x, kv.first, v.empty() ? none : (char *)v.data(), v.size());
      } else {
        for (int i = 0; i < 4; i++) { Val w = mkval(FLD_FML32, i); if (w.model == v) { Fadd32(x, kv.first, w.ptr(), 0); break; } }
      }
  if (Fused32(x) != used) mc::violation(what + "|used", ctx + mc::fmt("used %ld, a buffer with the same contents uses %ld", used, Fused32(x)));
  if (Fchksum32(x) != Fchksum32(b)) mc::violation(what + "|chksum", ctx + "checksum differs from an equal buffer's");
  // find everything by name again
  for (auto &kv : want)
    for (size_t o = 0; o < kv.second.size(); o++) {
      FLDLEN32 l = 0;
      char *p = Ffind32(b, kv.first, o, &l);
      if (!p || (kv.first >> 24 != FLD_FML32 && std::string(p, l) != kv.second[o])) { mc::violation(what + "|find", ctx + "Ffind32 of " + fname_(kv.first)); break; }
    }
  free(x);
}
enum { CPY, UPDATE, JOIN, OJOIN, CONCAT, NBIN };
static const char *opname[] = {"Fcpy32", "Fupdate32", "Fjoin32", "Fojoin32", "Fconcat32"};

static void pair(const Cfg &c, const std::vector<int> &nd, const std::vector<int> &ns) {
  std::vector<std::pair<FLDID32, int>> vd, vs;
  Model md = content(c, nd, 0, &vd), ms = content(c, ns, 1, &vs);
  FBFR32 *src = build(vs, ample);
  std::string scanon0, why;
  canon(src, scanon0, why);
  for (int op = 0; op < NBIN; op++) {
    Model want;
    switch (op) {
      case CPY: want = ms; break;
      case UPDATE: want = m_update(md, ms, false, false); break;
      case JOIN: want = m_update(md, ms, true, true); break;
      case OJOIN: want = m_update(md, ms, true, false); break;
      case CONCAT: want = md; for (auto &kv : ms) for (auto &v : kv.second) want[kv.first].push_back(v); break;
    }
    std::string ctx = std::string(opname[op]) + "(dest " + show(md) + ", src " + show(ms) + ")\n";
    mc::trace(ctx);
    FBFR32 *d = build(vd, ample);
    long used0 = Fused32(d);
    auto fn = [&](FBFR32 *x) { return op == CPY ? Fcpy32(x, src) : op == UPDATE ? Fupdate32(x, src) : op == JOIN ? Fjoin32(x, src) : op == OJOIN ? Fojoin32(x, src) : Fconcat32(x, src); };
    int r = fn(d);
    if (r == -1) mc::violation(std::string(opname[op]) + "|refused", ctx + mc::fmt("failed with ample room, Ferror32 %d", Ferror32));
    else check(opname[op], d, want, ctx);
    long need = Fused32(d);
    std::string sc;
    if (!canon(src, sc, why) || sc != scanon0) mc::violation(std::string(opname[op]) + "|source", ctx + "the source changed");
    free(d);
    // destinations of limited capacity: exactly enough, and 8 bytes less
    long top = std::max(need, used0);
    for (long cap : {top, need - 8, used0 + (long)Fused32(src)}) {
      if (cap < used0 || cap < Fneeded32(0, 0)) continue;
      d = build(vd, cap);
      if (!d) { mc::violation("build", ctx + mc::fmt("cannot rebuild in %ld bytes", cap)); continue; }
      mc::trace(ctx + mc::fmt("capacity %ld", cap));
      r = fn(d);
      int ferr = Ferror32;
      mc::add(mc::cnt().transitions);
      std::string dc;
      bool ok = canon(d, dc, why);
      bool mono = op == CPY || op == CONCAT;
      if (!ok) mc::violation(std::string(opname[op]) + "|cap-iterate", ctx + mc::fmt("capacity %ld: ", cap) + why);
      else if (r == 0 && dc != canon(want)) mc::violation(std::string(opname[op]) + "|cap-content", ctx + mc::fmt("capacity %ld: wrong result", cap));
      else if (r == -1 && ferr != FNOSPACE) mc::violation(std::string(opname[op]) + "|cap-error", ctx + mc::fmt("capacity %ld: Ferror32 %d", cap, ferr));
      else if (r == 0 && need > cap) mc::violation(std::string(opname[op]) + "|cap-over", ctx + "succeeded beyond the capacity");
      else if (r == -1 && (mono ? need <= cap : cap >= used0 + Fused32(src) && need <= cap)) mc::violation(std::string(opname[op]) + "|cap-refused", ctx + mc::fmt("capacity %ld refused although %ld are needed", cap, need));
      else if (r == -1 && mono && dc != canon(md)) mc::violation(std::string(opname[op]) + "|cap-partial", ctx + mc::fmt("capacity %ld: failed and changed the destination", cap));
      free(d);
    }
  }
  free(src);
  mc::add(mc::cnt().states);
}

static void lists(const Cfg &c, const std::vector<int> &nd) {
  std::vector<std::pair<FLDID32, int>> vd;
  Model md = content(c, nd, 0, &vd);
  std::vector<FLDID32> pool = c.f;
  pool.push_back(Fmkfldid32(FLD_CHAR, 888));
  // all lists of up to 3 ids (any order, repetitions included)
  std::vector<std::vector<FLDID32>> L = {{}};
  for (size_t i = 0; i < L.size(); i++)
    if (L[i].size() < 3)
      for (auto id : pool) { auto x = L[i]; x.push_back(id); L.push_back(x); }
  for (auto &l : L) {
    std::set<FLDID32> in(l.begin(), l.end());
    Model keep, drop;
    for (auto &kv : md) (in.count(kv.first) ? keep : drop).insert(kv);
    std::string ls;
    for (auto id : l) ls += fname_(id) + " ";
    for (int op = 0; op < 3; op++) {
      auto arr = l;
      arr.push_back(BADFLDID);
      FBFR32 *b = build(vd, ample);
      const char *nm = op == 0 ? "Fproj32" : op == 1 ? "Fdelete32" : "Fprojcpy32";
      std::string ctx = std::string(nm) + "(" + show(md) + ", {" + ls + "})\n";
      mc::trace(ctx);
      if (op < 2) {
        int r = op == 0 ? Fproj32(b, arr.data()) : Fdelete32(b, arr.data());
        if (r == -1) mc::violation(std::string(nm) + "|refused", ctx);
        else check(nm, b, op == 0 ? keep : drop, ctx);
      } else {
        std::string s0, s1, why;
        canon(b, s0, why);
        FBFR32 *d = mk(ample);
        Fadd32(d, Fmkfldid32(FLD_STRING, 10), (char *)"old contents", 0);
        int r = Fprojcpy32(d, b, arr.data());
        if (r == -1) mc::violation(std::string(nm) + "|refused", ctx);
        else check(nm, d, keep, ctx);
        long need = Fused32(d);
        if (!canon(b, s1, why) || s0 != s1) mc::violation(std::string(nm) + "|source", ctx + "the source changed");
        free(d);
        for (long cap : {need, need - 8}) {
          if (cap < Fneeded32(0, 0)) continue;
          d = mk(cap);
          auto a2 = l;
          a2.push_back(BADFLDID);
          r = Fprojcpy32(d, b, a2.data());
          if ((r == 0) != (cap >= need)) mc::violation(std::string(nm) + "|cap", ctx + mc::fmt("capacity %ld of %ld: returned %d", cap, need, r));
          if (!canon(d, s1, why)) mc::violation(std::string(nm) + "|cap-iterate", ctx + why);
          free(d);
        }
      }
      free(b);
    }
  }
  mc::add(mc::cnt().states);
}

static void job(int j) {
  Cfg c = cfgs[j];
  int n = c.f.size(), base = c.maxocc + 1, tot = 1;
  for (int i = 0; i < n; i++) tot *= base;
  auto dec = [&](int x) { std::vector<int> v; for (int i = 0; i < n; i++) { v.push_back(x % base); x /= base; } return v; };
  for (int a = 0; a < tot && !mc::enough(); a++) {
    lists(c, dec(a));
    for (int b = 0; b < tot && !mc::enough(); b++) pair(c, dec(a), dec(b));
    if (mc::out_of_time()) { mc::add(mc::cnt().truncated); return; }
  }
  mc::add(mc::cnt().validated, tot);
  if (j % 20 == 0) {
    std::vector<std::pair<FLDID32, int>> x;
    mc::sample("all pairs over " + show(content(c, dec(tot - 1), 0, &x)) + " and smaller");
  }
}
int main() {
  auto F = [](int t, int n) { return Fmkfldid32(t, n); };
  bool th = mc::thorough();
  for (int t : types_) cfgs.push_back({{F(t, 10), F(t, 11)}, 4, 0});
  for (int t : types_) cfgs.push_back({{F(t, 10), F(t, 11)}, 3, 1});
  for (int i = 0; i < 8; i++)
    for (int k = i + 1; k < 8; k++) cfgs.push_back({{F(types_[i], 10), F(types_[k], 10)}, 4, 1});
  for (int i = 0; i < 8; i++)
    for (int k = i + 1; k < 8; k++)
      for (int l = k + 1; l < 8; l++)
        for (int p = 0; p < (th ? 2 : 1); p++) cfgs.push_back({{F(types_[i], 10), F(types_[k], 10), F(types_[l], 10)}, th ? 3 : 2, p});
  {
    Cfg c; c.maxocc = 1; c.pat = 1;
    for (int t : {FLD_SHORT, FLD_LONG, FLD_DOUBLE, FLD_STRING, FLD_FML32}) c.f.push_back(F(t, 20));
    cfgs.push_back(c);
    if (th) { c.f.clear(); for (int t : types_) if (t != FLD_CHAR) c.f.push_back(F(t, 20)); cfgs.push_back(c); }
  }
  return mc::run(cfgs.size(), job);
}
