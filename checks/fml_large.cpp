// Large buffers: every operation from every state of a family that reaches
// far beyond the closed state spaces of fml_ops/fml_pairs/fml_io: occurrence
// counts around all powers of two, values of all lengths around all powers of
// two, many distinct fields. Modes: ops (F01), cap (F03), pairs (F02), io (F04).
#include <algorithm>
#include <memory>
#include <numeric>
#include <set>
#include "fmlmodel.h"
#include "scratch.h"

// a value is (seed, length); seed -1 is the default value of the type
struct V { int k; int len; bool operator==(const V &o) const { return k == o.k && len == o.len; } };
using M = std::map<FLDID32, std::vector<V>>;
static constexpr size_t BIG = 3u << 20;
static bool th;

static bool var(int t) { return t == FLD_STRING || t == FLD_CARRAY || t == FLD_FML32; }
static char byteof(int t, int k, int i) {
  unsigned x = (unsigned)k * 7919u + (unsigned)i * 31u + (unsigned)(i >> 8) * 17u;
  return t == FLD_STRING ? (char)(1 + x % 255) : (char)x;
}
static std::string bytes(int t, int k, int len) {
  auto make = [&] {
    std::string s(len, 0);
    for (int i = 0; i < len; i++) s[i] = byteof(t, k, i);
    return s;
  };
  if (len < 300) return make();
  static std::map<std::pair<std::pair<int, int>, int>, std::string> cache;
  static size_t held;
  if (held > (64u << 20)) cache.clear(), held = 0;
  auto &c = cache[{{t, k}, len}];
  if (c.empty()) c = make(), held += len;
  return c;
}
// raw bytes of a value; for nested buffers the buffer itself
static std::string raw(int t, V v) {
  if (v.k < 0 && t != FLD_FML32) return defval(t);
  switch (t) {
    case FLD_SHORT: return pk((short)(v.k * 3 + 1));
    case FLD_LONG: return pk((long)v.k * 0x100000001L + 5);
    case FLD_CHAR: return pk((char)(v.k * 5 + 1));
    case FLD_FLOAT: return pk((float)v.k + 0.5f);
    case FLD_DOUBLE: return pk((double)v.k * 1e10 + 0.25);
    case FLD_STRING: return bytes(t, v.k, v.len) + '\0';
    case FLD_CARRAY: return bytes(t, v.k, v.len);
  }
  static std::map<std::pair<int, int>, std::string> cache;
  if (cache.size() > 3000) cache.clear();
  auto &c = cache[{v.k, v.len}];
  if (c.empty()) {
    size_t cap = v.len + 128;
    std::unique_ptr<char, void (*)(void *)> m((char *)aligned_alloc(8, (cap + 7) & ~7ul), free);
    auto b = (FBFR32 *)m.get();
    memset((void *)b, 0, cap);
    Finit32(b, cap);
    if (v.k >= 0) {
      long l = v.k;
      Fadd32(b, Fmkfldid32(FLD_LONG, 901), (char *)&l, 0);
      std::string s = bytes(FLD_CARRAY, v.k, v.len);
      Fadd32(b, Fmkfldid32(FLD_CARRAY, 902), s.empty() ? (char *)"" : (char *)s.data(), v.len);
    }
    c.assign((char *)b, Fused32(b));
  }
  return c;
}
// is the stored value the expected one?
static bool eq(int t, const char *p, FLDLEN32 len, V v) {
  if (t != FLD_FML32) {
    std::string w = raw(t, v);
    return w.size() == len && memcmp(p, w.data(), len) == 0;
  }
  auto b = (FBFR32 *)p;
  if ((FLDLEN32)Fused32(b) != len || Fsizeof32(b) < (long)len) return false;
  FLDID32 id = FIRSTFLDID; FLDOCC32 oc = 0;
  int n = 0;
  while (Fnext32(b, &id, &oc, nullptr, nullptr) == 1 && n < 4) n++;
  if (v.k < 0) return n == 0;
  if (n != 2) return false;
  FLDLEN32 l;
  char *q = Ffind32(b, Fmkfldid32(FLD_LONG, 901), 0, &l);
  if (!q || *(long *)q != v.k) return false;
  q = Ffind32(b, Fmkfldid32(FLD_CARRAY, 902), 0, &l);
  return q && l == (FLDLEN32)v.len && bytes(FLD_CARRAY, v.k, v.len) == std::string(q, l);
}
struct Buf {
  FBFR32 *b;
  explicit Buf(size_t cap) {
    b = (FBFR32 *)aligned_alloc(8, (cap + 7) & ~7ul);
    // the header decides; contents beyond are poison
    memset((void *)b, 0xA5, cap);
    Finit32(b, cap);
  }
  Buf(const Buf &) = delete;
  ~Buf() { free(b); }
};
// what is passed for a value (aligned)
struct Arg {
  std::vector<uint64_t> mem;
  FLDLEN32 len = 0;
  Arg(int t, V v) {
    std::string s = raw(t, v);
    mem.resize(s.size() / 8 + 1);
    memcpy(mem.data(), s.data(), s.size());
    if (t == FLD_CARRAY) len = s.size();
  }
  char *p() { return (char *)mem.data(); }
};
static int add(FBFR32 *b, FLDID32 id, V v) { Arg a(id >> 24, v); return Fadd32(b, id, a.p(), a.len); }
static int chg(FBFR32 *b, FLDID32 id, FLDOCC32 oc, V v) { Arg a(id >> 24, v); return Fchg32(b, id, oc, a.p(), a.len); }

// whole contents against the model, by iteration and by direct access
static std::string same(FBFR32 *b, const M &m, bool deep) {
  using mc::fmt;
  if (Fused32(b) + Funused32(b) != Fsizeof32(b)) return "used + unused != size";
  FLDID32 id = FIRSTFLDID; FLDOCC32 oc = 0;
  size_t total = 0;
  for (auto &kv : m) total += kv.second.size();
  // large buffers are walked with the cheap calls, Fnext32 looks the position up every time
  if (total <= 600 || deep) {
    for (auto &kv : m)
      for (size_t o = 0; o < kv.second.size(); o++) {
        FLDLEN32 len = BIG;
        static char *val = (char *)aligned_alloc(8, BIG);
        int r = Fnext32(b, &id, &oc, val, &len);
        if (r != 1) return fmt("Fnext32 returned %d at %s[%zu]", r, fname_(kv.first).c_str(), o);
        if (id != kv.first || oc != (FLDOCC32)o) return fmt("Fnext32 came to %s[%d], expected %s[%zu]", fname_(id).c_str(), oc, fname_(kv.first).c_str(), o);
        if (!eq(id >> 24, val, len, kv.second[o])) return fmt("Fnext32 %s[%zu]: wrong value (length %u)", fname_(id).c_str(), o, len);
      }
    if (Fnext32(b, &id, &oc, nullptr, nullptr) != 0) return "Fnext32 goes on after the last value";
  }
  for (auto &kv : m) {
    int n = kv.second.size();
    if (Foccur32(b, kv.first) != n) return fmt("Foccur32(%s) = %d, expected %d", fname_(kv.first).c_str(), Foccur32(b, kv.first), n);
    for (int o = 0; o < n; o++) {
      // all of a few, the ends and the powers of two of many
      if (n > 300 && !deep && o > 2 && o < n - 3 && (o & (o - 1)) && o % 97) continue;
      FLDLEN32 len = 0;
      char *p = Ffind32(b, kv.first, o, &len);
      if (!p) return fmt("Ffind32(%s,%d) failed, Ferror32 %d", fname_(kv.first).c_str(), o, Ferror32);
      if (!eq(kv.first >> 24, p, len, kv.second[o])) return fmt("Ffind32(%s,%d): wrong value", fname_(kv.first).c_str(), o);
    }
    if (Ffind32(b, kv.first, n, nullptr) || Fpres32(b, kv.first, n)) return fmt("%s has an occurrence too many", fname_(kv.first).c_str());
    FLDLEN32 len = 0; FLDOCC32 last = 0;
    char *p = Ffindlast32(b, kv.first, &last, &len);
    if (!p || last != n - 1 || !eq(kv.first >> 24, p, len, kv.second[n - 1])) return fmt("Ffindlast32(%s) wrong", fname_(kv.first).c_str());
  }
  return "";
}
static std::string build(FBFR32 *b, const M &m, int order) {
  std::vector<FLDID32> ids;
  for (auto &kv : m) ids.push_back(kv.first);
  if (order == 1) std::reverse(ids.begin(), ids.end());
  if (order == 2) for (size_t i = 0; i < ids.size(); i++) std::swap(ids[i], ids[(i * 7919 + 13) % ids.size()]);
  if (order == 3) {
    // by occurrence, not by field
    size_t top = 0;
    for (auto &kv : m) top = std::max(top, kv.second.size());
    for (size_t o = 0; o < top; o++)
      for (auto &kv : m)
        if (o < kv.second.size() && add(b, kv.first, kv.second[o]) == -1) return mc::fmt("Fadd32(%s) number %zu failed, Ferror32 %d", fname_(kv.first).c_str(), o, Ferror32);
    return "";
  }
  for (auto id : ids)
    for (size_t o = 0; o < m.at(id).size(); o++)
      if (add(b, id, m.at(id)[o]) == -1) return mc::fmt("Fadd32(%s) number %zu failed, Ferror32 %d", fname_(id).c_str(), o, Ferror32);
  return "";
}
static size_t need(const M &m) {
  size_t n = 64;
  for (auto &kv : m)
    for (auto &v : kv.second) n += 8 + (var(kv.first >> 24) ? (raw(kv.first >> 24, v).size() + 7) / 8 * 8 : kv.first >> 24 == FLD_LONG || kv.first >> 24 == FLD_DOUBLE ? 8 : 0);
  return n;
}
static void viol(const std::string &sig, const std::string &ctx, const std::string &t) { mc::violation("large|" + sig, ctx + "\n" + t); }

struct Op { int kind; FLDID32 id; int oc; V v; };
enum { ADD, CHG, DEL, DELALL, CHGADD, CHGNULL };
static const char *opn[] = {"Fadd32", "Fchg32", "Fdel32", "Fdelall32", "Fchg32 -1", "Fchg32 NULL"};
static std::string showop(const Op &o) { return mc::fmt("%s(%s, occurrence %d, value #%d of %d bytes)", opn[o.kind], fname_(o.id).c_str(), o.oc, o.v.k, o.v.len); }
static int real(FBFR32 *b, const Op &o) {
  switch (o.kind) {
    case ADD: return add(b, o.id, o.v);
    case CHGADD: return chg(b, o.id, -1, o.v);
    case CHG: return chg(b, o.id, o.oc, o.v);
    case DEL: return Fdel32(b, o.id, o.oc);
    case CHGNULL: return Fchg32(b, o.id, o.oc, nullptr, 0);
    default: return Fdelall32(b, o.id);
  }
}
static int model(M &m, const Op &o) {
  auto it = m.find(o.id);
  int n = it == m.end() ? 0 : it->second.size();
  switch (o.kind) {
    case ADD: case CHGADD: m[o.id].push_back(o.v); return 0;
    case CHG: {
      auto &v = m[o.id];
      while ((int)v.size() <= o.oc) v.push_back({-1, 0});
      v[o.oc] = o.v;
      return 0;
    }
    case DEL: case CHGNULL:
      if (o.oc >= n) return -1;
      it->second.erase(it->second.begin() + o.oc);
      if (!n || it->second.empty()) m.erase(it);
      return 0;
    default:
      if (!n) return -1;
      m.erase(it);
      return 0;
  }
}
// every operation of ops from the state m
static void from_state(const M &m, const std::string &name, const std::vector<Op> &ops, bool cap, bool deep) {
  mc::trace(name);
  size_t room = need(m);
  for (int order = 0; order < (cap ? 1 : 4); order++) {
    Buf b(cap ? room : BIG);
    std::string e = build(b.b, m, order);
    if (e.empty()) e = same(b.b, m, deep && order == 0);
    if (!e.empty()) { viol("build", name + mc::fmt(" built in order %d", order), e); return; }
    mc::add(mc::cnt().transitions);
  }
  Buf src(BIG);
  build(src.b, m, 0);
  long used0 = Fused32(src.b);
  mc::add(mc::cnt().states);
  for (auto &o : ops) {
    if (mc::enough()) return;
    mc::trace(name + ": " + showop(o));
    M w = m;
    int want = model(w, o);
    long size = std::max<size_t>(used0, need(w)) + 4096;
    Buf b(size);
    Fcpy32(b.b, src.b);
    int r = real(b.b, o);
    int fe = Ferror32;
    mc::add(mc::cnt().transitions);
    if (r != want) { viol(opn[o.kind], name + ": " + showop(o), mc::fmt("returned %d (Ferror32 %d), expected %d", r, fe, want)); continue; }
    if (r == -1 && fe != FNOTPRES) viol(opn[o.kind], name + ": " + showop(o), mc::fmt("Ferror32 %d, expected FNOTPRES", fe));
    std::string e = same(b.b, w, false);
    if (e.empty() && r == 0 && (o.kind == ADD || o.kind == CHG || o.kind == CHGADD)) {
      // what was stored is read back by copy as well
      int oc = o.kind == CHG ? o.oc : (int)w[o.id].size() - 1;
      std::vector<uint64_t> out((raw(o.id >> 24, o.v).size() + 71) / 8);
      FLDLEN32 l = out.size() * 8;
      if (o.id >> 24 == FLD_FML32) Finit32((FBFR32 *)out.data(), l);
      if (Fget32(b.b, o.id, oc, (char *)out.data(), &l) == -1 || !eq(o.id >> 24, (char *)out.data(), l, o.v)) e = "Fget32 of the new value differs";
      if (e.empty() && Flen32(b.b, o.id, oc) != (long)l) e = "Flen32 of the new value differs";
    }
    if (!e.empty()) { viol(opn[o.kind], name + ": " + showop(o), e); continue; }
    long used1 = Fused32(b.b);
    // an equal buffer, built directly, is equal byte for byte
    if (deep || used1 < 20000) {
      Buf x(BIG);
      build(x.b, w, 0);
      if (Fused32(x.b) != used1 || Fchksum32(x.b) != Fchksum32(b.b)) viol(opn[o.kind], name + ": " + showop(o), mc::fmt("used %ld, a buffer built with the same contents %ld (or the checksum differs)", used1, Fused32(x.b)));
    }
    if (!cap || r == -1) continue;
    // exactly the capacity that is needed; a little less
    {
      Buf c(std::max(used0, used1));
      Fcpy32(c.b, src.b);
      r = real(c.b, o);
      mc::add(mc::cnt().transitions);
      if (r != 0) viol(std::string("fits|") + opn[o.kind], name + ": " + showop(o), mc::fmt("refused with Ferror32 %d in a buffer of %ld bytes, just enough", Ferror32, std::max(used0, used1)));
      else if (!(e = same(c.b, w, false)).empty()) viol(std::string("fits|") + opn[o.kind], name + ": " + showop(o), e);
    }
    for (long less : {8L, (used1 - used0) / 2 / 8 * 8, used1 - used0}) {
      long sz = used1 - less;
      if (less <= 0 || sz < used0) continue;
      Buf c(sz);
      Fcpy32(c.b, src.b);
      r = real(c.b, o);
      fe = Ferror32;
      mc::add(mc::cnt().transitions);
      if (r != -1) { viol(std::string("over|") + opn[o.kind], name + ": " + showop(o), mc::fmt("accepted in a buffer of %ld bytes, %ld less than the result takes", sz, less)); continue; }
      if (fe != FNOSPACE) viol(std::string("over|") + opn[o.kind], name + ": " + showop(o), mc::fmt("Ferror32 %d, expected FNOSPACE", fe));
      if (!(e = same(c.b, m, false)).empty()) viol(std::string("over|") + opn[o.kind], name + ": " + showop(o), "a refused operation changed the buffer: " + e);
      // growing the buffer lets it succeed
      if (less == 8) {
        FBFR32 *g = (FBFR32 *)malloc(sz);
        Finit32(g, sz);
        Fcpy32(g, src.b);
        FBFR32 *h = Frealloc32(g, 1, used1 + 64);
        if (!h) { viol("grow", name, "Frealloc32 failed"); free(g); continue; }
        if (real(h, o) != 0 || !(e = same(h, w, false)).empty()) viol(std::string("grow|") + opn[o.kind], name + ": " + showop(o), "after Frealloc32: " + e);
        free(h);
      }
    }
  }
}
// values of the main field: length patterns
static V pat(int t, int p, int i) {
  if (!var(t)) return {i, 0};
  switch (p) {
    case 0: return {i, 0};
    case 1: return {i, 7};
    case 2: return {i, i % 11};
    default: return {i, (i * 37) % 130};
  }
}
static M around(int t) {
  M m;
  for (int x : types_)
    if (x != t) m[Fmkfldid32(x, 50)] = {{3, 5}, {4, 9}};
  m[Fmkfldid32(t, 49)] = {{100, 6}};
  m[Fmkfldid32(t, 51)] = {{101, 2}, {102, 13}};
  return m;
}
static std::vector<int> counts() {
  std::set<int> s;
  for (int i = 1; i <= 9; i++) s.insert(i);
  for (int k = 4; k <= (th ? 12 : 10); k++)
    for (int d = -1; d <= 1; d++) s.insert((1 << k) + d);
  if (!th) s.insert(4096), s.insert(4097);
  return {s.begin(), s.end()};
}
static std::vector<int> lengths(bool few) {
  std::set<int> s;
  for (int i = 0; i <= (few ? 9 : 40); i++) s.insert(i);
  for (int k = few ? 8 : 6; k <= 20; k++)
    for (int d = few ? -1 : -9; d <= (few ? 1 : 9); d++)
      if (k < 18 || (d >= -1 && d <= 1)) s.insert((1 << k) + d);
  return {s.begin(), s.end()};
}
static std::vector<Op> ops_at(FLDID32 id, int n, int t, int p) {
  std::vector<Op> ops;
  std::set<int> at = {0, 1, n / 2, n - 2, n - 1, n, n + 1};
  for (int k = 2; k < n; k *= 2) at.insert({k - 1, k});
  // positions near the ends and the powers of two
  std::vector<int> lens = var(t) ? std::vector<int>{0, 1, 7, 8, 130} : std::vector<int>{0};
  for (int a : at) {
    if (a < 0) continue;
    bool edge = a < 2 || a >= n - 2 || a == n / 2;
    for (int l : lens) {
      if (!edge && l != 0 && l != 8) continue;
      ops.push_back({CHG, id, a, {5000 + l, l}});
    }
    ops.push_back({DEL, id, a, {0, 0}});
    if (edge) ops.push_back({CHGNULL, id, a, {0, 0}});
  }
  ops.push_back({CHG, id, n + 7, {5001, 3}});
  if (n <= 64) ops.push_back({CHG, id, n + 300, {5002, 3}});
  for (int l : lens) ops.push_back({ADD, id, 0, {6000, l}});
  ops.push_back({CHGADD, id, 0, {6001, 5}});
  ops.push_back({DELALL, id, 0, {0, 0}});
  (void)p;
  for (FLDID32 nb : {Fmkfldid32(t, 49), Fmkfldid32(t, 51), Fmkfldid32(t, 1), Fmkfldid32(t, 0xffffff)}) {
    ops.push_back({ADD, nb, 0, {6100, 4}});
    ops.push_back({DELALL, nb, 0, {0, 0}});
    ops.push_back({CHG, nb, 0, {6101, 21}});
  }
  for (int x : types_)
    if (x != t) {
      ops.push_back({ADD, Fmkfldid32(x, 50), 0, {6200, 3}});
      ops.push_back({DEL, Fmkfldid32(x, 50), 0, {0, 0}});
      ops.push_back({CHG, Fmkfldid32(x, 50), 1, {6201, 30}});
    }
  return ops;
}
static void occ_job(int t, int n, bool cap) {
  for (int p = 0; p < (var(t) ? 4 : 1); p++) {
    if (n > 1100 && p > 1 && !th) continue;
    M m = around(t);
    FLDID32 id = Fmkfldid32(t, 50);
    for (int i = 0; i < n; i++) m[id].push_back(pat(t, p, i));
    auto ops = ops_at(id, n, t, p);
    if (cap) {
      // what changes the size matters here
      std::vector<Op> o2;
      for (auto &o : ops) if (o.kind != DEL && o.kind != CHGNULL && o.kind != DELALL) o2.push_back(o);
      ops = o2;
    }
    from_state(m, mc::fmt("%d occurrences of %s, lengths #%d", n, fname_(id).c_str(), p), ops, cap, n <= 130);
  }
}
static void len_job(int t, int len, bool cap) {
  M m = around(t);
  FLDID32 id = Fmkfldid32(t, 50);
  m[id] = {{1, 5}, {2, len}, {3, 11}};
  std::vector<Op> ops;
  for (int l : lengths(true)) {
    if (l > 300 && len > 300 && l > 2 * len + 2) continue;
    for (int a = 0; a <= 3; a++)
      if (a == 1 || l < 300 || l == len) ops.push_back({CHG, id, a, {7000 + a, l}});
  }
  for (int d : {-8, -1, 0, 1, 8}) if (len + d >= 0) ops.push_back({CHG, id, 1, {7100, len + d}}), ops.push_back({ADD, id, 0, {7101, len + d}});
  for (int a = 0; a <= 3; a++) ops.push_back({DEL, id, a, {0, 0}});
  ops.push_back({DELALL, id, 0, {0, 0}});
  for (int x : types_) ops.push_back({ADD, Fmkfldid32(x, 60), 0, {7200, 3}});
  from_state(m, mc::fmt("a value of %d bytes in %s", len, fname_(id).c_str()), ops, cap, len < 70);
}
static FLDID32 manyid(int t, int style, int i) {
  return style == 0 ? Fmkfldid32(t, 1 + i) : style == 1 ? Fmkfldid32(t, 0xffffff - i) : Fmkfldid32(t, 100 + i * 257);
}
static void many_job(int t, int nf, int style, bool cap) {
  M m;
  for (int i = 0; i < nf; i++) {
    m[manyid(t, style, i)] = {pat(t, 2, i)};
    if (i % 5 == 0) m[manyid(t, style, i)].push_back(pat(t, 2, i + 1));
  }
  m[Fmkfldid32(t == FLD_LONG ? FLD_STRING : FLD_LONG, 77)] = {{1, 3}};
  std::vector<Op> ops;
  std::set<int> at = {0, 1, nf / 2, nf - 2, nf - 1};
  for (int k = 2; k < nf; k *= 2) at.insert(k);
  if (nf <= 20) for (int i = 0; i < nf; i++) at.insert(i);
  for (int a : at) {
    if (a < 0) continue;
    FLDID32 id = manyid(t, style, a);
    ops.push_back({ADD, id, 0, {8000, 5}});
    ops.push_back({CHG, id, 0, {8001, 20}});
    ops.push_back({CHG, id, 3, {8002, 2}});
    if (!cap) { ops.push_back({DEL, id, 0, {0, 0}}); ops.push_back({DEL, id, 1, {0, 0}}); ops.push_back({DELALL, id, 0, {0, 0}}); }
    if (style == 2) { ops.push_back({ADD, id + 1, 0, {8003, 4}}); ops.push_back({ADD, id - 1, 0, {8004, 4}}); }
  }
  from_state(m, mc::fmt("%d fields of %s, ids #%d", nf, tname(t), style), ops, cap, nf <= 130);
}
// ---- F02
static M m_update(M d, const M &s, bool present_only, bool del_missing) {
  if (del_missing)
    for (auto it = d.begin(); it != d.end();) {
      auto si = s.find(it->first);
      size_t n = si == s.end() ? 0 : si->second.size();
      if (it->second.size() > n) it->second.resize(n);
      if (it->second.empty()) it = d.erase(it); else ++it;
    }
  for (auto &kv : s) {
    size_t had = d.count(kv.first) ? d[kv.first].size() : 0;
    for (size_t o = 0; o < kv.second.size(); o++) {
      if (o < had) d[kv.first][o] = kv.second[o];
      else if (!present_only) d[kv.first].push_back(kv.second[o]);
    }
  }
  return d;
}
static void pair_check(const M &d, const M &s, const std::string &name, int only = -1) {
  static const char *on[] = {"Fcpy32", "Fupdate32", "Fjoin32", "Fojoin32", "Fconcat32"};
  for (int op = 0; op < 5; op++) {
    if (only >= 0 && op != only) continue;
    std::string ctx = name + ": " + on[op];
    mc::trace(ctx);
    M w;
    switch (op) {
      case 0: w = s; break;
      case 1: w = m_update(d, s, false, false); break;
      case 2: w = m_update(d, s, true, true); break;
      case 3: w = m_update(d, s, true, false); break;
      case 4: w = d; for (auto &kv : s) for (auto &v : kv.second) w[kv.first].push_back(v); break;
    }
    Buf bs(need(s) + 16);
    build(bs.b, s, 0);
    auto sum = Fchksum32(bs.b);
    long top = 0;
    for (int round = 0; round < (only >= 0 ? 1 : 2); round++) {
      Buf bd(round ? top : (long)(need(d) + need(s) + 4096));
      build(bd.b, d, 0);
      if (!round) top = Fused32(bd.b);
      int r = op == 0 ? Fcpy32(bd.b, bs.b) : op == 1 ? Fupdate32(bd.b, bs.b) : op == 2 ? Fjoin32(bd.b, bs.b) : op == 3 ? Fojoin32(bd.b, bs.b) : Fconcat32(bd.b, bs.b);
      mc::add(mc::cnt().transitions);
      // an exact destination suffices where sizes only grow (copy, concatenate)
      if (r == -1 && round && op != 0 && op != 4) continue;
      if (r == -1) { viol(on[op], ctx, mc::fmt("failed, Ferror32 %d%s", Ferror32, round ? " (just enough room)" : "")); continue; }
      std::string e = same(bd.b, w, false);
      if (!e.empty()) { viol(on[op], ctx, e); continue; }
      Buf x(need(w) + 16);
      build(x.b, w, 0);
      if (Fused32(x.b) != Fused32(bd.b) || Fchksum32(x.b) != Fchksum32(bd.b)) viol(on[op], ctx, "not equal, byte for byte, to a buffer built with the same contents");
      top = std::max(top, Fused32(bd.b));
      if (Fchksum32(bs.b) != sum) viol(on[op], ctx, "the source changed");
    }
  }
  mc::add(mc::cnt().states);
}
static void list_check(const M &d, const std::vector<FLDID32> &l, const std::string &name) {
  std::set<FLDID32> in(l.begin(), l.end());
  M keep, drop;
  for (auto &kv : d) (in.count(kv.first) ? keep : drop).insert(kv);
  static const char *on[] = {"Fproj32", "Fdelete32", "Fprojcpy32"};
  for (int op = 0; op < 3; op++) {
    auto arr = l;
    arr.push_back(BADFLDID);
    std::string ctx = name + ": " + on[op];
    mc::trace(ctx);
    Buf b(need(d) + 16), t(need(d) + 16);
    build(b.b, d, 0);
    auto sum = Fchksum32(b.b);
    int r = op == 0 ? Fproj32(b.b, arr.data()) : op == 1 ? Fdelete32(b.b, arr.data()) : Fprojcpy32(t.b, b.b, arr.data());
    mc::add(mc::cnt().transitions);
    std::string e = r == -1 ? mc::fmt("failed, Ferror32 %d", Ferror32) : same(op == 2 ? t.b : b.b, op == 1 ? drop : keep, false);
    if (e.empty() && op == 2 && Fchksum32(b.b) != sum) e = "the source changed";
    if (!e.empty()) viol(on[op], ctx, e);
  }
  mc::add(mc::cnt().states);
}
static void pairs_job(int t, int which, int part) {
  FLDID32 id = Fmkfldid32(t, 50);
  auto occs = [&](int n, int p, int seed) { M m = around(t); for (int i = 0; i < n; i++) { V v = pat(t, p, i + seed); m[id].push_back(v); } return m; };
  if (which == 0) {
    std::vector<int> ns = {0, 1, 7, 8, 9, 63, 64, 65, 255, 256, 257};
    if (th) ns.insert(ns.end(), {1023, 1024, 1025});
    if (part >= (int)ns.size()) return;
    for (int a : {ns[part]})
      for (int b : ns)
        for (int p = 0; p < (var(t) ? 3 : 1); p++) {
          if (mc::enough() || mc::out_of_time()) return;
          M d = occs(a, p, 0), s = occs(b, p + 1, 9);
          if (!a) d.erase(id);
          if (!b) s.erase(id);
          s.erase(Fmkfldid32(t, 49));
          s[Fmkfldid32(t, 52)] = {{9, 9}};
          pair_check(d, s, mc::fmt("%d and %d occurrences of %s, lengths #%d", a, b, fname_(id).c_str(), p));
        }
    // more occurrences than 15 and 16 bits can count
    if (part == 0)
      for (int a : {32769, 65537}) {
        if (t != FLD_LONG && !(th && a < 65000 && !var(t))) continue;
        if (a > 65000 && !th) continue;
        if (mc::enough() || mc::out_of_time()) return;
        for (int b : {3, a + 10}) {
          mc::beat();
          pair_check(occs(b, 2, 9), occs(a + 20, 1, 0), mc::fmt("%d and %d occurrences of %s", b, a + 20, fname_(id).c_str()), b > 3 ? 1 : -1);
        }
      }
  } else if (which == 1) {
    // many fields: overlapping sets
    int nfs[] = {8, 33, 129, th ? 1025 : 257};
    if (part >= 4) return;
    for (int nf : {nfs[3 - part]})
      for (int style = 0; style < 3; style++)
        for (int ov = 0; ov < 4; ov++) {
          if (mc::enough() || mc::out_of_time()) return;
          M d, s;
          for (int i = 0; i < nf; i++) {
            d[manyid(t, style, i)].push_back(pat(t, 2, i));
            int k = ov == 0 ? i : ov == 1 ? i + nf / 2 : ov == 2 ? 2 * i : i + nf;
            for (int o = 0; o < 1 + i % 3; o++) s[manyid(t, style, k)].push_back(pat(t, 3, i + o));
          }
          pair_check(d, s, mc::fmt("%d fields of %s, ids #%d, overlap #%d", nf, tname(t), style, ov));
          std::vector<FLDID32> l;
          for (auto &kv : s) l.push_back(kv.first);
          list_check(d, l, mc::fmt("%d fields of %s, ids #%d, list of %zu", nf, tname(t), style, l.size()));
          std::reverse(l.begin(), l.end());
          list_check(d, l, mc::fmt("%d fields of %s, ids #%d, descending list", nf, tname(t), style));
          for (size_t i = 0; i < l.size(); i++) std::swap(l[i], l[(i * 7919 + 5) % l.size()]);
          l.insert(l.end(), l.begin(), l.begin() + l.size() / 2);
          list_check(d, l, mc::fmt("%d fields of %s, ids #%d, disordered list with repetitions", nf, tname(t), style));
        }
  } else if (var(t)) {
    // long values
    auto ls = lengths(true);
    if (part >= (int)ls.size()) return;
    for (int a : {ls[ls.size() - 1 - part]})
      for (int b : ls) {
        if (mc::enough() || mc::out_of_time()) return;
        if (a > 9 && b > 9 && std::max(a, b) > 4 * std::min(a, b) && !th) continue;
        M d = around(t), s = around(t);
        d[id] = {{1, 3}, {2, a}, {3, 4}};
        s[id] = {{4, b}, {5, b}, {6, 0}, {7, 9}};
        if (a > 300000 || b > 300000) s[id].resize(2);
        pair_check(d, s, mc::fmt("values of %d and %d bytes in %s", a, b, fname_(id).c_str()));
      }
  }
}
// ---- F04
static std::string wr(FBFR32 *b, bool text) {
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  int r = text ? Ffprint32(b, f) : Fwrite32(b, f);
  fclose(f);
  std::string s(p, n);
  free(p);
  return r == -1 ? "" : s;
}
static void round_trip(const M &m, const std::string &name) {
  mc::trace(name);
  size_t cap = need(m) + 16;
  Buf b(cap);
  std::string e = build(b.b, m, 0);
  if (!e.empty()) { viol("io", name, e); return; }
  for (int text = 0; text < 2; text++) {
    std::string s = wr(b.b, text);
    mc::trace(name + (text ? " as text" : " in binary"));
    for (long room : {(long)cap, Fused32(b.b), Fused32(b.b) - 8}) {
      if (room < Fneeded32(0, 0)) continue;
      Buf d(room);
      FILE *f = fmemopen((void *)s.data(), s.size(), "r");
      int r = text ? Fextread32(d.b, f) : Fread32(d.b, f);
      int fe = Ferror32;
      fclose(f);
      mc::add(mc::cnt().transitions);
      const char *sig = text ? "text" : "binary";
      if (room >= Fused32(b.b)) {
        if (r == -1) { viol(sig, name, mc::fmt("reading back into %ld bytes (%ld used) failed, Ferror32 %d", room, Fused32(b.b), fe)); continue; }
        e = same(d.b, m, false);
        if (e.empty() && Fchksum32(d.b) != Fchksum32(b.b)) e = "the checksum differs";
        if (!e.empty()) viol(sig, name, "read back: " + e);
      } else {
        if (r != -1 || fe != FNOSPACE) viol(sig, name, mc::fmt("reading back into %ld of %ld bytes: %d, Ferror32 %d", room, Fused32(b.b), r, fe));
        M none;
        if (!text && !(e = same(d.b, none, false)).empty()) viol(sig, name, "a refused read changed the buffer: " + e);
      }
    }
    // truncations
    for (size_t cut : {s.size() / 2, s.size() - 1, (size_t)4, (size_t)31}) {
      if (text || cut >= s.size()) continue;
      Buf d(cap);
      FILE *f = fmemopen((void *)s.data(), cut, "r");
      int r = Fread32(d.b, f);
      fclose(f);
      mc::add(mc::cnt().transitions);
      if (r != -1) viol("truncated", name, mc::fmt("the first %zu of %zu bytes were read as a buffer", cut, s.size()));
      FLDID32 id = FIRSTFLDID; FLDOCC32 oc = 0;
      if (Fnext32(d.b, &id, &oc, nullptr, nullptr) != 0 && Fused32(d.b) > Fsizeof32(d.b)) viol("truncated", name, "an invalid buffer remains");
    }
  }
  mc::add(mc::cnt().states);
}
static M named(int t) {
  M m;
  for (int x : types_)
    if (x != t) m[Fmkfldid32(x, 50)] = {{3, 5}, {4, 9}};
  return m;
}
static void io_job(int t, int which) {
  FLDID32 id = Fmkfldid32(t, 50);
  if (which == 0) {
    for (int n : counts())
      for (int p = 0; p < (var(t) ? 4 : 1); p++) {
        if (mc::enough() || mc::out_of_time()) return;
        if (n > 1100 && (p > 1 || !th)) continue;
        M m = named(t);
        for (int i = 0; i < n; i++) m[id].push_back(pat(t, p, i));
        // printing keeps six decimals; the values used have them
        round_trip(m, mc::fmt("%d occurrences of %s, lengths #%d", n, fname_(id).c_str(), p));
      }
  } else if (which == 1) {
    for (int nf : {2, 3, 16, 17, 255, 256, 257, 1023}) {
      if (mc::enough() || mc::out_of_time()) return;
      M m;
      for (int i = 0; i < nf; i++) m[Fmkfldid32(t, 1 + i)] = {pat(t, 2, i)};
      round_trip(m, mc::fmt("%d fields of %s", nf, tname(t)));
    }
  } else if (var(t)) {
    for (int l : lengths(false)) {
      if (mc::enough() || mc::out_of_time()) return;
      M m = named(t);
      m[id] = {{1, 3}, {2, l}, {3, 4}};
      round_trip(m, mc::fmt("a value of %d bytes in %s", l, fname_(id).c_str()));
    }
  }
}
int main(int argc, char **argv) {
  th = mc::thorough();
  std::string mode = argc > 1 ? argv[1] : "ops";
  std::vector<std::function<void()>> jobs;
  std::string dir;
  if (mode == "ops" || mode == "cap") {
    bool cap = mode == "cap";
    auto cs = counts();
    std::reverse(cs.begin(), cs.end());
    for (int n : cs)
      for (int t : types_) jobs.push_back([=] { occ_job(t, n, cap); });
    for (int nf : {1025, 257, 256, 255, 129, 64, 33, 17, 16, 9, 8, 3, 2, 1})
      for (int t : types_)
        for (int style = 0; style < 3; style++)
          if (nf < 1000 || th || style == 2) jobs.push_back([=] { many_job(t, nf, style, cap); });
    for (int l : lengths(!th))
      for (int t : {FLD_STRING, FLD_CARRAY, FLD_FML32}) jobs.push_back([=] { len_job(t, l, cap); });
  } else if (mode == "pairs") {
    for (int part = 0; part < 64; part++)
      for (int w = 0; w < 3; w++)
        for (int t : types_)
          if (part < (w == 1 ? 4 : w == 0 ? 14 : 64)) jobs.push_back([=] { pairs_job(t, w, part); });
  } else {
    dir = scratch::make();
    std::string tbl;
    for (int t : types_)
      for (int i = 1; i <= 1023; i++) tbl += mc::fmt("f%d_%d %d %s\n", t, i, i, tname(t));
    scratch::put(dir + "/tbl", tbl);
    setenv("FLDTBLDIR32", dir.c_str(), 1);
    setenv("FIELDTBLS32", "tbl", 1);
    for (int w = 0; w < 3; w++)
      for (int t : types_) jobs.push_back([=] { io_job(t, w); });
  }
  int r = mc::run(jobs.size(), [&](int j) { jobs[j](); mc::add(mc::cnt().validated); }, 8, 60);
  if (!dir.empty()) scratch::drop(dir);
  return r;
}
