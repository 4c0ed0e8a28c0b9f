// M01 (argument "hist") and M02 (argument "xport"): typed buffers, their
// exported forms and the text-safe codec.
#include <xatmi.h>
#include <limits.h>
#include "fmlmodel.h"
size_t base64encode(const void *ibuf, size_t ilen, char *obuf, size_t olen);
size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen);
extern "C" const char *__asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0"; }

static void viol(const std::string &sig, const std::string &t) { mc::violation(sig, t); }
enum { CARRAY, STRING, FML, TPI };
static const char *tyname[] = {"CARRAY", "STRING", "FML32", "TPINIT"};
static std::string cn(char *b) { std::string s, w; return canon((FBFR32 *)b, s, w) ? s : "INVALID " + w; }
static bool typeis(char *p, const char *t, const char *sub, long *size = nullptr) {
  char ty[9] = {0}, su[17] = {0};
  long r = tptypes(p, ty, su);
  if (size) *size = r;
  return r != -1 && !strcmp(ty, t) && !strcmp(su, sub);
}
// ------------------------------------------------------------------ M01
struct Buf { char *p = nullptr; int t = 0; long size = 0; std::string data; Model m; int seq = 0; std::string sub; };
struct Op { int kind, slot, t; long size; };  // 0 alloc 1 realloc 2 free 3 fill
static std::string show(const Op &o) {
  switch (o.kind) {
    case 0: return mc::fmt("b%d=tpalloc(%s,%ld)", o.slot, tyname[o.t], o.size);
    case 1: return mc::fmt("b%d=tprealloc(b%d,%ld)", o.slot, o.slot, o.size);
    case 2: return mc::fmt("tpfree(b%d)", o.slot);
    default: return mc::fmt("fill b%d", o.slot);
  }
}
static std::string hist;
static void fail(const std::string &sig, const std::string &t) { viol(sig, "after " + hist + ": " + t); }
static void fill(Buf &b, int slot) {
  long size;
  if (!typeis(b.p, tyname[b.t], b.sub.c_str(), &size)) { fail("type", mc::fmt("b%d: type query wrong", slot)); return; }
  b.seq++;
  if (b.t == FML) {
    for (int i = 0; i < 40; i++) {
      std::string v(1 + (b.seq * 7 + i * 5) % 60, 'a' + (i + slot) % 26);
      FLDID32 id = Fmkfldid32(i & 1 ? FLD_STRING : FLD_CARRAY, 100 + i % 3);
      if (i & 1) v += '\0';
      if (Fadd32((FBFR32 *)b.p, id, v.data(), v.size()) == -1) {
        if (Ferror32 != FNOSPACE) fail("fml", mc::fmt("b%d: Fadd32 error %d", slot, Ferror32));
        break;
      }
      b.m[id].push_back(v);
    }
  } else {
    // everything the buffer claims to have is usable
    if (size < b.size) { fail("size", mc::fmt("b%d reports size %ld, %ld were requested", slot, size, b.size)); return; }
    b.data.resize(size);
    for (long i = 0; i < size; i++) b.data[i] = (char)(i * 31 + b.seq * 17 + slot * 5 + 1) | 1;
    memcpy(b.p, b.data.data(), size);
  }
}
static void verify(std::vector<Buf> &bs) {
  for (size_t i = 0; i < bs.size(); i++) {
    Buf &b = bs[i];
    if (!b.p) continue;
    long size;
    if (!typeis(b.p, tyname[b.t], b.sub.c_str(), &size)) { fail("type", mc::fmt("b%zu is not reported as %s/%s", i, tyname[b.t], b.sub.c_str())); continue; }
    if (size < b.size) fail("size", mc::fmt("b%zu reports size %ld, %ld were requested", i, size, b.size));
    if (b.t == FML) {
      if (cn(b.p) != canon(b.m)) fail("content", mc::fmt("fields of b%zu changed", i));
      if (Fsizeof32((FBFR32 *)b.p) < b.size) fail("fml-size", mc::fmt("Fsizeof32(b%zu)=%ld, %ld were requested", i, Fsizeof32((FBFR32 *)b.p), b.size));
      if (Funused32((FBFR32 *)b.p) < 0 || Fused32((FBFR32 *)b.p) + Funused32((FBFR32 *)b.p) != Fsizeof32((FBFR32 *)b.p)) fail("fml-size", mc::fmt("size figures of b%zu do not add up", i));
    } else if (memcmp(b.p, b.data.data(), b.data.size())) fail("content", mc::fmt("contents of b%zu changed", i));
  }
  mc::add(mc::cnt().states);
}
static bool applyop(std::vector<Buf> &bs, const Op &o) {
  Buf &b = bs[o.slot];
  switch (o.kind) {
    case 0: {
      if (b.p) return false;
      b = Buf();
      const char *subs[] = {"*", nullptr, ""};
      const char *sub = subs[(o.size + o.t + 5) % 3];
      b.p = tpalloc((char *)tyname[o.t], (char *)sub, o.size);
      b.t = o.t; b.size = o.size; b.sub = sub ? sub : "";
      if (!b.p) { fail("alloc", mc::fmt("tpalloc failed, tperrno %d", tperrno)); return false; }
      if ((uintptr_t)b.p % 8) fail("align", "tpalloc result is not aligned");
      for (auto &x : bs) if (&x != &b && x.p == b.p) fail("alias", "tpalloc returned a live buffer");
      break;
    }
    case 1: {
      if (!b.p) return false;
      char *np = tprealloc(b.p, o.size);
      if (!np) { fail("realloc", mc::fmt("tprealloc failed, tperrno %d", tperrno)); return false; }
      b.p = np;
      b.size = o.size;
      if (b.t != FML && o.size < (long)b.data.size()) b.data.resize(o.size < 0 ? 0 : o.size);
      break;
    }
    case 2: if (!b.p) return false; tpfree(b.p); b = Buf(); break;
    case 3: if (!b.p) return false; fill(b, o.slot); break;
  }
  mc::add(mc::cnt().transitions);
  return true;
}
static const long sizes[] = {0, 1, 40, 513, 700, 3000};
static int histories() {
  bool th = mc::thorough();
  std::vector<Op> uni;
  int nslots = 2;
  for (int s = 0; s < nslots; s++) {
    for (int t = 0; t < 4; t++) for (long z : {0L, 40L, 700L}) uni.push_back({0, s, t, z});
    for (long z : sizes) uni.push_back({1, s, 0, z});
    uni.push_back({2, s, 0, 0});
    uni.push_back({3, s, 0, 0});
  }
  int U = uni.size(), depth = th ? 6 : 5;
  std::vector<std::function<void()>> jobs;
  for (int a = 0; a < U; a++)
    for (int b = 0; b < U; b++)
      jobs.push_back([=, &uni] {
        if (uni[a].kind != 0) return;
        std::vector<int> w = {a, b};
        // re-executes from scratch: buffers cannot be copied
        std::function<void()> rec = [&] {
          std::vector<Buf> bs(nslots);
          hist.clear();
          bool ok = true;
          for (int x : w) {
            hist += show(uni[x]) + "; ";
            mc::trace(hist);
            if (!applyop(bs, uni[x])) { ok = false; break; }
          }
          if (ok) verify(bs);
          for (auto &x : bs) if (x.p) tpfree(x.p);
          if (ok && (int)w.size() < depth)
            for (int k = 0; k < U && !mc::enough(); k++) {
              // the last operation of a history only matters if something follows it: keep fills before the end
              w.push_back(k); rec(); w.pop_back();
            }
        };
        rec();
      });
  jobs.push_back([] {
    hist = "(argument checks)";
    if (tpalloc(nullptr, (char *)"*", 10) || tperrno != TPEINVAL) fail("args", "tpalloc without type");
    for (const char *t : {"", "X", "FML3", "FML320", "STRINGS", "STRING ", "string", "CARRAYXX", "CARRAYXXX", "TPINITIALIZE", "*"})
      for (const char *s : {(const char *)nullptr, "*", "", "sub"})
        if (tpalloc((char *)t, (char *)s, 10) || tperrno != TPENOENT) fail("args", mc::fmt("tpalloc of unknown type %s", t));
    for (const char *t : tyname) if (tpalloc((char *)t, (char *)"nosuchsub", 10) || tperrno != TPENOENT) fail("args", mc::fmt("tpalloc of %s with unknown subtype", t));
    if (tprealloc(nullptr, 10) || tperrno != TPEINVAL) fail("args", "tprealloc(NULL)");
    char ty[8], su[16];
    if (tptypes(nullptr, ty, su) != -1 || tperrno != TPEINVAL) fail("args", "tptypes(NULL)");
    tpfree(nullptr);
    char *p = tpalloc((char *)"STRING", nullptr, 10);
    strcpy(p, "keep");
    mc::trace("impossible sizes");
    for (long z : {LONG_MAX / 4, 1L << 46}) {
      if (tpalloc((char *)"CARRAY", nullptr, z)) fail("huge", "tpalloc of an impossible size succeeded");
      if (tprealloc(p, z)) fail("huge", "tprealloc to an impossible size succeeded");
      if (strcmp(p, "keep")) fail("huge", "a failed tprealloc changed the buffer");
    }
    for (int i = 0; i < 4; i++)
      if (tptypes(p, i & 1 ? ty : nullptr, i & 2 ? su : nullptr) == -1) fail("args", "tptypes with NULL result pointers");
    tpfree(p);
    for (int t = 0; t < 4; t++)
      for (long z = 0; z < 1300; z++) {
        hist = mc::fmt("tpalloc(%s,%ld)", tyname[t], z);
        mc::trace(hist);
        std::vector<Buf> bs(1);
        applyop(bs, {0, 0, t, z}); applyop(bs, {3, 0, 0, 0}); verify(bs);
        for (long y : {z / 2, z, z + 1, z + 7, z * 3}) { hist += mc::fmt("; tprealloc(%ld)", y); applyop(bs, {1, 0, 0, y}); verify(bs); applyop(bs, {3, 0, 0, 0}); verify(bs); }
        tpfree(bs[0].p);
      }
    // around every power of two to 4 MB, from and to
    for (int t = 0; t < 4; t++)
      for (int k = 11; k <= 22; k++)
        for (long d : {-1L, 0L, 1L}) {
          long z = (1L << k) + d;
          for (long y : {0L, 1L, z / 2, z - 1, z + 1, z + 4096, 2 * z, (1L << 16) - 1, (1L << 16) + 1}) {
            hist = mc::fmt("tpalloc(%s,%ld); fill; tprealloc(%ld); fill", tyname[t], z, y);
            mc::trace(hist);
            std::vector<Buf> bs(1);
            applyop(bs, {0, 0, t, z}); applyop(bs, {3, 0, 0, 0}); verify(bs);
            applyop(bs, {1, 0, 0, y}); verify(bs); applyop(bs, {3, 0, 0, 0}); verify(bs);
            tpfree(bs[0].p);
          }
        }
    mc::sample("b0=tpalloc(FML32,40); fill b0; b1=tpalloc(CARRAY,700); fill b1; b0=tprealloc(b0,1)");
  });
  return mc::run(jobs.size(), [&](int j) { jobs[j](); });
}
// ------------------------------------------------------------------ M02
static int b64val(unsigned char c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  return c == '+' ? 62 : c == '/' ? 63 : -1;
}
// 1 valid, 0 invalid, 2 not judged (unused bits set)
static int refdec(const std::string &s, std::string &out) {
  out.clear();
  if (s.size() % 4) return 0;
  bool loose = false;
  for (size_t i = 0; i < s.size(); i += 4) {
    int v[4], pad = 0;
    for (int k = 0; k < 4; k++) {
      v[k] = b64val(s[i + k]);
      if (s[i + k] == '=' && i + 4 == s.size() && k >= 2) { pad++; v[k] = 0; }
      else if (v[k] < 0 || pad) return 0;
    }
    unsigned n = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    out += (char)(n >> 16);
    if (pad < 2) out += (char)(n >> 8);
    if (pad < 1) out += (char)n;
    if ((pad == 2 && (v[1] & 15)) || (pad == 1 && (v[2] & 3))) loose = true;
  }
  return loose ? 2 : 1;
}
static std::string refenc(const std::string &s) {
  static const char e[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned n = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
    o += e[n >> 18]; o += e[n >> 12 & 63];
    o += i + 1 < s.size() ? e[n >> 6 & 63] : '=';
    o += i + 2 < s.size() ? e[n & 63] : '=';
  }
  return o;
}
static void codec(const std::string &s, bool caps) {
  std::string want = refenc(s);
  char *in = (char *)malloc(s.size() + 1);
  memcpy(in, s.data(), s.size());
  char *exact = (char *)malloc(want.size() ? want.size() : 1);
  size_t n = base64encode(in, s.size(), exact, want.size());
  if (n != want.size() || memcmp(exact, want.data(), n)) viol("encode", "encoding of 0x" + mc::hexs(s.data(), s.size()) + " is " + std::string(exact, n) + " instead of " + want);
  // decoding room for whole blocks, as documented by the length check
  size_t room = want.size() / 4 * 3;
  char *dec = (char *)malloc(room ? room : 1);
  size_t m = base64decode(exact, n, dec, room);
  if (m != s.size() || memcmp(dec, s.data(), m)) viol("decode", "decoding " + want + " gives 0x" + mc::hexs(dec, m) + " instead of 0x" + mc::hexs(s.data(), s.size()));
  mc::add(mc::cnt().transitions, 2);
  if (caps) {
    for (size_t c = 0; c < want.size(); c++) {
      char *o = (char *)malloc(c ? c : 1);
      bool thrown = false;
      try { base64encode(in, s.size(), o, c); } catch (std::exception &) { thrown = true; }
      if (!thrown) viol("encode-space", mc::fmt("encoding %zu bytes into %zu characters did not fail", s.size(), c));
      free(o);
    }
    for (size_t c = 0; c < s.size(); c++) {
      char *o = (char *)malloc(c ? c : 1);
      bool thrown = false;
      try { base64decode(exact, n, o, c); } catch (std::exception &) { thrown = true; }
      if (!thrown) viol("decode-space", mc::fmt("decoding to %zu bytes into %zu did not fail", s.size(), c));
      free(o);
    }
  }
  free(in); free(exact); free(dec);
}
static void decode_any(const std::string &t) {
  std::string want;
  int ok = refdec(t, want);
  char *in = (char *)malloc(t.size() ? t.size() : 1);
  memcpy(in, t.data(), t.size());
  size_t room = t.size() / 4 * 3;
  char *out = (char *)malloc(room ? room : 1);
  bool thrown = false;
  size_t m = 0;
  try { m = base64decode(in, t.size(), out, room); } catch (std::exception &) { thrown = true; }
  mc::add(mc::cnt().transitions);
  if (ok == 0 && !thrown) viol("decode-malformed", "malformed text [" + t + "] was decoded to 0x" + mc::hexs(out, m));
  if (ok == 1 && (thrown || m != want.size() || memcmp(out, want.data(), m))) viol("decode", "text [" + t + "] " + (thrown ? "refused" : "decoded to 0x" + mc::hexs(out, m)));
  free(in); free(out);
}

static char *mkbuf(int t, int n, std::string &content) {
  if (t == FML) {
    char *p = tpalloc((char *)"FML32", nullptr, 4096 + n * 40);
    for (int i = 0; i < n; i++) {
      std::string v(i * 3 % 19, 'a' + i % 26);
      v += '\0';
      Fadd32((FBFR32 *)p, Fmkfldid32(i % 4 == 3 ? FLD_CARRAY : FLD_STRING, 1 + i % 3), v.data(), v.size());
      long l = i * 1000003L;
      Fadd32((FBFR32 *)p, Fmkfldid32(FLD_LONG, 1), (char *)&l, 0);
    }
    content = cn(p);
    return p;
  }
  char *p = tpalloc((char *)tyname[t], nullptr, n + 1);
  content.clear();
  for (int i = 0; i < n; i++) content += t == STRING ? (char)(1 + (i * 37 + n) % 255) : (char)(i * 37 + n);
  if (t == STRING) content += '\0';
  memcpy(p, content.data(), content.size());
  return p;
}
static bool same(char *p, int t, const std::string &content) {
  if (!typeis(p, tyname[t], "")) return false;
  return t == FML ? cn(p) == content : !memcmp(p, content.data(), content.size());
}
static void xport(int t, int n, bool deep) {
  std::string content;
  char *src = mkbuf(t, n, content);
  std::string ctx = mc::fmt("%s of %d %s: ", tyname[t], n, t == FML ? "fields" : "bytes");
  mc::trace("export " + ctx);
  long ilen = t == FML || t == STRING ? 0 : content.size();
  for (long flags : {0L, (long)TPEX_STRING}) {
    long need = std::max<long>(1 << 20, (t == FML ? Fused32((FBFR32 *)src) : n) * 3L / 2 + 4096);
    std::string big(need, '#');
    if (tpexport(src, ilen, big.data(), &need, flags) == -1) { viol("export", ctx + mc::fmt("export failed, tperrno %d", tperrno)); continue; }
    std::string image = big.substr(0, need);
    for (long k = need; k < need + 64; k++) if (big[k] != '#') { viol("export-over", ctx + "export wrote past the reported length"); break; }
    if (flags) {
      if (image.empty() || image.back() != 0 || strlen(image.c_str()) + 1 != image.size()) viol("export-string", ctx + "text form is not a string of the reported length");
      for (char c : image.substr(0, need - 1)) if (c < 32 || c > 126) { viol("export-string", ctx + "text form contains an unprintable character"); break; }
    }
    if (!same(src, t, content)) viol("export-src", ctx + "export changed the buffer");
    // every capacity
    for (long cap = deep ? 0 : (need > 40 ? need - 40 : 0); cap <= need; cap++) {
      char *o = (char *)malloc(cap ? cap : 1);
      memset(o, '#', cap);
      long ol = cap;
      int rc = tpexport(src, ilen, o, &ol, flags);
      mc::add(mc::cnt().transitions);
      if (cap < need) {
        if (rc != -1 || tperrno != TPELIMIT) viol("export-space", ctx + mc::fmt("export needing %ld into %ld: rc %d tperrno %d", need, cap, rc, tperrno));
        else if (ol != need) viol("export-space", ctx + mc::fmt("refused export reports %ld needed, %ld are", ol, need));
        for (long k = 0; k < cap; k++) if (o[k] != '#') { viol("export-space", ctx + "refused export wrote to the output"); break; }
      } else if (rc == -1 || ol != need || memcmp(o, image.data(), need)) viol("export-exact", ctx + "export into an exact output differs");
      free(o);
    }
    // into destinations of every type and several sizes
    for (int dt = 0; dt < 4; dt++)
      for (long ds : {0L, 1L, 25L, 600L, 5000L}) {
        char *d = tpalloc((char *)tyname[dt], nullptr, ds);
        if (dt == FML) { short s = 1; Fadd32((FBFR32 *)d, Fmkfldid32(FLD_SHORT, 77), (char *)&s, 0); }
        char *im = (char *)malloc(image.size());
        memcpy(im, image.data(), image.size());
        long ol = -1;
        int rc = tpimport(im, flags && (ds & 1) ? 0 : image.size() - (flags ? 1 : 0), &d, &ol, flags);
        mc::add(mc::cnt().transitions);
        if (rc == -1) viol("import", ctx + mc::fmt("import (flags %ld) into %s of %ld failed, tperrno %d", flags, tyname[dt], ds, tperrno));
        else if (!same(d, t, content)) viol("import-content", ctx + mc::fmt("import (flags %ld) into %s of %ld gives another buffer", flags, tyname[dt], ds));
        else if (t != FML && ol != (long)content.size()) viol("import-len", ctx + mc::fmt("import (flags %ld) reports %ld bytes of data, there are %zu", flags, ol, content.size()));
        if (rc != -1 && t == FML) {
          // the imported buffer is usable: it can be extended up to its size
          std::string v(30, 'z');
          int k = 0;
          while (Fadd32((FBFR32 *)d, Fmkfldid32(FLD_CARRAY, 50), v.data(), v.size()) != -1 && k++ < 400) ;
          if (cn(d).compare(0, 7, "INVALID") == 0) viol("import-use", ctx + "imported buffer cannot be extended");
        } else if (rc != -1) {
          long sz = tptypes(d, nullptr, nullptr);
          if (sz < (long)content.size()) viol("import-size", ctx + mc::fmt("imported buffer reports size %ld, its contents are %zu", sz, content.size()));
          memset(d, 'x', sz);
        }
        free(im);
        tpfree(d);
      }
    // truncations and corruptions
    if (!deep) continue;
    auto damaged = [&](const std::string &img, bool trunc, const std::string &what) {
      for (int dt : {CARRAY, FML}) {
        char *d = tpalloc((char *)tyname[dt], nullptr, 64);
        std::string c0;
        if (dt == FML) { short s = 1; Fadd32((FBFR32 *)d, Fmkfldid32(FLD_SHORT, 77), (char *)&s, 0); c0 = cn(d); }
        else { c0 = std::string(64, 'k'); memcpy(d, c0.data(), 64); }
        char *im = (char *)malloc(img.size() + 1);
        memcpy(im, img.data(), img.size());
        im[img.size()] = 0;
        char *real = im;
        char *tight = nullptr;
        if (!flags) { tight = (char *)malloc(img.size() ? img.size() : 1); memcpy(tight, img.data(), img.size()); real = tight; }
        long ol;
        if (!flags && img.empty()) { free(im); free(tight); tpfree(d); continue; }
        int rc = tpimport(real, img.size(), &d, &ol, flags);
        mc::add(mc::cnt().transitions);
        if (rc == -1) {
          if (!same(d, dt, c0)) viol("refused-changes", ctx + "refused import (" + what + ") changed the output buffer");
        } else {
          char ty[9] = {0};
          if (tptypes(d, ty, nullptr) == -1) viol("accepted-type", ctx + "accepted import (" + what + ") left a buffer without type");
          if (trunc && (t == FML || t == STRING)) {
            bool oktrunc = flags && img.size() + 1 >= image.size();
            if (!oktrunc) viol("truncated", ctx + mc::fmt("import of a truncated %s form (%s) succeeded", flags ? "text" : "binary", what.c_str()));
          }
          if (!strcmp(ty, "STRING") && (long)strlen(d) >= tptypes(d, nullptr, nullptr)) viol("accepted-string", ctx + "accepted STRING is not terminated inside the buffer");
          if (!strcmp(ty, "FML32") && (Funused32((FBFR32 *)d) < 0 || Fsizeof32((FBFR32 *)d) != Fused32((FBFR32 *)d) + Funused32((FBFR32 *)d))) viol("accepted-fml", ctx + "accepted FML32 buffer (" + what + ") has impossible size figures");
        }
        free(im); free(tight);
        tpfree(d);
      }
    };
    long payload = image.size() - (flags ? 1 : 0);
    for (long k = 0; k < payload; k++) damaged(image.substr(0, k), true, mc::fmt("%ld of %ld characters", k, payload));
    for (long k = 0; k < payload; k++)
      for (int x : {0, 1, 127, 128, 255, (int)'=', (int)'A', (int)'*', (int)'S'}) {
        std::string c = image.substr(0, payload);
        if ((unsigned char)c[k] == x) continue;
        c[k] = x;
        damaged(c, false, mc::fmt("byte %ld set to %d", k, x));
      }
  }
  tpfree(src);
  mc::add(mc::cnt().states);
}
static int exports() {
  bool th = mc::thorough();
  std::vector<std::function<void()>> jobs;
  // codec
  for (int a = 0; a < 256; a++)
    jobs.push_back([=] {
      mc::trace(mc::fmt("codec, first byte %d", a));
      codec(std::string(1, (char)a), true);
      for (int b = 0; b < 256; b++) {
        mc::beat();
        codec(std::string{(char)a, (char)b}, b % 16 == 0);
        for (int c = 0; c < 256; c += th ? 1 : 13) codec(std::string{(char)a, (char)b, (char)c}, false);
        if (mc::enough()) return;
      }
      for (int n = 4; n < 120; n++) codec(std::string(n, (char)a), n < 20);
    });
  static const char al[] = "Az9+/=!\n\x80 ";
  int A = sizeof(al) - 1;
  for (int a = 0; a < A; a++)
    for (int b = 0; b < A; b++)
      jobs.push_back([=] {
        std::string w{al[a], al[b]};
        mc::trace("decode " + w);
        std::function<void()> rec = [&] {
          decode_any(w);
          if ((int)w.size() < (th ? 8 : 6)) for (int k = 0; k < A && !mc::enough(); k++) { w.push_back(al[k]); rec(); w.pop_back(); }
          if (w.size() == 4) mc::beat();
        };
        rec();
        std::string four = std::string{al[a], al[b]};
        for (int c = 0; c < A; c++) for (int d = 0; d < A; d++) decode_any("QUJD" + four + al[c] + al[d]), decode_any(four + al[c] + al[d] + "QUI="), decode_any(four + al[c] + al[d] + "QQ==");
      });
  jobs.push_back([] {
    for (int c = 0; c < 256; c++) for (int k = 0; k < 8; k++) { std::string s = "QUJDREVG"; s[k] = c; decode_any(s); s = "QUI="; s[k % 4] = c; decode_any(s); s = "QQ=="; s[k % 4] = c; decode_any(s); }
    mc::sample("STRING of 13 bytes exported in text form, imported into CARRAY/STRING/FML32/TPINIT of 0..5000 bytes; every truncation and 9 replacements of every byte");
  });
  for (int t = 0; t < 4; t++)
    for (int k = 10; k <= 21; k++)
      jobs.push_back([=] {
        if (t == FML) { for (int n : {1 << (k - 6), (1 << (k - 6)) + 1, (1 << (k - 6)) + 2}) if (n < 1500) xport(t, n, false); }
        else for (int d = -3; d <= 3 && !mc::enough(); d++) xport(t, (1 << k) + d, false);
      });
  for (int t = 0; t < 4; t++)
    for (int k = 0; k < 16; k++)
      jobs.push_back([=] {
        if (t == FML) { for (int n = k; n < (th ? 120 : 40); n += 16) xport(t, n, n < (th ? 12 : 6)); }
        else for (int n = k; n < (th ? 2000 : 700) && !mc::enough(); n += 16) xport(t, n, n < (th ? 64 : 34));
      });
  jobs.push_back([] {
    char *d = tpalloc((char *)"STRING", nullptr, 10), *z = nullptr;
    strcpy(d, "x");
    char o[256];
    long ol = sizeof(o);
    auto bad = [&](int rc, int e, const char *w) { if (rc != -1 || tperrno != e) viol("args", mc::fmt("%s: rc %d tperrno %d", w, rc, tperrno)); };
    bad(tpexport(nullptr, 0, o, &ol, 0), TPEINVAL, "tpexport NULL input");
    bad(tpexport(d, 0, nullptr, &ol, 0), TPEINVAL, "tpexport NULL output");
    bad(tpexport(d, 0, o, nullptr, 0), TPEINVAL, "tpexport NULL length");
    bad(tpimport(nullptr, 4, &d, &ol, 0), TPEINVAL, "tpimport NULL input");
    bad(tpimport(o, 4, nullptr, &ol, 0), TPEINVAL, "tpimport NULL output");
    bad(tpimport(o, 4, &z, &ol, 0), TPEINVAL, "tpimport NULL buffer");
    if (strcmp(d, "x")) viol("args", "a refused call changed the buffer");
  });
  return mc::run(jobs.size(), [&](int j) { jobs[j](); });
}
int main(int argc, char **argv) { return argc > 1 && !strcmp(argv[1], "xport") ? exports() : histories(); }
