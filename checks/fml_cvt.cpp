// F05: value conversions. A reference written from the C conversion rules is
// compared with Ftypcvt32 for every pair of types over complete small domains
// and boundary values, and with every operation that stores, fetches or looks
// up with conversion, on buffers in every small state.
#include <limits.h>
#include <math.h>
#include "fmlmodel.h"

static std::vector<int> T = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY};
static void viol(const std::string &sig, const std::string &t) { mc::violation(sig, t); }

// exact-size heap copy: any access outside the given value is reported
struct Exact {
  char *p;
  size_t n;
  explicit Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
};

// the numeric value of a source value; false if it is text
static bool number(int t, const std::string &raw, long double &ld, bool &isint, long &l) {
  isint = true;
  switch (t) {
    case FLD_SHORT: { short v; memcpy(&v, raw.data(), 2); l = v; ld = v; return true; }
    case FLD_LONG: { long v; memcpy(&v, raw.data(), 8); l = v; ld = v; return true; }
    case FLD_CHAR: { char v = raw[0]; l = v; ld = v; return true; }
    case FLD_FLOAT: { float v; memcpy(&v, raw.data(), 4); isint = false; ld = v; return true; }
    case FLD_DOUBLE: { double v; memcpy(&v, raw.data(), 8); isint = false; ld = v; return true; }
  }
  return false;
}
enum Res { DEF, UNDEF, REFUSED };
// want: the converted value (strings with their NUL)
static Res ref(int to, int from, const std::string &raw, std::string &want) {
  bool okt = std::find(T.begin(), T.end(), to) != T.end(), okf = std::find(T.begin(), T.end(), from) != T.end();
  if (!okt || !okf) return REFUSED;
  long double ld; bool isint; long l = 0;
  if (from == FLD_STRING || from == FLD_CARRAY || (from == FLD_CHAR && (to == FLD_STRING || to == FLD_CARRAY))) {
    std::string text = from == FLD_STRING ? std::string(raw.c_str()) : raw;
    if (to == FLD_CARRAY) { want = text; return DEF; }
    if (to == FLD_STRING) {
      if (from != FLD_STRING && text.find('\0') != std::string::npos) return UNDEF;
      want = std::string(text.c_str()) + '\0';
      return DEF;
    }
    if (to == FLD_CHAR) { want = std::string(1, text.empty() ? '\0' : text[0]); return DEF; }
    const char *s = text.c_str();
    if (to == FLD_LONG) { want = pk<long>(strtol(s, nullptr, 10)); return DEF; }
    if (to == FLD_SHORT) { want = pk<short>((short)strtol(s, nullptr, 10)); return DEF; }
    double d = strtod(s, nullptr);
    if (to == FLD_DOUBLE) { want = pk<double>(d); return DEF; }
    if (std::isfinite(d) && fabs(d) > 3.4e38) return UNDEF;
    want = pk<float>((float)d);
    return DEF;
  }
  number(from, raw, ld, isint, l);
  switch (to) {
    case FLD_STRING: case FLD_CARRAY: {
      char b[400];
      if (isint) snprintf(b, sizeof(b), "%ld", l);
      else snprintf(b, sizeof(b), "%Lf", ld);
      want = b;
      if (to == FLD_STRING) want += '\0';
      return DEF;
    }
    case FLD_FLOAT:
      if (isint) want = pk<float>((float)l);
      else { if (std::isfinite((double)ld) && fabsl(ld) > 3.4e38L) return UNDEF; want = pk<float>((float)ld); }
      return DEF;
    case FLD_DOUBLE: want = isint ? pk<double>((double)l) : pk<double>((double)ld); return DEF;
  }
  if (!isint) {
    long double t = truncl(ld);
    long double lim = to == FLD_LONG ? 9.2e18L : to == FLD_SHORT ? 32767 : 127;
    if (!(t <= lim && t >= -lim)) return UNDEF;
    l = (long)t;
  }
  if (to == FLD_SHORT) want = pk<short>((short)l);
  if (to == FLD_LONG) want = pk<long>(l);
  if (to == FLD_CHAR) want = pk<char>((char)l);
  return DEF;
}

static std::string vstr(int t, const std::string &raw) { return std::string(tname(t)) + " " + (raw.size() > 40 ? mc::fmt("<%zu bytes>", raw.size()) : "0x" + mc::hexs(raw.data(), raw.size())); }

static void one(int to, int from, const std::string &raw) {
  std::string want;
  Res r = ref(to, from, raw, want);
  std::string ctx = "Ftypcvt32(" + vstr(from, raw) + " -> " + tname(to) + ") ";
  Exact in(raw);
  FLDLEN32 tolen = 777777;
  if (r == UNDEF && from != FLD_CARRAY) return;  // outside what C defines
  char *p = Ftypcvt32(&tolen, to, in.p, from, from == FLD_CARRAY ? raw.size() : 0);
  mc::add(mc::cnt().transitions);
  if (memcmp(in.p, raw.data(), raw.size())) viol("source", ctx + "changed the source value");
  if (r == UNDEF) return;
  if (r == REFUSED) {
    if (p) viol("refuse", ctx + "is not supported but returned a value");
    else if (Ferror32 != FEBADOP) viol("refuse-code", ctx + mc::fmt("Ferror32 is %d instead of FEBADOP", Ferror32));
    return;
  }
  if (!p) { viol("fails", ctx + mc::fmt("failed, Ferror32 %d", Ferror32)); return; }
  if (tolen != (FLDLEN32)want.size()) viol("length", ctx + mc::fmt("reports length %u instead of %zu", tolen, want.size()));
  else if (memcmp(p, want.data(), want.size())) viol("value", ctx + "gives 0x" + mc::hexs(p, want.size()) + " instead of 0x" + mc::hexs(want.data(), want.size()));
  mc::add(mc::cnt().states);
}

static std::vector<std::string> values(int t, bool full) {
  std::vector<std::string> v;
  switch (t) {
    case FLD_SHORT:
      if (full) for (int i = SHRT_MIN; i <= SHRT_MAX; i++) v.push_back(pk<short>(i));
      else for (int i : {0, 1, -1, 65, 256, 32767, -32768, 12345}) v.push_back(pk<short>(i));
      break;
    case FLD_CHAR:
      if (full) for (int i = 0; i < 256; i++) v.push_back(pk<char>(i));
      else for (int i : {0, 1, 120, 53, 128, 255}) v.push_back(pk<char>(i));
      break;
    case FLD_LONG:
      if (full) {
        for (int b = 0; b < 64; b++)
          for (long d = -3; d <= 3; d++) { v.push_back(pk<long>((long)((1UL << b) + d))); v.push_back(pk<long>((long)(0 - (1UL << b) + d))); }
        for (long i = -70000; i <= 70000; i += 7) v.push_back(pk<long>(i));
      } else for (long i : {0L, 5L, -1L, 65L, 70000L, LONG_MAX, LONG_MIN}) v.push_back(pk<long>(i));
      break;
    case FLD_FLOAT: case FLD_DOUBLE: {
      std::vector<double> d = {0, -0.0, 1, -1, 0.5, 1.5, -2.75, 65, 127, 128, -128.5, 255, 32767, 32768, -32768, 1e6, 16777217, 1e9, 123456.789, 1e-7, 9e18, -9e18};
      if (t == FLD_DOUBLE || full) for (double x : {1e15, 3.0e38, 1e-300, 9007199254740993.0, 0.1}) d.push_back(x);
      if (t == FLD_DOUBLE) for (double x : {1e100, 1e300, -1.7e308}) d.push_back(x);
      d.push_back(INFINITY); d.push_back(-INFINITY); d.push_back(NAN);
      if (full) for (int b = -30; b < 62; b++) for (double m : {1.0, 1.5, 1.9999999, -1.25}) d.push_back(ldexp(m, b));
      if (full) for (int i = -3000; i < 3000; i++) d.push_back(i / 16.0);
      for (double x : d) v.push_back(t == FLD_FLOAT ? pk<float>((float)x) : pk<double>(x));
      break;
    }
    case FLD_STRING: case FLD_CARRAY: {
      for (const char *s : {"", "0", "1", "-1", "42", "  7", "+3", "7.8", "-0.25", ".5", "1e3", "1e400", "abc", "12abc", "99999999999999999999", "-99999999999999999999", "32768", "0x10", "A", "\xff", "5\xff", "inf", "nan", "1.", "e5", "--1", "longer than any of the small buffers anybody would use for this"})
        v.push_back(s);
      if (full) {
        static const char a[] = "01-.e \xff" "9x+";
        for (char x : std::string(a))
          for (char y : std::string(a)) {
            v.push_back(std::string(1, x)); v.push_back(std::string{x, y});
            for (char z : std::string(a)) { v.push_back(std::string{x, y, z}); for (char w : std::string(a)) v.push_back(std::string{x, y, z, w}); }
          }
        for (int n = 5; n < 3000; n += n < 300 ? 1 : 97) v.push_back(std::string(n, '0' + n % 10));
        for (int c = 1; c < 256; c++) { v.push_back(std::string(1, (char)c)); v.push_back(std::string("1") + (char)c + "2"); }
      }
      if (t == FLD_STRING) for (auto &s : v) s += '\0';
      else {
        for (auto s : {std::string("\0", 1), std::string("1\0002", 3), std::string("\0a", 2), std::string("5\0", 2)}) v.push_back(s);
      }
      break;
    }
  }
  return v;
}

static std::string cn(FBFR32 *b) { std::string s, w; return canon(b, s, w) ? s : "INVALID " + w; }
static FBFR32 *mk() { FBFR32 *b = (FBFR32 *)malloc(8192); memset((void *)b, 0x5a, 8192); Finit32(b, 8192); return b; }
static void store(FBFR32 *b, FLDID32 id, FLDOCC32 oc, const std::string &v) { if (Fchg32(b, id, oc, (char *)v.data(), v.size()) == -1) abort(); }

// every converting operation equals convert, then the plain operation
static void ops(int ft, int ut) {
  FLDID32 id = Fmkfldid32(ft, 10), other = Fmkfldid32(FLD_STRING, 11), low = Fmkfldid32(FLD_SHORT, 9);
  auto uv = values(ut, false);
  auto fv = values(ft, false);
  // storing
  for (auto &u : uv)
    for (int occ = 0; occ < 3; occ++) {
      std::string want;
      Res r = ref(ft, ut, u, want);
      if (r == UNDEF) continue;
      for (int oc = 0; oc <= occ + 1; oc++) {
        std::string ctx = mc::fmt("field %s with %d occurrences, occurrence %d, user value ", tname(ft), occ, oc) + vstr(ut, u) + ": ";
        mc::trace("store " + ctx);
        FBFR32 *a = mk(), *b = mk(), *m = mk();
        for (FBFR32 *x : {a, b, m}) {
          store(x, low, 0, pk<short>(3));
          for (int i = 0; i < occ; i++) store(x, id, i, fv[(i + 1) % fv.size()]);
          store(x, other, 0, std::string("neighbour") + '\0');
        }
        Exact in(u);
        FLDLEN32 ul = ut == FLD_CARRAY ? u.size() : 0;
        int rc = CFchg32(a, id, oc, in.p, ul, ut);
        if (rc == -1) viol("cfchg", ctx + mc::fmt("CFchg32 failed, Ferror32 %d", Ferror32));
        store(m, id, oc, want);
        if (cn(a) != cn(m)) viol("cfchg-content", ctx + "CFchg32 does not equal converting and Fchg32");
        if (oc == occ) {
          rc = CFadd32(b, id, in.p, ul, ut);
          if (rc == -1) viol("cfadd", ctx + mc::fmt("CFadd32 failed, Ferror32 %d", Ferror32));
          if (cn(b) != cn(m)) viol("cfadd-content", ctx + "CFadd32 does not equal converting and Fadd32");
        }
        // lookup of the value just stored, and of one that may be absent
        FLDOCC32 e = Ffindocc32(m, id, (char *)want.data(), want.size());
        FLDOCC32 g = CFfindocc32(a, id, in.p, ul, ut);
        if (e != g) viol("cffindocc", ctx + mc::fmt("CFfindocc32 gives %d, Ffindocc32 of the converted value %d", g, e));
        if (memcmp(in.p, u.data(), u.size())) viol("source", ctx + "the user's value was changed");
        mc::add(mc::cnt().transitions, 3);
        free(a); free(b); free(m);
      }
    }
  // fetching
  for (auto &f : fv)
    for (int oc = 0; oc < 2; oc++) {
      FBFR32 *a = mk();
      store(a, other, 0, std::string("neighbour") + '\0');
      if (oc) store(a, id, 0, fv[0]);
      store(a, id, oc, f);
      std::string c0 = cn(a), want;
      std::string ctx = mc::fmt("field occurrence %d = ", oc) + vstr(ft, f) + mc::fmt(" fetched as %s: ", tname(ut));
      mc::trace("fetch " + ctx);
      Res r = ref(ut, ft, f, want);
      if (r == DEF) {
        FLDLEN32 l = 424242;
        char *p = CFfind32(a, id, oc, &l, ut);
        if (!p || l != (FLDLEN32)want.size() || memcmp(p, want.data(), l)) viol("cffind", ctx + mc::fmt("CFfind32 gives %s", p ? ("length " + std::to_string(l) + " 0x" + mc::hexs(p, l < 60 ? l : 60)).c_str() : "an error"));
        p = CFfind32(a, id, oc, nullptr, ut);
        if (!p || memcmp(p, want.data(), want.size())) viol("cffind-nolen", ctx + "CFfind32 without length differs");
        for (int slack = 0; slack < 3; slack++) {
          Exact out(std::string(want.size() + slack, '#'));
          l = want.size() + slack;
          if (l == 0) continue;
          int rc = CFget32(a, id, oc, out.p, &l, ut);
          if (rc == -1 || l != (FLDLEN32)want.size() || memcmp(out.p, want.data(), want.size())) viol("cfget", ctx + mc::fmt("CFget32 into %zu bytes gives %d, length %u", want.size() + slack, rc, l));
          for (size_t k = want.size(); k < out.n; k++) if (out.p[k] != '#') { viol("cfget-over", ctx + "CFget32 wrote past the value"); break; }
        }
        { Exact out(std::string(want.size(), '#'));
          if (CFget32(a, id, oc, out.p, nullptr, ut) == -1 || memcmp(out.p, want.data(), want.size())) viol("cfget-nolen", ctx + "CFget32 without length"); }
        for (size_t n = 1; n < want.size() && n < 40; n++) {
          Exact out(std::string(n, '#'));
          l = n;
          if (CFget32(a, id, oc, out.p, &l, ut) != -1 || Ferror32 != FNOSPACE) viol("cfget-space", ctx + mc::fmt("CFget32 into %zu bytes did not fail with FNOSPACE", n));
          for (size_t k = 0; k < n; k++) if (out.p[k] != '#') { viol("cfget-space-touch", ctx + "failed CFget32 touched the destination"); break; }
        }
        if (ut == FLD_STRING) {
          char *q = Ffinds32(a, id, oc);
          if (!q || memcmp(q, want.data(), want.size())) viol("ffinds", ctx + "Ffinds32 differs");
          Exact out(std::string(want.size(), '#'));
          if (Fgets32(a, id, oc, out.p) == -1 || memcmp(out.p, want.data(), want.size())) viol("fgets", ctx + "Fgets32 differs");
        }
        mc::add(mc::cnt().transitions, 8);
      }
      // absent occurrences and wrong types
      FLDLEN32 l = 64;
      char buf[64];
      if (CFfind32(a, id, oc + 1, &l, ut) || Ferror32 != FNOTPRES) viol("absent", ctx + "CFfind32 of an absent occurrence");
      if (CFget32(a, id, oc + 1, buf, &l, ut) != -1 || Ferror32 != FNOTPRES) viol("absent", ctx + "CFget32 of an absent occurrence");
      if (cn(a) != c0) viol("fetch-changes", ctx + "fetching changed the buffer");
      free(a);
    }
}

int main() {
  bool th = mc::thorough();
  std::vector<std::function<void()>> jobs;
  for (int from : T)
    for (int to : T) {
      jobs.push_back([=] {
        auto v = values(from, true);
        int n = 0;
        for (auto &raw : v) {
          if (mc::enough()) return;
          if ((n++ & 1023) == 0) mc::trace(mc::fmt("Ftypcvt32 %s -> %s near ", tname(from), tname(to)) + vstr(from, raw));
          one(to, from, raw);
        }
        if (from == FLD_CARRAY) {
          // all byte strings up to length 2, all lengths of digits
          for (int x = 0; x < 256; x++) {
            mc::beat();
            for (int y = -1; y < 256; y++) { std::string s(1, (char)x); if (y >= 0) s += (char)y; one(to, from, s); }
          }
          for (int n = 0; n < 200; n++) one(to, from, std::string(n, n % 2 ? '4' : 'q'));
        }
        if (th && (from == FLD_FLOAT)) {
          for (uint64_t i = 0; i < (1ULL << 32); i += 257) {
            if ((i & 0xfffff) < 257) { mc::beat(); if (mc::enough()) return; }
            uint32_t x = i;
            one(to, from, pk(x));
          }
        }
      });
      jobs.push_back([=] { ops(to, from); });
    }
  // unsupported types, NULL arguments
  jobs.push_back([=] {
    for (int from = -1; from < 40; from++)
      for (int to = -1; to < 40; to++) {
        bool okt = std::find(T.begin(), T.end(), to) != T.end(), okf = std::find(T.begin(), T.end(), from) != T.end();
        if (okt && okf) continue;
        std::string raw(16, '\0');
        raw[0] = '1';
        mc::trace(mc::fmt("Ftypcvt32 type %d -> %d", from, to));
        Exact in(raw);
        FLDLEN32 l = 0;
        char *p = Ftypcvt32(&l, to, in.p, from, 16);
        if (p) viol("refuse", mc::fmt("Ftypcvt32 from type %d to type %d is not supported but returned a value", from, to));
        else if (Ferror32 != FEBADOP) viol("refuse-code", mc::fmt("Ftypcvt32 from type %d to type %d: Ferror32 %d", from, to, Ferror32));
        mc::add(mc::cnt().transitions);
      }
    for (int t : T) {
      std::string raw(16, '\0');
      FLDLEN32 l;
      if (Ftypcvt32(nullptr, t, (char *)raw.data(), FLD_LONG, 0) || Ferror32 != FEINVAL) viol("null", "Ftypcvt32 with NULL length");
      if (Ftypcvt32(&l, t, nullptr, FLD_LONG, 0) || Ferror32 != FEINVAL) viol("null", "Ftypcvt32 with NULL value");
      // nested buffers can neither be stored nor fetched with conversion
      FBFR32 *a = mk();
      FLDID32 id = Fmkfldid32(FLD_FML32, 5);
      Fadd32(a, id, (char *)nested(1), 0);
      std::string c0 = cn(a);
      if (CFadd32(a, id, (char *)raw.data(), 4, t) != -1 || CFchg32(a, id, 0, (char *)raw.data(), 4, t) != -1) viol("nested", "conversion to a nested buffer succeeded");
      if (CFfind32(a, id, 0, &l, t)) viol("nested", "conversion from a nested buffer succeeded");
      if (cn(a) != c0) viol("nested", "a refused conversion changed the buffer");
      free(a);
    }
    mc::sample("Ftypcvt32(short 0xffff -> string) = \"-1\", length 3; CFchg32/CFadd32/CFget32 with every type pair on 0-2 occurrences");
  });
  return mc::run(jobs.size(), [&](int j) { jobs[j](); });
}
