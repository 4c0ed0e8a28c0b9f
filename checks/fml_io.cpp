// F04: binary and text forms of real buffers: round trips for every buffer of
// a bounded universe, every truncation point, every one-character corruption
// of the text form judged by an independent reference parser.
#include <math.h>
#include "fmlmodel.h"
#include "scratch.h"

static const size_t ample = 16384;
static const char *table =
    "*base 100\n"
    "S_A 1 short\nS_B 2 short\nL_A 3 long\nL_B 4 long\nC_A 5 char\nC_B 6 char\n"
    "F_A 7 float\nF_B 8 float\nD_A 9 double\nD_B 10 double\nT_A 11 string\nT_B 12 string\n"
    "B_A 13 carray\nB_B 14 carray\nN_A 15 fml32\nN_B 16 fml32\n";
static FLDID32 fid(int type, int which) {
  static const int no[] = {1, 3, 5, 7, 9, 11, 13, 0, 0, 0, 15};
  return Fmkfldid32(type, 100 + no[type] + which);
}
static std::string idname(FLDID32 id) {
  static const char l[] = "SLCFDTB???N";
  int t = id >> 24;
  return std::string(1, l[t]) + ((id & 1) ? "_A" : "_B");
}
static FBFR32 *mk(size_t cap = ample) {
  FBFR32 *b = (FBFR32 *)malloc(cap);
  memset((void *)b, 0xA5, cap);
  Finit32(b, cap);
  return b;
}
static std::string cn(FBFR32 *b, std::string *why = nullptr) {
  std::string s, w;
  if (!canon(b, s, w)) { if (why) *why = w; return "INVALID " + w; }
  return s;
}
static std::string bwrite(FBFR32 *b) {
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  int r = Fwrite32(b, f);
  fclose(f);
  std::string s(p, n);
  free(p);
  return r == -1 ? "" : s;
}
static FILE *rd(const std::string &text) {
  // stays alive until the next call
  static std::string s;
  s = text;
  // fmemopen of zero bytes fails on some systems
  FILE *f = s.empty() ? fopen("/dev/null", "r") : fmemopen((void *)s.data(), s.size(), "r");
  return f;
}
static std::string tprint(FBFR32 *b) {
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  int r = Ffprint32(b, f);
  fclose(f);
  std::string s(p, n);
  free(p);
  return r == -1 ? "<failed>" : s;
}
static void viol(const char *sig, const std::string &t) { mc::violation(sig, t); }

static void binary(FBFR32 *b, const std::string &ctx, bool truncs) {
  std::string c0 = cn(b), img = bwrite(b);
  mc::trace("binary " + ctx);
  if (img.empty()) { viol("write", ctx + "Fwrite32 failed"); return; }
  if (cn(b) != c0) viol("write-src", ctx + "Fwrite32 changed the buffer");
  long used = Fused32(b);
  FBFR32 *d = mk(), *e = mk(used), *sm = used - 8 >= Fneeded32(0, 0) ? mk(used - 8) : nullptr;
  for (FBFR32 *x : {d, e}) {
    if (x == d) Fadd32(d, fid(FLD_STRING, 0), (char *)"previous contents, longer than most", 0);
    long sz = Fsizeof32(x);
    FILE *f = rd(img);
    int r = Fread32(x, f);
    fclose(f);
    mc::add(mc::cnt().transitions);
    if (r == -1) viol("read", ctx + mc::fmt("Fread32 failed, Ferror32 %d", Ferror32));
    else if (cn(x) != c0) viol("read-content", ctx + "written and read back buffer differs");
    else if (Fsizeof32(x) != sz) viol("read-size", ctx + "Fread32 changed the size of the buffer");
    else if (Fchksum32(x) != Fchksum32(b)) viol("read-chksum", ctx + "checksum differs after reading back");
  }
  if (sm) {
    std::string prev = cn(sm);
    FILE *f = rd(img);
    int r = Fread32(sm, f), er = Ferror32;
    fclose(f);
    mc::add(mc::cnt().transitions);
    if (r != -1 || er != FNOSPACE) viol("read-big", ctx + "Fread32 into a too small buffer not refused");
    if (cn(sm) != prev) viol("read-big-changed", ctx + "refused Fread32 changed the buffer");
    free(sm);
  }
  if (truncs)
    for (size_t n = 0; n < img.size(); n++) {
      FBFR32 *x = mk();
      Fadd32(x, fid(FLD_STRING, 0), (char *)"previous", 0);
      Fadd32(x, fid(FLD_SHORT, 0), (char *)"ab", 0);
      mc::trace("binary " + ctx + mc::fmt("truncated to %zu of %zu", n, img.size()));
      FILE *f = rd(img.substr(0, n));
      int r = Fread32(x, f);
      fclose(f);
      mc::add(mc::cnt().transitions);
      mc::add(mc::cnt().aux[0]);
      std::string w, k = cn(x, &w);
      if (r != -1) viol("trunc-accepted", ctx + mc::fmt("Fread32 accepted %zu of %zu bytes", n, img.size()));
      if (!w.empty()) viol("trunc-invalid", ctx + mc::fmt("%zu of %zu bytes leave an unreadable buffer: ", n, img.size()) + w);
      else {
        // and it stays usable
        if (Fadd32(x, fid(FLD_STRING, 1), (char *)"more", 0) == -1 || Fpres32(x, fid(FLD_STRING, 1), 0) != 1 ||
            Fused32(x) + Funused32(x) != Fsizeof32(x) || Fsizeof32(x) != (long)ample)
          viol("trunc-unusable", ctx + mc::fmt("%zu of %zu bytes leave an unusable buffer", n, img.size()));
      }
      free(x);
    }
  // write errors are reported
  if (truncs) {
    FILE *f = fopen("/dev/full", "w");
    setvbuf(f, nullptr, _IONBF, 0);
    if (Fwrite32(b, f) != -1) viol("write-error", ctx + "Fwrite32 to a full device succeeded");
    fclose(f);
  }
  free(d); free(e);
}

// contents compare with printed precision for floating point
static bool sametext(FBFR32 *a, FBFR32 *b) { return cn(a) == cn(b); }

static void text(FBFR32 *b, const std::string &ctx) {
  std::string t = tprint(b), c0 = cn(b);
  mc::trace("text " + ctx + t);
  FBFR32 *d = mk();
  Fadd32(d, fid(FLD_STRING, 1), (char *)"previous", 0);
  FILE *f = rd(t);
  int r = Fextread32(d, f);
  fclose(f);
  mc::add(mc::cnt().transitions);
  if (r == -1) viol("extread", ctx + "printed form is not accepted:\n" + t);
  else if (!sametext(b, d)) viol("extread-content", ctx + "printed and read back buffer differs:\n" + t + "read back as:\n" + tprint(d));
  if (cn(b) != c0) viol("print-src", ctx + "Ffprint32 changed the buffer");
  free(d);
}

// ------------------------------------------------ independent reference parser
struct Ref {
  std::string s;
  size_t p = 0;
  bool fuzzy = false;  // input whose treatment is not specified
  int peek() { return p < s.size() ? (unsigned char)s[p] : -1; }
  // one buffer; false: malformed
  bool buf(Model &m, int indent) {
    while (true) {
      if (peek() == '\n') { p++; return true; }
      for (int i = 0; i < indent; i++) { if (peek() != '\t') return false; p++; }
      if (peek() == '+' || peek() == '-' || peek() == '=') p++;
      std::string name, v;
      if (peek() == 0) { fuzzy = true; return false; }
      auto al = [](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
      if (!al(peek())) return false;
      while (al(peek()) || (peek() >= '0' && peek() <= '9') || peek() == '_') name += s[p++];
      if (peek() != '\t') return false;
      p++;
      while (peek() != -1 && peek() != '\n') {
        if (peek() == '\\') {
          p++;
          auto hx = [](int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
          int h = hx(peek());
          if (h < 0) { fuzzy = true; return false; }
          p++;
          int l = hx(peek());
          if (l < 0) return false;
          p++;
          v += char(h * 16 + l);
        } else v += s[p++];
      }
      if (peek() != '\n') return false;
      p++;
      FLDID32 id = 0;
      for (int t : types_) for (int w = 0; w < 2; w++) if (idname(fid(t, w)) == name) id = fid(t, w);
      if (!id) return false;
      std::string val;
      switch (id >> 24) {
        case FLD_SHORT: val = pk<short>(atol(v.c_str())); break;
        case FLD_LONG: val = pk<long>(atol(v.c_str())); break;
        case FLD_CHAR: val = pk<char>(v.c_str()[0]); break;
        case FLD_FLOAT: val = pk<float>(atof(v.c_str())); break;
        case FLD_DOUBLE: val = pk<double>(atof(v.c_str())); break;
        case FLD_STRING: val = std::string(v.c_str()) + '\0'; break;
        case FLD_CARRAY: val = v; break;
        case FLD_FML32: { Model n; if (!v.empty()) fuzzy = true; if (!buf(n, indent + 1)) return false; val = canon(n); break; }
      }
      m[id].push_back(val);
    }
  }
};
static void malformed(const std::string &t, const std::string &ctx) {
  Ref ref{t};
  Model m;
  bool ok = !t.empty() && ref.buf(m, 0);
  FBFR32 *d = mk();
  Fadd32(d, fid(FLD_STRING, 1), (char *)"previous", 0);
  std::string prev = cn(d), w;
  mc::trace("malformed " + ctx + t);
  FILE *f = rd(t);
  int r = Fextread32(d, f);
  fclose(f);
  mc::add(mc::cnt().transitions);
  mc::add(mc::cnt().aux[1]);
  std::string k = cn(d, &w);
  if (!w.empty()) viol("text-invalid", ctx + "leaves an unreadable buffer: " + w + "\n" + t);
  else if (r == -1 && k != prev) viol("text-changed", ctx + "a refused text changed the buffer:\n" + t);
  else if (!ref.fuzzy) {
    if (ok && r == -1) viol("text-refused", ctx + "well-formed text refused:\n" + t);
    else if (!ok && r != -1) viol("text-accepted", ctx + "malformed text accepted:\n" + t);
    else if (ok && k != canon(m)) viol("text-content", ctx + "text read as something else:\n" + t + "expected " + show(m));
  }
  free(d);
}

static void strings_job(int part) {
  // every byte value, and all short strings over interesting bytes
  std::string inter = std::string("\\\n\ta0F ~\x80\xff\x01\x7f-", 13) + '\0';
  auto one = [&](const std::string &s) {
    FBFR32 *b = mk();
    if (s.find('\0') == std::string::npos) {
      Fadd32(b, fid(FLD_STRING, 0), (char *)s.c_str(), 0);
      Fadd32(b, fid(FLD_STRING, 0), (char *)(s + "tail").c_str(), 0);
    }
    Fadd32(b, fid(FLD_CARRAY, 0), s.empty() ? (char *)"" : (char *)s.data(), s.size());
    if (s.size() == 1) Fadd32(b, fid(FLD_CHAR, 0), (char *)s.data(), 0), Fadd32(b, fid(FLD_CHAR, 1), (char *)s.data(), 0);
    text(b, "string bytes 0x" + mc::hexs(s.data(), s.size()) + "\n");
    mc::add(mc::cnt().states);
    free(b);
  };
  if (part == 0) {
    one("");
    for (int c = 0; c < 256; c++) one(std::string(1, char(c)));
    for (int n : {100, 900, 1000, 1100, 2000, 5000}) one(std::string(n, 'x'));
    for (int n : {400, 1200}) one(std::string(n, '\\'));
  } else {
    char c = inter[part - 1];
    for (char a : inter) {
      one(std::string() + c + a);
      for (char b : inter) {
        one(std::string() + c + a + b);
        if (mc::thorough()) for (char e : inter) one(std::string() + c + a + b + e);
      }
    }
    for (int a = 0; a < 256; a++) one(std::string() + c + char(a));
  }
}
static void numbers_job() {
  std::vector<long> ls = {0, 1, -1, 9, 10, 127, 128, 255, 256, 32767, -32768, 65535, 2147483647L, -2147483648L, 4294967296L, 9223372036854775807L, -9223372036854775807L - 1};
  for (long l : ls) {
    FBFR32 *b = mk();
    short s = l;
    Fadd32(b, fid(FLD_LONG, 0), (char *)&l, 0);
    Fadd32(b, fid(FLD_SHORT, 1), (char *)&s, 0);
    text(b, mc::fmt("number %ld\n", l));
    mc::add(mc::cnt().states);
    free(b);
  }
  for (int i = -32768; i < 32768; i += 1) {
    FBFR32 *b = mk(256);
    short s = i;
    Fadd32(b, fid(FLD_SHORT, 0), (char *)&s, 0);
    text(b, mc::fmt("short %d\n", i));
    mc::add(mc::cnt().states);
    free(b);
  }
  // values that six decimals represent exactly
  for (double d : {0.0, 0.5, -0.25, 1.0, 1234.015625, -99999.5, 1048576.0, 123456789.125}) {
    FBFR32 *b = mk();
    float f = d;
    Fadd32(b, fid(FLD_DOUBLE, 0), (char *)&d, 0);
    Fadd32(b, fid(FLD_FLOAT, 0), (char *)&f, 0);
    text(b, mc::fmt("floating %f\n", d));
    mc::add(mc::cnt().states);
    free(b);
  }
}
// all buffers over three fields (types i<=k<=l), occurrences 0..2; nested values built from named fields
static FBFR32 *nest(int d) {
  static FBFR32 *n[5];
  if (!n[d]) {
    n[d] = mk(4096);
    if (d > 0) {
      Fadd32(n[d], fid(FLD_STRING, 0), (char *)"in\nner\\", 0);
      short s = d;
      Fadd32(n[d], fid(FLD_SHORT, 1), (char *)&s, 0);
      Fadd32(n[d], fid(FLD_FML32, 0), (char *)nest(d - 1), 0);
      if (d > 1) Fadd32(n[d], fid(FLD_FML32, 1), (char *)nest(d - 2), 0), Fadd32(n[d], fid(FLD_FML32, 0), (char *)nest(1), 0);
    }
  }
  return n[d];
}
static void addv(FBFR32 *b, FLDID32 id, int i) {
  int t = id >> 24;
  if (t == FLD_FML32) { Fadd32(b, id, (char *)nest(i % 4), 0); return; }
  Val v = mkval(t, i % 4);
  if (t == FLD_DOUBLE && i % 4 == 2) { double d = -0.5; v.raw = pk(d); }
  char none[1] = {0};
  Fadd32(b, id, v.raw.empty() ? none : v.ptr(), v.len);
}
static void combos_job(int i, int k, int l) {
  FLDID32 f[3] = {fid(types_[i], 0), fid(types_[k], k == i ? 1 : 0), fid(types_[l], l == k ? 1 : 0)};
  int lim = mc::thorough() ? 4 : 3;
  for (int a = 0; a < lim; a++)
    for (int b_ = 0; b_ < lim; b_++)
      for (int c = 0; c < lim; c++) {
        FBFR32 *b = mk();
        for (int x = 0; x < a; x++) addv(b, f[0], x + 1);
        for (int x = 0; x < b_; x++) addv(b, f[1], x + 2);
        for (int x = 0; x < c; x++) addv(b, f[2], x);
        std::string ctx = "buffer:\n" + tprint(b);
        binary(b, ctx, (a | b_ | c) && a < 2 && b_ < 2 && c < 3);
        text(b, ctx);
        mc::add(mc::cnt().states);
        free(b);
      }
}
static void malformed_job(int part) {
  static const char *bases[] = {
      "T_A\tab\\31c\n\n", "S_A\t12\nN_A\t\n\tT_A\tx\n\tN_B\t\n\t\tL_A\t5\n\n\n\n", "B_A\t\\00\\fF\nC_A\t\\5c\n\n",
      "-T_A\tq\n+D_B\t1.5\n=F_A\t2\n\n", "\n", "N_A\t\n\nL_B\t-7\n\n"};
  std::string t = bases[part % 6];
  std::string rep = std::string("\n\t\\aT_ 0-+\x80", 12) + '\0' + 'g';
  if (part < 6) {
    malformed(t, "as is\n");
    for (size_t i = 0; i <= t.size(); i++) {
      malformed(t.substr(0, i), mc::fmt("truncated at %zu\n", i));
      for (char c : rep) {
        malformed(t.substr(0, i) + c + t.substr(i), mc::fmt("0x%02x inserted at %zu\n", (unsigned char)c, i));
        if (i < t.size()) malformed(t.substr(0, i) + c + t.substr(i + 1), mc::fmt("0x%02x at %zu\n", (unsigned char)c, i));
      }
      if (i < t.size()) malformed(t.substr(0, i) + t.substr(i + 1), mc::fmt("deleted at %zu\n", i));
    }
  } else {
    // pairs of edits
    for (size_t i = 0; i < t.size(); i++)
      for (char c : rep) {
        std::string u = t;
        u[i] = c;
        for (size_t k = i + 1; k < u.size(); k++)
          for (char e : rep) {
            std::string v = u;
            v[k] = e;
            malformed(v, mc::fmt("0x%02x at %zu, 0x%02x at %zu\n", (unsigned char)c, i, (unsigned char)e, k));
          }
      }
  }
  mc::add(mc::cnt().states);
}
static void stream_job() {
  // several buffers in one stream come back one by one
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  for (int i = 0; i < 4; i++) Fwrite32(nest(i), f);
  fclose(f);
  f = fmemopen(p, n, "r");
  for (int i = 0; i < 4; i++) {
    FBFR32 *d = mk();
    if (Fread32(d, f) == -1 || cn(d) != cn(nest(i))) viol("stream", mc::fmt("buffer %d of a binary stream differs", i));
    free(d);
  }
  FBFR32 *d = mk();
  if (Fread32(d, f) != -1) viol("stream-end", "Fread32 at the end of the stream succeeded");
  fclose(f);
  free(p);
  f = open_memstream(&p, &n);
  for (int i = 0; i < 4; i++) Ffprint32(nest(i), f);
  fclose(f);
  // Fextread32 reads ahead by one character, so text buffers are read from separate streams
  free(p);
  // a destination too small for the text
  FBFR32 *sm = mk(64);
  std::string t = tprint(nest(3)), c0 = cn(sm);
  f = rd(t);
  if (Fextread32(sm, f) != -1 || Ferror32 != FNOSPACE) viol("text-big", "Fextread32 into a too small buffer not refused with FNOSPACE");
  fclose(f);
  if (cn(sm) != c0) viol("text-big-changed", "refused Fextread32 changed the buffer");
  mc::add(mc::cnt().states);
  mc::add(mc::cnt().transitions, 10);
}
int main() {
  std::string dir = scratch::make();
  scratch::put(dir + "/tbl", table);
  setenv("FLDTBLDIR32", dir.c_str(), 1);
  setenv("FIELDTBLS32", "tbl", 1);
  std::vector<std::function<void()>> jobs;
  jobs.push_back([] { numbers_job(); });
  jobs.push_back([] { stream_job(); });
  for (int i = 0; i <= 14; i++) jobs.push_back([i] { strings_job(i); });
  for (int i = 0; i < (mc::thorough() ? 12 : 8); i++) jobs.push_back([i] { malformed_job(i); });
  for (int i = 0; i < 8; i++)
    for (int k = i; k < 8; k++)
      for (int l = k; l < 8; l++)
        if (!(i == k && k == l)) jobs.push_back([=] { combos_job(i, k, l); });
  int r = mc::run(jobs.size(), [&](int j) { jobs[j](); mc::add(mc::cnt().validated); if (j == 20) mc::sample(tprint(nest(3))); },
                  8, 30, [] { return mc::fmt(", \"more\": {\"truncation_points\": %lu, \"corrupted_texts\": %lu}", mc::cnt().aux[0], mc::cnt().aux[1]); });
  scratch::drop(dir);
  return r;
}
