// F07 (sequential part): field tables, identifiers and generated headers.
// Every table of a bounded universe is written to disk, looked up through the
// public calls and through the header mkfldhdr32 makes of it.
#include <algorithm>
#include <set>
#include "fmlmodel.h"
#include "scratch.h"
int mkfldhdr32_main(int argc, char *argv[]);

static void viol(const std::string &sig, const std::string &t) { mc::violation(sig, t); }
static const char *tn[] = {"short", "long", "char", "float", "double", "string", "carray", "fml32"};
static const int tv[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY, FLD_FML32};

struct Line { int kind; std::string text; std::string name; FLDID32 id; };  // kind 0 field, 1 other
using Def = std::pair<std::string, FLDID32>;

static void unload() { Fidnm_unload32(); Fnmid_unload32(); }

static void lookups(const std::string &ctx, const std::vector<Def> &defs, int order) {
  auto names = [&] {
    for (auto &d : defs) {
      std::string n = d.first;
      FLDID32 g = Fldid32((char *)n.c_str());
      mc::add(mc::cnt().transitions);
      if (g != d.second) viol("id", ctx + mc::fmt("Fldid32(%s) gives %u (type %d number %ld), the table says %u (type %d number %u), Ferror32 %d", n.c_str(), g, Fldtype32(g), Fldno32(g), d.second, d.second >> 24, d.second & 0xffffff, Ferror32));
    }
  };
  auto ids = [&] {
    for (auto &d : defs) {
      char *n = Fname32(d.second);
      mc::add(mc::cnt().transitions);
      if (!n || d.first != n) viol("name", ctx + mc::fmt("Fname32(%u) gives %s, the table says %s", d.second, n ? n : "NULL", d.first.c_str()));
    }
  };
  if (order) { ids(); names(); } else { names(); ids(); }
  std::set<FLDID32> known;
  std::set<std::string> kn;
  for (auto &d : defs) { known.insert(d.second); kn.insert(d.first); }
  for (auto &d : defs) {
    for (FLDID32 u : {d.second + 1, d.second ^ (1u << 24), (FLDID32)BADFLDID})
      if (!known.count(u) && (Fname32(u) || Ferror32 != FBADFLD)) viol("unknown-id", ctx + mc::fmt("Fname32(%u) of an unknown id: Ferror32 %d", u, Ferror32));
    for (std::string u : {d.first + "X", d.first.substr(0, d.first.size() - 1), std::string("nosuch")})
      if (!kn.count(u) && (Fldid32((char *)u.c_str()) != BADFLDID || Ferror32 != FBADNAME)) viol("unknown-name", ctx + "Fldid32(" + u + ") of an unknown name");
  }
}

static void header(const std::string &ctx, const std::string &dir, const std::string &file, const std::vector<Def> &defs) {
  std::string a0 = "mkfldhdr32", a1 = "-d", a2 = dir, a3 = dir + "/" + file;
  char *argv[] = {a0.data(), a1.data(), a2.data(), a3.data(), nullptr};
  if (mkfldhdr32_main(4, argv) != 0) { viol("header", ctx + "mkfldhdr32 failed"); return; }
  std::string h;
  if (!scratch::get(dir + "/" + file + ".h", h)) { viol("header", ctx + "mkfldhdr32 wrote no header"); return; }
  std::map<std::string, unsigned long> got;
  // a small preprocessor: splices lines, drops comments, reads #define NAME ((FLDID32)n)
  std::string s;
  for (size_t i = 0; i < h.size(); i++) { if (h[i] == '\\' && i + 1 < h.size() && h[i + 1] == '\n') i++; else s += h[i]; }
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(p, e - p);
    p = e + 1;
    char nm[256]; unsigned long v;
    if (sscanf(l.c_str(), "#define %255s ((FLDID32)%lu)", nm, &v) == 2) {
      if (got.count(nm)) viol("header", ctx + "header defines " + nm + " twice");
      got[nm] = v;
    }
  }
  for (auto &d : defs)
    if (!got.count(d.first) || got[d.first] != d.second)
      viol("header", ctx + "the header gives " + d.first + " " + (got.count(d.first) ? std::to_string(got[d.first]) : "no value") + mc::fmt(", the table %u\n", d.second) + h.substr(0, 800));
  if (got.size() != defs.size()) viol("header", ctx + mc::fmt("the header defines %zu fields, the table %zu", got.size(), defs.size()));
}

// the line universe of a table; base is the current one
struct Gen {
  std::string text;
  std::vector<Def> defs;
  long base = 0;
  int n = 0;
  void field(int t, long num, const char *sep, const char *tail, int digits = 0) {
    std::string name = mc::fmt("%c%d_%s", "ABCxyz"[n % 6], n, tn[t]);
    n++;
    text += name + sep + mc::fmt("%0*ld", digits, num) + sep + tn[t] + tail + "\n";
    defs.push_back({name, (FLDID32)(tv[t] << 24 | (base + num))});
  }
  void setbase(long b, const char *tail, int digits = 0) { base = b; text += mc::fmt("*base %0*ld", digits, b) + tail + "\n"; }
};
static const int kActs = 12;
static void act(Gen &g, int a, int i) {
  switch (a) {
    case 0: g.field(i % 8, i + 1, " ", ""); break;
    case 1: g.field((i * 3 + 5) % 8, 50 + i, "\t", "\t-\tcomment here", 4); break;
    case 2: g.field((i + 4) % 8, 1000 + i, " \t ", " - # * $ odd comment"); break;
    case 3: g.setbase(500 + 100 * i, ""); break;
    case 4: g.setbase(0, " # a comment"); break;
    case 5: g.text += "# comment A 1 short\n"; break;
    case 6: g.text += "$#define RAW_LINE 1\n"; break;
    case 7: g.text += "\n"; break;
    case 8: g.text += " \n"; break;
    case 9: g.setbase(70000 * (i + 1), " ", 8); break;
    case 10: g.field((i + 6) % 8, 16000 + i, " ", " - x"); break;
    case 11: g.text += "#\n"; break;
  }
}

int main() {
  bool th = mc::thorough();
  std::string top = scratch::make();
  std::vector<std::function<void()>> jobs;
  auto mydir = [top] {
    std::string d = top + mc::fmt("/w%d", mc::me());
    mkdir(d.c_str(), 0700);
    return d;
  };
  auto use = [](const std::string &dirs, const std::string &files) {
    setenv("FLDTBLDIR32", dirs.c_str(), 1);
    setenv("FIELDTBLS32", files.c_str(), 1);
    unload();
  };
  // 1. identifiers: all types, all boundary and many other numbers
  for (int t = -1; t < 16; t++)
    jobs.push_back([=] {
      bool ok = std::find(tv, tv + 8, t) != tv + 8;
      mc::trace(mc::fmt("Fmkfldid32 type %d", t));
      auto one = [&](uint32_t n) {
        FLDID32 id = Fmkfldid32(t, n);
        mc::add(mc::cnt().transitions);
        if (!ok) { if (id != (FLDID32)-1 || Ferror32 != FTYPERR) viol("mkfldid-type", mc::fmt("Fmkfldid32(%d, %u) gives %u, Ferror32 %d", t, n, id, Ferror32)); }
        else if (n < 1 || n > 0xffffff) { if (id != (FLDID32)-1 || Ferror32 != FBADFLD) viol("mkfldid-num", mc::fmt("Fmkfldid32(%d, %u) gives %u (type %d, number %ld), Ferror32 %d", t, n, id, Fldtype32(id), Fldno32(id), Ferror32)); }
        else if (Fldtype32(id) != t || Fldno32(id) != (long)n) viol("mkfldid", mc::fmt("Fmkfldid32(%d, %u) gives type %d number %ld", t, n, Fldtype32(id), Fldno32(id)));
      };
      for (uint32_t n = 0; n < (th ? 0x1000100u : 70000u); n++) { if ((n & 0xffff) == 0) { mc::beat(); if (mc::enough()) return; } one(n); }
      for (int b = 0; b < 32; b++) for (int d = -2; d <= 2; d++) one((1u << b) + d);
      for (uint32_t n = 0; n < 0xff000000u; n += 65521) one(n);
    });
  // 2. all tables of up to 4 (5) lines; looked up in both orders and via the header
  int depth = th ? 5 : 4;
  for (int a0 = 0; a0 < kActs; a0++)
    for (int a1 = 0; a1 < kActs; a1++)
      jobs.push_back([=] {
        std::string d = mydir();
        std::vector<int> w = {a0, a1};
        std::function<void()> rec = [&] {
          Gen g;
          for (size_t i = 0; i < w.size(); i++) act(g, w[i], i);
          for (int nl = 0; nl < 2; nl++) {
            std::string t = g.text;
            if (nl) { if (w.size() > 3) break; t.pop_back(); }  // no newline at the end of the file
            mc::trace("table:\n" + t);
            scratch::put(d + "/one.fld", t);
            use(d, "one.fld");
            std::string ctx = "table [" + t + "]: ";
            lookups(ctx, g.defs, w.back() & 1);
            if (w.size() <= 3) header(ctx, d, "one.fld", g.defs);
            mc::add(mc::cnt().states);
          }
          if ((int)w.size() < depth)
            for (int a = 0; a < kActs && !mc::enough(); a++) { w.push_back(a); rec(); w.pop_back(); }
        };
        rec();
      });
  // 3. several files over several directories: the first directory that has a file wins
  for (int m = 0; m < 64; m++)
    jobs.push_back([=] {
      std::string d = mydir();
      std::string dd[3];
      for (int i = 0; i < 3; i++) { dd[i] = d + mc::fmt("/d%d", i); mkdir(dd[i].c_str(), 0700); }
      for (int i = 0; i < 3; i++) for (int f = 0; f < 2; f++) unlink((dd[i] + mc::fmt("/f%d.fld", f)).c_str());
      for (int i = 0; i < 3; i++)
        for (int f = 0; f < 2; f++)
          if (m >> (i * 2 + f) & 1) scratch::put(dd[i] + mc::fmt("/f%d.fld", f), mc::fmt("*base %d\nNAME%d %d long\nD%dF%d %d string\n", 1000 * f, f, i + 1, i, f, 10 + i));
      for (int order = 0; order < 2; order++) {
        std::vector<Def> defs;
        for (int f = 0; f < 2; f++)
          for (int i = 0; i < 3; i++)
            if (m >> (i * 2 + f) & 1) {
              defs.push_back({mc::fmt("NAME%d", f), (FLDID32)(FLD_LONG << 24 | (1000 * f + i + 1))});
              defs.push_back({mc::fmt("D%dF%d", i, f), (FLDID32)(FLD_STRING << 24 | (1000 * f + 10 + i))});
              break;
            }
        std::string ctx = mc::fmt("files present mask %x, list order %d: ", m, order);
        mc::trace("directories " + ctx);
        use(dd[0] + ":" + dd[1] + ":" + dd[2], order ? "f1.fld,f0.fld" : "f0.fld,f1.fld");
        lookups(ctx, defs, order);
        mc::add(mc::cnt().states);
        // lookups, unloading either map, lookups again: all short histories
        for (int h = 0; h < 256 && !mc::enough(); h++) {
          use(dd[0] + ":" + dd[1] + ":" + dd[2], "f0.fld,f1.fld");
          std::string hist;
          for (int k = 0, x = h; k < 4; k++, x >>= 2) {
            if (defs.empty()) break;
            auto &df = defs[k % defs.size()];
            if ((x & 3) == 0) Fidnm_unload32();
            else if ((x & 3) == 1) Fnmid_unload32();
            else if ((x & 3) == 2) { char *n = Fname32(df.second); if (!n || df.first != n) viol("history", ctx + mc::fmt("Fname32 wrong after history %x", h)); }
            else if (Fldid32((char *)df.first.c_str()) != df.second) viol("history", ctx + mc::fmt("Fldid32 wrong after history %x", h));
            mc::add(mc::cnt().transitions);
          }
          if (!defs.empty()) {
            // a name pointer stays good while only the other map is unloaded
            char *n = Fname32(defs[0].second);
            Fnmid_unload32();
            Fldid32((char *)defs[0].first.c_str());
            if (!n || defs[0].first != n) viol("pointer", ctx + "the name returned earlier changed after unloading the name-to-id map");
          }
        }
      }
    });
  // 3b. large tables: numbers of all sizes, names that are beginnings of each other, two files
  for (int n : {100, 1000, th ? 20000 : 4000})
    jobs.push_back([=] {
      std::string d = mydir();
      Gen g[2];
      for (int f = 0; f < 2; f++) {
        for (int k = 0; k < n; k++) {
          if (k % 97 == 96) g[f].setbase(k % 2 ? k * 10 : 0, "", k % 3 * 4);
          long num = f * 4000000 + (k % 5 == 4 ? 3000000 : 0) + k + 1;
          int t = (k + f) % 8;
          std::string name = k % 3 ? mc::fmt("N%d_%d", f, k) : mc::fmt("N%d_", f) + std::string(k / 3 + 1, 'x');
          if (name.size() > 250) name = mc::fmt("L%d_%d", f, k);
          g[f].text += name + "\t" + mc::fmt("%0*ld", k % 4 * 3, num) + "\t" + tn[t] + "\t-\t-\n";
          g[f].defs.push_back({name, (FLDID32)(tv[t] << 24 | (g[f].base + num))});
        }
        scratch::put(d + mc::fmt("/g%d.fld", f), g[f].text);
      }
      use(d, "g0.fld,g1.fld");
      std::string ctx = mc::fmt("2 tables of %d fields: ", n);
      mc::trace(ctx);
      auto all = g[0].defs;
      all.insert(all.end(), g[1].defs.begin(), g[1].defs.end());
      for (int order = 0; order < 2; order++) { unload(); lookups(ctx, all, order); }
      for (int f = 0; f < 2; f++) header(ctx, d, mc::fmt("g%d.fld", f), g[f].defs);
      mc::add(mc::cnt().states);
      mc::add(mc::cnt().transitions, 8 * n);
    });
  // 4. damaged tables: every line of a good table replaced by a malformed one
  jobs.push_back([=] {
    std::string d = mydir();
    for (const char *bad : {"A short", "A 1", "A x short", "A 1 shorts", "1 2 short", "*bass 5", "*base", "*base x", "A 0 short", "A 16777216 short", "A 99999999999 short", "A 99999999999999999999 long", "?", "A,1,short"})
      for (int where = 0; where < 3; where++) {
        std::string t;
        for (int i = 0; i < 3; i++) t += i == where ? std::string(bad) + "\n" : mc::fmt("GOOD%d %d long\n", i, i + 1);
        mc::trace("damaged table:\n" + t);
        scratch::put(d + "/bad.fld", t);
        std::string a0 = "mkfldhdr32", a1 = "-d", a2 = d, a3 = d + "/bad.fld";
        char *argv[] = {a0.data(), a1.data(), a2.data(), a3.data(), nullptr};
        if (mkfldhdr32_main(4, argv) == 0) viol("malformed", "mkfldhdr32 accepted the malformed table [" + t + "]");
        use(d, "bad.fld");
        for (int k = 0; k < 2; k++) {
          FLDID32 x = Fldid32((char *)"A");
          if (x != BADFLDID) viol("malformed", mc::fmt("malformed line [%s] defined field A as %u", bad, x));
          for (int i = 0; i < 3; i++) {
            FLDID32 y = Fldid32((char *)mc::fmt("GOOD%d", i).c_str());
            if (y != BADFLDID && y != (FLDID32)(FLD_LONG << 24 | (i + 1))) viol("malformed", mc::fmt("field beside a malformed line [%s] is %u", bad, y));
          }
          unload();
        }
        mc::add(mc::cnt().transitions, 3);
      }
    unsetenv("FIELDTBLS32");
    unload();
    if (Fldid32((char *)"A") != BADFLDID || Fname32(5) != nullptr) viol("noenv", "lookup without tables succeeded");
    mc::sample("table [*base 500 / A0_short 1 short / # comment / x3_float 4 float]: Fldid32, Fname32, header");
  });
  int rc = mc::run(jobs.size(), [&](int j) {
    // mkfldhdr32 complains on stderr about the damaged tables
    jobs[j]();
  });
  for (int w = 0; w < mc::kMaxWorkers; w++) for (int i = 0; i < 3; i++) scratch::drop(top + mc::fmt("/w%d/d%d", w, i));
  scratch::drop(top);
  return rc;
}
