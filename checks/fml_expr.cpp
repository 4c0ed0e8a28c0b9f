// F06: expressions. An independent parser/evaluator (own syntax tree, own
// value type) is compared with Fboolco32/Fboolev32/Ffloatev32/Fboolpr32 on
// every expression of bounded universes and on several buffers.
#include <math.h>
#include <regex.h>
#include <memory>
#include "fmlmodel.h"
#include "scratch.h"

static const char *table =
    "*base 100\n"
    "SH 1 short\nL 2 long\nC 3 char\nF 4 float\nD 5 double\nS 6 string\nB 7 carray\nN 8 fml32\nT_2 9 string\n";
static FLDID32 fid(char c) {
  switch (c) {
    case 'H': return Fmkfldid32(FLD_SHORT, 101);
    case 'L': return Fmkfldid32(FLD_LONG, 102);
    case 'C': return Fmkfldid32(FLD_CHAR, 103);
    case 'F': return Fmkfldid32(FLD_FLOAT, 104);
    case 'D': return Fmkfldid32(FLD_DOUBLE, 105);
    case 'S': return Fmkfldid32(FLD_STRING, 106);
    case 'B': return Fmkfldid32(FLD_CARRAY, 107);
    case 'T': return Fmkfldid32(FLD_STRING, 109);
  }
  return 0;
}
// ---------------------------------------------------------------- reference
struct V {
  int t = 0;  // 0 long, 1 double, 2 string
  long l = 0;
  double d = 0;
  std::string s;
  bool cst = false;
  static V L(long x) { V v; v.l = x; return v; }
  static V D(double x) { V v; v.t = 1; v.d = x; return v; }
  static V S(const std::string &x, bool c) { V v; v.t = 2; v.s = x.c_str(); v.cst = c; return v; }
  long tol() const { return t == 0 ? l : t == 1 ? (long)d : strtol(s.c_str(), nullptr, 10); }
  double tod() const { return t == 0 ? (double)l : t == 1 ? d : strtod(s.c_str(), nullptr); }
  bool tob() const { return t == 1 ? d != 0 : tol() != 0; }
  std::string tos() const { return t == 0 ? mc::fmt("%ld", l) : t == 1 ? mc::fmt("%f", d) : s; }
};
struct RefBuf {
  std::map<char, std::vector<V>> f;
  FBFR32 *b;
  std::string name;
};
struct EvalError {};
struct Node {
  std::string op;  // "num" "str" "fld" or an operator; unary ones "u-" "u!" "u~"
  V c;
  char f = 0;
  long oc = 0;  // -1: ?
  std::shared_ptr<Node> a, b;
};
using P = std::shared_ptr<Node>;

struct Syntax {};
struct Unspecified {};
struct RefParser {
  const char *p;
  bool badname = false, badtype = false;
  static int prec(const std::string &o) {
    if (o == "*" || o == "/" || o == "%") return 70;
    if (o == "+" || o == "-") return 60;
    if (o == "<" || o == ">" || o == "<=" || o == ">=" || o == "==" || o == "!=") return 50;
    if (o == "%%" || o == "!%") return 40;
    if (o == "^") return 30;
    if (o == "&&") return 20;
    if (o == "||") return 10;
    return -1;
  }
  void sp() { while (*p && isspace((unsigned char)*p)) p++; }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  std::string peekop(const char **end) {
    sp();
    if (!*p || !strchr("+-!~*/%<>=^&|", *p)) return "";
    const char *q = p + 1;
    if (*q && strchr("=%&|", *q)) q++;
    *end = q;
    return std::string(p, q);
  }
  std::string num() {
    std::string s;
    while (dig(*p)) s += *p++;
    if (*p == '.') s += *p++;
    while (dig(*p)) s += *p++;
    if (s.size() > 17) throw Unspecified();
    return s;
  }
  P primary() {
    sp();
    auto n = std::make_shared<Node>();
    if (*p && strchr("+-!~", *p)) {
      char c = *p++;
      P x = primary();
      if (c == '+') return x;
      n->op = std::string("u") + c;
      n->a = x;
      return n;
    }
    if (alpha(*p)) {
      std::string name;
      while (alpha(*p) || dig(*p) || *p == '_') name += *p++;
      n->op = "fld";
      if (*p == '[') {
        p++;
        if (*p == '?') { n->oc = -1; p++; }
        else if (dig(*p)) {
          std::string s = num();
          if (s.find('.') != std::string::npos || s.size() > 9) throw Unspecified();
          n->oc = atol(s.c_str());
        } else if (*p == ']' || isspace((unsigned char)*p)) throw Unspecified();
        else throw Syntax();
        if (isspace((unsigned char)*p)) throw Unspecified();
        if (*p != ']') throw Syntax();
        p++;
      } else {
        const char *q = p;
        while (isspace((unsigned char)*q)) q++;
        if (q != p && *q == '[') throw Unspecified();
      }
      static const std::map<std::string, char> names = {{"SH", 'H'}, {"L", 'L'}, {"C", 'C'}, {"F", 'F'}, {"D", 'D'}, {"S", 'S'}, {"B", 'B'}, {"T_2", 'T'}};
      auto it = names.find(name);
      if (it != names.end()) n->f = it->second;
      else if (name == "N") { badtype = true; n->f = 'L'; }
      else { badname = true; n->f = 'L'; }
      return n;
    }
    if (dig(*p)) {
      std::string s = num();
      n->op = "num";
      n->c = s.find('.') != std::string::npos ? V::D(strtod(s.c_str(), nullptr)) : V::L(strtol(s.c_str(), nullptr, 10));
      return n;
    }
    if (*p == '\'') {
      p++;
      std::string s;
      for (;;) {
        if (!*p) throw Syntax();
        if (*p == '\'') break;
        if (*p == '\\') {
          p++;
          if (!isxdigit((unsigned char)*p)) {
            if (!*p) throw Syntax();
            throw Unspecified();  // a backslash that starts no hex pair
          }
          if (!isxdigit((unsigned char)p[1])) throw Syntax();
          char h[3] = {p[0], p[1], 0};
          int x = strtol(h, nullptr, 16);
          if (x == 0) throw Syntax();
          s += (char)x;
          p += 2;
        } else s += *p++;
      }
      p++;
      n->op = "str";
      n->c = V::S(s, true);
      return n;
    }
    if (*p == '(') {
      p++;
      P x = expr(0);
      sp();
      if (*p != ')') throw Syntax();
      p++;
      return x;
    }
    throw Syntax();
  }
  P expr(int min) {
    P l = primary();
    for (;;) {
      const char *e;
      std::string o = peekop(&e);
      if (o.empty()) return l;
      int pr = prec(o);
      if (pr < 0) throw Syntax();
      if (pr < min) return l;
      p = e;
      P r = expr(pr + 1);
      if (o == "%%" || o == "!%") {
        if (l->op != "str" && l->op != "fld") throw Syntax();
        if (r->op != "str") throw Syntax();
      }
      auto n = std::make_shared<Node>();
      n->op = o;
      n->a = l;
      n->b = r;
      l = n;
    }
  }
  P parse(const char *s) {
    p = s;
    P x = expr(0);
    sp();
    if (*p) throw Syntax();
    return x;
  }
};
struct Eval {
  RefBuf &rb;
  bool lazy;
  V fld(char f, long oc) {
    auto it = rb.f.find(f);
    if (it == rb.f.end() || oc >= (long)it->second.size()) {
      if (f == 'H' || f == 'L') return V::L(0);
      if (f == 'F' || f == 'D') return V::D(0);
      return V::S("", false);
    }
    return it->second[oc];
  }
  V cmp(const std::string &o, const V &a, const V &b) {
    if (o == "%%" || o == "!%") {
      regex_t re;
      if (regcomp(&re, b.s.c_str(), 0)) throw EvalError();
      regmatch_t m[1];
      bool ok = regexec(&re, a.tos().c_str(), 1, m, 0) == 0 && m[0].rm_so == 0;
      regfree(&re);
      return V::L(o == "%%" ? ok : !ok);
    }
    int c;
    bool nan = false;
    if ((a.t == 2 && a.cst) || (b.t == 2 && b.cst) || (a.t == 2 && b.t == 2)) {
      int k = strcmp(a.tos().c_str(), b.tos().c_str());
      c = k < 0 ? -1 : k > 0;
    } else if (a.t == 1 || b.t == 1) {
      double x = a.tod(), y = b.tod();
      nan = std::isnan(x) || std::isnan(y);
      c = x < y ? -1 : x > y;
    } else {
      long x = a.tol(), y = b.tol();
      c = x < y ? -1 : x > y;
    }
    bool r = o == "<" ? c < 0 : o == ">" ? c > 0 : o == "<=" ? c <= 0 : o == ">=" ? c >= 0 : o == "==" ? c == 0 : c != 0;
    if (nan) r = o == "!=";
    return V::L(r);
  }
  V ev(const P &n) {
    if (n->op == "num" || n->op == "str") return n->c;
    if (n->op == "fld") {
      if (n->oc < 0) throw EvalError();
      return fld(n->f, n->oc);
    }
    if (n->op[0] == 'u') {
      V v = ev(n->a);
      if (n->op[1] == '-') return v.t == 1 ? V::D(-v.d) : V::L((long)(0 - (unsigned long)v.tol()));
      if (n->op[1] == '!') return V::L(!v.tob());
      return V::L(~v.tol());
    }
    int pr = RefParser::prec(n->op);
    if (pr == 50 || pr == 40) {
      if (n->a->op == "fld" && n->a->oc < 0) {
        V b = ev(n->b);
        bool any = false;
        auto it = rb.f.find(n->a->f);
        if (it != rb.f.end())
          for (auto &a : it->second) if (!any && cmp(n->op, a, b).l) any = true;
        return V::L(any);
      }
      V a = ev(n->a), b = ev(n->b);
      return cmp(n->op, a, b);
    }
    if (n->op == "&&" || n->op == "||") {
      V a = ev(n->a);
      if (lazy && a.tob() == (n->op == "||")) return V::L(n->op == "||");
      V b = ev(n->b);
      // numbers: double if either is one
      bool x = (a.t == 1 || b.t == 1) ? a.tod() != 0 : a.tol() != 0;
      bool y = (a.t == 1 || b.t == 1) ? b.tod() != 0 : b.tol() != 0;
      return V::L(n->op == "&&" ? (x && y) : (x || y));
    }
    V a = ev(n->a), b = ev(n->b);
    if (n->op == "^") return V::L(a.tol() ^ b.tol());
    if (n->op == "%") {
      if (b.tol() == 0) throw EvalError();
      return V::L(b.tol() == -1 ? 0 : a.tol() % b.tol());
    }
    if (a.t == 1 || b.t == 1) {
      double x = a.tod(), y = b.tod();
      return V::D(n->op == "+" ? x + y : n->op == "-" ? x - y : n->op == "*" ? x * y : x / y);
    }
    unsigned long x = a.tol(), y = b.tol();
    if (n->op == "/") {
      if (y == 0) throw EvalError();
      return V::L((long)y == -1 ? (long)(0 - x) : (long)x / (long)y);
    }
    return V::L((long)(n->op == "+" ? x + y : n->op == "-" ? x - y : x * y));
  }
};
// ---------------------------------------------------------------- buffers
static std::vector<RefBuf> bufs;
static void addv(RefBuf &r, char f, V v) {
  FLDID32 id = fid(f);
  int rc = -1;
  switch (f) {
    case 'H': { short x = v.l; rc = Fadd32(r.b, id, (char *)&x, 0); break; }
    case 'L': { long x = v.l; rc = Fadd32(r.b, id, (char *)&x, 0); break; }
    case 'F': { float x = v.d; rc = Fadd32(r.b, id, (char *)&x, 0); break; }
    case 'D': { double x = v.d; rc = Fadd32(r.b, id, (char *)&x, 0); break; }
    case 'C': { char x = v.s.c_str()[0]; rc = Fadd32(r.b, id, &x, 0); break; }
    case 'S': case 'T': rc = Fadd32(r.b, id, (char *)v.s.c_str(), 0); break;
    case 'B': rc = Fadd32(r.b, id, (char *)v.s.data(), v.s.size()); break;
  }
  if (rc == -1) abort();
  r.f[f].push_back(v);
}
static void mkbufs() {
  auto nb = [&](const char *n) { bufs.push_back({}); bufs.back().b = Falloc32(100, 8192); bufs.back().name = n; return &bufs.back(); };
  bufs.reserve(8);
  nb("empty");
  auto *r = nb("one");
  addv(*r, 'H', V::L(1)); addv(*r, 'L', V::L(2)); addv(*r, 'C', V::S("a", false)); addv(*r, 'F', V::D(1.5));
  addv(*r, 'D', V::D(0.25)); addv(*r, 'S', V::S("1", false)); addv(*r, 'B', V::S("a", false)); addv(*r, 'T', V::S("1.5", false));
  r = nb("many");
  for (int i = 0; i < 3; i++) {
    addv(*r, 'H', V::L(-i)); addv(*r, 'L', V::L(i * 3 - 3)); addv(*r, 'C', V::S(std::string(1, "b1a"[i]), false));
    addv(*r, 'F', V::D(i - 1)); addv(*r, 'D', V::D(i * 0.5 - 0.5));
    addv(*r, 'S', V::S((const char *[]){"", "2", "abc"}[i], false));
    addv(*r, 'B', V::S((const char *[]){"2", "ab", "1"}[i], false));
    addv(*r, 'T', V::S((const char *[]){"abc", "-0.5x", "2"}[i], false));
  }
}
static void viol(const std::string &sig, const std::string &t) { mc::violation(sig, t); }

static std::string bpr(char *tree) {
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  Fboolpr32(tree, f);
  fclose(f);
  std::string s(p, n);
  free(p);
  return s;
}
static bool printable_nums(const P &n) {
  if (!n) return true;
  if (n->op == "num" && n->c.t == 1) {
    if (strtod(n->c.tos().c_str(), nullptr) != n->c.d) return false;
  }
  return printable_nums(n->a) && printable_nums(n->b);
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// everything F06 says about one expression text
static void judge(const std::string &text) {
  mc::trace("expression: " + text.substr(0, 2000));
  mc::add(mc::cnt().evaluations);
  RefParser rp;
  P ast;
  int want = 1;  // 1 compiles, 0 rejected, 2 not judged
  try { ast = rp.parse(text.c_str()); if (rp.badname || rp.badtype) want = 0; }
  catch (Syntax &) { want = 0; }
  catch (Unspecified &) { want = 2; }
  std::string heap(text);  // exact-size copy
  char *arg = strdup(text.c_str());
  char *tree = Fboolco32(arg);
  int err = Ferror32;
  free(arg);
  std::string q = "expression [" + text.substr(0, 3000) + "] ";
  if (want == 2) { free(tree); return; }
  if (want == 0) {
    if (tree) { viol("accepts", q + "is malformed but compiled to: " + bpr(tree)); free(tree); return; }
    bool named = rp.badname || rp.badtype;
    if (err != FSYNTAX && err != FBADNAME && err != FEBADOP) viol("errcode", q + mc::fmt("rejected with Ferror32 %d", err));
    else if (!named && err != FSYNTAX) viol("errcode", q + mc::fmt("malformed, but Ferror32 is %d instead of FSYNTAX", err));
    else if (ast && rp.badname && !rp.badtype && err != FBADNAME) viol("errcode", q + mc::fmt("has an unknown name, but Ferror32 is %d", err));
    else if (ast && rp.badtype && !rp.badname && err != FEBADOP) viol("errcode", q + mc::fmt("has a field of unsupported type, but Ferror32 is %d", err));
    return;
  }
  if (!tree) { viol("rejects", q + mc::fmt("is well-formed but was rejected, Ferror32 %d", err)); return; }
  mc::add(mc::cnt().states);
  std::string pr = bpr(tree);
  std::string pr1 = pr;
  while (!pr1.empty() && pr1.back() == '\n') pr1.pop_back();
  char *tree2 = nullptr;
  bool rt = printable_nums(ast);
  if (rt) {
    tree2 = Fboolco32((char *)pr1.c_str());
    if (!tree2) viol("reprint", q + "printed as [" + pr1 + "] which does not compile");
    else if (bpr(tree2) != pr) viol("reprint", q + "printed as [" + pr1 + "], which compiles and prints as [" + bpr(tree2) + "]");
  }
  for (auto &rb : bufs) {
    bool e[2]; V v[2];
    for (int lazy = 0; lazy < 2; lazy++) {
      e[lazy] = false;
      try { v[lazy] = Eval{rb, lazy == 1}.ev(ast); } catch (EvalError &) { e[lazy] = true; }
    }
    for (int k = 0; k < (tree2 ? 2 : 1); k++) {
      char *t = k ? tree2 : tree;
      int gb = Fboolev32(rb.b, t);
      double gd = Ffloatev32(rb.b, t);
      mc::add(mc::cnt().transitions);
      bool okb = false, okd = false;
      for (int z = 0; z < 2; z++) {
        okb |= e[z] ? gb == -1 : gb == (v[z].tob() ? 1 : 0);
        okd |= e[z] ? gd == -1 : same(gd, v[z].tod());
      }
      std::string w = e[0] ? "an error" : mc::fmt("%g (%s)", v[0].tod(), v[0].tob() ? "true" : "false");
      if (!okb) viol("boolev", q + "on buffer '" + rb.name + "'" + (k ? " (printed and recompiled: " + pr1 + ")" : "") + mc::fmt(": Fboolev32 gives %d, the grammar gives ", gb) + w);
      else if (!okd) viol("floatev", q + "on buffer '" + rb.name + "'" + (k ? " (printed and recompiled: " + pr1 + ")" : "") + mc::fmt(": Ffloatev32 gives %.17g, the grammar gives ", gd) + w);
    }
    if (!e[0]) mc::add(mc::cnt().nontrivial);
  }
  free(tree2);
  free(tree);
}

static const char *binops[] = {"*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "%%", "!%", "^", "&&", "||"};
static const char *operands[] = {"0", "1", "2", "1.5", "0.25", "'1'", "'abc'", "''", "L", "L[1]", "SH", "S", "S[2]", "S[?]", "T_2", "D", "F[?]", "C", "B[?]", "B", "C[1]", "D[1]", "S[9]", "T_2[1]", "7.000000"};
static const char *few[] = {"3", "0.5", "S[1]", "L", "'2'", "D[2]"};
static const char *tokens[] = {"1", "0", "1.5", "'a'", "S", "L[1]", "S[?]", "(", ")", "!", "-", "~", "+", "*", "/", "%", "==", "<", "%%", "!%", "^", "&&", "||", "&", "=", "N", "zz", "D"};
static const char chars[] = "'\\1.aS[]?= &%(-";

template <class T, size_t N> constexpr int cnt(T (&)[N]) { return N; }

int main() {
  std::string d = scratch::make();
  scratch::put(d + "/f.fld", table);
  setenv("FLDTBLDIR32", d.c_str(), 1);
  setenv("FIELDTBLS32", "f.fld", 1);
  Fldid32((char *)"S");
  mkbufs();
  bool th = mc::thorough();
  int T = cnt(tokens), O = cnt(operands), B = cnt(binops), W = cnt(few), C = sizeof(chars) - 1;
  // job layout
  std::vector<std::function<void()>> jobs;
  // 1. all token strings (without separators and with blanks) up to 4 (5) tokens
  for (int t0 = 0; t0 < T; t0++)
    for (int t1 = 0; t1 < T; t1++)
      jobs.push_back([=] {
        std::vector<int> w = {t0, t1};
        std::function<void()> rec = [&] {
          std::string a, b;
          for (int x : w) { a += tokens[x]; b += std::string(b.empty() ? "" : " ") + tokens[x]; }
          judge(b);
          if (w.size() <= 3) judge(a);
          if ((int)w.size() < (th ? 5 : 4))
            for (int t = 0; t < T && !mc::enough(); t++) { w.push_back(t); rec(); w.pop_back(); }
        };
        rec();
      });
  // 2. operand op operand, every pair, with every unary prefix; and pairs of operators
  for (int a = 0; a < O; a++)
    jobs.push_back([=] {
      static const char *un[] = {"", "-", "!", "~", "+", "- -", "!!", "-~"};
      for (auto u : un) judge(std::string(u) + operands[a]);
      for (int o = 0; o < B && !mc::enough(); o++)
        for (int b = 0; b < O; b++)
          for (auto u : un) {
            std::string s = std::string(operands[a]) + binops[o] + operands[b];
            judge(std::string(u) + "(" + s + ")");
            judge(std::string(u) + s);
            judge(std::string(operands[a]) + " " + binops[o] + " " + u + operands[b]);
          }
    });
  for (int o1 = 0; o1 < B; o1++)
    for (int o2 = 0; o2 < B; o2++)
      jobs.push_back([=] {
        for (int a = 0; a < O; a++)
          for (int b = 0; b < W; b++)
            for (int c = 0; c < W && !mc::enough(); c++) {
              std::string x = operands[a], y = few[b], z = few[c], p = binops[o1], q = binops[o2];
              judge(x + p + y + q + z);
              if (a < 12) { judge("(" + x + p + y + ")" + q + z); judge(x + p + "(" + y + q + z + ")"); }
            }
        // precedence and associativity over longer chains
        for (int o3 = 0; o3 < B; o3++)
          for (int a = 0; a < (th ? W : 3); a++)
            for (int b = 0; b < W && !mc::enough(); b++) {
              judge(std::string(few[a]) + binops[o1] + few[b] + binops[o2] + "2" + binops[o3] + few[(a + b) % W]);
              for (int o4 = 0; o4 < B && b == 0; o4++)
                judge(std::string("5") + binops[o1] + few[a] + binops[o2] + "2" + binops[o3] + "'7'" + binops[o4] + "L");
            }
      });
  // 3. all short character strings
  for (int c0 = 0; c0 < C; c0++)
    for (int c1 = 0; c1 < C; c1++)
      jobs.push_back([=] {
        std::string w = {chars[c0], chars[c1]};
        judge(std::string(1, chars[c1]));
        std::function<void()> rec = [&] {
          judge(w);
          if ((int)w.size() < (th ? 6 : 5))
            for (int c = 0; c < C && !mc::enough(); c++) { w.push_back(chars[c]); rec(); w.pop_back(); }
        };
        rec();
      });
  // 4. every byte value in a literal, as itself and escaped, and in a field
  jobs.push_back([=] {
    for (int c = 0; c < 256 && !mc::enough(); c++) {
      judge(mc::fmt("'\\%02x' == '\\%02X'", c, c));
      judge(mc::fmt("'a\\%02xb' < C", c));
      judge(mc::fmt("S %%%% '\\%02x'", c));
      if (c) {
        judge(std::string("'") + (char)c + "' == 'a'");
        judge(std::string("1") + (char)c + "1");
        judge(std::string("S") + (char)c);
        judge(std::string(1, (char)c) + "1");
        judge(std::string("'\\") + (char)c + "0'");
        judge(std::string("'\\4") + (char)c + "'");
        judge(std::string("'[") + (char)c + "' %% '[" + (char)c + "'");
        RefBuf rb;
        rb.b = Falloc32(10, 512);
        rb.name = mc::fmt("byte %d", c);
        addv(rb, 'S', V::S(std::string(1, (char)c), false));
        addv(rb, 'C', V::S(std::string(1, (char)c), false));
        addv(rb, 'B', V::S(std::string("x") + (char)c, false));
        bufs.push_back(rb);
        for (const char *e : {"S < 'a'", "C == S", "S > T_2", "B > 'xa'", "C[?] == 'a'", "!C", "-S", "B %% 'x.'"}) judge(e);
        bufs.pop_back();
        Ffree32(rb.b);
      }
    }
  });
  // 5. sizes: literals and trees of every length around the growth of the tree
  for (int k = 0; k < 8; k++)
    jobs.push_back([=] {
      for (int n = k; n < 2200 && !mc::enough(); n += (n > 900 && n < 1100) || n > 1990 ? 8 : 24) {
        std::string lit(n, 'x');
        judge("'" + lit + "' == S");
        judge("1 + '" + lit + "' != 'x'");
      }
      for (int n : {4000, 9000, 40000}) judge("'" + std::string(n + k, 'y') + "' == 'y'");
      for (int n = 1 + k; n < 250; n += 8) {
        std::string s = "1", f = "S[?] == 'abc'", pz, u;
        for (int i = 0; i < n; i++) { s += "+1"; f += " || L[" + std::to_string(i) + "] == 3"; pz += "("; u += "-"; }
        judge(s);
        judge(f);
        judge(pz + "L" + std::string(n, ')'));
        judge(pz + "L" + std::string(n - 1, ')'));
        judge(u + "L");
      }
    });
  // 6. arithmetic at the limits
  jobs.push_back([=] {
    for (const char *a : {"9223372036854775807", "(0-9223372036854775807-1)", "'-9223372036854775808'", "0", "1"})
      for (const char *b : {"1", "-1", "0", "9223372036854775807", "'x'", "0.0"})
        for (const char *o : {"/", "%", "==", "<", "^", "&&"}) {
          std::string s = std::string(a) + o + b;
          // judged by hand: numbers this long are outside the reference parser
          mc::trace("expression: " + s);
          char *t = Fboolco32((char *)s.c_str());
          if (!t) { viol("rejects", "expression [" + s + "] rejected"); continue; }
          Fboolev32(bufs[1].b, t);
          Ffloatev32(bufs[1].b, t);
          free(t);
          mc::add(mc::cnt().transitions);
        }
    for (const char *e : {"99999999999999999999999999", "L[99999999999999999999]", "'a' %% '['", "'a' %% '\\\\('", "S %% '*'", "S %% 'a*b'", "S %% '^a'", "T_2 %% '.*[.].*$'", "S[?] !% 'a'", "L %% '2'", "D %% '0.25'", "F !% '1'"}) {
      char *t = Fboolco32((char *)e);
      if (t) for (auto &rb : bufs) { Fboolev32(rb.b, t); Ffloatev32(rb.b, t); }
      free(t);
      judge(e);
    }
    if (Fboolco32(nullptr) || Ferror32 != FEINVAL) viol("null", "Fboolco32(NULL)");
    char *t = Fboolco32((char *)"1");
    if (Fboolev32(nullptr, t) != -1 || Fboolev32(bufs[0].b, nullptr) != -1 || Ffloatev32(nullptr, t) != -1 || Ffloatev32(bufs[0].b, nullptr) != -1)
      viol("null", "evaluation with a NULL argument did not fail");
    free(t);
  });
  int rc = mc::run(jobs.size(), [&](int j) {
    if (j == 0) mc::sample("5*S[1]+2<'7'^L, judged on 3 buffers by Fboolev32 and Ffloatev32 and again after printing and recompiling");
    jobs[j]();
  });
  scratch::drop(d);
  return rc;
}
