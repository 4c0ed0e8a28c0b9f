// C13 (sequential part): textual and binary forms of transaction identifiers,
// and every sequence of operations on small transaction tables.
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include "../lib/mc.h"
#include "ipc.h"
#include "trx.h"

namespace {
using std::string;
XID make(long format, int g, int b, const std::function<int(int)> &byte) {
  XID x;
  memset(&x, 0xEE, sizeof(x));
  x.formatID = format;
  x.gtrid_length = g;
  x.bqual_length = b;
  for (int i = 0; i < g + b; i++) x.data[i] = byte(i);
  return x;
}
bool same(const XID &a, const XID &b) {
  return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length && memcmp(a.data, b.data, a.gtrid_length + a.bqual_length) == 0;
}
string show(const XID &x) {
  string s = mc::fmt("format %ld, %ld+%ld bytes ", x.formatID, x.gtrid_length, x.bqual_length);
  for (int i = 0; i < x.gtrid_length + x.bqual_length; i++) s += mc::fmt("%s%02x", i == x.gtrid_length ? "|" : "", (unsigned char)x.data[i]);
  return s;
}
uint64_t n = 0;
void there(const XID &x) {
  n++;
  XID c = x;
  if (n % 64 == 1) mc::trace("to text and back: " + show(x));
  string t, w;
  try {
    t = fux::to_string(&c);
    auto r = fux::to_xid(t);
    if (!same(c, x)) w = "the identifier was changed";
    else if (!same(r, x)) w = "came back as " + show(r);
  } catch (const std::exception &e) {
    w = string("threw ") + e.what();
  }
  if (!w.empty()) mc::violation(mc::fmt("text of %ld.%ld+%ld", x.formatID, x.gtrid_length, x.bqual_length) + "|" + w.substr(0, 40), show(x) + " as text " + t + " " + w);
}
// Not an identifier: refused, or what it became has a text that is that identifier
void back(const string &t) {
  n++;
  if (n % 64 == 1 || t.size() > 250) mc::trace("identifier from: " + t);
  string w;
  XID x;
  try {
    x = fux::to_xid(t);
  } catch (const std::exception &) {
    return;
  }
  if (x.gtrid_length < 0 || x.gtrid_length > 64 || x.bqual_length < 0 || x.bqual_length > 64) w = mc::fmt("became an identifier of %ld+%ld bytes", x.gtrid_length, x.bqual_length);
  else if (x.gtrid_length > 0) {
    auto again = fux::to_string(&x);
    try {
      if (!same(fux::to_xid(again), x)) w = "became " + show(x) + " that does not survive conversion";
    } catch (const std::exception &) {
      w = "became " + show(x) + " whose text is not accepted";
    }
  }
  if (!w.empty()) mc::violation("from text|" + w.substr(0, 30), t + " " + w);
}
void texts() {
  string base = "17.00ff8a.80";
  string with = ".0fFgG -+x\t";
  with += '\0';
  with += '\xff';
  std::vector<string> bases = {base, "-5.01", "9223372036854775807." + string(128, 'e') + "." + string(128, '1')};
  for (auto &b : bases) {
    for (size_t i = 0; i <= b.size(); i++) {
      back(b.substr(0, i));
      back(b.substr(i));
      for (char c : with) {
        back(b.substr(0, i) + c + b.substr(i));
        back(b.substr(0, i) + c + c + b.substr(i));
        if (i < b.size()) {
          auto s = b;
          s[i] = c;
          back(s);
        }
        if (b.size() < 40)
          for (size_t k = i; k <= b.size(); k++)
            for (char d : with) back(b.substr(0, i) + c + b.substr(i, k - i) + d + b.substr(k));
      }
    }
  }
  for (int g = 0; g < 300; g++)
    for (int q : {-1, 0, 1, 2, 3, 126, 127, 128, 129, 130, 131, 256, 300}) back("1." + string(g, 'a') + (q >= 0 ? "." + string(q, 'b') : ""));
  for (int l = 1; l < 60; l++) back(string(l, '9') + ".aa"), back("-" + string(l, '9') + ".aa");
}

// ---------------------------------------------------------------- table
struct Model {
  struct T { XID x; std::set<int> groups; };
  std::map<int, T> live;
};
struct Op { int kind, a, b; };  // 0 start(xid,group) 1 end(nth entry) 2 join(entry,group)
void tables(int size, int ngroups, int depth) {
  size_t bytes = transaction_table::needed(size, ngroups);
  auto *mem = (char *)malloc(bytes);
  memset(mem, 0, bytes);
  auto *t = reinterpret_cast<transaction_table *>(mem);
  t->init(size, ngroups);
  std::vector<XID> ids;
  // identifiers that differ in one respect
  ids.push_back(make(7, 4, 0, [](int) { return 1; }));
  ids.push_back(make(7, 5, 0, [](int) { return 1; }));
  ids.push_back(make(7, 4, 1, [](int) { return 1; }));
  ids.push_back(make(8, 4, 0, [](int) { return 1; }));
  ids.push_back(make(7, 4, 0, [](int i) { return i == 3 ? 2 : 1; }));
  std::vector<Op> ops;
  for (size_t i = 0; i < ids.size(); i++) ops.push_back({0, (int)i, (int)i % ngroups});
  for (int e = 0; e < size; e++) ops.push_back({1, e, 0});
  for (int e = 0; e < size; e++)
    for (int g = 0; g < ngroups; g++) ops.push_back({2, e, g});
  Model m;
  std::vector<string> path;
  auto text = [&] {
    string s = mc::fmt("table of %d entries, %d groups:", size, ngroups);
    for (auto &p : path) s += " " + p;
    return s;
  };
  auto check = [&](void) -> string {
    for (size_t i = 0; i < ids.size(); i++) {
      int at = -1;
      for (auto &e : m.live)
        if (same(e.second.x, ids[i])) at = e.first;
      int got = -1;
      auto x = ids[i];
      try {
        got = t->find(x);
      } catch (const std::out_of_range &) {
      }
      if (got != at) return mc::fmt("identifier %d is at %d instead of %d", (int)i, got, at);
    }
    for (auto &e : m.live)
      for (int g = 0; g < ngroups; g++)
        if (t->has_joined(e.first, g) != (e.second.groups.count(g) > 0)) return mc::fmt("group %d %s in entry %d", g, t->has_joined(e.first, g) ? "takes part" : "does not take part", e.first);
    return "";
  };
  std::function<void(int)> go = [&](int left) {
    string img(mem, bytes);
    Model keep = m;
    for (auto &o : ops) {
      string w, name;
      if (o.kind == 0) {
        bool dup = false;
        for (auto &e : m.live) dup |= same(e.second.x, ids[o.a]);
        if (dup) continue;
        name = mc::fmt("start(%d, group %d)", o.a, o.b);
        path.push_back(name);
        mc::trace(text());
        try {
          int i = t->start(ids[o.a], o.b);
          if ((int)m.live.size() == size) w = "a full table accepted one more";
          else if (i < 0 || i >= size) w = mc::fmt("entry %d", i);
          else if (m.live.count(i)) w = mc::fmt("was given the entry %d of a running transaction", i);
          else m.live[i] = {ids[o.a], {o.b}};
        } catch (const std::out_of_range &) {
          if ((int)m.live.size() < size) w = "was refused though there are free entries";
        }
      } else if (o.kind == 1) {
        if (!m.live.count(o.a)) continue;
        path.push_back(mc::fmt("end(%d)", o.a));
        t->end(o.a);
        m.live.erase(o.a);
      } else {
        if (!m.live.count(o.a)) continue;
        path.push_back(mc::fmt("join(%d, %d)", o.a, o.b));
        t->join(o.a, o.b);
        m.live[o.a].groups.insert(o.b);
      }
      n++;
      if (w.empty()) w = check();
      if (!w.empty()) mc::violation("table|" + w, text() + "\n" + w);
      else if (left > 1) go(left - 1);
      memcpy(mem, img.data(), bytes);
      m = keep;
      path.pop_back();
      if (mc::enough()) return;
    }
  };
  go(depth);
  free(mem);
}
}  // namespace

int main() {
  bool th = mc::thorough();
  const std::vector<long> formats = {0, 1, 7, 255, 256, 65536, 0x7fffffff, 0x80000000L, 0xffffffffL, 0x7fffffffffffffffL, -2, -0x80000000L};
  return mc::run(64 + 2 + 4, [&](int j) {
    n = 0;
    if (j < 64) {
      int g = j + 1;
      for (int b = 0; b <= 64; b++) {
        // every position differs; and every extreme
        for (int step : {1, 3, 7}) there(make(1279875137, g, b, [&](int i) { return i * step + g; }));
        for (int v : {0, 0xf, 0x10, 0x7f, 0x80, 0xff}) there(make(5, g, b, [&](int) { return v; }));
      }
      for (auto f : formats) there(make(f, g, 64 - j, [&](int i) { return i; }));
    } else if (j == 64) {
      // every value of every byte
      for (int g : {1, 4, 16, 64})
        for (int b : {0, 1, 16, 64})
          for (int p = 0; p < g + b; p++)
            for (int v = 0; v < 256; v++) there(make(1, g, b, [&](int i) { return i == p ? v : 0x5a; }));
      for (int v = 0; v < 65536; v++) there(make(v, 1, 1, [&](int i) { return i ? v >> 8 : v; }));
    } else if (j == 65) {
      texts();
    } else {
      int k = j - 66;
      tables(k % 2 ? 3 : 2 - k / 2, k / 2 ? 2 : 1, k % 2 ? (th ? 7 : 6) : (th ? 9 : 7));
    }
    mc::add(mc::cnt().transitions, n);
    mc::add(mc::cnt().states, n);
    mc::add(mc::cnt().validated, n);
    if (j == 0) mc::sample("identifiers of 1 byte and qualifiers of 0-64 bytes to text and back: " + mc::fmt("%lu", n));
  });
}
