// Reference model of an FML32 buffer: a map from field id to its values.
#pragma once
#include <fml32.h>
#include <map>
#include <string>
#include <vector>
#include "mc.h"

using Model = std::map<FLDID32, std::vector<std::string>>;

inline std::string pack(const void *p, size_t n) { return std::string((const char *)p, n); }
template <class T> inline std::string pk(T v) { return pack(&v, sizeof(v)); }

inline void put32(std::string &s, uint32_t v) { s.append((const char *)&v, 4); }

// canonical form of a model (nested buffers are stored in canonical form already)
inline std::string canon(const Model &m) {
  std::string s;
  for (auto &kv : m) {
    uint32_t oc = 0;
    for (auto &v : kv.second) {
      put32(s, kv.first);
      put32(s, oc++);
      put32(s, v.size());
      s += v;
    }
  }
  return s;
}

// canonical form of a real buffer, read only through the public iteration call
inline bool canon(FBFR32 *b, std::string &out, std::string &why, int depth = 0) {
  FLDID32 id = FIRSTFLDID, last = 0;
  FLDOCC32 oc = 0, lastoc = -1;
  bool first = true;
  std::string s;
  static thread_local char vals[5][70000] __attribute__((aligned(8)));
  if (depth > 4) { why = "nesting too deep"; return false; }
  char *val = vals[depth];
  for (int steps = 0;; steps++) {
    if (steps > 4000) { why = "iteration does not end"; return false; }
    FLDLEN32 len = sizeof(vals[depth]);
    int r = Fnext32(b, &id, &oc, val, &len);
    if (r == 0) break;
    if (r != 1) { why = mc::fmt("Fnext32 returned %d, Ferror32 %d", r, Ferror32); return false; }
    if (!first && (id < last || (id == last && oc != lastoc + 1) || (id != last && oc != 0))) {
      why = mc::fmt("iteration out of order: (%u,%d) after (%u,%d)", id, oc, last, lastoc);
      return false;
    }
    if (first && oc != 0) { why = "first occurrence is not 0"; return false; }
    first = false; last = id; lastoc = oc;
    std::string v;
    if (Fldtype32(id) == FLD_FML32) {
      if (!canon((FBFR32 *)val, v, why, depth + 1)) return false;
    } else {
      v.assign(val, len);
    }
    put32(s, id); put32(s, oc); put32(s, v.size());
    s += v;
  }
  out = s;
  return true;
}

inline std::string showv(int type, const std::string &v) {
  if (v.size() > 40) return mc::fmt("<%zu bytes>", v.size());
  switch (type) {
    case FLD_SHORT: if (v.size() == 2) return mc::fmt("%d", *(const short *)v.data()); break;
    case FLD_LONG: if (v.size() == 8) return mc::fmt("%ld", *(const long *)v.data()); break;
    case FLD_FLOAT: if (v.size() == 4) return mc::fmt("%g", *(const float *)v.data()); break;
    case FLD_DOUBLE: if (v.size() == 8) return mc::fmt("%g", *(const double *)v.data()); break;
    case FLD_STRING: return "\"" + std::string(v.c_str()) + "\"";
  }
  return "0x" + mc::hexs(v.data(), v.size());
}
inline const char *tname(int t) {
  static const char *n[] = {"short", "long", "char", "float", "double", "string", "carray", "?", "?", "?", "fml32"};
  return t >= 0 && t <= 10 ? n[t] : "?";
}
inline std::string fname_(FLDID32 id) { return mc::fmt("%s:%u", tname(id >> 24), id & 0xffffff); }
inline std::string show(const Model &m) {
  std::string s = "{";
  for (auto &kv : m) {
    s += " " + fname_(kv.first) + "=[";
    for (auto &v : kv.second) s += showv(kv.first >> 24, v) + ",";
    s += "]";
  }
  return s + " }";
}

inline int types_[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY, FLD_FML32};

// nested buffers used as values
inline FBFR32 *nested(int i) {
  static FBFR32 *n[4];
  if (!n[0]) {
    for (int k = 0; k < 4; k++) n[k] = Falloc32(8, 64);
    Fadd32(n[1], Fmkfldid32(FLD_STRING, 900), (char *)"nest", 0);
    short s = 7;
    Fadd32(n[2], Fmkfldid32(FLD_SHORT, 901), (char *)&s, 0);
    Fadd32(n[2], Fmkfldid32(FLD_CARRAY, 902), (char *)"0123456789", 10);
    Fadd32(n[3], Fmkfldid32(FLD_FML32, 903), (char *)n[1], 0);
  }
  return n[i];
}
struct Val {
  std::string model;  // canonical bytes
  std::string raw;    // what is passed (for fml32: pointer taken from nest)
  int nest = -1;
  FLDLEN32 len = 0;
  char *ptr() const { return nest >= 0 ? (char *)nested(nest) : (char *)raw.data(); }
};
inline Val mkval(int type, int i) {
  Val v;
  switch (type) {
    case FLD_SHORT: { short a[] = {0, 0x0102, -3, 4}; v.raw = pk(a[i]); break; }
    case FLD_LONG: { long a[] = {0, 0x0102030405060708L, -5, 6}; v.raw = pk(a[i]); break; }
    case FLD_CHAR: { char a[] = {0, 'x', (char)0xfe, '\\'}; v.raw = pk(a[i]); break; }
    case FLD_FLOAT: { float a[] = {0, 1.5f, -2.25f, 8}; v.raw = pk(a[i]); break; }
    case FLD_DOUBLE: { double a[] = {0, 3.25, -1e100, 9}; v.raw = pk(a[i]); break; }
    case FLD_STRING: { const char *a[] = {"", "longer-than-8", "seven77", "q"}; v.raw = std::string(a[i]) + '\0'; break; }
    case FLD_CARRAY: { const char *a[] = {"", "\x01\x00\xff""abcdefgh", "12345678", "z"}; int l[] = {0, 11, 8, 1};
      v.raw = std::string(a[i], l[i]); v.len = l[i]; break; }
    case FLD_FML32: { v.nest = i; std::string why; canon(nested(i), v.model, why); return v; }
  }
  v.model = v.raw;
  return v;
}
inline std::string defval(int type) {
  switch (type) {
    case FLD_SHORT: return std::string(2, 0);
    case FLD_LONG: case FLD_DOUBLE: return std::string(8, 0);
    case FLD_CHAR: case FLD_STRING: return std::string(1, 0);
    case FLD_FLOAT: return std::string(4, 0);
    default: return "";
  }
}
