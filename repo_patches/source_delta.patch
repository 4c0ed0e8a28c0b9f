From 083916ff35567ad46b9cd489ecb5fe80d8370c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/89] fix: deleting the last field of a type must not shift
 offsets of another type

The type was taken from the field header after the move had replaced it
with whatever followed.
---
 src/fbfr32.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..fa97c51 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -663,9 +663,11 @@ struct Fbfr32 {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
     }
 
+    // from is overwritten by the move
+    auto type = Fldtype32(from->fieldid);
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From 4ac5d72177161b5a21d554461d62d5ec55354ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 02/89] fix: zero the padding of variable length fields

Leftover bytes made buffers with equal contents have different checksums.
---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index fa97c51..3440e0f 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -235,6 +235,8 @@ struct Fbfr32 {
       auto f = reinterpret_cast<fieldn *>(field);
       f->flen = flen;
       std::copy_n(value, flen, f->data);
+      // To avoid junk bytes in the buffer
+      memset(f->data + flen, 0x0, f->size() - flen);
       if (type == FLD_FML32) {
         FBFR32 *fbfr = reinterpret_cast<FBFR32 *>(f->data);
         fbfr->size_ = fbfr->len_;
-- 
2.43.0


From 0a4853a972799ec59564d5475813e611c527dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 03/89] fix: default value for FLD_FML32 occurrences read past
 the zeros array

An empty FML32 buffer is larger than 16 bytes and must be aligned.
---
 src/fbfr32.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3440e0f..9ca33c1 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value for all field types, including an empty FML32 buffer
+alignas(8) static char zeros[64] = {0x0};
 
 struct fieldhead {
   FLDID32 fieldid;
-- 
2.43.0


From 16245a0e4dc4d51e998ad1ae7cf6f64e5d78c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 04/89] fix: zero the padding of LONG and DOUBLE fields

Leftover bytes made buffers with equal contents have different checksums.
---
 src/fbfr32.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 9ca33c1..4b178cc 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -228,7 +228,11 @@ struct Fbfr32 {
       memset(f->data, 0x0, sizeof(f->data));
       std::copy_n(value, flen, reinterpret_cast<field8b *>(field)->data);
     } else if (klass == FIELD16) {
-      std::copy_n(value, flen, reinterpret_cast<field16b *>(field)->data);
+      auto f = reinterpret_cast<field16b *>(field);
+      // To avoid junk bytes between the field id and value
+      memset(reinterpret_cast<char *>(f) + sizeof(f->fieldid), 0x0,
+             offsetof(field16b, data) - sizeof(f->fieldid));
+      std::copy_n(value, flen, f->data);
     } else if (klass == FIELDN) {
       auto f = reinterpret_cast<fieldn *>(field);
       f->flen = flen;
-- 
2.43.0


From ab42f940f400fa4d6c634453ba3d83c8729f1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 05/89] fix: Fchg32 without space for the value must not leave
 default occurrences

The missing occurrences were filled in first and stayed in the buffer (and
their own failures were ignored) when the operation ended with FNOSPACE.
---
 src/fbfr32.h | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 4b178cc..8f3d5c8 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -167,27 +167,29 @@ struct Fbfr32 {
       oc = count;
     }
 
+    auto type = Fldtype32(fieldid);
+    auto klass = fldclass(fieldid);
+
     // Fill missing occurances with default values
+    auto missing = static_cast<ssize_t>(oc) - static_cast<ssize_t>(count);
+    if (missing > 0) {
+      // All or nothing: do not leave default values if the value does not fit
+      ssize_t total =
+          missing * fieldsize(klass, value_len(type, zeros, 0)) +
+          fieldsize(klass, value_len(type, value, flen));
+      if (total > unused()) {
+        FERROR(FNOSPACE, "");
+        return -1;
+      }
+    }
     for (FLDOCC32 o = count; o < oc; o++) {
       chg(fieldid, o, zeros, 0);
     }
 
-    auto type = Fldtype32(fieldid);
-    auto klass = fldclass(fieldid);
-
     // Fill in default values
     flen = value_len(type, value, flen);
 
-    ssize_t need;
-    if (klass == FIELD8) {
-      need = sizeof(field8b);
-    } else if (klass == FIELD16) {
-      need = sizeof(field16b);
-    } else if (klass == FIELDN) {
-      need = sizeof(fieldn) + fieldn::size(flen);
-    } else {
-      __builtin_unreachable();  // LCOV_EXCL_LINE
-    }
+    ssize_t need = fieldsize(klass, flen);
 
     auto field = where(fieldid, oc);
     size_t used = 0;
@@ -898,6 +900,19 @@ struct Fbfr32 {
 
   enum storage_class { FIELD8, FIELD16, FIELDN };
 
+  static constexpr ssize_t fieldsize(storage_class klass, size_t flen) {
+    switch (klass) {
+      case FIELD8:
+        return sizeof(field8b);
+      case FIELD16:
+        return sizeof(field16b);
+      case FIELDN:
+        return sizeof(fieldn) + fieldn::size(flen);
+      default:                    // LCOV_EXCL_LINE
+        __builtin_unreachable();  // LCOV_EXCL_LINE
+    }
+  }
+
   static constexpr storage_class fldclass(FLDID32 fieldid) {
     switch (Fbfr32fields::Fldtype32(fieldid)) {
       case FLD_SHORT:
-- 
2.43.0


From 01b74661205248c096dc05d0f350096d9ec76f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 06/89] fix: initialize the padding of FML32 buffer header

It becomes a part of the value when the buffer is nested in another one and
made equal buffers have different checksums.
---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 8f3d5c8..8ad8b8c 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -100,7 +100,8 @@ struct Fbfr32 {
     size_ = buflen - min_size();
     len_ = 0;
 
-    memset(offsets_, 0, sizeof(offsets_));
+    // Including the padding: the header is a part of nested buffer's value
+    memset(offsets_, 0, min_size() - offsetof(Fbfr32, offsets_));
     return 0;
   }
   void reinit(FLDLEN32 buflen) { size_ = buflen - min_size(); }
-- 
2.43.0


From 40c64d974060a526225a256aa260ff60e1b103e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 07/89] fix: Fconcat32 refused sources that fit into the unused
 space

The header of the source buffer is not copied and needs no space.
---
 src/fbfr32.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 8ad8b8c..c6d4ddc 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -624,7 +624,7 @@ struct Fbfr32 {
   }
 
   int concat(FBFR32 *src) {
-    if (unused() < src->used()) {
+    if (unused() < src->len_) {
       FERROR(FNOSPACE, "");
       return -1;
     }
-- 
2.43.0


From e27cccc22a45b6dec611ad07ae6cd4747a3e37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 08/89] fix: Fjoin32 looped forever on several surplus
 occurrences of a field

The occurrence counter of the iteration advanced after the occurrence was
deleted, so the next one was never found and never deleted.
---
 src/fbfr32.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index c6d4ddc..e41a65c 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -606,11 +606,16 @@ struct Fbfr32 {
   }
 
   int join(FBFR32 *src) {
+    // Delete all surplus occurrences of a field at once: iteration counts
+    // occurrences and would lose track if they were deleted one by one
     iterate([&](auto it, auto oc) {
       if (src->pres(it->fieldid, oc)) {
         return 0;
       } else {
-        del(it->fieldid, oc);
+        auto fieldid = it->fieldid;
+        while (occur(fieldid) > oc) {
+          del(fieldid, oc);
+        }
         return 1;
       }
     });
-- 
2.43.0


From 43f40e0d397af22b9a3caaed0e61bc1316c6f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 09/89] fix: NUL byte was taken for a hex digit in extread
 input

strchr() finds the terminator of the string as well and the value of such a
"digit" was undefined behaviour.
---
 src/basic_parser.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index efb1a90..7b6c36f 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -2,6 +2,7 @@
 // This file is part of Fuxedo
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
+#include <cctype>
 #include <cstdio>
 #include <cstring>
 #include <functional>
@@ -56,10 +57,10 @@ class basic_parser {
   }
 
   bool hex(std::string *s = nullptr) {
-    if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+    if (isxdigit(sym_)) {
       char high = sym_;
       next();
-      if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+      if (isxdigit(sym_)) {
         char low = sym_;
         next();
         if (s != nullptr) {
-- 
2.43.0


From 2fe3b92e0a91e12b0de9038f0329c7f7612d0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 10/89] fix: Ffprint32 output of backslash and bytes above 127
 could not be read back

Backslash was not escaped and bytes with the high bit set were printed as
\ffffffXX.
---
 src/fbfr32.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index e41a65c..e738663 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -662,10 +662,12 @@ struct Fbfr32 {
  private:
   void print_bytes(FILE *iop, const char *s, int len) {
     for (int i = 0; i < len; i++, s++) {
-      if (isprint(*s)) {
-        fputc(*s, iop);
+      unsigned char c = *s;
+      // Backslash starts the escape sequence
+      if (isprint(c) && c != '\\') {
+        fputc(c, iop);
       } else {
-        fprintf(iop, "\\%02x", *s);
+        fprintf(iop, "\\%02x", c);
       }
     }
   }
-- 
2.43.0


From 740f10186ff89113c4952a444467eb6434184527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 11/89] fix: Fextread32 truncated CARRAY fields at null byte
 and appended one

The value was converted as if it was a null-terminated string.
---
 src/extreader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extreader.h b/src/extreader.h
index 1403e88..53f89dc 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -77,6 +77,12 @@ class extreader : public basic_parser {
       fml.mutate([&](FBFR32 *fbfr) {
         return Fadd32(fbfr, fieldid, reinterpret_cast<char *>(nested.get()), 0);
       });
+    } else if (Fldtype32(fieldid) == FLD_CARRAY) {
+      // May contain any bytes and is not null-terminated
+      fml.mutate([&](FBFR32 *fbfr) {
+        return Fadd32(fbfr, fieldid, const_cast<char *>(fvalue.data()),
+                      fvalue.size());
+      });
     } else {
       fml.mutate([&](FBFR32 *fbfr) {
         return CFadd32(fbfr, fieldid, const_cast<char *>(fvalue.c_str()), 0,
-- 
2.43.0


From eea65ed88a8fd8a6c02946c63d3b6026f872c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 12/89] fix: Fread32 of truncated data left a corrupted buffer
 behind

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index e738663..13954f9 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -150,6 +150,8 @@ struct Fbfr32 {
     len_ = len;
     auto n = used() - sizeof(size_) - sizeof(len_);
     if (fread(reinterpret_cast<char *>(&len_) + sizeof(len_), 1, n, iop) != n) {
+      // Partially read, do not leave a corrupted buffer behind
+      init(size());
       FERROR(FEUNIX, "");
       return -1;
     }
-- 
2.43.0


From eeb88b162d765a3d09b04a0c3d8497c8b8f12107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 13/89] fix: Fboolco32 wrote past the tree when one element was
 bigger than it

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..befdbf6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -76,7 +76,9 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
+      while (size_ - len_ < len) {
+        size_ *= 2;
+      }
       tree_ = (char *)realloc(tree_, size_);
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
-- 
2.43.0


From 0ac6958d39ef57e4783a37d9652c58dda9efe4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 14/89] fix: expressions comparing two string fields compared
 one of them to itself

---
 src/expr.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index befdbf6..6a2af2e 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -440,7 +440,7 @@ class eval_value {
   char *tree;
   long l;
   double d;
-  const char *s;
+  std::string s;
 
   eval_value(char *tree, int value)
       : tree(tree), l(value), type_(eval_type::is_long) {}
@@ -467,7 +467,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atof(s);
+      return atof(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -477,18 +477,16 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atol(s);
+      return atol(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
-  const char *to_string(char *buf) const {
+  std::string to_string() const {
     if (type_ == eval_type::is_long) {
-      sprintf(buf, "%ld", l);
-      return buf;
+      return std::to_string(l);
     } else if (type_ == eval_type::is_double) {
-      sprintf(buf, "%f", d);
-      return buf;
+      return std::to_string(d);
     }
     return s;
   }
@@ -552,8 +550,7 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[64], rbuf[64];
-    lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
+    lhs = eval_value(nullptr, lhs.to_string().compare(rhs.to_string()));
     rhs = eval_value(nullptr, 0);
   }
 
@@ -571,17 +568,17 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From fa8efef3d4450928005a8fb0eefaa6110985f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 15/89] fix: %% and !% operators on numeric fields used an
 uninitialized string

---
 src/expr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 6a2af2e..4473764 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -567,18 +567,20 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   } else if (op == not_equal) {
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
+    const auto text = lhs.to_string();
     regex_t regex;
     if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
+      auto r = regexec(&regex, text.c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
+    const auto text = lhs.to_string();
     regex_t regex;
     if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
+      auto r = regexec(&regex, text.c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From 1de017b80b839d3ade524c27b0974f7719512d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 16/89] fix: expressions that can not be evaluated terminated
 the process

---
 src/expr.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 4473764..adbe90a 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -688,8 +688,12 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_long() != 0;
+  return fux::fml32::exception_boundary(
+      [&] {
+        auto v = boolev(fbfr, tree + 4);
+        return static_cast<int>(v.to_long() != 0);
+      },
+      -1);
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
@@ -701,6 +705,6 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_double();
+  return fux::fml32::exception_boundary(
+      [&] { return boolev(fbfr, tree + 4).to_double(); }, -1.0);
 }
-- 
2.43.0


From c6dbce33f563217c32810b01eab06a6cfe39ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 17/89] fix: integer division by zero in expressions raised
 SIGFPE

---
 src/expr.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index adbe90a..3068e19 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -506,6 +506,16 @@ eval_value apply(char *tree, eval_value &lhs, eval_value &rhs) {
   }
 }
 
+static ldiv_t divide(long lhs, long rhs) {
+  if (rhs == 0) {
+    throw std::runtime_error("division by zero");
+  } else if (rhs == -1) {
+    // Quotient of the smallest number does not fit
+    return {static_cast<long>(-static_cast<unsigned long>(lhs)), 0};
+  }
+  return ldiv(lhs, rhs);
+}
+
 static eval_value boolev_field(FBFR32 *fbfr, char *tree, FLDID32 fieldid,
                                FLDOCC32 oc) {
   switch (Fldtype32(fieldid)) {
@@ -631,10 +641,13 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     if (op == multiplication) {
       return apply<std::multiplies>(tree, lhs, rhs);
     } else if (op == division) {
-      return apply<std::divides>(tree, lhs, rhs);
+      if (lhs.is_double() || rhs.is_double()) {
+        return apply<std::divides>(tree, lhs, rhs);
+      }
+      return eval_value(tree, divide(lhs.to_long(), rhs.to_long()).quot);
     } else if (op == modulus) {
       // Fail on double?
-      return eval_value(tree, lhs.to_long() % rhs.to_long());
+      return eval_value(tree, divide(lhs.to_long(), rhs.to_long()).rem);
     } else if (op == addition) {
       return apply<std::plus>(tree, lhs, rhs);
     } else if (op == substraction) {
-- 
2.43.0


From 3c1aa7d148aea5104a390af6036fabb83429a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 18/89] fix: unary minus, negation and truth value in
 expressions lost the fraction

---
 src/expr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 3068e19..68020cb 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -482,6 +482,10 @@ class eval_value {
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
+  bool to_bool() const {
+    return type_ == eval_type::is_double ? d != 0 : to_long() != 0;
+  }
+
   std::string to_string() const {
     if (type_ == eval_type::is_long) {
       return std::to_string(l);
@@ -626,9 +630,12 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     auto val = boolev(fbfr, tree);
     tree = val.tree;
     if (op == unary_minus) {
+      if (val.is_double()) {
+        return eval_value(tree, -val.to_double());
+      }
       return eval_value(tree, -val.to_long());
     } else if (op == logical_negation) {
-      return eval_value(tree, !val.to_long());
+      return eval_value(tree, !val.to_bool());
     } else if (op == bitwise_negation) {
       return eval_value(tree, ~val.to_long());
     }
@@ -704,7 +711,7 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
   return fux::fml32::exception_boundary(
       [&] {
         auto v = boolev(fbfr, tree + 4);
-        return static_cast<int>(v.to_long() != 0);
+        return static_cast<int>(v.to_bool());
       },
       -1);
 }
-- 
2.43.0


From 86a0b424c569f7b63e9ccd9744ce73f3095e6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 19/89] fix: floating point literals in expressions lost
 precision

---
 src/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 68020cb..e2b17fa 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -290,7 +290,7 @@ class expression_parser : public basic_parser {
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-        double value = std::stof(tok);
+        double value = std::stod(tok);
         e = tree_.append(const_double, reinterpret_cast<char *>(&value),
                          sizeof(value));
       } else {
-- 
2.43.0


From 66b6386d3676b2093bef4fb449a7e7f2bc0818d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 20/89] fix: Fboolco32 ignored everything after the first
 complete expression

---
 src/expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index e2b17fa..6a3e84a 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -134,6 +134,11 @@ class expression_parser : public basic_parser {
 
   char *parse() {
     if (parse_expr()) {
+      if (!eof()) {
+        throw basic_parser_error(
+            "Unexpected characters after the expression", row_, col_,
+            "found '" + std::string(1, sym_) + "'");
+      }
       return tree_.take_tree();
     }
     return nullptr;
-- 
2.43.0


From 860ceacc742a6839933ae8a5ac53e8cf73d4e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 21/89] fix: Fboolpr32 did not escape special characters of
 string literals

---
 src/expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 6a3e84a..db7ad70 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -402,7 +402,15 @@ static char *boolpr(char *tree, FILE *iop) {
     fprintf(iop, "( %f ) ", value);
   } else if (op == const_string) {
     auto len = strlen(tree);
-    fprintf(iop, "( '%s' ) ", tree);
+    fprintf(iop, "( '");
+    for (auto *p = tree; *p != '\0'; p++) {
+      if (*p == '\'' || *p == '\\' || !isprint(static_cast<unsigned char>(*p))) {
+        fprintf(iop, "\\%02x", static_cast<unsigned char>(*p));
+      } else {
+        fputc(*p, iop);
+      }
+    }
+    fprintf(iop, "' ) ");
     tree += len + 1;
   } else if (op == field) {
     FLDID32 fieldid;
-- 
2.43.0


From aac53cfba1e5ac1ac88354d21eef294f5fa3e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 22/89] fix: NUL character in a string literal corrupted the
 expression tree

---
 src/expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index db7ad70..3d2cfa1 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -333,6 +333,10 @@ class expression_parser : public basic_parser {
                                  " invalid character '" + std::string(1, sym_) +
                                      "', expected '\\''");
       }
+      if (s != nullptr && s->find('\0') != std::string::npos) {
+        throw basic_parser_error("Invalid string literal", row_, col_,
+                                 " NUL character is not allowed");
+      }
       return true;
     }
     return false;
-- 
2.43.0


From 110ebdf294151b821ae5be87ab6dfb24f92f2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 23/89] fix: conversion to CARRAY appended a null byte to the
 value

---
 src/fml32.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index d50ef97..ff39f63 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -403,7 +403,7 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
     COPY_N(static_cast<double>(from));                       \
   } else if (totype == FLD_STRING || totype == FLD_CARRAY) { \
     toval = std::to_string(from);                            \
-    *tolen = toval.size() + 1;                               \
+    *tolen = toval.size() + (totype == FLD_STRING ? 1 : 0);  \
   } else {                                                   \
     FERROR(FEBADOP, "");                                     \
     return nullptr;                                          \
@@ -422,7 +422,7 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
     COPY_N(static_cast<double>(atof(from.c_str())));         \
   } else if (totype == FLD_STRING || totype == FLD_CARRAY) { \
     toval = from;                                            \
-    *tolen = from.size() + 1;                                \
+    *tolen = toval.size() + (totype == FLD_STRING ? 1 : 0);  \
   } else {                                                   \
     FERROR(FEBADOP, "");                                     \
     return nullptr;                                          \
@@ -436,7 +436,7 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
           if (totype == FLD_STRING || totype == FLD_CARRAY) {
             toval.resize(1);
             toval[0] = *fromval;
-            *tolen = toval.size() + 1;
+            *tolen = toval.size() + (totype == FLD_STRING ? 1 : 0);
           } else {
             TYPCVT(*reinterpret_cast<char *>(fromval));
           }
-- 
2.43.0


From 6859e79e160d6c1d4d4808211bcaca7cb0f40404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 24/89] fix: Fmkfldid32 accepted field numbers that overwrite
 the type

---
 src/fbfr32fld.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 7e3db98..5ecfd71 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -47,7 +47,7 @@ struct Fbfr32fields {
       Ferror32 = FTYPERR;
       return -1;
     }
-    if (num < 1) {
+    if (num < 1 || num > 0xffffff) {
       Ferror32 = FBADFLD;
       return -1;
     }
-- 
2.43.0


From 1349e0affb2053b82130f51c040073c8ad9af7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 25/89] fix: field table lookups raced with loading and
 unloading in other threads

---
 src/fbfr32fld.h | 72 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 5ecfd71..f19e701 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -59,29 +59,25 @@ struct Fbfr32fields {
   static constexpr long Fldno32(FLDID32 fieldid) { return fieldid & 0xffffff; }
 
   char *name(FLDID32 fieldid) {
-    if (!id_to_name_loaded) {
-      load_fieldtbls32();
-    }
-    std::shared_lock<std::shared_timed_mutex> lock(mutex);
-    auto it = id_to_name.find(fieldid);
-    if (it != id_to_name.end()) {
-      return const_cast<char *>(it->second.c_str());
-    }
-    Ferror32 = FBADFLD;
-    return nullptr;
+    return lookup(id_to_name_loaded, [&]() -> char * {
+      auto it = id_to_name.find(fieldid);
+      if (it != id_to_name.end()) {
+        return const_cast<char *>(it->second.c_str());
+      }
+      Ferror32 = FBADFLD;
+      return nullptr;
+    });
   }
 
   FLDID32 fldid(const char *name) {
-    if (!name_to_id_loaded) {
-      load_fieldtbls32();
-    }
-    std::shared_lock<std::shared_timed_mutex> lock(mutex);
-    auto it = name_to_id.find(name);
-    if (it != name_to_id.end()) {
-      return it->second;
-    }
-    Ferror32 = FBADNAME;
-    return BADFLDID;
+    return lookup(name_to_id_loaded, [&]() -> FLDID32 {
+      auto it = name_to_id.find(name);
+      if (it != name_to_id.end()) {
+        return it->second;
+      }
+      Ferror32 = FBADNAME;
+      return BADFLDID;
+    });
   }
 
   void idnm_unload() {
@@ -97,7 +93,24 @@ struct Fbfr32fields {
   }
 
  private:
-  bool read_fld32_file(const std::string &fname) {
+  // Tables may be loaded or unloaded by another thread at any time so check
+  // and use them while holding the lock
+  template <typename F>
+  auto lookup(const std::atomic<bool> &loaded, F &&find) -> decltype(find()) {
+    {
+      std::shared_lock<std::shared_timed_mutex> lock(mutex);
+      if (loaded) {
+        return find();
+      }
+    }
+    std::unique_lock<std::shared_timed_mutex> lock(mutex);
+    if (!loaded) {
+      load_fieldtbls32();
+    }
+    return find();
+  }
+
+  bool read_fld32_file(const std::string &fname, bool load_names, bool load_ids) {
     std::ifstream fields(fname);
     if (!fields) {
       return false;
@@ -106,8 +119,12 @@ struct Fbfr32fields {
     field_table_parser p(fields);
     p.parse();
     for (auto field : p.fields()) {
-      id_to_name.insert(make_pair(field.fieldid, field.name));
-      name_to_id.insert(make_pair(field.name, field.fieldid));
+      if (load_names) {
+        id_to_name.insert(make_pair(field.fieldid, field.name));
+      }
+      if (load_ids) {
+        name_to_id.insert(make_pair(field.name, field.fieldid));
+      }
     }
 
     return true;
@@ -124,17 +141,16 @@ struct Fbfr32fields {
     auto files = fux::split(fieldtbls32, ",");
     auto dirs = fux::split(fldtbldir32, ":");
 
-    std::unique_lock<std::shared_timed_mutex> lock(mutex);
-
-    id_to_name.clear();
-    name_to_id.clear();
+    // Pointers to names are in use by callers, keep what is loaded already
+    const bool load_names = !id_to_name_loaded;
+    const bool load_ids = !name_to_id_loaded;
 
     id_to_name_loaded = true;
     name_to_id_loaded = true;
 
     for (auto &fname : files) {
       for (auto &dname : dirs) {
-        if (read_fld32_file(dname + "/" + fname)) {
+        if (read_fld32_file(dname + "/" + fname, load_names, load_ids)) {
           break;
         }
       }
-- 
2.43.0


From 641670ba525eaa3d5276a1010258c0f90a7ac83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 26/89] fix: field tables with unusable field numbers were
 accepted

---
 src/fieldtbl32.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fieldtbl32.h b/src/fieldtbl32.h
index 339eb0b..e83034c 100644
--- a/src/fieldtbl32.h
+++ b/src/fieldtbl32.h
@@ -89,8 +89,12 @@ class field_table_parser : public basic_parser {
                                        "double, string, carray, fml32");
         }
 
-        fields_.push_back(
-            {fname, Fmkfldid32(t->second, base_ + std::stol(num)), c});
+        auto fieldno = base_ + std::stol(num);
+        if (fieldno < 1 || fieldno > 0xffffff) {
+          throw basic_parser_error("field number out of range", row_,
+                                   "found " + std::to_string(fieldno));
+        }
+        fields_.push_back({fname, Fmkfldid32(t->second, fieldno), c});
         entries_.push_back(
             {nullptr, nullptr, std::make_unique<field>(fields_.back())});
       } else {
-- 
2.43.0


From f3beefdf89115dd4e440d32faf789fa9f3e1df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 27/89] fix: tpalloc and tprealloc crashed when out of memory

---
 src/mem.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..c233680 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -73,6 +73,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "malloc of %ld bytes failed", size);
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -108,7 +112,12 @@ char *tprealloc(char *ptr, long size) {
   }
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
-  mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  auto newmem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (newmem == nullptr) {
+    TPERROR(TPEOS, "realloc of %ld bytes failed", size);
+    return nullptr;
+  }
+  mem = newmem;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 03a24419d0005626660dc254725154cb91a7a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 28/89] fix: tprealloc did not update the size of the buffer

---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index c233680..10b9354 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -118,6 +118,7 @@ char *tprealloc(char *ptr, long size) {
     return nullptr;
   }
   mem = newmem;
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From e000891efb389eaec9bd48baa94d7a5195dfed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 29/89] fix: tprealloc below the used size corrupted FML32
 buffers

---
 src/mem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index 10b9354..705b6cf 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -112,6 +112,10 @@ char *tprealloc(char *ptr, long size) {
   }
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
+  if (tptype->reinit != nullptr && tptype->used != nullptr) {
+    // The contents would be unusable when cut short
+    size = std::max(size, static_cast<long>(tptype->used(ptr)));
+  }
   auto newmem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
   if (newmem == nullptr) {
     TPERROR(TPEOS, "realloc of %ld bytes failed", size);
-- 
2.43.0


From bf5d6423ad720380076bbfa921da85770aabbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 30/89] fix: tptypes did not return the size of the buffer

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 705b6cf..4f8e682 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -172,7 +172,7 @@ long tptypes(char *ptr, char *type, char *subtype) {
   }
 
   fux::atmi::reset_tperrno();
-  return 0;
+  return mem->size;
 }
 
 int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
-- 
2.43.0


From d55721bd2145377ecf7246131a84420218cae274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 31/89] fix: tpimport of invalid input corrupted the output
 buffer

---
 src/fbfr32.h | 16 ++++++++++-
 src/mem.cpp  | 76 +++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 13954f9..6bfd07d 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -104,6 +104,16 @@ struct Fbfr32 {
     memset(offsets_, 0, min_size() - offsetof(Fbfr32, offsets_));
     return 0;
   }
+  // Is a buffer of size bytes (of any alignment) complete?
+  static bool valid(const void *mem, size_t size) {
+    uint32_t len;
+    if (size < min_size()) {
+      return false;
+    }
+    memcpy(&len, static_cast<const char *>(mem) + offsetof(Fbfr32, len_),
+           sizeof(len));
+    return len <= size - min_size();
+  }
   void reinit(FLDLEN32 buflen) { size_ = buflen - min_size(); }
   void finit() {}
 
@@ -748,7 +758,7 @@ struct Fbfr32 {
   uint32_t offsets_[max_offset_];
   char data_[] __attribute__((aligned(8)));
 
-  size_t min_size() const { return offsetof(Fbfr32, data_); }
+  static constexpr size_t min_size() { return offsetof(Fbfr32, data_); }
 
   size_t value_len(int type, char *data, FLDLEN32 flen) {
     switch (type) {
@@ -954,4 +964,8 @@ void fml32reinit(void *mem, size_t size) {
 
 void fml32finit(void *mem) { reinterpret_cast<Fbfr32 *>(mem)->finit(); }
 
+bool fml32valid(const void *mem, size_t size) {
+  return Fbfr32::valid(mem, size);
+}
+
 size_t fml32used(void *mem) { return reinterpret_cast<Fbfr32 *>(mem)->used(); }
diff --git a/src/mem.cpp b/src/mem.cpp
index 4f8e682..2352e77 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -5,6 +5,9 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstring>
+#include <stdexcept>
+#include <string>
+#include <vector>
 
 #include "misc.h"
 
@@ -12,6 +15,7 @@ void fml32init(void *, size_t);
 void fml32reinit(void *, size_t);
 void fml32finit(void *);
 size_t fml32used(void *);
+bool fml32valid(const void *, size_t);
 
 namespace fux::mem {
 
@@ -23,15 +27,22 @@ struct tptype {
   void (*reinit)(void *mem, size_t size);
   void (*finit)(void *mem);
   size_t (*used)(void *mem);
+  bool (*valid)(const void *mem, size_t size);
 };
 
 size_t strused(void *ptr) { return strlen(reinterpret_cast<char *>(ptr)) + 1; }
 
+bool strvalid(const void *ptr, size_t size) {
+  return memchr(ptr, '\0', size) != nullptr;
+}
+
 static tptype _tptypes[] = {
-    tptype{"TPINIT", "*", TPINITNEED(0), nullptr, nullptr, nullptr, nullptr},
-    tptype{"CARRAY", "*", 0, nullptr, nullptr, nullptr, nullptr},
-    tptype{"STRING", "*", 512, nullptr, nullptr, nullptr, strused},
-    tptype{"FML32", "*", 512, fml32init, fml32reinit, fml32finit, fml32used}};
+    tptype{"TPINIT", "*", TPINITNEED(0), nullptr, nullptr, nullptr, nullptr,
+           nullptr},
+    tptype{"CARRAY", "*", 0, nullptr, nullptr, nullptr, nullptr, nullptr},
+    tptype{"STRING", "*", 512, nullptr, nullptr, nullptr, strused, strvalid},
+    tptype{"FML32", "*", 512, fml32init, fml32reinit, fml32finit, fml32used,
+           fml32valid}};
 
 struct tpmem {
   long size;
@@ -189,43 +200,60 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  std::vector<char> decoded;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
-  } else {
-    needed += ilen;
-  }
-
-  auto omem = memptr(*obuf);
-  if (needed > omem->size) {
-    *obuf = tprealloc(*obuf, needed);
-    omem = memptr(*obuf);
+    decoded.resize(ilen / 4 * 3);
+    try {
+      ilen = base64decode(istr, ilen, decoded.data(), decoded.size());
+    } catch (const std::logic_error &e) {
+      TPERROR(TPEPROTO, "Invalid base64 string");
+      return -1;
+    }
+    istr = decoded.data();
   }
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
+  // Check the input before touching the output buffer
+  const long header = offsetof(tpmem, data) - offsetof(tpmem, type);
+  if (ilen < header) {
+    TPERROR(TPEPROTO, "Input is too short");
+    return -1;
   }
-
-  const auto tptype = typeptr(omem->type, omem->subtype);
+  const std::string type(istr, strnlen(istr, sizeof(tpmem::type)));
+  const std::string subtype(
+      istr + sizeof(tpmem::type),
+      strnlen(istr + sizeof(tpmem::type), sizeof(tpmem::subtype)));
+  const auto tptype = typeptr(type.c_str(), subtype.c_str());
   if (tptype == nullptr) {
     return -1;
   }
+  if (tptype->valid != nullptr && !tptype->valid(istr + header, ilen - header)) {
+    TPERROR(TPEPROTO, "Input is truncated");
+    return -1;
+  }
+
+  auto omem = memptr(*obuf);
+  if (ilen - header > omem->size) {
+    auto ptr = tprealloc(*obuf, ilen - header);
+    if (ptr == nullptr) {
+      return -1;
+    }
+    *obuf = ptr;
+    omem = memptr(*obuf);
+  }
+  std::copy_n(istr, ilen,
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
+
   if (tptype->reinit != nullptr) {
     tptype->reinit(omem->data, omem->size);
   }
 
   if (olen != nullptr) {
-    *olen = ilen;
+    *olen = ilen - header;
   }
   fux::atmi::reset_tperrno();
   return 0;
-- 
2.43.0


From 6eb22f22c4e58181193529ae84439f2577f780e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 32/89] fix: base64decode accepted data after padding

---
 src/base64.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index 24a6639..5d68a87 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -109,6 +109,8 @@ size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen) {
         outc++;
         err |= c3 = decoding[ibytes[ipos++]];
       }
+    } else if (ibytes[ipos + 1] != '=') {
+      err = 128;
     }
 
     uint32_t n = (c0 << 18 | c1 << 12 | c2 << 6 | c3);
-- 
2.43.0


From a7a666638d0478ba7dbfebcab348a96802f4a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 33/89] fix: lengths of requests and replies included the type
 header, no-data messages were decoded past their end

---
 src/client.cpp | 4 ++--
 src/ipc.cpp    | 9 +++++++--
 src/ipc.h      | 3 ++-
 src/server.cpp | 6 +++---
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..6f0434a 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -168,12 +168,12 @@ class client {
         }
       }
 
-      res.get_data(data);
+      auto datalen = res.get_data(data);
       tpurcode = res->rcode;
       *cd = res->cd;
       cds.release(*cd);
       if (len != nullptr) {
-        *len = res.size_data();
+        *len = datalen;
       }
       if (res->rval == TPMINVAL) {
         fux::atmi::reset_tperrno();
diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..3fb82df 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -245,10 +245,15 @@ void msg::set_data(char *data, long len) {
   }
 }
 
-void msg::get_data(char **data) {
-  if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
+long msg::get_data(char **data) {
+  if (size_data() == 0) {
+    return 0;
+  }
+  long len;
+  if (tpimport((*this)->data, size_data(), data, &len, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
+  return len;
 }
 
 }  // namespace fux::ipc
diff --git a/src/ipc.h b/src/ipc.h
index 809518f..04d0ef5 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -88,7 +88,8 @@ class msg {
   size_t size_data() const { return bytes_.size() - sizeof(msgmem); }
 
   void set_data(char *data, long len);
-  void get_data(char **data);
+  // Returns the length of data, 0 and leaves *data alone if there is none
+  long get_data(char **data);
 
  private:
   std::vector<char> bytes_;
diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..b94a0a9 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -289,8 +289,9 @@ static void dispatch() {
                       main_ptr->mtype(), 0);
 
       thread_ptr->prepare();
-      thread_ptr->req.get_data(&thread_ptr->atmibuf);
-      tpsvcinfo.data = thread_ptr->atmibuf;
+      tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
+      tpsvcinfo.data =
+          thread_ptr->req.size_data() == 0 ? nullptr : thread_ptr->atmibuf;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
 
@@ -313,7 +314,6 @@ static void dispatch() {
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
     tpsvcinfo.flags = thread_ptr->req->flags;
-    tpsvcinfo.len = thread_ptr->req.size_data();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-- 
2.43.0


From 5bd5e02fc965061f17bdfd680c70ba9bed216144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 34/89] fix: null arguments of tpcall, tpacall and tpgetrply
 crashed the caller

---
 src/client.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 6f0434a..2fb9f62 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -60,6 +60,10 @@ class client {
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
                     long flags) try {
+    if (svc == nullptr) {
+      TPERROR(TPEINVAL, "svc is null");
+      return -1;
+    }
     int msqid = repo_.get_queue(grpno, svc);
     return tpacall_queue(msqid, svc, data, len, flags);
   } catch (const std::out_of_range &e) {
@@ -113,8 +117,9 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
-    if (data == nullptr) {
-      TPERROR(TPEINVAL, "data is null");
+    if (data == nullptr || cd == nullptr) {
+      TPERROR(TPEINVAL, "data or cd is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
-- 
2.43.0


From 6ecf1d4a0415ff4bbad40b06ec296015e7cb7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 35/89] fix: replies of cancelled calls were delivered by
 TPGETANY or kept forever

---
 src/client.cpp | 6 ++++++
 src/resp.h     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index 2fb9f62..8421daa 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -165,6 +165,12 @@ class client {
         return -1;
       }
 
+      // Late response of a call that was cancelled or abandoned
+      if (!cds.known(res->cd)) {
+        userlog("Discarded a response for cd=%d", res->cd);
+        continue;
+      }
+
       // Did not receive the correct response, try again
       if (!(flags & TPGETANY)) {
         if (*cd != res->cd) {
diff --git a/src/resp.h b/src/resp.h
index baa6759..fe01479 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -53,6 +53,8 @@ class responses {
     return 0;
   }
 
+  bool known(int cd) const { return calls_.find(cd) != calls_.end(); }
+
   int any_buffered() {
     for (auto it : calls_) {
       if (it.second.status == flags::buffered) {
-- 
2.43.0


From 6694054d31c29e599fcd35d3eedffb7afa9540b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 36/89] fix: services were not told that the caller expects no
 reply

---
 src/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 8421daa..67887d9 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -91,11 +91,11 @@ class client {
         return -1;
       }
     }
+    rq->flags = flags & TPNOREPLY;
     if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
       rq->flags |= TPTRAN;
       rq->gttid = fux::tx::gttid();
     } else {
-      rq->flags = 0;
       rq->gttid = fux::bad_gttid;
     }
 
-- 
2.43.0


From 31cbed7241418ead0c2b42177f50d72d104a8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 37/89] fix: call descriptor leaked when the request could not
 be sent

---
 src/client.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 67887d9..20ded37 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -99,7 +99,16 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+    bool sent = false;
+    try {
+      sent = fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags));
+    } catch (...) {
+      if (rq->cd != 0) {
+        cds.release(rq->cd);
+      }
+      throw;
+    }
+    if (sent) {
       fux::atmi::reset_tperrno();
       return rq->cd;
     }
-- 
2.43.0


From 524b53764881e4843278618c67726b62f3005dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 38/89] fix: descriptor of a reply that could not be decoded
 stayed allocated

---
 src/client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 20ded37..cb04176 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -188,10 +188,10 @@ class client {
         }
       }
 
-      auto datalen = res.get_data(data);
-      tpurcode = res->rcode;
       *cd = res->cd;
       cds.release(*cd);
+      auto datalen = res.get_data(data);
+      tpurcode = res->rcode;
       if (len != nullptr) {
         *len = datalen;
       }
-- 
2.43.0


From 0663da987eb62e9527f9bf56e242e1c23836dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 39/89] fix: time limit of a call restarted with every message,
 left over time-out messages failed later calls

---
 src/client.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index cb04176..4e1287b 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -134,6 +134,10 @@ class client {
       return -1;
     }
 
+    // The time limit is for the whole call, not for every received message
+    auto deadline = INVALID_TIME;
+    bool timed = false;
+
     while (true) {
       fux::ipc::msg res;
 
@@ -156,15 +160,20 @@ class client {
       }
 
       if (!has_res) {
-        mibcon_.accessers().at(client_).rpid_timeout =
-            std::chrono::steady_clock::now() +
-            std::chrono::milliseconds(next_blocktime());
-        fux::ipc::qrecv(rpid, res, 0, 0);
-        mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
+        if (!timed) {
+          timed = true;
+          deadline = std::chrono::steady_clock::now() +
+                     std::chrono::milliseconds(next_blocktime());
+        }
+        receive(res, deadline);
         userlog("%s received on %0x", __func__, rpid);
       }
 
       if (res->cat == fux::ipc::unblock) {
+        if (std::chrono::steady_clock::now() < deadline) {
+          // Meant for some earlier call
+          continue;
+        }
         if (flags & TPGETANY) {
           *cd = 0;
         } else {
@@ -296,6 +305,19 @@ class client {
     }
   }
 
+  void receive(fux::ipc::msg &res,
+               std::chrono::steady_clock::time_point deadline) {
+    auto &timeout = mibcon_.accessers().at(client_).rpid_timeout;
+    timeout = deadline;
+    try {
+      fux::ipc::qrecv(rpid, res, 0, 0);
+    } catch (...) {
+      timeout = INVALID_TIME;
+      throw;
+    }
+    timeout = INVALID_TIME;
+  }
+
   mib &mibcon_;
   size_t client_;
   service_repository repo_;
-- 
2.43.0


From e0f26132cf4915a8cfb35d16c28da2ab976d75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 40/89] fix: tpgetrply ignored TPNOBLOCK and TPNOTIME

---
 src/client.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 4e1287b..021590f 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -162,10 +162,16 @@ class client {
       if (!has_res) {
         if (!timed) {
           timed = true;
-          deadline = std::chrono::steady_clock::now() +
-                     std::chrono::milliseconds(next_blocktime());
+          auto blocktime = next_blocktime();
+          if (!(flags & (TPNOTIME | TPNOBLOCK))) {
+            deadline = std::chrono::steady_clock::now() +
+                       std::chrono::milliseconds(blocktime);
+          }
+        }
+        if (!receive(res, deadline, flags)) {
+          TPERROR(TPEBLOCK, "No replies available");
+          return -1;
         }
-        receive(res, deadline);
         userlog("%s received on %0x", __func__, rpid);
       }
 
@@ -305,17 +311,21 @@ class client {
     }
   }
 
-  void receive(fux::ipc::msg &res,
-               std::chrono::steady_clock::time_point deadline) {
+  bool receive(fux::ipc::msg &res,
+               std::chrono::steady_clock::time_point deadline, long flags) {
     auto &timeout = mibcon_.accessers().at(client_).rpid_timeout;
     timeout = deadline;
     try {
-      fux::ipc::qrecv(rpid, res, 0, 0);
-    } catch (...) {
+      fux::ipc::qrecv(rpid, res, 0, (flags & TPNOBLOCK) ? IPC_NOWAIT : 0);
+    } catch (const std::system_error &e) {
       timeout = INVALID_TIME;
+      if ((flags & TPNOBLOCK) && e.code().value() == ENOMSG) {
+        return false;
+      }
       throw;
     }
     timeout = INVALID_TIME;
+    return true;
   }
 
   mib &mibcon_;
@@ -413,7 +423,8 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
         if (cd == -1) {
           return -1;
         }
-        return tpgetrply(&cd, odata, olen, flags);
+        // TPNOBLOCK does not affect waiting for the reply
+        return tpgetrply(&cd, odata, olen, flags & ~TPNOBLOCK);
       },
       -1);
 }
-- 
2.43.0


From 2d16c8508ff30a3df1afe9cb07a8d075b0384acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 41/89] fix: tpcall that timed out or failed leaked the call
 descriptor

---
 src/client.cpp | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 021590f..46798ea 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -220,6 +220,32 @@ class client {
     }
   }
 
+  int tpcall(const char *svc, char *idata, long ilen, char **odata, long *olen,
+             long flags) {
+    if (flags & (TPNOREPLY | TPGETANY)) {
+      TPERROR(TPEINVAL, "Invalid flags %ld", flags);
+      return -1;
+    }
+    if (odata == nullptr) {
+      TPERROR(TPEINVAL, "odata is null");
+      return -1;
+    }
+    if (tptypes(*odata, nullptr, nullptr) == -1) {
+      return -1;
+    }
+
+    auto blocktime = blocktime_next;
+    int cd = tpacall_group(-1, svc, idata, ilen, flags);
+    if (cd == -1) {
+      return -1;
+    }
+    // Both sending and receiving is a single blocking call
+    blocktime_next = blocktime;
+    abandon_guard guard{cds, cd};
+    // TPNOBLOCK does not affect waiting for the reply
+    return tpgetrply(&cd, odata, olen, flags & ~TPNOBLOCK);
+  }
+
   int tpcancel(int cd) {
     if (cds.release(cd) == -1) {
       return -1;
@@ -311,6 +337,17 @@ class client {
     }
   }
 
+  // Nobody else is going to ask for the reply of a failed synchronous call
+  struct abandon_guard {
+    responses &cds;
+    int cd;
+    ~abandon_guard() {
+      if (cds.known(cd)) {
+        cds.release(cd);
+      }
+    }
+  };
+
   bool receive(fux::ipc::msg &res,
                std::chrono::steady_clock::time_point deadline, long flags) {
     auto &timeout = mibcon_.accessers().at(client_).rpid_timeout;
@@ -418,13 +455,8 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
            long flags) {
   return fux::atmi::exception_boundary(
       [&] {
-        fux::suspend_guard g(!(flags & TPNOTRAN));
-        int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
-        if (cd == -1) {
-          return -1;
-        }
-        // TPNOBLOCK does not affect waiting for the reply
-        return tpgetrply(&cd, odata, olen, flags & ~TPNOBLOCK);
+        fux::suspend_guard g(true);
+        return getclient().tpcall(svc, idata, ilen, odata, olen, flags);
       },
       -1);
 }
-- 
2.43.0


From 7cb7f675fabdb8db90a8eb0d0f915259fe5eae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 42/89] fix: tpinit reported success when joining the
 application failed

---
 src/client.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 46798ea..795719c 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -388,8 +388,12 @@ int tpinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpterm() {
@@ -397,8 +401,12 @@ int tpterm() {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { current_client.reset(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        current_client.reset();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrinit(TPINIT *tpinfo) {
@@ -406,8 +414,12 @@ int tpappthrinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrterm() {
@@ -415,8 +427,12 @@ int tpappthrterm() {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { current_client.reset(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        current_client.reset();
+        return 0;
+      },
+      -1);
 }
 
 int tpcancel(int cd) {
-- 
2.43.0


From 6f3c373f27e3eaed954b91d0811a633d8cea353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 43/89] fix: clients above the limit made the accesser table
 larger than it is, failed registrations leaked entries and queues

---
 src/client.cpp | 12 +++++++++---
 src/mib.cpp    |  6 +++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 795719c..19451b9 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -47,9 +47,15 @@ class client {
  public:
   client(mib &mibcon)
       : mibcon_(mibcon), repo_(mibcon), blocktime_next(0), blocktime_all(0) {
-    auto lock = mibcon_.data_lock();
-    client_ = mibcon_.make_accesser(getpid());
-    rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
+    rpid = fux::ipc::qcreate();
+    try {
+      auto lock = mibcon_.data_lock();
+      client_ = mibcon_.make_accesser(getpid());
+      mibcon_.accessers().at(client_).rpid = rpid;
+    } catch (...) {
+      fux::ipc::qdelete(rpid);
+      throw;
+    }
   }
 
   ~client() {
diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..aa943e6 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -313,9 +313,13 @@ size_t mib::make_accesser(pid_t pid) {
     }
   }
   if (at == -1) {
-    at = accessers()->len++;
+    at = accessers()->len;
   }
   auto &accesser = accessers().at(at);
+  if (static_cast<size_t>(at) == accessers()->len) {
+    accessers()->len++;
+  }
+  accesser.rpid = -1;
   accesser.rpid_timeout = INVALID_TIME;
   accesser.pid = pid;
   return at;
-- 
2.43.0


From f533aedf5ac699fedfab095908343f2153bd6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 44/89] fix: category of messages sent in files was not
 initialized

---
 src/ipc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 3fb82df..735c3f5 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -193,6 +193,7 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     msgfile fmsg;
     fmsg.mtype = data->mtype;
     fmsg.ttype = fux::ipc::file;
+    fmsg.cat = data->cat;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-- 
2.43.0


From 9d9107e431844ff3ef92e89f4686e700483efcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 45/89] fix: message files were left behind when sending or
 receiving failed

---
 src/ipc.cpp | 58 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 735c3f5..fbff9de 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -180,15 +180,53 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
   return false;
 }
 
+// Closes and removes the file unless told otherwise
+struct tmpfile {
+  const char *name;
+  int fd;
+
+  ~tmpfile() {
+    if (fd != -1) {
+      ::close(fd);
+    }
+    if (name != nullptr) {
+      unlink(name);
+    }
+  }
+  void write(const char *p, size_t n) {
+    while (n > 0) {
+      auto rc = ::write(fd, p, n);
+      fail_if(rc == -1);
+      p += rc;
+      n -= rc;
+    }
+  }
+  void read(char *p, size_t n) {
+    while (n > 0) {
+      auto rc = ::read(fd, p, n);
+      fail_if(rc == -1);
+      if (rc == 0) {
+        throw std::runtime_error("Message file is truncated");
+      }
+      p += rc;
+      n -= rc;
+    }
+  }
+  void close() {
+    auto rc = ::close(fd);
+    fd = -1;
+    fail_if(rc == -1);
+  }
+};
+
 bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
   if (data.size() > MAX_QUEUE_MSG_SIZE) {
     char tmpname[] = "/tmp/msgbase-XXXXXX";
     int fd = mkstemp(tmpname);
     fail_if(fd == -1);
-    fail_if(write(fd, data.buf() + sizeof(msgbase),
-                  data.size() - sizeof(msgbase)) !=
-            data.size() - sizeof(msgbase));
-    fail_if(close(fd) == -1);
+    tmpfile file{tmpname, fd};
+    file.write(data.buf() + sizeof(msgbase), data.size() - sizeof(msgbase));
+    file.close();
 
     msgfile fmsg;
     fmsg.mtype = data->mtype;
@@ -198,9 +236,9 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
     if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
-      unlink(tmpname);
       return false;
     }
+    file.name = nullptr;
     return true;
   } else {
     data->ttype = fux::ipc::queue;
@@ -221,13 +259,15 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   if (data->ttype == fux::ipc::file) {
     char filename[n];
     strcpy(filename, data.as_msgfile().filename);
+    tmpfile file{filename, -1};
     struct stat st;
     fail_if(stat(filename, &st) == -1);
-    int fd = open(filename, 0);
-    fail_if(fd == -1);
+    file.fd = open(filename, 0);
+    fail_if(file.fd == -1);
     data.resize(sizeof(msgbase) + st.st_size);
-    fail_if(read(fd, data.buf() + sizeof(msgbase), st.st_size) != st.st_size);
-    fail_if(close(fd) == -1);
+    file.read(data.buf() + sizeof(msgbase), st.st_size);
+    file.close();
+    file.name = nullptr;
     fail_if(unlink(filename) == -1);
   }
 }
-- 
2.43.0


From ddc152faf1c4151a0e678c243850475ac34a2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 46/89] fix: server crashed on a stop request meant for another
 server of its queue

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index b94a0a9..c7ab1df 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -308,6 +308,7 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
     }  // lock
-- 
2.43.0


From 9a5c6421ba2dd93c896e06ae7466b5013429d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 47/89] fix: requests for withdrawn services and services that
 throw or do not reply terminated or skipped the caller

---
 src/server.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index c7ab1df..54346a2 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -80,6 +80,8 @@ struct server_main {
   struct tmsvrargs_t *tmsvrargs;
 
   std::mutex mutex;
+  // Not the one above: that is held while waiting for requests
+  std::mutex services_mutex;
   std::map<const char *, void (*)(TPSVCINFO *), cmp_cstr> advertisements;
 
   mib &m_;
@@ -94,7 +96,7 @@ struct server_main {
 
   int tpadvertisex(const char *svcname, void (*func)(TPSVCINFO *), long flags) {
     // TODO: flags
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(services_mutex);
 
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
@@ -135,7 +137,7 @@ struct server_main {
   }
 
   int tpunadvertise(const char *svcname) {
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(services_mutex);
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
       return -1;
@@ -154,6 +156,12 @@ struct server_main {
     return 0;
   }
 
+  void (*find_service(const char *svcname))(TPSVCINFO *) {
+    fux::scoped_fuxlock lock(services_mutex);
+    auto it = advertisements.find(svcname);
+    return it == advertisements.end() ? nullptr : it->second;
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -317,13 +325,28 @@ static void dispatch() {
     tpsvcinfo.flags = thread_ptr->req->flags;
     tpsvcinfo.cd = thread_ptr->req->cd;
 
+    auto func = main_ptr->find_service(tpsvcinfo.name);
+    if (func == nullptr) {
+      userlog("Service %s is not advertised any more", tpsvcinfo.name);
+      thread_ptr->reply(TPENOENT, 0, nullptr, 0, TPNOFLAGS);
+      continue;
+    }
+
     if (thread_ptr->req->flags & TPTRAN) {
       fux::tx_join(thread_ptr->req->gttid);
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-      it->second(&tpsvcinfo);
+      try {
+        func(&tpsvcinfo);
+        userlog("%s returned without tpreturn() or tpforward()",
+                tpsvcinfo.name);
+      } catch (const std::exception &e) {
+        userlog("%s failed: %s", tpsvcinfo.name, e.what());
+      } catch (...) {
+        userlog("%s failed", tpsvcinfo.name);
+      }
+      thread_ptr->tpreturn(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
     }
   }
 }
-- 
2.43.0


From 384d1ef6c8ade329d565fa0c6ace2a3b88463dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 48/89] fix: withdrawing a service raced with other processes,
 advertising it failed without an error code or left changes

---
 src/mib.cpp    | 14 +++++++-------
 src/server.cpp |  6 +++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index aa943e6..d96caf6 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -142,6 +142,13 @@ size_t mib::find_advertisement(size_t service, size_t queue, size_t server) {
 
 void mib::advertise(const std::string &servicename, size_t queue,
                     size_t server) {
+  auto i = find_advertisement(badoff, badoff, badoff);
+  if (i == badoff) {
+    i = advertisements()->len;
+  }
+
+  auto &advertisement = advertisements().at(i);
+
   auto service = find_service(servicename);
   if (service == badoff) {
     service = make_service(servicename);
@@ -151,13 +158,6 @@ void mib::advertise(const std::string &servicename, size_t queue,
     throw std::logic_error("Already advertised");
   }
 
-  auto i = find_advertisement(badoff, badoff, badoff);
-  if (i == badoff) {
-    i = advertisements()->len;
-  }
-
-  auto &advertisement = advertisements().at(i);
-
   advertisement.service = service;
   advertisement.queue = queue;
   advertisement.server = server;
diff --git a/src/server.cpp b/src/server.cpp
index 54346a2..f5a7ada 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -130,6 +130,9 @@ struct server_main {
       } catch (const std::out_of_range &e) {
         TPERROR(TPELIMIT, "%s", e.what());
         return -1;
+      } catch (const std::length_error &e) {
+        TPERROR(TPEINVAL, "%s", e.what());
+        return -1;
       }
       advertisements.insert(std::make_pair(strdup(svcname), func));
     }
@@ -145,10 +148,11 @@ struct server_main {
     auto it = advertisements.find(svcname);
 
     if (it != advertisements.end()) {
+      auto lock = m_.data_lock();
+      m_.unadvertise(svcname, mib_queue, mib_server);
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
-      m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
       return -1;
-- 
2.43.0


From 1a5c804bf8103d283a6a3f5211df44631f58a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 49/89] fix: services of stopped servers stayed advertised

---
 src/mib.cpp    | 12 ++++++++++++
 src/mib.h      |  1 +
 src/server.cpp | 11 +++++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index d96caf6..90fb268 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -188,6 +188,18 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   services().at(service).modified();
 }
 
+void mib::unadvertise(size_t server) {
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    auto &advertisement = advertisements().at(i);
+    if (advertisement.server == server) {
+      services().at(advertisement.service).modified();
+      advertisement.state = state_t::INValid;
+      advertisement.service = advertisement.queue = advertisement.server =
+          badoff;
+    }
+  }
+}
+
 size_t mib::find_queue(const std::string &rqaddr) {
   for (size_t i = 0; i < queues()->len; i++) {
     if (rqaddr == queues().at(i).rqaddr) {
diff --git a/src/mib.h b/src/mib.h
index c02ed2b..8d6a084 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -148,6 +148,7 @@ class mib {
 
   void advertise(const std::string &servicename, size_t queue, size_t server);
   void unadvertise(const std::string &servicename, size_t queue, size_t server);
+  void unadvertise(size_t server);
 
   size_t find_queue(const std::string &rqaddr);
   size_t make_queue(const std::string &rqaddr);
diff --git a/src/server.cpp b/src/server.cpp
index f5a7ada..6d84d7a 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -91,6 +91,12 @@ struct server_main {
     mtype_ = std::numeric_limits<long>::min();
   }
 
+  // Also what a previous instance of the server might have left behind
+  void withdraw() {
+    auto lock = m_.data_lock();
+    m_.unadvertise(mib_server);
+  }
+
   void active() { m_.servers().at(mib_server).state = state_t::ACTive; }
   void inactive() { m_.servers().at(mib_server).state = state_t::INActive; }
 
@@ -432,6 +438,7 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   auto thread_count = m.servers().at(main_ptr->mib_server).mindispatchthreads;
   main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
   main_ptr->mib_queue = m.servers().at(main_ptr->mib_server).rqaddr;
+  main_ptr->withdraw();
   main_ptr->argc = argc;
   main_ptr->argv = argv;
   main_ptr->tmsvrargs = tmsvrargs;
@@ -439,6 +446,7 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
 
   if (int n = tmsvrargs->svrinit(argc, argv); n != 0) {
     userlog("tpsvrinit() = %d", n);
+    main_ptr->withdraw();
     return -1;
   }
 
@@ -452,6 +460,7 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
       if (tpadvertise(const_cast<char *>(rec->svcname), rec->svcfunc) == -1) {
         userlog("Failed to advertise service %s / function %s : %s",
                 rec->svcname, rec->funcname, tpstrerror(tperrno));
+        main_ptr->withdraw();
         return -1;
       }
       rec++;
@@ -473,6 +482,8 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
     dispatch();
   }
 
+  main_ptr->withdraw();
+
   tmsvrargs->mainloop(0);
 
   tmsvrargs->svrdone();
-- 
2.43.0


From 088543dc436a75a8e2f4227282db95deb1e05572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 50/89] fix: forwarded requests lost the TPNOREPLY and
 transaction flags, failed forwarding released data twice

---
 src/server.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 6d84d7a..e017989 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -227,29 +227,27 @@ struct server_thread {
   jmp_buf tpreturn_env;
 
   void tpforward(char *svc, char *data, long len, long flags) {
-    auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
-      fux::tx_end(true);
-    }
-
     int msqid = get_queue(svc);
     res.set_data(data, len);
-
-    if (data != nullptr && data != atmibuf) {
-      tpfree(data);
+    auto gttid = req->gttid;
+    if (fux::tx::transactional()) {
+      fux::tx_end(true);
     }
 
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = req->flags;
     res->replyq = req->replyq;
-    res->mtype = req->cd;
+    res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
 
     longjmp(tpreturn_env, 1);
   }
-- 
2.43.0


From 35ac8a73bc91a36c11182b0fb3025d149bd231e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 51/89] fix: successful services failed the transaction,
 callers got no reply if it could not be encoded or sent

---
 src/server.cpp | 58 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index e017989..9f0e3b8 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -252,34 +252,56 @@ struct server_thread {
     longjmp(tpreturn_env, 1);
   }
 
-  void reply(int rval, long rcode, char *data, long len, long flags) {
-    if (req->replyq != -1) {
+  void prepare_reply(int rval, long rcode, char *data, long len, long flags) {
+    res->rval = rval;
+    if (flags != 0) {
+      userlog("tpreturn with flags!=0");
+      res->rval = TPESVCERR;
+    }
+    try {
       res.set_data(data, len);
+    } catch (const std::exception &e) {
+      userlog("tpreturn with invalid data: %s", e.what());
+      res.set_data(nullptr, 0);
+      res->rval = TPESVCERR;
+    }
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
+    res->rcode = rcode;
+    res->flags = flags;
+    res->mtype = req->cd;
+    res->cd = req->cd;
+  }
 
-      if (data != nullptr && data != atmibuf) {
-        tpfree(data);
-      }
-
-      if (flags != 0) {
-        userlog("tpreturn with flags!=0");
-        res->rval = TPESVCERR;
-      } else {
-        res->rval = rval;
+  void send_reply() {
+    if (req->replyq == -1) {
+      return;
+    }
+    try {
+      fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
+    } catch (const std::exception &e) {
+      if (res.size_data() == 0) {
+        throw;
       }
-      res->rcode = rcode;
-      res->flags = flags;
-      res->mtype = req->cd;
-      res->cd = req->cd;
-
+      userlog("Failed to send the reply with data: %s", e.what());
+      res.set_data(nullptr, 0);
+      res->rval = TPESVCERR;
       fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
     }
   }
 
+  void reply(int rval, long rcode, char *data, long len, long flags) {
+    prepare_reply(rval, rcode, data, len, flags);
+    send_reply();
+  }
+
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
+    prepare_reply(rval, rcode, data, len, flags);
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+      fux::tx_end(res->rval == TPMINVAL);
     }
-    reply(rval, rcode, data, len, flags);
+    send_reply();
     longjmp(tpreturn_env, 1);
   }
 };
-- 
2.43.0


From 250dead60417b9d196bfdea6beac475c6763baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 52/89] fix: tmshutdown ignored the server group and stopped
 servers of other groups

---
 src/tmshutdown.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 87c7174..9e7e9e2 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -49,6 +49,14 @@ int main(int argc, char *argv[]) {
 
     fux::fml32buf buf;
 
+    auto grpidx = m.badoff;
+    if (!grpname.empty()) {
+      grpidx = m.group_index(grpname);
+      if (grpidx == m.badoff) {
+        throw std::invalid_argument("Unknown server group " + grpname);
+      }
+    }
+
     auto queues = m.queues();
     auto servers = m.servers();
 
@@ -57,6 +65,9 @@ int main(int argc, char *argv[]) {
       if (srvid != -1 && srvid != server.srvid) {
         continue;
       }
+      if (grpidx != m.badoff && m.groups().at(grpidx).grpno != server.grpno) {
+        continue;
+      }
       if (server.pid == 0) {
         continue;
       }
@@ -96,7 +107,7 @@ int main(int argc, char *argv[]) {
     }
 
     tpterm();
-    if (srvid == -1) {
+    if (srvid == -1 && grpname.empty()) {
       m.remove();
     }
   } catch (const std::exception &e) {
-- 
2.43.0


From b4a4343f88fd07afecc521ec4a184045e7093d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 53/89] fix: interrupted system call lost the reply of a
 service

---
 src/ipc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index fbff9de..d7ea36a 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -137,7 +137,10 @@ static const size_t MAX_QUEUE_MSG_SIZE = 4000;
 static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
                          long msec) {
   if (flag == fux::ipc::notime) {
-    int n = msgsnd(msqid, ptr, len - sizeof(long), 0);
+    int n;
+    do {
+      n = msgsnd(msqid, ptr, len - sizeof(long), 0);
+    } while (n == -1 && errno == EINTR);
     if (n != -1) {
       return true;
     } else {
-- 
2.43.0


From ce73c48a40b8e29be7b03a5e39c63593bea91bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 54/89] fix: server terminated when the file of a request could
 not be read

---
 src/ipc.cpp    | 4 +++-
 src/ipc.h      | 6 ++++++
 src/server.cpp | 9 +++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index d7ea36a..b0b418e 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -259,7 +259,7 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
     throw std::system_error(errno, std::system_category());
   }
   data.resize(n + sizeof(long));
-  if (data->ttype == fux::ipc::file) {
+  if (data->ttype == fux::ipc::file) try {
     char filename[n];
     strcpy(filename, data.as_msgfile().filename);
     tmpfile file{filename, -1};
@@ -272,6 +272,8 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
     file.close();
     file.name = nullptr;
     fail_if(unlink(filename) == -1);
+  } catch (const std::exception &e) {
+    throw bad_message(e.what());
   }
 }
 
diff --git a/src/ipc.h b/src/ipc.h
index 04d0ef5..7163898 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -11,6 +11,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <stdexcept>
 #include <system_error>
 #include <thread>
 #include <vector>
@@ -46,6 +47,11 @@ class scoped_semlock {
 
 namespace ipc {
 
+// The message was removed from the queue but its contents can't be read
+struct bad_message : std::runtime_error {
+  using std::runtime_error::runtime_error;
+};
+
 enum transport : char { queue, file };
 enum category : char { application, admin, unblock };
 enum flags : char { noflags = 0, noblock, notime };
diff --git a/src/server.cpp b/src/server.cpp
index 9f0e3b8..5770338 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -323,8 +323,13 @@ static void dispatch() {
         break;
       }
 
-      fux::ipc::qrecv(main_ptr->request_queue, thread_ptr->req,
-                      main_ptr->mtype(), 0);
+      try {
+        fux::ipc::qrecv(main_ptr->request_queue, thread_ptr->req,
+                        main_ptr->mtype(), 0);
+      } catch (const fux::ipc::bad_message &e) {
+        userlog("Lost a request: %s", e.what());
+        continue;
+      }
 
       thread_ptr->prepare();
       tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
-- 
2.43.0


From 75b33d7c591c62ccd03e6b880cb15d8885ee098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 55/89] fix: files of messages nobody received were left behind

---
 src/ipc.cpp | 20 +++++++++++++++++++-
 src/mib.cpp |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index b0b418e..c42a7dd 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -277,7 +277,25 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   }
 }
 
-void qdelete(int msqid) { msgctl(msqid, IPC_RMID, NULL); }
+void qdelete(int msqid) {
+  // No more messages from now on and no files of those that nobody received
+  struct msqid_ds ds;
+  if (msgctl(msqid, IPC_STAT, &ds) != -1) {
+    ds.msg_qbytes = 0;
+    msgctl(msqid, IPC_SET, &ds);
+  }
+  msg data;
+  for (bool more = true; more;) {
+    try {
+      qrecv(msqid, data, 0, IPC_NOWAIT);
+    } catch (const bad_message &) {
+      // had a file, there may be others
+    } catch (const std::system_error &) {
+      more = false;
+    }
+  }
+  msgctl(msqid, IPC_RMID, NULL);
+}
 
 void msg::set_data(char *data, long len) {
   if (data == nullptr) {
diff --git a/src/mib.cpp b/src/mib.cpp
index 90fb268..06e4795 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -432,7 +432,7 @@ void mib::collect(std::vector<int> &q, std::vector<int> &m,
 void mib::remove(std::vector<int> &q, std::vector<int> &m,
                  std::vector<int> &s) {
   for (int i : q) {
-    msgctl(i, IPC_RMID, NULL);
+    fux::ipc::qdelete(i);
   }
   for (int i : s) {
     fux::ipc::semrm(i);
-- 
2.43.0


From 7de750d98ab148a28a2f9d854ad9cfe9972b7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 56/89] fix: server terminated when an error reply could not be
 delivered

---
 src/server.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 5770338..df66fb1 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -278,16 +278,20 @@ struct server_thread {
     if (req->replyq == -1) {
       return;
     }
-    try {
-      fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
-    } catch (const std::exception &e) {
-      if (res.size_data() == 0) {
-        throw;
-      }
-      userlog("Failed to send the reply with data: %s", e.what());
+    if (!try_send_reply() && res.size_data() != 0) {
       res.set_data(nullptr, 0);
       res->rval = TPESVCERR;
-      fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
+      try_send_reply();
+    }
+  }
+
+  // The caller might be gone
+  bool try_send_reply() {
+    try {
+      return fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
+    } catch (const std::exception &e) {
+      userlog("Failed to send the reply: %s", e.what());
+      return false;
     }
   }
 
-- 
2.43.0


From 00a94b7d2a9b3c89fab69ebc85aea009724123f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 57/89] fix: supervisor terminated or blocked when a client
 with a time-out was gone

---
 src/BBL.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 9bdcb1c..e58e193 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -55,7 +55,13 @@ static void handle_blocktime() {
       req->cat = fux::ipc::unblock;
       userlog("Sending unblock message to client=%d queue=%0x", int(i),
               acc.rpid);
-      fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::notime);
+      // The client may be gone by now; one that has a full queue has something
+      // to receive
+      try {
+        fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::noblock);
+      } catch (const std::system_error &e) {
+        userlog("Failed to send unblock message: %s", e.what());
+      }
     }
   }
 }
-- 
2.43.0


From 4f050706f72dfedd9889cbe1d45137028dac899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 58/89] fix: supervisor removed entries and queues of live
 clients and servers

---
 src/BBL.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index e58e193..c79e4a0 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -72,17 +72,21 @@ static void monitor_servers() {
 
   for (int i = servers->len - 1; i >= 0; i--) {
     auto &server = servers[i];
-    if (server.pid == 0) {
+    auto pid = server.pid;
+    if (pid == 0) {
       continue;
     }
-    if (!alive(server.pid)) {
-      server.pid = 0;
+    if (!alive(pid)) {
+      // Unless it was started again
+      __sync_bool_compare_and_swap(&server.pid, pid, 0);
     }
   }
 }
 
 static void monitor_clients() {
   mib &m = getmib();
+  // Entries that are free may be taken by others at any time
+  auto lock = m.data_lock();
   auto accessers = m.accessers();
 
   for (int i = accessers->len - 1; i >= 0; i--) {
@@ -91,11 +95,10 @@ static void monitor_clients() {
       continue;
     }
     if (!alive(accesser.pid)) {
-      accesser.pid = 0;
-      if (accesser.rpid != 0) {
+      if (accesser.rpid != -1) {
         fux::ipc::qdelete(accesser.rpid);
-        accesser.rpid = 0;
       }
+      accesser.invalidate();
     }
   }
 }
@@ -104,9 +107,13 @@ static void run_watchdog() {
   while (true) {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
-    handle_blocktime();
-    monitor_servers();
-    monitor_clients();
+    try {
+      handle_blocktime();
+      monitor_servers();
+      monitor_clients();
+    } catch (const std::exception &e) {
+      userlog("Supervision failed: %s", e.what());
+    }
   }
 }
 
-- 
2.43.0


From a38fa46f5f53ed1eda3f993e17e6aeab9827edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 59/89] fix: SCANUNIT in seconds made the configuration
 unusable

---
 src/ubb2mib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0b4d3b1..0a791a8 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -69,7 +69,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
   // scanunit to milliseconds
   std::transform(scanunit.begin(), scanunit.end(), scanunit.begin(),
                  [](unsigned char c) { return std::tolower(c); });
-  if (scanunit.compare(scanunit.size() - 2, 2, "ms")) {
+  if (scanunit.size() > 2 &&
+      scanunit.compare(scanunit.size() - 2, 2, "ms") == 0) {
     scanunit = scanunit.substr(0, scanunit.size() - 2);
   } else {
     scanunit += "000";
-- 
2.43.0


From 9852203204ccd6ee02b63cbaa25cb0fafe327049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 60/89] fix: non-blocking calls without a time limit blocked,
 long time limits overflowed

---
 src/client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 19451b9..ffbdcb4 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -267,7 +267,7 @@ class client {
     long timeout;
 
     if (units == TPBLK_SECOND) {
-      timeout = blktime * 1000;
+      timeout = blktime * 1000L;
     } else if (units == TPBLK_MILLISECOND) {
       timeout = blktime;
     } else {
@@ -334,10 +334,10 @@ class client {
 
  private:
   fux::ipc::flags to_flags(long flags) {
-    if (flags & TPNOTIME) {
-      return fux::ipc::flags::notime;
-    } else if (flags & TPNOBLOCK) {
+    if (flags & TPNOBLOCK) {
       return fux::ipc::flags::noblock;
+    } else if (flags & TPNOTIME) {
+      return fux::ipc::flags::notime;
     } else {
       return fux::ipc::flags::noflags;
     }
-- 
2.43.0


From a8e9700827e52c79d25dd0146debec9e0928510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 61/89] fix: transaction table reached beyond the end of the
 bulletin board

---
 src/mib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mib.h b/src/mib.h
index 8d6a084..8823148 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -142,8 +142,8 @@ class mib {
     return mibarrptr<advertisement>(&mem_->advertisements);
   }
   transaction_table &transactions() {
-    return *reinterpret_cast<transaction_table *>(mem_->data +
-                                                  mem_->transactions_off);
+    return *reinterpret_cast<transaction_table *>(
+        reinterpret_cast<char *>(mem_) + mem_->transactions_off);
   }
 
   void advertise(const std::string &servicename, size_t queue, size_t server);
-- 
2.43.0


From 4ba0fa5eee3b75ee0d5aadbd0e198de1fb309077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 62/89] fix: bulletin board was populated twice by concurrent
 processes, unusable after one died doing it

---
 src/mib.cpp | 59 ++++++++++++++++++++++++++++++++++-------------------
 src/mib.h   |  3 ++-
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 06e4795..96d50ab 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -12,6 +12,7 @@
 #include <string>
 
 #include <time.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <iterator>
@@ -447,23 +448,18 @@ void mib::remove(std::vector<int> &q, std::vector<int> &m,
 
 void ubb2mib(ubbconfig &u, mib &m);
 
-mib &getmib() {
-  static std::unique_ptr<mib> mibcon;
-
-  if (!mibcon.get()) {
-    auto cfg = getconfig();
-    mibcon = std::make_unique<mib>(cfg);
-    if (mibcon->servers()->len == 0) {
-      ubbconfig u;
-      getconfig(&u);
-      ubb2mib(u, *mibcon.get());
-    }
-  }
+static void populate(mib &m) {
+  ubbconfig u;
+  getconfig(&u);
+  ubb2mib(u, m);
+}
 
+mib &getmib() {
+  static auto mibcon = std::make_unique<mib>(getconfig(), populate);
   return *mibcon.get();
 }
 
-mib::mib(const tuxconfig &cfg) : cfg_(cfg) {
+mib::mib(const tuxconfig &cfg, void (*populate)(mib &)) : cfg_(cfg) {
   shmid_ = shmget(cfg_.ipckey, needed(cfg_), 0600 | IPC_CREAT);
   if (shmid_ == -1) {
     throw std::system_error(errno, std::system_category(), "shmget failed");
@@ -474,16 +470,37 @@ mib::mib(const tuxconfig &cfg) : cfg_(cfg) {
     throw std::system_error(errno, std::system_category(), "shmat failed");
   }
 
-  int z = 0;
-  if (mem_->state.compare_exchange_strong(z, 1)) {
-    mem_->mainsem = fux::ipc::seminit(IPC_PRIVATE, 1);
-    mem_->conf = cfg_;
-    init_memory();
-    mem_->state = 2;
+  // 0 is what new memory has, -pid while a process initialises it
+  const int ready = 2;
+  for (int state = mem_->state; state != ready; state = mem_->state) {
+    if (state != 0 && alive(-state)) {
+      std::this_thread::yield();
+    } else if (mem_->state.compare_exchange_strong(state, -getpid())) {
+      try {
+        initialize(populate);
+      } catch (...) {
+        mem_->state = 0;
+        throw;
+      }
+      mem_->state = ready;
+    }
   }
+}
 
-  while (mem_->state != 2) {
-    std::this_thread::yield();
+void mib::initialize(void (*populate)(mib &)) {
+  // Might have been started by somebody else
+  auto start = offsetof(mibmem, mainsem);
+  memset(reinterpret_cast<char *>(mem_) + start, 0, needed(cfg_) - start);
+  mem_->mainsem = fux::ipc::seminit(IPC_PRIVATE, 1);
+  try {
+    mem_->conf = cfg_;
+    init_memory();
+    if (populate != nullptr) {
+      populate(*this);
+    }
+  } catch (...) {
+    fux::ipc::semrm(mem_->mainsem);
+    throw;
   }
 }
 
diff --git a/src/mib.h b/src/mib.h
index 8823148..7c765c3 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -118,7 +118,7 @@ rhs) { return ptr_ != rhs.ptr_; } private: pointer ptr_;
 
 class mib {
  public:
-  mib(const tuxconfig &cfg);
+  mib(const tuxconfig &cfg, void (*populate)(mib &) = nullptr);
   mib(const tuxconfig &cfg, fux::mib::in_heap);
 
   static size_t needed(const tuxconfig &cfg);
@@ -192,6 +192,7 @@ class mib {
 
  private:
   size_t find_advertisement(size_t service, size_t queue, size_t server);
+  void initialize(void (*populate)(mib &));
   void init_memory();
 
   tuxconfig cfg_;
-- 
2.43.0


From 1a64bf450c258b2efcf09ab93699d426071d375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 63/89] fix: servers starting at the same time created
 different queues for one address

---
 src/server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index df66fb1..0f02898 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -465,7 +465,11 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   fux::tx::grpno = grpno;
 
   auto thread_count = m.servers().at(main_ptr->mib_server).mindispatchthreads;
-  main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  {
+    // Other servers of the same queue might be starting
+    auto lock = m.data_lock();
+    main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  }
   main_ptr->mib_queue = m.servers().at(main_ptr->mib_server).rqaddr;
   main_ptr->withdraw();
   main_ptr->argc = argc;
-- 
2.43.0


From 4e93e5df0a953372f5699f035d54a670dcdf2eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 64/89] fix: shorter names took over the end of what a failed
 operation left

---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..d55ac9a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From 5663a1ed14642ec9afb11d8437a1547c515e25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 65/89] fix: a process killed while it changes the
 advertisements leaves no broken entry

---
 src/mib.cpp | 37 +++++++++++++++++++++++++------------
 src/mib.h   |  1 +
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 96d50ab..ca1ebee 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -141,9 +141,18 @@ size_t mib::find_advertisement(size_t service, size_t queue, size_t server) {
   return badoff;
 }
 
+size_t mib::find_free_advertisement() {
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    if (advertisements().at(i).service == badoff) {
+      return i;
+    }
+  }
+  return badoff;
+}
+
 void mib::advertise(const std::string &servicename, size_t queue,
                     size_t server) {
-  auto i = find_advertisement(badoff, badoff, badoff);
+  auto i = find_free_advertisement();
   if (i == badoff) {
     i = advertisements()->len;
   }
@@ -159,16 +168,25 @@ void mib::advertise(const std::string &servicename, size_t queue,
     throw std::logic_error("Already advertised");
   }
 
-  advertisement.service = service;
+  services().at(service).state = state_t::ACTive;
+  services().at(service).modified();
+
+  // An entry exists while its service is set: a process killed half way
+  // through must not leave an entry that refers to nothing
   advertisement.queue = queue;
   advertisement.server = server;
   advertisement.state = state_t::ACTive;
+  __atomic_store_n(&advertisement.service, service, __ATOMIC_RELEASE);
 
   if (i == advertisements()->len) {
     advertisements()->len++;
   }
-  services().at(service).state = state_t::ACTive;
-  services().at(service).modified();
+}
+
+static void release(advertisement &a, size_t badoff) {
+  __atomic_store_n(&a.service, badoff, __ATOMIC_SEQ_CST);
+  a.state = state_t::INValid;
+  a.queue = a.server = badoff;
 }
 
 void mib::unadvertise(const std::string &servicename, size_t queue,
@@ -182,21 +200,16 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   if (i == badoff) {
     throw std::logic_error("Service not advertised");
   }
-  auto &advertisement = advertisements().at(i);
-  advertisement.state = state_t::INValid;
-  advertisement.service = advertisement.queue = advertisement.server = badoff;
-
   services().at(service).modified();
+  release(advertisements().at(i), badoff);
 }
 
 void mib::unadvertise(size_t server) {
   for (size_t i = 0; i < advertisements()->len; i++) {
     auto &advertisement = advertisements().at(i);
-    if (advertisement.server == server) {
+    if (advertisement.service != badoff && advertisement.server == server) {
       services().at(advertisement.service).modified();
-      advertisement.state = state_t::INValid;
-      advertisement.service = advertisement.queue = advertisement.server =
-          badoff;
+      release(advertisement, badoff);
     }
   }
 }
diff --git a/src/mib.h b/src/mib.h
index 7c765c3..a9f43cc 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -191,6 +191,7 @@ class mib {
   void remove(std::vector<int> &q, std::vector<int> &m, std::vector<int> &s);
 
  private:
+  size_t find_free_advertisement();
   size_t find_advertisement(size_t service, size_t queue, size_t server);
   void initialize(void (*populate)(mib &));
   void init_memory();
-- 
2.43.0


From c6abd0257790b0a9498a99e1e48fa6495e12f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 66/89] fix: tmshutdown does not wait for a server that is gone

---
 src/tmshutdown.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 9e7e9e2..0f6bcd4 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -68,7 +68,8 @@ int main(int argc, char *argv[]) {
       if (grpidx != m.badoff && m.groups().at(grpidx).grpno != server.grpno) {
         continue;
       }
-      if (server.pid == 0) {
+      // Nobody replies for a server that is gone
+      if (server.pid == 0 || !alive(server.pid)) {
         continue;
       }
       if (server.is_inactive()) {
-- 
2.43.0


From 66d5a30a392cd8a0549e000db72e23d6af1a2187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 67/89] fix: converting a textual transaction identifier checks
 its form and length

---
 src/trx.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..dc265e1 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -52,20 +52,25 @@ inline XID to_xid(const std::string &s) {
   }
 
   xid.formatID = std::stol(parts[0]);
-  xid.gtrid_length = parts[1].size() / 2;
+
+  auto hex = parts[1];
+  xid.bqual_length = 0;
   if (parts.size() == 3) {
     xid.bqual_length = parts[2].size() / 2;
-  } else {
-    xid.bqual_length = 0;
+    hex += parts[2];
   }
+  xid.gtrid_length = parts[1].size() / 2;
 
-  unsigned char *data = reinterpret_cast<unsigned char *>(xid.data);
-  for (int i = 0; i < xid.gtrid_length; i++) {
-    data[i] = std::stoi(parts[1].substr(i * 2, 2), nullptr, 16);
+  const long maxlen = XIDDATASIZE / 2;
+  if (xid.gtrid_length > maxlen || xid.bqual_length > maxlen ||
+      parts[1].size() % 2 != 0 || hex.size() % 2 != 0 ||
+      hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+    throw std::logic_error("Invalid XID string");
   }
-  for (int i = 0; i < xid.bqual_length; i++) {
-    data[xid.gtrid_length + i] =
-        std::stoi(parts[2].substr(i * 2, 2), nullptr, 16);
+
+  unsigned char *data = reinterpret_cast<unsigned char *>(xid.data);
+  for (size_t i = 0; i < hex.size() / 2; i++) {
+    data[i] = std::stoi(hex.substr(i * 2, 2), nullptr, 16);
   }
 
   return xid;
-- 
2.43.0


From ffc4d201338bf49d208cfa64955eb85e8cd640e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 68/89] fix: transactions end as their branches do, free their
 table entry and follow the X/Open state table

---
 src/client.cpp |   3 +-
 src/trx.cpp    |  11 +-
 src/trx.h      |   9 +-
 src/tx.cpp     | 383 +++++++++++++++++++++++++++++++++----------------
 4 files changed, 280 insertions(+), 126 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index ffbdcb4..393d3c9 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -29,8 +29,7 @@ bool is_server();
 struct suspend_guard {
   suspend_guard(bool suspend = true) : suspended(false) {
     if (suspend && fux::tx::transactional()) {
-      suspended = true;
-      fux::tx_suspend();
+      suspended = fux::tx_suspend();
     }
   }
   ~suspend_guard() {
diff --git a/src/trx.cpp b/src/trx.cpp
index a097296..3624476 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -53,7 +53,9 @@ int tpbegin(unsigned long timeout, long flags) {
     return -1;
   }
 
-  int rc = tx_set_transaction_timeout(timeout);
+  // A refused call does not change the time-out either
+  int rc = tx_info(nullptr) == 1 ? TX_PROTOCOL_ERROR
+                                 : tx_set_transaction_timeout(timeout);
   if (rc == TX_OK) {
     rc = tx_begin();
   }
@@ -69,6 +71,8 @@ int tpbegin(unsigned long timeout, long flags) {
     TPERROR(TPETRAN, "tx_begin()=%d", rc);
   } else if (rc == TX_PROTOCOL_ERROR) {
     TPERROR(TPEPROTO, "tx_begin()=%d", rc);
+  } else if (rc == TX_EINVAL) {
+    TPERROR(TPEINVAL, "tx_begin()=%d", rc);
   } else {
     TPERROR(TPESYSTEM, "Unexpected tx_begin()=%d", rc);
   }
@@ -203,5 +207,10 @@ int tpresume(TPTRANID *tranid, long flags) {
     return 0;
   }
 
+  if (rc == TX_EINVAL) {
+    TPERROR(TPEMATCH, "No such transaction, _tx_resume()=%d", rc);
+    return -1;
+  }
+
   return trx_err(rc, "_tx_start");
 }
diff --git a/src/trx.h b/src/trx.h
index dc265e1..268abcd 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -17,7 +17,7 @@ fux::gttid gttid();
 bool transactional();
 }  // namespace tx
 void tx_resume();
-void tx_suspend();
+bool tx_suspend();
 void tx_join(fux::gttid id);
 void tx_end(bool ok);
 
@@ -90,6 +90,9 @@ struct transaction {
 };
 
 struct transaction_table {
+  // Of processes that have no resource manager
+  static constexpr uint16_t no_group = std::numeric_limits<uint16_t>::max();
+
   size_t len;
   size_t size;
   size_t max_groups;
@@ -142,7 +145,9 @@ struct transaction_table {
   fux::gttid init(fux::gttid i, const XID &xid, uint16_t group) {
     memset(&(*this)[i], 0, entry_size);
     (*this)[i].xid = xid;
-    join(i, group);
+    if (group != no_group) {
+      join(i, group);
+    }
     return i;
   }
 
diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..930e505 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -54,20 +54,37 @@ enum class tx_state {
 struct tx_context {
   tx_context(mib &mibcon) : mibcon_(mibcon) {
     state = tx_state::s0;
+    reset();
     if (fux::tx::grpno != 0) {
       grpcfg = &mibcon_.group_by_id(fux::tx::grpno);
       fux::tx::grpidx = mibcon_.find_group(fux::tx::grpno);
     }
+  }
+  void reset() {
+    info = TXINFO{};
+    info.when_return = TX_COMMIT_COMPLETED;
+    info.transaction_control = TX_UNCHAINED;
     notrx();
   }
   void notrx() {
+    info.xid = XID{};
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
+    associated = false;
+  }
+  bool idle() const { return state == tx_state::s1 || state == tx_state::s2; }
+  bool active() const { return state == tx_state::s3 || state == tx_state::s4; }
+  void enter() {
+    state = state == tx_state::s2 ? tx_state::s4 : tx_state::s3;
+  }
+  void leave() {
+    state = state == tx_state::s4 ? tx_state::s2 : tx_state::s1;
   }
   tx_state state;
   group *grpcfg = nullptr;
   TXINFO info;
   fux::gttid gttid;
+  bool associated;  // The RM knows that we work in the transaction
   mib &mibcon_;
 };
 
@@ -92,20 +109,24 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() {
-  char *info = getctxt().grpcfg->openinfo;
-  auto len = strlen(xasw->name);
-  if (strlen(getctxt().grpcfg->openinfo) > 0) {
+  // Clients do not belong to a group
+  char none[] = "";
+  char *info = none;
+  if (getctxt().grpcfg != nullptr && strlen(getctxt().grpcfg->openinfo) > 0) {
+    info = getctxt().grpcfg->openinfo;
+    auto len = strlen(xasw->name);
     if (strncmp(xasw->name, info, len) != 0 || info[len] != ':') {
       userlog("Resource Manager mismatch %s and open info %s", xasw->name,
               info);
       return TX_ERROR;
     }
+    info += len + 1;
   }
 
-  auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
-      getctxt().notrx();
+      getctxt().reset();
       getctxt().state = tx_state::s1;
     }
     return TX_OK;
@@ -119,8 +140,10 @@ int tx_close() {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
-  auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
-                                   TMNOFLAGS);
+  char none[] = "";
+  char *info =
+      getctxt().grpcfg != nullptr ? getctxt().grpcfg->closeinfo : none;
+  auto xarc = xasw->xa_close_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     getctxt().state = tx_state::s0;
     return TX_OK;
@@ -137,6 +160,12 @@ int tx_info(TXINFO *info) {
 
   if (info != nullptr) {
     *info = getctxt().info;
+    if (fux::tx::transactional()) {
+      auto lock = getmib().data_lock();
+      auto &t = getmib().transactions().at(getctxt().gttid);
+      info->transaction_state =
+          t.state == transaction::active ? TX_ACTIVE : TX_ROLLBACK_ONLY;
+    }
   }
 
   return getctxt().info.xid.formatID == -1 ? 0 : 1;
@@ -158,15 +187,41 @@ static XID xid() {
   return xid;
 }
 
+static void release(fux::gttid gttid) {
+  auto lock = getmib().data_lock();
+  getmib().transactions().end(gttid);
+}
+
 int tx_begin() {
   if (TMREGISTER) {
     // return TX_OK;
   }
 
+  if (!getctxt().idle()) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
-  return _tx_start(&info);
+  fux::gttid gttid;
+  try {
+    auto lock = getmib().data_lock();
+    gttid = getmib().transactions().start(
+        info.xid,
+        fux::tx::grpno != 0 ? fux::tx::grpidx : transaction_table::no_group);
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to start a transaction: %s", e.what());
+    return TX_ERROR;
+  }
+
+  auto rc = _tx_start(&info);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  } else {
+    getctxt().notrx();
+    release(gttid);
+  }
+  return rc;
 }
 
 static bool tx_set1(int rc) {
@@ -187,7 +242,9 @@ static int change_state(int rc) {
     } else if (getctxt().state == tx_state::s4) {
       // Chained
       getctxt().state = tx_state::s2;
-      return tx_begin();
+      if (tx_begin() != TX_OK) {
+        return rc + TX_NO_BEGIN;
+      }
     }
   } else if (tx_set2(rc)) {
     if (getctxt().state == tx_state::s4) {
@@ -212,75 +269,147 @@ static void clean_tlog(XID *xid) {
   // TODO
 }
 
-static std::vector<branch> collect(XID *xid) {
+// Nobody can join the transaction any more
+static std::vector<branch> collect(fux::gttid gttid, bool &commit) {
   std::vector<branch> branches;
+  auto lock = getmib().data_lock();
   auto max = getmib().transactions().max_groups;
-  auto &tx = getmib().transactions()[getmib().transactions().find(*xid)];
+  auto &tx = getmib().transactions()[gttid];
+  if (tx.state != transaction::active) {
+    commit = false;
+  }
+  tx.state = commit ? transaction::preparing : transaction::do_rollback;
   for (size_t group = 0; group < max; group++) {
     if (tx.groups[group] > 0) {
-      branches.push_back({getmib().groups().at(group).grpno});
+      branches.push_back({getmib().groups().at(group).grpno, -1, XAER_RMFAIL});
     }
   }
   return branches;
 }
 
-int _tx_end(TXINFO *info);
+static bool is_rollback(int xarc) {
+  return xarc >= XA_RBBASE && xarc <= XA_RBEND;
+}
+
+// What became of the transaction that was told to commit or to roll back
+static int outcome(const std::vector<branch> &branches, bool commit,
+                   bool rolledback) {
+  bool committed = false, mixed = false, hazard = false;
+  for (auto &p : branches) {
+    if (p.result == XA_OK) {
+      (commit ? committed : rolledback) = true;
+    } else if (p.result == XA_HEURCOM) {
+      committed = true;
+    } else if (p.result == XA_HEURRB || is_rollback(p.result)) {
+      rolledback = true;
+    } else if (p.result == XA_HEURMIX) {
+      mixed = true;
+    } else if (p.result == XA_HEURHAZ) {
+      hazard = true;
+    } else if (commit) {
+      if (p.result == XAER_RMERR) {
+        rolledback = true;
+      } else {
+        hazard = true;
+      }
+    } else {
+      // Not committed for sure
+      rolledback = true;
+    }
+  }
+
+  if (mixed || (committed && rolledback)) {
+    return TX_MIXED;
+  } else if (hazard) {
+    return TX_HAZARD;
+  } else if (commit) {
+    return rolledback ? TX_ROLLBACK : TX_OK;
+  } else {
+    return committed ? TX_COMMITTED : TX_ROLLBACK;
+  }
+}
+
+static bool dissociate(long flags);
+
 int tx_commit() {
-  TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
-    return rc;
+  if (!getctxt().active()) {
+    return TX_PROTOCOL_ERROR;
   }
 
-  std::vector<branch> branches1 = collect(&info.xid);
+  auto gttid = getctxt().gttid;
+  XID xid = getctxt().info.xid;
+  bool commit = dissociate(TMSUCCESS);
+  getctxt().notrx();
 
-  command(branches1, &info.xid, fux::tm::prepare);
+  std::vector<branch> branches1 = collect(gttid, commit);
+  bool rolledback = !commit;
+  if (commit) {
+    command(branches1, &xid, fux::tm::prepare);
+  }
 
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
-  bool commit = true;
   for (auto &p : branches1) {
-    if (p.result == XA_RDONLY) {
-      // Nothing to do
-      continue;
-    }
-    if (p.result != XA_OK) {
-      commit = false;
+    if (!rolledback) {
+      if (p.result == XA_RDONLY) {
+        // Nothing to do
+        continue;
+      }
+      if (p.result != XA_OK) {
+        commit = false;
+      }
+      if (is_rollback(p.result)) {
+        // Already done
+        continue;
+      }
     }
     branches2.push_back(p);
   }
 
+  int rc;
   if (commit) {
-    persist_tlog(&info.xid, branches2);
-  }
-
-  if (commit) {
-    command(branches2, &info.xid, fux::tm::commit);
-    clean_tlog(&info.xid);
-    return change_state(TX_OK);
+    persist_tlog(&xid, branches2);
+    command(branches2, &xid, fux::tm::commit);
+    clean_tlog(&xid);
+    rc = outcome(branches2, true, false);
   } else {
-    command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
+    command(branches2, &xid, fux::tm::rollback);
+    rc = outcome(branches2, false, branches2.size() < branches1.size());
   }
+  release(gttid);
+  return change_state(rc);
 }
 
 int tx_rollback() {
-  TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
-    return rc;
+  if (!getctxt().active()) {
+    return TX_PROTOCOL_ERROR;
   }
 
-  std::vector<branch> branches = collect(&info.xid);
+  auto gttid = getctxt().gttid;
+  XID xid = getctxt().info.xid;
+  dissociate(TMSUCCESS);
+  getctxt().notrx();
 
-  command(branches, &info.xid, fux::tm::rollback);
+  bool commit = false;
+  std::vector<branch> branches = collect(gttid, commit);
+  command(branches, &xid, fux::tm::rollback);
+  auto rc = outcome(branches, false, false);
+  release(gttid);
+  return change_state(rc == TX_ROLLBACK ? TX_OK : rc);
+}
 
-  return change_state(TX_OK);
+// Only rollback is possible from now on
+static void doom(fux::gttid gttid) {
+  auto lock = getmib().data_lock();
+  auto &t = getmib().transactions().at(gttid);
+  if (t.state == transaction::active) {
+    t.state = transaction::do_rollback;
+  }
 }
 
-static int _tx_end(TXINFO *info, long flags) {
-  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
-    return TX_PROTOCOL_ERROR;
+static bool dissociate(long flags) {
+  if (!getctxt().associated) {
+    return false;
   }
 
   userlog("xa_end(%s, %d, 0x%0lx) ...",
@@ -289,77 +418,50 @@ static int _tx_end(TXINFO *info, long flags) {
   userlog("xa_end(%s, %d, 0x%0lx) = %d",
           fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags,
           xarc);
-  if (info != nullptr) {
-    *info = getctxt().info;
-    getctxt().notrx();
-  }
-
-  int rc = TX_OK;
-  if (xarc == XA_OK) {
-    // pass
-  } else if (xarc == XAER_RMFAIL) {
-    rc = TX_FAIL;
-  } else if (xarc == XAER_INVAL) {
-    rc = TX_FAIL;
-  } else if (xarc == XAER_PROTO) {
-    rc = TX_FAIL;
-  } else {
-    rc = TX_FAIL;
-  }
+  getctxt().associated = false;
+  return xarc == XA_OK;
+}
 
-  return rc;
+static int associate(long flags) {
+  userlog("xa_start(%s, %d, 0x%08lx) ...",
+          fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags);
+  auto xarc = xasw->xa_start_entry(&getctxt().info.xid, fux::tx::grpno, flags);
+  userlog("xa_start(%s, %d, 0x%08lx) = %d",
+          fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags,
+          xarc);
+  getctxt().associated = (xarc == XA_OK);
+  return xarc;
 }
 
 // The main difference is that suspend does not start a new transaction even in
 // chained mode
 int _tx_suspend(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUSPEND);
-  if (rc == TX_OK) {
-    if (getctxt().state == tx_state::s3) {
-      getctxt().state = tx_state::s1;
-    } else if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
-    }
+  if (!getctxt().active()) {
+    return TX_PROTOCOL_ERROR;
   }
-
-  return rc;
-}
-
-int _tx_end(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUCCESS);
-  return change_state(rc);
-}
-
-int _tx_end(bool ok) {
-  TXINFO info;
-  auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-  return change_state(rc);
+  if (!dissociate(TMSUSPEND)) {
+    doom(getctxt().gttid);
+    return TX_FAIL;
+  }
+  *info = getctxt().info;
+  getctxt().notrx();
+  getctxt().leave();
+  return TX_OK;
 }
 
 static int _tx_start(TXINFO *info, long flags) {
-  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+  if (!getctxt().idle()) {
     return TX_PROTOCOL_ERROR;
   }
 
-  if (info != nullptr) {
-    getctxt().info.xid = info->xid;
-  }
-
-  userlog("xa_start(%s, %d, 0x%08lx) ...",
-          fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags);
-  auto xarc = xasw->xa_start_entry(&getctxt().info.xid, fux::tx::grpno, flags);
-  userlog("xa_start(%s, %d, 0x%08lx) = %d",
-          fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags,
-          xarc);
+  getctxt().info.xid = info->xid;
+  auto xarc = associate(flags);
   if (xarc == XA_OK) {
-    if (getctxt().state == tx_state::s1) {
-      getctxt().state = tx_state::s3;
-    } else if (getctxt().state == tx_state::s2) {
-      getctxt().state = tx_state::s4;
-    }
+    getctxt().enter();
     return TX_OK;
   }
 
+  getctxt().notrx();
   if (xarc == XAER_RMERR) {
     return TX_ERROR;
   } else if (xarc == XAER_DUPID) {
@@ -377,19 +479,59 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  if (!getctxt().idle()) {
+    return TX_PROTOCOL_ERROR;
+  }
+
+  fux::gttid gttid;
+  try {
+    auto lock = getmib().data_lock();
+    gttid = getmib().transactions().find(info->xid);
+  } catch (const std::out_of_range &) {
+    return TX_EINVAL;
+  }
+
+  auto rc = _tx_start(info, TMRESUME);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  }
+  return rc;
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
 namespace fux {
-void tx_resume() { _tx_resume(nullptr); }
-void tx_suspend() { _tx_suspend(nullptr); }
-void tx_end(bool ok) { _tx_end(ok); }
+bool tx_suspend() {
+  if (!dissociate(TMSUSPEND)) {
+    doom(getctxt().gttid);
+    return false;
+  }
+  return true;
+}
+void tx_resume() {
+  if (associate(TMRESUME) != XA_OK) {
+    doom(getctxt().gttid);
+  }
+}
+void tx_end(bool ok) {
+  if (!getctxt().active()) {
+    return;
+  }
+  auto gttid = getctxt().gttid;
+  if (!dissociate(ok ? TMSUCCESS : TMFAIL) || !ok) {
+    doom(gttid);
+  }
+  getctxt().notrx();
+  getctxt().leave();
+}
 void tx_join(fux::gttid gttid) {
   auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
   TXINFO info;
   info.xid = t.xid;
-  _tx_start(&info, TMJOIN);
+  if (_tx_start(&info, TMJOIN) == TX_OK) {
+    getctxt().gttid = gttid;
+  }
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
@@ -450,40 +592,39 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
 
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
-  fux::fml32buf buf;
-  int pending = 0;
-
   for (auto &p : branches) {
+    fux::fml32buf buf;
     buf.put(TA_XAFUNC, 0, command);
     buf.put(TA_XID, 0, fux::to_string(xid));
     buf.put(TA_RMID, 0, p.grpno);
     buf.put(TA_FLAGS, 0, 0);
     userlog("Calling TM in group %d for %s", p.grpno,
             fux::to_string(xid).c_str());
+    p.result = XAER_RMFAIL;
     p.cd = tpacall_group(p.grpno, const_cast<char *>(".TM"),
                          reinterpret_cast<char *>(*buf.ptrptr()), 0,
                          TPNOTIME | TPNOTRAN);
     if (p.cd == -1) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
-      p.result = TMER_TMERR;
-      break;
     }
-    pending++;
   }
 
-  while (pending > 0) {
-    int cd;
+  // The application might wait for replies of its own
+  for (auto &p : branches) {
+    if (p.cd == -1) {
+      continue;
+    }
+    fux::fml32buf buf;
+    int cd = p.cd;
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    if (tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len,
+                  TPNOFLAGS) == -1) {
+      userlog("TM in group %d failed (%s)", p.grpno, tpstrerror(tperrno));
+      tpcancel(p.cd);
+      continue;
     }
+    p.result = buf.get<long>(TA_XARET, 0, XAER_RMFAIL);
   }
 }
 
-- 
2.43.0


From b5422598b0cc2be8a6f3075cdfe4f6d4ee73ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 69/89] fix: transaction context follows calls and failures
 doom the transaction

---
 src/client.cpp |  33 ++++++++++++--
 src/ipc.h      |   1 +
 src/resp.h     |  25 +++++++++-
 src/server.cpp |  21 +++++----
 src/trx.h      |  24 +++++++++-
 src/tx.cpp     | 121 +++++++++++++++++++++++++++++++++++++++----------
 6 files changed, 186 insertions(+), 39 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 393d3c9..76d0d19 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -25,6 +25,7 @@
 
 namespace fux {
 bool is_server();
+bool drop_calls(fux::gttid gttid);
 
 struct suspend_guard {
   suspend_guard(bool suspend = true) : suspended(false) {
@@ -84,6 +85,12 @@ class client {
       }
     }
 
+    bool tran = !(flags & TPNOTRAN) && fux::tx::transactional();
+    if (tran && (flags & TPNOREPLY)) {
+      TPERROR(TPEINVAL, "TPNOREPLY requires TPNOTRAN in a transaction");
+      return -1;
+    }
+
     rq.set_data(data, len);
     checked_copy(svc, rq->servicename);
     if (flags & TPNOREPLY) {
@@ -91,15 +98,16 @@ class client {
       rq->cd = 0;
     } else {
       rq->replyq = rpid;
-      rq->cd = cds.allocate();
+      rq->cd = cds.allocate(tran ? fux::tx::gttid() : fux::bad_gttid);
       if (rq->cd == -1) {
         return -1;
       }
     }
     rq->flags = flags & TPNOREPLY;
-    if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
+    if (tran) {
       rq->flags |= TPTRAN;
       rq->gttid = fux::tx::gttid();
+      rq->uid = fux::tx::uid();
     } else {
       rq->gttid = fux::bad_gttid;
     }
@@ -209,6 +217,11 @@ class client {
       }
 
       *cd = res->cd;
+      auto gttid = cds.gttid(*cd);
+      if (gttid != fux::bad_gttid &&
+          (res->rval == TPESVCERR || res->rval == TPESVCFAIL)) {
+        fux::tx_doom(gttid);
+      }
       cds.release(*cd);
       auto datalen = res.get_data(data);
       tpurcode = res->rcode;
@@ -252,14 +265,19 @@ class client {
   }
 
   int tpcancel(int cd) {
+    if (cds.gttid(cd) != fux::bad_gttid) {
+      TPERROR(TPETRAN, "cd=%d belongs to a transaction", cd);
+      return -1;
+    }
     if (cds.release(cd) == -1) {
       return -1;
     }
-    // TPETRAN
     fux::atmi::reset_tperrno();
     return 0;
   }
 
+  bool drop_calls(fux::gttid gttid) { return cds.drop(gttid); }
+
   int tpsblktime(int blktime, long flags) {
     long units = flags & 0xf0;
     long what = flags - units;
@@ -348,6 +366,11 @@ class client {
     int cd;
     ~abandon_guard() {
       if (cds.known(cd)) {
+        // What became of the work is not known
+        auto gttid = cds.gttid(cd);
+        if (gttid != fux::bad_gttid) {
+          fux::tx_doom(gttid);
+        }
         cds.release(cd);
       }
     }
@@ -388,6 +411,10 @@ static client &getclient() {
   return *current_client;
 }
 
+bool fux::drop_calls(fux::gttid gttid) {
+  return current_client.get() && current_client->drop_calls(gttid);
+}
+
 int tpinit(TPINIT *tpinfo) {
   if (fux::is_server()) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
diff --git a/src/ipc.h b/src/ipc.h
index 7163898..a5b7b15 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -69,6 +69,7 @@ struct msgfile : msgbase {
 struct msgmem : msgbase {
   char servicename[XATMI_SERVICE_NAME_LENGTH];
   fux::gttid gttid;
+  uint32_t uid;
   long flags;
   int cd;
   int replyq;
diff --git a/src/resp.h b/src/resp.h
index fe01479..48f22d1 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -11,6 +11,7 @@ class responses {
   struct response {
     flags status;
     fux::ipc::msg res;
+    fux::gttid gttid;
   };
   std::map<int, response> calls_;
   int seq_;
@@ -28,7 +29,7 @@ class responses {
  public:
   responses() : seq_(0) {}
 
-  int allocate() {
+  int allocate(fux::gttid gttid = fux::bad_gttid) {
     // Tuxedo has larger messages, increase limits to have similar test results
     // if (calls_.size() > 128) {
     if (calls_.size() > 1024) {
@@ -40,7 +41,7 @@ class responses {
       // If cd wrapped around and cd has still no response
       // assume it will never come
     }
-    calls_[cd] = response{flags::none, {}};
+    calls_[cd] = response{flags::none, {}, gttid};
     return cd;
   }
 
@@ -53,6 +54,26 @@ class responses {
     return 0;
   }
 
+  // The transaction the call was made in
+  fux::gttid gttid(int cd) const {
+    auto it = calls_.find(cd);
+    return it == calls_.end() ? fux::bad_gttid : it->second.gttid;
+  }
+
+  // Forgets all calls of a transaction, tells if there were any
+  bool drop(fux::gttid gttid) {
+    bool any = false;
+    for (auto it = calls_.begin(); it != calls_.end();) {
+      if (it->second.gttid == gttid) {
+        it = calls_.erase(it);
+        any = true;
+      } else {
+        ++it;
+      }
+    }
+    return any;
+  }
+
   bool known(int cd) const { return calls_.find(cd) != calls_.end(); }
 
   int any_buffered() {
diff --git a/src/server.cpp b/src/server.cpp
index 0f02898..d5005a2 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -229,9 +229,8 @@ struct server_thread {
   void tpforward(char *svc, char *data, long len, long flags) {
     int msqid = get_queue(svc);
     res.set_data(data, len);
-    auto gttid = req->gttid;
-    if (fux::tx::transactional()) {
-      fux::tx_end(true);
+    if (fux::tx::engaged() && !fux::tx_end(true)) {
+      throw std::runtime_error("transaction failed");
     }
 
     if (flags != 0) {
@@ -242,7 +241,8 @@ struct server_thread {
     res->replyq = req->replyq;
     res->mtype = req->mtype;
     res->cd = req->cd;
-    res->gttid = gttid;
+    res->gttid = req->gttid;
+    res->uid = req->uid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
     if (data != nullptr && data != atmibuf) {
@@ -302,8 +302,10 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     prepare_reply(rval, rcode, data, len, flags);
-    if (fux::tx::transactional()) {
-      fux::tx_end(res->rval == TPMINVAL);
+    if (fux::tx::engaged() && !fux::tx_end(res->rval == TPMINVAL) &&
+        res->rval == TPMINVAL) {
+      res.set_data(nullptr, 0);
+      res->rval = TPESVCERR;
     }
     send_reply();
     longjmp(tpreturn_env, 1);
@@ -371,8 +373,11 @@ static void dispatch() {
       continue;
     }
 
-    if (thread_ptr->req->flags & TPTRAN) {
-      fux::tx_join(thread_ptr->req->gttid);
+    if ((thread_ptr->req->flags & TPTRAN) &&
+        !fux::tx_join(thread_ptr->req->gttid, thread_ptr->req->uid)) {
+      userlog("Service %s can not join the transaction", tpsvcinfo.name);
+      thread_ptr->reply(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
+      continue;
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
diff --git a/src/trx.h b/src/trx.h
index 268abcd..44ecb8b 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -14,12 +14,26 @@ namespace fux {
 
 namespace tx {
 fux::gttid gttid();
+// Tells apart transactions that had the same gttid at different times
+uint32_t uid();
 bool transactional();
+// Work done by this thread has to be ended with tx_end
+bool engaged();
 }  // namespace tx
 void tx_resume();
 bool tx_suspend();
-void tx_join(fux::gttid id);
-void tx_end(bool ok);
+// Returns false if the work can not be done in the transaction
+bool tx_join(fux::gttid id, uint32_t uid);
+// The service is over. Returns false if its work is not going to be committed
+bool tx_end(bool ok);
+// Nothing but rollback is possible for the transaction
+void tx_doom(fux::gttid id);
+
+inline uint32_t uid(const XID &xid) {
+  uint32_t id;
+  memcpy(&id, xid.data, sizeof(id));
+  return id;
+}
 
 inline std::string to_string(XID *xid) {
   char buf[32];
@@ -163,6 +177,12 @@ struct transaction_table {
     throw std::out_of_range("No free entries in transaction table");
   }
 
+  bool is_active(fux::gttid i, uint32_t uid) {
+    return i < len && (*this)[i].xid.formatID != -1 &&
+           (*this)[i].state == transaction::active &&
+           fux::uid((*this)[i].xid) == uid;
+  }
+
   fux::gttid find(XID &xid) {
     for (size_t i = 0; i < len; i++) {
       XID &x = (*this)[i].xid;
diff --git a/src/tx.cpp b/src/tx.cpp
index 930e505..a45e69b 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -22,6 +22,11 @@ extern "C" {
 extern struct xa_switch_t tmnull_switch;
 }
 
+namespace fux {
+// Forgets the calls made in the transaction that have no replies yet
+bool drop_calls(fux::gttid gttid);
+}  // namespace fux
+
 namespace fux::tm {
 enum xa_func { prepare, commit, rollback };
 }
@@ -85,6 +90,10 @@ struct tx_context {
   TXINFO info;
   fux::gttid gttid;
   bool associated;  // The RM knows that we work in the transaction
+  // The transaction the current service was called in
+  fux::gttid joined_gttid = fux::bad_gttid;
+  XID joined_xid;
+  bool joined() const { return active() && gttid == joined_gttid; }
   mib &mibcon_;
 };
 
@@ -332,7 +341,8 @@ static int outcome(const std::vector<branch> &branches, bool commit,
 static bool dissociate(long flags);
 
 int tx_commit() {
-  if (!getctxt().active()) {
+  // Only who started the transaction ends it
+  if (!getctxt().active() || getctxt().joined()) {
     return TX_PROTOCOL_ERROR;
   }
 
@@ -340,6 +350,10 @@ int tx_commit() {
   XID xid = getctxt().info.xid;
   bool commit = dissociate(TMSUCCESS);
   getctxt().notrx();
+  if (fux::drop_calls(gttid)) {
+    userlog("There are calls without replies, transaction is rolled back");
+    commit = false;
+  }
 
   std::vector<branch> branches1 = collect(gttid, commit);
   bool rolledback = !commit;
@@ -380,26 +394,30 @@ int tx_commit() {
   return change_state(rc);
 }
 
-int tx_rollback() {
-  if (!getctxt().active()) {
-    return TX_PROTOCOL_ERROR;
-  }
-
+static int complete_rollback() {
   auto gttid = getctxt().gttid;
   XID xid = getctxt().info.xid;
   dissociate(TMSUCCESS);
   getctxt().notrx();
+  fux::drop_calls(gttid);
 
   bool commit = false;
   std::vector<branch> branches = collect(gttid, commit);
   command(branches, &xid, fux::tm::rollback);
   auto rc = outcome(branches, false, false);
   release(gttid);
-  return change_state(rc == TX_ROLLBACK ? TX_OK : rc);
+  return rc == TX_ROLLBACK ? TX_OK : rc;
+}
+
+int tx_rollback() {
+  if (!getctxt().active() || getctxt().joined()) {
+    return TX_PROTOCOL_ERROR;
+  }
+  return change_state(complete_rollback());
 }
 
 // Only rollback is possible from now on
-static void doom(fux::gttid gttid) {
+void fux::tx_doom(fux::gttid gttid) {
   auto lock = getmib().data_lock();
   auto &t = getmib().transactions().at(gttid);
   if (t.state == transaction::active) {
@@ -440,7 +458,7 @@ int _tx_suspend(TXINFO *info) {
     return TX_PROTOCOL_ERROR;
   }
   if (!dissociate(TMSUSPEND)) {
-    doom(getctxt().gttid);
+    fux::tx_doom(getctxt().gttid);
     return TX_FAIL;
   }
   *info = getctxt().info;
@@ -504,36 +522,91 @@ int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 namespace fux {
 bool tx_suspend() {
   if (!dissociate(TMSUSPEND)) {
-    doom(getctxt().gttid);
+    tx_doom(getctxt().gttid);
     return false;
   }
   return true;
 }
 void tx_resume() {
   if (associate(TMRESUME) != XA_OK) {
-    doom(getctxt().gttid);
+    tx_doom(getctxt().gttid);
   }
 }
-void tx_end(bool ok) {
-  if (!getctxt().active()) {
-    return;
+bool tx_end(bool ok) {
+  auto &ctxt = getctxt();
+  if (ctxt.active() && !ctxt.joined()) {
+    // The service has left its own transaction unfinished
+    complete_rollback();
+    ctxt.leave();
+    ok = false;
   }
-  auto gttid = getctxt().gttid;
-  if (!dissociate(ok ? TMSUCCESS : TMFAIL) || !ok) {
-    doom(gttid);
+  if (ctxt.joined_gttid == fux::bad_gttid) {
+    return ok;
   }
-  getctxt().notrx();
-  getctxt().leave();
+
+  if (ctxt.joined()) {
+    ok = dissociate(ok ? TMSUCCESS : TMFAIL) && ok;
+    ctxt.leave();
+  } else {
+    // The service has left the transaction of its caller suspended
+    ctxt.info.xid = ctxt.joined_xid;
+    ctxt.associated = true;
+    dissociate(TMFAIL);
+    ok = false;
+  }
+  if (!ok) {
+    auto lock = getmib().data_lock();
+    auto &t = getmib().transactions();
+    if (t.is_active(ctxt.joined_gttid, uid(ctxt.joined_xid))) {
+      t.at(ctxt.joined_gttid).state = transaction::do_rollback;
+    }
+  }
+  ctxt.joined_gttid = fux::bad_gttid;
+  ctxt.notrx();
+  return ok;
 }
-void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
+bool tx_join(fux::gttid gttid, uint32_t uid) {
+  auto &ctxt = getctxt();
+  if (!ctxt.idle()) {
+    userlog("Can't join a transaction, tx_open() not called");
+    return false;
+  }
+
   TXINFO info;
-  info.xid = t.xid;
-  if (_tx_start(&info, TMJOIN) == TX_OK) {
-    getctxt().gttid = gttid;
+  {
+    auto lock = getmib().data_lock();
+    auto &t = getmib().transactions();
+    if (!t.is_active(gttid, uid)) {
+      userlog("Can't join the transaction, it is over");
+      return false;
+    }
+    info.xid = t.join(gttid, fux::tx::grpidx).xid;
+  }
+
+  ctxt.info.xid = info.xid;
+  // The first one in the group has nothing to join
+  auto xarc = associate(TMJOIN);
+  if (xarc == XAER_NOTA) {
+    xarc = associate(TMNOFLAGS);
+    if (xarc == XAER_DUPID) {
+      // Somebody else was faster
+      xarc = associate(TMJOIN);
+    }
   }
+  if (xarc != XA_OK) {
+    ctxt.notrx();
+    return false;
+  }
+  ctxt.enter();
+  ctxt.gttid = ctxt.joined_gttid = gttid;
+  ctxt.joined_xid = info.xid;
+  return true;
 }
 namespace tx {
+uint32_t uid() { return fux::uid(getctxt().info.xid); }
+bool engaged() {
+  return getctxt().active() || getctxt().joined_gttid != fux::bad_gttid;
+}
 fux::gttid gttid() { return getctxt().gttid; }
 bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
-- 
2.43.0


From 6317e7a22b84d2af86659ee8855c6279ead22914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 70/89] fix: tx_commit does not report a transaction that
 committed as a failure

---
 src/tx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index a45e69b..380fe0b 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -389,6 +389,10 @@ int tx_commit() {
   } else {
     command(branches2, &xid, fux::tm::rollback);
     rc = outcome(branches2, false, branches2.size() < branches1.size());
+    if (rc == TX_COMMITTED) {
+      // Every branch has decided to do what was asked for
+      rc = TX_OK;
+    }
   }
   release(gttid);
   return change_state(rc);
-- 
2.43.0


From 7bbee91a16ab51a17911f44c771ae95d99deee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:57 +0000
Subject: [PATCH 71/89] fix: a service that leaves calls without replies, or
 ends after its transaction, does not leave its branch behind

---
 src/tx.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 380fe0b..5c8e0b7 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -548,6 +548,10 @@ bool tx_end(bool ok) {
     return ok;
   }
 
+  if (drop_calls(ctxt.joined_gttid)) {
+    userlog("There are calls without replies, transaction is rolled back");
+    ok = false;
+  }
   if (ctxt.joined()) {
     ok = dissociate(ok ? TMSUCCESS : TMFAIL) && ok;
     ctxt.leave();
@@ -558,13 +562,20 @@ bool tx_end(bool ok) {
     dissociate(TMFAIL);
     ok = false;
   }
-  if (!ok) {
+  bool over;
+  {
     auto lock = getmib().data_lock();
     auto &t = getmib().transactions();
-    if (t.is_active(ctxt.joined_gttid, uid(ctxt.joined_xid))) {
+    over = !t.is_active(ctxt.joined_gttid, uid(ctxt.joined_xid));
+    if (!ok && !over) {
       t.at(ctxt.joined_gttid).state = transaction::do_rollback;
     }
   }
+  if (over) {
+    // It was rolled back, maybe before this branch has started
+    xasw->xa_rollback_entry(&ctxt.joined_xid, fux::tx::grpno, TMNOFLAGS);
+    ok = false;
+  }
   ctxt.joined_gttid = fux::bad_gttid;
   ctxt.notrx();
   return ok;
-- 
2.43.0


From 86122402889b0b9382108ec94e8724705be8b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:04 +0000
Subject: [PATCH 72/89] fix: userlog overflowed its buffer, split long lines
 and changed errno

---
 src/userlog.cpp | 64 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..60a74ae 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -3,6 +3,8 @@
 
 #include <userlog.h>
 
+#include <errno.h>
+#include <fcntl.h>
 #include <stdarg.h>
 #include <sys/time.h>
 #include <sys/utsname.h>
@@ -31,7 +33,29 @@ static std::string getname() {
   return buf.nodename;
 }
 
+// All of it at once, so that lines of others do not get in between
+static bool append(const char *file, const std::string &line) {
+  int fd = open(file, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
+  if (fd == -1) {
+    return false;
+  }
+  auto _ = gsl::finally([&] { close(fd); });
+
+  size_t off = 0;
+  while (off < line.size()) {
+    auto n = write(fd, line.data() + off, line.size() - off);
+    if (n == -1 && errno != EINTR) {
+      return false;
+    }
+    off += n == -1 ? 0 : n;
+  }
+  return true;
+}
+
 int userlog(const char *fmt, ...) {
+  auto saved_errno = errno;
+  auto _ = gsl::finally([&] { errno = saved_errno; });
+
   static std::string nodename = getname();
 
   auto ULOGPFX = fux::util::getenv("ULOGPFX", "ULOG");
@@ -47,32 +71,32 @@ int userlog(const char *fmt, ...) {
   snprintf(logfile, sizeof(logfile), "%s.%02d%02d%02d", ULOGPFX.c_str(),
            timeinfo.tm_mon + 1, timeinfo.tm_mday, timeinfo.tm_year % 100);
 
-  FILE *fout = fopen(logfile, "a");
-  if (fout == nullptr) {
-    return -1;
-  }
-  auto _ = gsl::finally([&] { fclose(fout); });
-
   char buf[BUFSIZ];
-  ssize_t n;
   if (millisec) {
-    n = snprintf(buf, sizeof(buf),
-                 "%02d%02d%02d.%03d.%s:%s.%d: ", timeinfo.tm_hour,
-                 timeinfo.tm_min, timeinfo.tm_sec, int(tv.tv_usec / 1000),
-                 nodename.c_str(), proc_name, getpid());
+    snprintf(buf, sizeof(buf), "%02d%02d%02d.%03d.", timeinfo.tm_hour,
+             timeinfo.tm_min, timeinfo.tm_sec, int(tv.tv_usec / 1000));
   } else {
-    n = snprintf(buf, sizeof(buf), "%02d%02d%02d.%s:%s.%d: ", timeinfo.tm_hour,
-                 timeinfo.tm_min, timeinfo.tm_sec, nodename.c_str(), proc_name,
-                 getpid());
+    snprintf(buf, sizeof(buf), "%02d%02d%02d.", timeinfo.tm_hour,
+             timeinfo.tm_min, timeinfo.tm_sec);
   }
+  std::string line = buf + nodename + ":" + proc_name + "." +
+                     std::to_string(getpid()) + ": ";
 
-  va_list ap;
+  va_list ap, again;
   va_start(ap, fmt);
-  n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
+  va_copy(again, ap);
+  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
+  if (n >= 0 && size_t(n) < sizeof(buf)) {
+    line.append(buf, n);
+  } else if (n >= 0) {
+    auto prefix = line.size();
+    line.resize(prefix + n + 1);
+    vsnprintf(&line[prefix], n + 1, fmt, again);
+    line.resize(prefix + n);
+  }
+  va_end(again);
   va_end(ap);
-  buf[n++] = '\n';
-  buf[n] = 0;
-  fwrite(buf, n, 1, fout);
+  line += '\n';
 
-  return 0;
+  return append(logfile, line) ? 0 : -1;
 }
-- 
2.43.0


From 2cd32ced4fd0ab95bd0d6f05a93696ee49f61f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 73/89] fix: tmloadcf -n does not write, and a refused or
 interrupted load keeps the previous configuration

---
 src/tmloadcf.cpp | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 9999622..f8d6f7e 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -1,10 +1,14 @@
 // This file is part of Fuxedo
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
+#include <unistd.h>
+
 #include <clara.hpp>
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <iterator>
+#include <sstream>
 #include <string>
 #include <system_error>
 
@@ -37,6 +41,24 @@ long require(T &dict, const std::string &key, long min, long max,
   return value;
 }
 
+// Replaces the whole file or leaves it as it was
+static void save(const std::string &outfile, const tuxconfig &tuxcfg,
+                 const std::string &text) {
+  const auto tmpfile = outfile + "." + std::to_string(getpid());
+  try {
+    std::ofstream fout;
+    fout.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    fout.open(tmpfile, std::ios::binary);
+    fout.write(reinterpret_cast<const char *>(&tuxcfg), sizeof(tuxcfg));
+    fout.write(text.data(), text.size());
+    fout.close();
+    fs::rename(tmpfile, outfile);
+  } catch (...) {
+    unlink(tmpfile.c_str());
+    throw;
+  }
+}
+
 int main(int argc, char *argv[]) {
   bool show_help = false;
   bool noop = false;
@@ -69,11 +91,15 @@ int main(int argc, char *argv[]) {
     fin.exceptions(std::ifstream::failbit | std::ifstream::badbit);
     fin.open(file);
 
-    ubbreader p(fin);
+    const std::string text{std::istreambuf_iterator<char>(fin),
+                           std::istreambuf_iterator<char>()};
+
+    std::istringstream tin(text);
+    ubbreader p(tin);
     config = p.parse();
 
-    tuxconfig tuxcfg;
-    tuxcfg.size = sizeof(tuxcfg) + fs::file_size(file);
+    tuxconfig tuxcfg{};
+    tuxcfg.size = sizeof(tuxcfg) + text.size();
     tuxcfg.ipckey = std::stoi(config.resources.at("IPCKEY"));
     tuxcfg.maxservers = require(config.resources, "MAXSERVERS", 1, 8192, 50);
     tuxcfg.maxservices =
@@ -83,18 +109,16 @@ int main(int argc, char *argv[]) {
     tuxcfg.maxaccessers =
         require(config.resources, "MAXACCESSERS", 1, 32768, 100);
 
-    std::ofstream fout(outfile, std::ios::binary);
-    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
-
-    fin.clear();
-    fin.seekg(0);
-    fout << fin.rdbuf();
-
     //    tuxcfg.maxqueues = std::stoi(config.resources.at("MAXQUEUES"));
 
     mib m(tuxcfg, fux::mib::in_heap());
 
     ubb2mib(config, m);
+
+    // Only a configuration that can be used replaces the previous one
+    if (!noop) {
+      save(outfile, tuxcfg, text);
+    }
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
     return -1;
-- 
2.43.0


From e27b803556590da5119a6b181d0368a21a1504f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 74/89] fix: MAXSERVICES above 65535 was cut to 16 bits

---
 src/mib.cpp    | 8 ++++++--
 src/mibtypes.h | 2 +-
 src/ubb.h      | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index ca1ebee..704229c 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <new>
 #include <stdexcept>
 #include <string>
 
@@ -105,7 +106,7 @@ size_t mib::needed(const tuxconfig &cfg) {
          nearest64(cfg.maxservers * sizeof(server)) +
          nearest64(cfg.maxqueues * sizeof(queue)) +
          nearest64(cfg.maxservices * sizeof(service)) +
-         nearest64(cfg.maxservers * cfg.maxservices * sizeof(advertisement)) +
+         nearest64(sizeof(advertisement) * cfg.maxservers * cfg.maxservices) +
          nearest64(cfg.maxgroups * sizeof(group)) +
          nearest64(cfg.maxaccessers * sizeof(accesser)) +
          nearest64(transaction_table::needed(100, cfg.maxgroups));
@@ -118,7 +119,7 @@ void mib::init_memory() {
   off +=
       init(mem_->services, cfg_.maxservices, off - offsetof(mibmem, services));
   off += init(mem_->groups, cfg_.maxgroups, off - offsetof(mibmem, groups));
-  off += init(mem_->advertisements, cfg_.maxservers * cfg_.maxservices,
+  off += init(mem_->advertisements, size_t(cfg_.maxservers) * cfg_.maxservices,
               off - offsetof(mibmem, advertisements));
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
@@ -519,6 +520,9 @@ void mib::initialize(void (*populate)(mib &)) {
 
 mib::mib(const tuxconfig &cfg, fux::mib::in_heap) : cfg_(cfg) {
   mem_ = reinterpret_cast<mibmem *>(calloc(1, needed(cfg_)));
+  if (mem_ == nullptr) {
+    throw std::bad_alloc();
+  }
   init_memory();
 }
 
diff --git a/src/mibtypes.h b/src/mibtypes.h
index 96872b5..f972247 100644
--- a/src/mibtypes.h
+++ b/src/mibtypes.h
@@ -36,7 +36,7 @@ struct t_domain {
 
   uint32_t trantime;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
diff --git a/src/ubb.h b/src/ubb.h
index c7cb9e2..bb8dedb 100644
--- a/src/ubb.h
+++ b/src/ubb.h
@@ -33,7 +33,7 @@ struct tuxconfig {
   size_t size;  // Size and "signature" at the same time
   uint32_t ipckey;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
-- 
2.43.0


From 9a1456ed8467216ae55bc67de4a5028ca6ee03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 75/89] fix: numbers in the configuration file may not be
 followed by something else

---
 src/tmloadcf.cpp |  5 +++--
 src/ubb2mib.cpp  | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index f8d6f7e..fb5fb89 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -26,6 +26,7 @@ namespace fs = std::experimental::filesystem;
 #endif
 
 void ubb2mib(ubbconfig &u, mib &m);
+long ubb_number(const std::string &key, const std::string &text);
 
 template <typename T>
 long require(T &dict, const std::string &key, long min, long max,
@@ -34,7 +35,7 @@ long require(T &dict, const std::string &key, long min, long max,
     return defvalue;
     //    throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
+  auto value = ubb_number(key, dict[key]);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -100,7 +101,7 @@ int main(int argc, char *argv[]) {
 
     tuxconfig tuxcfg{};
     tuxcfg.size = sizeof(tuxcfg) + text.size();
-    tuxcfg.ipckey = std::stoi(config.resources.at("IPCKEY"));
+    tuxcfg.ipckey = ubb_number("IPCKEY", config.resources.at("IPCKEY"));
     tuxcfg.maxservers = require(config.resources, "MAXSERVERS", 1, 8192, 50);
     tuxcfg.maxservices =
         require(config.resources, "MAXSERVICES", 1, 1048575, 100);
diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0a791a8..2238cdb 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -10,12 +10,21 @@
 #include "misc.h"
 #include "ubbreader.h"
 
+long ubb_number(const std::string &key, const std::string &text) {
+  size_t used = 0;
+  auto value = std::stol(text, &used);
+  if (used != text.size()) {
+    throw std::invalid_argument(key + " is not a number");
+  }
+  return value;
+}
+
 template <typename T>
 static long checked_get(T &dict, const std::string &key, long min, long max) {
   if (dict.find(key) == dict.end()) {
     throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
+  auto value = ubb_number(key, dict[key]);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -28,7 +37,7 @@ static long checked_get(T &dict, const std::string &key, long min, long max,
   if (dict.find(key) == dict.end()) {
     return defvalue;
   }
-  auto value = std::stol(dict[key]);
+  auto value = ubb_number(key, dict[key]);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -76,7 +85,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
     scanunit += "000";
   }
 
-  m.mach().blocktime = std::stol(blocktime) * std::stol(scanunit);
+  m.mach().blocktime = ubb_number("BLOCKTIME", blocktime) *
+                       ubb_number("SCANUNIT", scanunit);
 
   auto &domain = m.domain();
   domain.ipckey = m.conf().ipckey;
-- 
2.43.0


From 098d8ad25dd45682008997af9dfb083dd7e17ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 76/89] fix: unknown sections and entries outside of sections
 are refused

---
 src/ubbreader.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ubbreader.h b/src/ubbreader.h
index 0d75c0e..7a2169d 100644
--- a/src/ubbreader.h
+++ b/src/ubbreader.h
@@ -21,6 +21,9 @@ class ubbreader : public basic_parser {
 
       if (parse_till_eol()) {
       } else if (parse_section(&tmp)) {
+        if (!known(tmp)) {
+          throw basic_parser_error("unknown section", row_, tmp);
+        }
         section = tmp;
         tmp.clear();
       } else if (parameter(&object)) {
@@ -38,6 +41,9 @@ class ubbreader : public basic_parser {
           }
           config.resources[object] = value;
         } else {
+          if (section.empty()) {
+            throw basic_parser_error("section expected", row_, "*SECTION");
+          }
           ubb_params ubbparams;
           parse_params(&ubbparams);
           if (section == "SERVERS") {
@@ -62,6 +68,18 @@ class ubbreader : public basic_parser {
   }
 
  private:
+  // Sections that exist, not all of them are used
+  static bool known(const std::string &section) {
+    for (auto name :
+         {"RESOURCES", "MACHINES", "GROUPS", "SERVERS", "SERVICES", "NETWORK",
+          "NETGROUPS", "INTERFACES", "ROUTING"}) {
+      if (section == name) {
+        return true;
+      }
+    }
+    return false;
+  }
+
   bool parse_till_eol() {
     whitespace();
     if (accept('#')) {
-- 
2.43.0


From 597f63ab7b8a480afe5703777459919de60846a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 77/89] fix: two groups with one name and MAX below MIN are
 refused

---
 src/ubb2mib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 2238cdb..7519b7f 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -112,6 +112,9 @@ void ubb2mib(ubbconfig &u, mib &m) {
   for (auto &grpconf : u.groups) {
     auto grpno = checked_get(grpconf.second, "GRPNO", 1, 30000);
 
+    if (group_ids.find(grpconf.first) != group_ids.end()) {
+      throw std::logic_error("Duplicate group " + grpconf.first);
+    }
     auto &group = groups.at(
         m.make_group(grpno, grpconf.first, grpconf.second["OPENINFO"],
                      grpconf.second["CLOSEINFO"], grpconf.second["TMSNAME"]));
@@ -132,7 +135,7 @@ void ubb2mib(ubbconfig &u, mib &m) {
   for (auto &srvconf : u.servers) {
     auto basesrvid = checked_get(srvconf.second, "SRVID", 1, 30000);
     auto min = checked_get(srvconf.second, "MIN", 1, 1000, 1);
-    auto max = checked_get(srvconf.second, "MAX", 1, 1000, 1);
+    auto max = checked_get(srvconf.second, "MAX", min, 1000, min);
     auto minthreads =
         checked_get(srvconf.second, "MINDISPATCHTHREADS", 1, 1000, 1);
     auto maxthreads =
-- 
2.43.0


From a6ac74e52c299e4d0e1f23050cd59a5b5cfc74b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 78/89] fix: rounding up does not recurse once per 64 bytes

---
 src/misc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index d55ac9a..352609a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -188,8 +188,8 @@ inline std::vector<std::string> split(const std::string &s,
 }
 }  // namespace fux
 
-static constexpr size_t nearest(size_t n, size_t what, size_t mult = 1) {
-  return n <= (mult * what) ? (mult * what) : nearest(n, what, mult + 1);
+static constexpr size_t nearest(size_t n, size_t what) {
+  return n <= what ? what : (n + what - 1) / what * what;
 }
 
 static constexpr size_t nearest64(size_t n) { return nearest(n, 64); }
-- 
2.43.0


From d1db47dbe562fccbb01961669ce2e39ec28abf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 79/89] fix: processes that leave an application that is being
 shut down do not abort

---
 src/client.cpp | 11 ++++++++---
 src/ipc.h      |  8 +++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 76d0d19..6c01efc 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -59,9 +59,14 @@ class client {
   }
 
   ~client() {
-    auto lock = mibcon_.data_lock();
-    fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
-    mibcon_.accessers().at(client_).invalidate();
+    try {
+      auto lock = mibcon_.data_lock();
+      fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
+      mibcon_.accessers().at(client_).invalidate();
+    } catch (const std::exception &e) {
+      // The application is shut down and there is nothing to leave
+      userlog("Failed to leave the application: %s", e.what());
+    }
   }
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
diff --git a/src/ipc.h b/src/ipc.h
index a5b7b15..aff077a 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -32,7 +32,13 @@ class scoped_semlock {
   scoped_semlock(int semid, int num) : semid_(semid), num_(num) {
     semlock(semid_, num_);
   }
-  ~scoped_semlock() { semunlock(semid_, num_); }
+  ~scoped_semlock() {
+    try {
+      semunlock(semid_, num_);
+    } catch (const std::system_error &) {
+      // The application is shut down and the semaphore is gone
+    }
+  }
   scoped_semlock(scoped_semlock &&) = default;
   scoped_semlock &operator=(scoped_semlock &&) = default;
 
-- 
2.43.0


From 5e3e1e615ad2b76fad76cb0d76914146bc687093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 80/89] fix: tmboot and tmipcrm asked for help only print it

---
 src/tmboot.cpp  | 4 ++++
 src/tmipcrm.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 8814da1..4ceb241 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -109,6 +109,10 @@ int main(int argc, char *argv[]) {
     std::cerr << parser;
     return -1;
   }
+  if (show_help) {
+    std::cout << parser;
+    return 0;
+  }
 
   try {
     mib &m = getmib();
diff --git a/src/tmipcrm.cpp b/src/tmipcrm.cpp
index acdc517..6390ae1 100644
--- a/src/tmipcrm.cpp
+++ b/src/tmipcrm.cpp
@@ -48,6 +48,10 @@ int main(int argc, char *argv[]) {
     std::cerr << parser;
     return -1;
   }
+  if (show_help) {
+    std::cout << parser;
+    return 0;
+  }
 
   try {
     auto cfg = getconfig();
-- 
2.43.0


From b17e68e2f5c21edc82648dbc064cc5bbe2735f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 81/89] fix: tmboot -i and -g boot only the servers they name

---
 src/tmboot.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 4ceb241..b00770d 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -126,9 +126,23 @@ int main(int argc, char *argv[]) {
 
     setenv("PATH", path.str().c_str(), 1);
 
+    auto grpidx = m.badoff;
+    if (!grpname.empty()) {
+      grpidx = m.group_index(grpname);
+      if (grpidx == m.badoff) {
+        throw std::invalid_argument("Unknown server group " + grpname);
+      }
+    }
+
     auto servers = m.servers();
     for (size_t i = 0; i < servers->len; i++) {
       auto &srv = servers[i];
+      if (srvid != -1 && srvid != srv.srvid) {
+        continue;
+      }
+      if (grpidx != m.badoff && m.groups().at(grpidx).grpno != srv.grpno) {
+        continue;
+      }
       if (srv.autostart) {
         start(srv, no, d1);
       }
-- 
2.43.0


From 309d4d3bd776199255da914129b6c51dd6236ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 82/89] fix: tmipcrm without an answer ends

---
 src/tmipcrm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tmipcrm.cpp b/src/tmipcrm.cpp
index 6390ae1..f35d556 100644
--- a/src/tmipcrm.cpp
+++ b/src/tmipcrm.cpp
@@ -73,6 +73,9 @@ int main(int argc, char *argv[]) {
     } else {
       while (true) {
         std::string in = input("Remove IPC resources (y/n)?: ");
+        if (!std::cin) {
+          break;
+        }
         if (in.size() == 1) {
           if (in[0] == 'y') {
             mib.remove(q, m, s);
-- 
2.43.0


From f0416a1f5d01c2b620aabc7446db89fb61e75030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 83/89] fix: tmipcrm told not to remove anything does not leave
 empty tables

---
 src/tmipcrm.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tmipcrm.cpp b/src/tmipcrm.cpp
index f35d556..d16b943 100644
--- a/src/tmipcrm.cpp
+++ b/src/tmipcrm.cpp
@@ -54,9 +54,8 @@ int main(int argc, char *argv[]) {
   }
 
   try {
-    auto cfg = getconfig();
-
-    mib mib(cfg);
+    // If nothing was booted, what it creates may be used by others later
+    auto &mib = getmib();
     std::cout << "Looking for IPC resources in TUXCONFIG file "
               << std::getenv("TUXCONFIG") << std::endl;
     std::vector<int> q, m, s;
-- 
2.43.0


From 48fa4b39195489fba898218d29983f5ed0a83a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 84/89] fix: the MASTER of the configuration is known to the
 application

---
 src/ubb2mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 7519b7f..93c2c70 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -90,6 +90,7 @@ void ubb2mib(ubbconfig &u, mib &m) {
 
   auto &domain = m.domain();
   domain.ipckey = m.conf().ipckey;
+  checked_copy(u.resources["MASTER"], domain.master);
   domain.maxservers = m.conf().maxservers;
   domain.maxservices = m.conf().maxservices;
   domain.maxqueues = m.conf().maxqueues;
-- 
2.43.0


From 30b846f63a33fd417790bfbcd0b54b71e3af8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 85/89] fix: administrative queries report whether they
 succeeded

---
 src/BBL.cpp       |  4 ++--
 src/tpadmcall.cpp | 21 ++++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index c79e4a0..1c00064 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -127,7 +127,7 @@ extern "C" void TMIB(TPSVCINFO *svcinfo) {
   fux::fml32buf rq(svcinfo);
   fux::fml32buf rs;
 
-  tpadmcall(rq.ptr(), rs.ptrptr(), 0);
+  auto rc = tpadmcall(rq.ptr(), rs.ptrptr(), 0);
 
-  fux::tpreturn(TPSUCCESS, 0, rs);
+  fux::tpreturn(rc == -1 ? TPFAIL : TPSUCCESS, 0, rs);
 }
diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..9e96e34 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -263,13 +263,20 @@ int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
   fml32buf in(&inbuf);
   fml32buf out(outbuf);
 
-  auto klass = in.get<std::string>(TA_CLASS, 0);
-  auto operation = in.get<std::string>(TA_OPERATION, 0);
-
-  auto func = implemented.find({klass, operation});
-  if (func == implemented.end()) {
-  } else {
-    func->second(in, out);
+  try {
+    auto klass = in.get<std::string>(TA_CLASS, 0, "");
+    auto operation = in.get<std::string>(TA_OPERATION, 0, "");
+
+    auto func = implemented.find({klass, operation});
+    if (func != implemented.end()) {
+      func->second(in, out);
+      fux::atmi::reset_tperrno();
+      return 0;
+    }
+    TPERROR(TPEMIB, "Operation %s of class %s is not supported",
+            operation.c_str(), klass.c_str());
+  } catch (const std::exception &e) {
+    TPERROR(TPEMIB, "Administrative request failed: %s", e.what());
   }
 
   return -1;
-- 
2.43.0


From 9aaaca350a19555d751b7129907103987cc340a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 86/89] fix: T_SERVER queries name the group of each server

---
 src/tpadmcall.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9e96e34..051d0f6 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -136,11 +136,14 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < srv.length(); i++) {
     auto &server = srv.at(i);
+    // BBL does not belong to a group
+    auto group = m.find_group(server.grpno);
 
-    out.put(TA_SRVGRP, oc, m.groups().at(server.group_idx).srvgrp);
+    out.put(TA_SRVGRP, oc,
+            group == mib::badoff ? "" : m.groups().at(group).srvgrp);
     out.put(TA_SRVID, oc, server.srvid);
     out.put(TA_SERVERNAME, oc, server.servername);
-    out.put(TA_GRPNO, oc, m.groups().at(server.group_idx).grpno);
+    out.put(TA_GRPNO, oc, server.grpno);
     out.put(TA_STATE, oc, to_string(server.state));
     out.put(TA_BASESRVID, oc, server.basesrvid);
     out.put(TA_CLOPT, oc, server.clopt);
-- 
2.43.0


From 87d01dd4a2df1f5c4fc7b214ea2609cd9b6c668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 87/89] fix: T_SVCGRP queries leave out services that are not
 offered any more

---
 src/tpadmcall.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 051d0f6..cd620a1 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -174,11 +174,15 @@ static void t_svcgrp_get(fml32buf &in, fml32buf &out) {
   auto &m = getmib();
   auto svcgrp = m.advertisements();
   auto srv = m.servers();
-  auto grp = m.groups();
+  // Advertisements come and go
+  auto lock = m.data_lock();
 
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < svcgrp.length(); i++) {
     auto &adv = svcgrp.at(i);
+    if (adv.service == mib::badoff) {
+      continue;
+    }
     auto &service = m.services().at(adv.service);
     out.put(TA_SERVICENAME, oc, service.servicename);
     //    out.put(TA_SRVGRP, oc,
-- 
2.43.0


From a4f408bbdb199139a57b6e66446aaec00622c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 88/89] fix: T_GROUP queries list the groups

---
 src/tpadmcall.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index cd620a1..e2b1c57 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -243,16 +243,23 @@ static void t_queue_get(fml32buf &in, fml32buf &out) {
 }
 
 static void t_group_get(fml32buf &in, fml32buf &out) {
-  tuxconfig tuxcfg;
-  tuxcfg.size = 0;
-  tuxcfg.ipckey = 0;
-  tuxcfg.maxservers = 1;
-  tuxcfg.maxservices = 1;
-  tuxcfg.maxgroups = 1;
-  tuxcfg.maxqueues = 1;
-  mib m(tuxcfg, fux::mib::in_heap());
-
+  auto &m = getmib();
   auto groups = m.groups();
+
+  FLDOCC32 oc = 0;
+  for (size_t i = 0; i < groups.length(); i++) {
+    auto &group = groups.at(i);
+    out.put(TA_SRVGRP, oc, group.srvgrp);
+    out.put(TA_GRPNO, oc, group.grpno);
+    out.put(TA_LMID, oc, m.mach().lmid);
+    out.put(TA_OPENINFO, oc, group.openinfo);
+    out.put(TA_CLOSEINFO, oc, group.closeinfo);
+    out.put(TA_TMSNAME, oc, group.tmsname);
+    oc++;
+  }
+
+  out.put(TA_ERROR, 0, TAOK);
+  out.put(TA_OCCURS, 0, oc);
 }
 
 static std::map<std::tuple<std::string, std::string>,
-- 
2.43.0


From 9b20c1b236851e51b2a1915aa5de17323e732a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:52 +0000
Subject: [PATCH 89/89] fix: T_SERVER queries report the SRVID, MIN and MAX of
 the configuration

They were always 0.
---
 src/ubb2mib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 93c2c70..e59ff88 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -152,6 +152,9 @@ void ubb2mib(ubbconfig &u, mib &m) {
       auto &server = servers.at(m.make_server(srvid, grpno, srvconf.first,
                                               srvconf.second["CLOPT"], rqaddr));
       server.autostart = n < min;
+      server.basesrvid = basesrvid;
+      server.min = min;
+      server.max = max;
       server.mindispatchthreads = minthreads;
       server.maxdispatchthreads = maxthreads;
     }
-- 
2.43.0

