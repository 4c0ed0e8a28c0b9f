/* Memory functions of the simulated processes: tell the core about accesses.
   Compiled without instrumentation; linked into every simulated object. */
#include <stddef.h>
#include "sim.h"

static inline void *cpy(void *d, const void *s, size_t n) {
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memcpy(void *d, const void *s, size_t n) {
  sim_mem_write(d, n);
  sim_mem_read(s, n);
  return cpy(d, s, n);
}
void *memmove(void *d, const void *s, size_t n) {
  sim_mem_write(d, n);
  sim_mem_read(s, n);
  char *dd = d;
  const char *ss = s;
  if (dd <= ss || dd >= ss + n) return cpy(d, s, n);
  dd += n - 1;
  ss += n - 1;
  __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  return d;
}
void *memset(void *d, int c, size_t n) {
  sim_mem_write(d, n);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
static size_t len(const char *s, size_t max) {
  size_t n = 0;
  while (n < max && s[n]) n++;
  return n;
}
size_t strlen(const char *s) {
  size_t n = len(s, (size_t)-1);
  sim_mem_read(s, n + 1);
  return len(s, (size_t)-1);
}
size_t strnlen(const char *s, size_t max) {
  size_t n = len(s, max);
  sim_mem_read(s, n < max ? n + 1 : n);
  return len(s, max);
}
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  sim_mem_read(a, n);
  sim_mem_read(b, n);
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int strncmp(const char *a, const char *b, size_t n) {
  size_t la = len(a, n), lb = len(b, n), m = la < lb ? la : lb;
  sim_mem_read(a, m < n ? m + 1 : m);
  sim_mem_read(b, m < n ? m + 1 : m);
  for (size_t i = 0; i < n; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) break;
  }
  return 0;
}
int strcmp(const char *a, const char *b) { return strncmp(a, b, (size_t)-1 >> 1); }
char *strcpy(char *d, const char *s) {
  memcpy(d, s, strlen(s) + 1);
  return d;
}
char *strncpy(char *d, const char *s, size_t n) {
  size_t l = strnlen(s, n);
  memcpy(d, s, l);
  memset(d + l, 0, n - l);
  return d;
}
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *x = s;
  sim_mem_read(s, n);
  for (size_t i = 0; i < n; i++)
    if (x[i] == (unsigned char)c) return (void *)(x + i);
  return 0;
}
