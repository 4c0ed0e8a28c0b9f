// Actors of F07 (threads): lookups of field names and numbers from several
// threads, the first ones included, racing with loading and unloading.
#include <fcntl.h>
#include <pthread.h>
#include <unistd.h>
#include <algorithm>
#include "act.h"

namespace {
// /tables/one: *base 100, then ALPHA 1 string, BETA 2 long; /tables/two: GAMMA 3 carray
const FLDID32 kAlpha = (5u << 24) | 101, kBeta = (1u << 24) | 102, kGamma = (6u << 24) | 3;
struct Op {
  const char *name;
  void (*fn)(bool keeps);
};
void id(const char *n, FLDID32 want) {
  Ferror32 = 0;
  FLDID32 got = Fldid32((char *)n);
  if (got != want || (want == BADFLDID && Ferror32 != FBADNAME)) sim_fail("Fldid32(%s) gave %u instead of %u, Ferror32 %d", n, got, want, Ferror32);
}
void name(FLDID32 f, const char *want, bool keeps) {
  Ferror32 = 0;
  char *got = Fname32(f);
  if (!want) {
    if (got || Ferror32 != FBADFLD) sim_fail("Fname32(%u) of an unknown id gave %s, Ferror32 %d", f, got ? got : "NULL", Ferror32);
  } else if (!got || (keeps && strcmp(got, want) != 0))
    sim_fail("Fname32(%u) gave %s instead of %s, Ferror32 %d", f, got ? got : "NULL", want, Ferror32);
}
const Op ops[] = {
    {"id of the first", [](bool) { id("ALPHA", kAlpha); }},
    {"id of the last", [](bool) { id("GAMMA", kGamma); }},
    {"id of an unknown", [](bool) { id("NOSUCH", BADFLDID); }},
    {"name of the last", [](bool k) { name(kGamma, "GAMMA", k); }},
    {"name of an unknown", [](bool k) { name(kBeta + 1, nullptr, k); }},
    {"unload names", [](bool) { Fnmid_unload32(); }},
    {"unload ids", [](bool) { Fidnm_unload32(); }},
};
const int kLookups = 5;
struct Job {
  int ops[3], n;
  bool keeps;
};
void *work(void *a) {
  Job *j = (Job *)a;
  for (int i = 0; i < j->n; i++) {
    ops[j->ops[i]].fn(j->keeps);
    sim_log("did", j->ops[i], 0, "");
  }
  return nullptr;
}
void file(const char *path, const char *text) {
  int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd == -1 || write(fd, text, strlen(text)) != (ssize_t)strlen(text)) sim_fail("no table");
  close(fd);
}
}  // namespace

// arg: threads * 1000 + operations per thread * 100 + warm * 10 + unloads
//   warm 1: names and ids are loaded before, 2: ids only, 3: loaded and both unloaded
extern "C" int fld_threads(int arg) {
  int threads = arg / 1000, per = arg / 100 % 10, warm = arg / 10 % 10, unloads = arg % 10;
  file("/tmp/one", "# first\n*base 100\nALPHA 1 string - a\nBETA 2 long - b\n");
  file("/tmp/two", "GAMMA 3 carray\n");
  if (warm == 1) id("ALPHA", kAlpha), name(kAlpha, "ALPHA", true);
  if (warm == 2) name(kAlpha, "ALPHA", true), Fnmid_unload32();
  if (warm == 3) id("ALPHA", kAlpha), name(kAlpha, "ALPHA", true), Fnmid_unload32(), Fidnm_unload32();
  sim_ready();
  Job jobs[3];
  pthread_t t[3];
  bool keeps = true;
  // the programs of the threads, in any order only once
  for (int i = 0; i < threads; i++) {
    jobs[i].n = per;
    for (int k = 0; k < per; k++) {
      jobs[i].ops[k] = sim_choose(unloads ? kLookups + unloads : kLookups, "operation");
      if (jobs[i].ops[k] == 6) keeps = false;  // the text of a name is gone once ids are unloaded
    }
    if (i && std::lexicographical_compare(jobs[i].ops, jobs[i].ops + per, jobs[i - 1].ops, jobs[i - 1].ops + per)) return 0;
  }
  for (int i = 0; i < threads; i++) jobs[i].keeps = keeps;
  for (int i = 0; i < threads; i++)
    if (pthread_create(&t[i], nullptr, work, &jobs[i]) != 0) sim_fail("no thread");
  for (int i = 0; i < threads; i++) pthread_join(t[i], nullptr);
  // usable afterwards
  id("ALPHA", kAlpha), id("BETA", kBeta), id("GAMMA", kGamma), id("NOSUCH", BADFLDID);
  name(kAlpha, "ALPHA", true), name(kBeta, "BETA", true), name(kGamma, "GAMMA", true), name(kBeta + 1, nullptr, true);
  sim_log("end", 0, 0, "");
  return 0;
}
