// scratch directories and small file helpers for the checkers
#pragma once
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "mc.h"
namespace scratch {
inline std::string &dir() { static std::string d; return d; }
inline std::string make() {
  char t[] = "/tmp/mcXXXXXX";
  dir() = mkdtemp(t);
  return dir();
}
// removes a flat scratch directory (files and one level of subdirectories)
inline void drop(const std::string &d, int depth = 0) {
  if (d.compare(0, 7, "/tmp/mc") != 0 || depth > 2) return;
  if (DIR *x = opendir(d.c_str())) {
    while (dirent *e = readdir(x)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      std::string p = d + "/" + e->d_name;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) drop(p, depth + 1);
      else unlink(p.c_str());
    }
    closedir(x);
  }
  rmdir(d.c_str());
}
inline void put(const std::string &p, const std::string &s) {
  FILE *f = fopen(p.c_str(), "w");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
inline bool get(const std::string &p, std::string &s) {
  FILE *f = fopen(p.c_str(), "r");
  if (!f) return false;
  s.clear();
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
  fclose(f);
  return true;
}
inline std::vector<std::string> ls(const std::string &d) {
  std::vector<std::string> v;
  if (DIR *x = opendir(d.c_str())) {
    while (dirent *e = readdir(x))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    closedir(x);
  }
  return v;
}
}  // namespace scratch
