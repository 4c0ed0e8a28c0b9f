// M04 (one process): what a call of userlog() adds to the log, for every length
// of its parts, contents, settings and histories; under AddressSanitizer.
#include <dirent.h>
#include <errno.h>
#include <map>
#include <regex>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <userlog.h>
#include "../lib/mc.h"

using std::string;
// a clock that can be moved to the next day
static long g_shift;
extern "C" {
int gettimeofday(struct timeval *tv, void *tz) noexcept {
  long r = syscall(SYS_gettimeofday, tv, tz);
  if (tv) tv->tv_sec += g_shift;
  return r;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  long r = syscall(SYS_clock_gettime, c, ts);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ts->tv_sec += g_shift;
  return r;
}
time_t time(time_t *t) noexcept {
  timeval tv;
  gettimeofday(&tv, nullptr);
  if (t) *t = tv.tv_sec;
  return tv.tv_sec;
}
}
namespace {
uint64_t n = 0, states = 0;
string dir;
void clean() {
  if (DIR *d = opendir(dir.c_str())) {
    while (auto *e = readdir(d))
      if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str());
    closedir(d);
  }
}
std::map<string, string> files() {
  std::map<string, string> r;
  DIR *d = opendir(dir.c_str());
  while (auto *e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    FILE *f = fopen((dir + "/" + e->d_name).c_str(), "rb");
    string s;
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof(b), f)) > 0) s.append(b, k);
    fclose(f);
    r[e->d_name] = s;
  }
  closedir(d);
  return r;
}
string stamp(const char *format, const timeval &tv) {
  struct tm tm;
  localtime_r(&tv.tv_sec, &tm);
  char b[64];
  strftime(b, sizeof(b), format, &tm);
  return b;
}
const char *node() {
  static struct utsname u;
  uname(&u);
  return u.nodename;
}
// what the line may be: text of the prefix for the time before and after the call
bool is_line(const string &line, const string &text, const timeval &a, const timeval &b, bool ms) {
  string tail = mc::fmt(".%s:", node()) + proc_name + "." + std::to_string(getpid()) + ": " + text + "\n";
  if (line.size() < tail.size() || line.compare(line.size() - tail.size(), tail.size(), tail) != 0) return false;
  string head = line.substr(0, line.size() - tail.size());
  if (ms) {
    if (head.size() != 10 || head[6] != '.') return false;
    for (int i = 7; i < 10; i++)
      if (head[i] < '0' || head[i] > '9') return false;
    string lo = stamp("%H%M%S", a) + mc::fmt(".%03d", int(a.tv_usec / 1000)), hi = stamp("%H%M%S", b) + mc::fmt(".%03d", int(b.tv_usec / 1000));
    return lo <= hi ? head >= lo && head <= hi : head >= lo || head <= hi;  // midnight
  }
  string lo = stamp("%H%M%S", a), hi = stamp("%H%M%S", b);
  return lo <= hi ? head >= lo && head <= hi : head >= lo || head <= hi;
}
string brief(const string &s) {
  string r = mc::fmt("%zu bytes: ", s.size());
  for (unsigned char c : s.substr(0, 60)) r += c > 31 && c < 127 ? string(1, c) : mc::fmt("\\x%02x", c);
  if (s.size() > 100) {
    r += " ... ";
    for (unsigned char c : s.substr(s.size() - 30)) r += c > 31 && c < 127 ? string(1, c) : mc::fmt("\\x%02x", c);
  }
  return r;
}
bool ms_on() {
  const char *e = getenv("ULOGMILLISEC");
  return e && !strcmp(e, "y");
}
string prefix() {
  const char *e = getenv("ULOGPFX");
  return e && *e ? e : "ULOG";
}
// one call: must add exactly the line to exactly the right file
template <typename F>
string one(const string &text, const F &call) {
  static std::map<string, string> before;
  before = files();
  timeval a, b;
  int e = (n * 7) % 130 + 1;
  n++;
  gettimeofday(&a, nullptr);
  errno = e;
  int rc = call();
  int e2 = errno;
  gettimeofday(&b, nullptr);
  auto after = files();
  if (rc < 0) return mc::fmt("returned %d", rc);
  if (e2 != e) return mc::fmt("changed errno from %d to %d", e, e2);
  string name;
  int changed = 0;
  for (auto &f : after)
    if (!before.count(f.first) || before[f.first] != f.second) changed++, name = f.first;
  for (auto &f : before)
    if (!after.count(f.first)) return "removed " + f.first;
  if (changed != 1) return mc::fmt("changed %d files", changed);
  string want = prefix();
  auto p = want.rfind('/');
  if (p != string::npos) want = want.substr(p + 1);
  if (name != want + stamp(".%m%d%y", a) && name != want + stamp(".%m%d%y", b)) return "wrote to " + name;
  auto &old = before[name];
  auto &now = after[name];
  if (now.compare(0, old.size(), old) != 0 || now.size() < old.size()) return "changed what was in the log";
  string line = now.substr(old.size());
  if (!is_line(line, text, a, b, ms_on())) return "wrote " + brief(line);
  return "";
}
void judge(const string &what, const string &sig, const string &w) {
  if (!w.empty()) mc::violation(sig + "|" + w.substr(0, 24), what + " " + w);
}
string pattern(size_t len, int k) {
  string s(len, 0);
  for (size_t i = 0; i < len; i++) s[i] = 'a' + (i * 7 + i / 26 + k) % 26;
  return s;
}
void length(size_t l) {
  if (l % 32 == 0) clean();
  mc::trace(mc::fmt("message of %zu bytes", l));
  string t = pattern(l, l);
  judge(mc::fmt("a message of %zu bytes", l), l < 8000 ? "short" : "long", one(t, [&] { return userlog("%s", t.c_str()); }));
}
void program(size_t l) {
  clean();
  mc::trace(mc::fmt("program name of %zu bytes", l));
  string keep = proc_name, name = pattern(l, 3);
  char *old = proc_name;
  proc_name = &name[0];
  for (size_t m : {0, 5, 8000, 8192}) judge(mc::fmt("program name of %zu bytes, message of %zu", l, m), "program name", one(pattern(m, 1), [&] { return userlog("%s", pattern(m, 1).c_str()); }));
  proc_name = old;
}
void contents() {
  clean();
  for (int c = 1; c < 256; c++) {
    string t = string("x") + char(c) + "y" + char(c);
    mc::trace(mc::fmt("character %d", c));
    judge(mc::fmt("character %d", c), "character", one(t, [&] { return userlog("%s", t.c_str()); }));
    if (c != '%') judge(mc::fmt("character %d in the format", c), "character", one(t, [&] { return userlog(t.c_str()); }));
  }
  judge("", "format", one("", [] { return userlog("%s", ""); }));
  judge("%%", "format", one("%", [] { return userlog("%%"); }));
  judge("%d %ld", "format", one("-1 1234567890123 0x1f 007", [] { return userlog("%d %ld 0x%x %03d", -1, 1234567890123L, 31, 7); }));
  judge("%s of %s", "format", one("%s%n%d", [] { return userlog("%s", "%s%n%d"); }));
  judge("%f", "format", one("1.50 abc   | x", [] { return userlog("%.2f %-6s|%*c", 1.5, "abc", 2, 'x'); }));
  judge("many arguments", "format", one("1 2 3 4 5 6 7 8 9 10 1.5 2.5 s t", [] { return userlog("%d %d %d %d %d %d %d %d %d %d %.1f %.1f %s %s", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1.5, 2.5, "s", "t"); }));
  judge("wide field", "format", one(string(9999, ' ') + "1", [] { return userlog("%10000d", 1); }));
}
void places() {
  // no place to write to
  for (auto &p : {string("/nonexistent/ULOG"), dir + "/none/ULOG", dir + "/" + string(300, 'p'), "/" + string(5000, 'q')}) {
    setenv("ULOGPFX", p.c_str(), 1);
    mc::trace("prefix " + p);
    for (size_t l : {1, 10000}) {
      errno = 42;
      n++;
      int rc = userlog("%s", pattern(l, 1).c_str());
      int e = errno;
      if (rc >= 0) judge("prefix " + brief(p), "no place", mc::fmt("returned %d", rc));
      if (e != 42) judge("prefix " + brief(p), "no place", mc::fmt("changed errno to %d", e));
    }
  }
  for (size_t l = 1; l < 248; l++) {
    clean();
    auto p = dir + "/" + pattern(l, 1);
    setenv("ULOGPFX", p.c_str(), 1);
    mc::trace("prefix " + p);
    judge("prefix " + brief(p), "prefix", one("text", [] { return userlog("text"); }));
  }
  clean();
  setenv("ULOGPFX", (dir + "/ULOG").c_str(), 1);
  for (const char *v : {"y", "n", "", "yes", "Y"}) {
    setenv("ULOGMILLISEC", v, 1);
    if (strcmp(v, "yes") == 0 || strcmp(v, "Y") == 0) continue;
    for (int i = 0; i < 300; i++) judge(string("ULOGMILLISEC=") + v, "milliseconds", one("text", [] { return userlog("text"); }));
  }
  unsetenv("ULOGMILLISEC");
  judge("ULOGMILLISEC unset", "milliseconds", one("text", [] { return userlog("text"); }));
  for (const char *z : {"UTC", "XXX+12", "XXX-13", ":nowhere", ""}) {
    setenv("TZ", z, 1);
    tzset();
    clean();
    judge(string("TZ=") + z, "time zone", one("text", [] { return userlog("text"); }));
  }
  unsetenv("TZ");
  tzset();
  // the default is a file in the current directory
  if (chdir(dir.c_str()) == 0) {
    for (const char *p : {(const char *)nullptr, "relative", "./x"}) {
      if (p) setenv("ULOGPFX", p, 1);
      else unsetenv("ULOGPFX");
      clean();
      judge(string("ULOGPFX=") + (p ? p : "unset"), "default", one("text", [] { return userlog("text"); }));
    }
    if (chdir("/") != 0) abort();
  }
}
// every history of calls and of changes around them
void histories(int depth, int first) {
  static const char *names[] = {"log a line", "log 5000 bytes", "log 9000 bytes", "ULOGPFX=A", "ULOGPFX=B", "milliseconds on/off", "remove the logs", "log to nowhere", "the next day"};
  std::vector<int> path;
  std::function<void()> go = [&] {
    if ((int)path.size() == depth) {
      clean();
      setenv("ULOGPFX", (dir + "/A").c_str(), 1);
      unsetenv("ULOGMILLISEC");
      string text;
      g_shift = 0;
      for (int o : path) text += string(names[o]) + "; ";
      mc::trace(text);
      states++;
      for (int o : path) {
        string w;
        if (o < 3) {
          size_t l = o == 0 ? 10 : o == 1 ? 5000 : 9000;
          w = one(pattern(l, n), [&, t = pattern(l, n)] { return userlog("%s", t.c_str()); });
        } else if (o < 5) {
          setenv("ULOGPFX", (dir + (o == 3 ? "/A" : "/B")).c_str(), 1);
        } else if (o == 5) {
          setenv("ULOGMILLISEC", ms_on() ? "n" : "y", 1);
        } else if (o == 6) {
          clean();
        } else if (o == 8) {
          g_shift += 24 * 60 * 60;
        } else {
          string keep = getenv("ULOGPFX");
          setenv("ULOGPFX", (dir + "/none/x").c_str(), 1);
          if (userlog("nothing") >= 0) w = "logging to nowhere succeeded";
          setenv("ULOGPFX", keep.c_str(), 1);
        }
        if (!w.empty()) {
          judge(text, "history", w);
          break;
        }
      }
      return;
    }
    for (int o = 0; o < 9; o++) {
      if (path.empty() && o != first) continue;
      path.push_back(o);
      go();
      path.pop_back();
      if (mc::enough()) return;
    }
  };
  go();
}
}  // namespace

int main() {
  bool th = mc::thorough();
  string base = "/tmp/ulog.";
  char t[] = "/tmp/ulogXXXXXX";
  if (!mkdtemp(t)) return 1;
  base = t;
  const size_t block = 512, top = th ? 140000 : 20480;
  int lengths = top / block;
  int r = mc::run(lengths + 4 + 2 + 9, [&](int j) {
    n = states = 0;
    dir = base + "/" + std::to_string(mc::me());
    mkdir(dir.c_str(), 0700);
    clean();
    setenv("ULOGPFX", (dir + "/ULOG").c_str(), 1);
    unsetenv("ULOGMILLISEC");
    if (j < lengths) {
      if (j % 2) setenv("ULOGMILLISEC", "y", 1);
      for (size_t l = j * block; l < (j + 1) * block && !mc::enough(); l++) length(l);
      if (j == 0)
        for (int k = 16; k < 23; k++)
          for (int d = -2; d <= 2; d++) length((size_t(1) << k) + d);
    } else if (j < lengths + 4) {
      for (size_t l = j - lengths; l < 9000 && !mc::enough(); l += l > 300 && l < 8000 ? 64 : 4) program(l);
    } else if (j == lengths + 4) {
      contents();
    } else if (j == lengths + 5) {
      places();
    } else {
      histories(th ? 5 : 4, j - lengths - 6);
    }
    mc::add(mc::cnt().transitions, n);
    mc::add(mc::cnt().states, n);
    mc::add(mc::cnt().validated, n);
    if (j == 1) mc::sample(mc::fmt("messages of 512-1023 bytes: %lu lines read back", n));
  });
  for (int w = 0; w < 16; w++) {
    dir = base + "/" + std::to_string(w);
    clean();
    rmdir(dir.c_str());
  }
  rmdir(base.c_str());
  return r;
}
