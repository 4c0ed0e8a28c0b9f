// F07 (threads): field tables used, loaded and unloaded by several threads.
#include "dist.h"

void scenarios_fld(const string &set, vector<Scenario> &r) {
  if (set != "F07") return;
  bool th = mc::thorough();
  auto add = [&](const string &name, int arg, int preempt, bool races) {
    Scenario s;
    s.name = name;
    s.actors = {Actor{"process", "app", "fld_threads", arg}};
    s.env = {{"FIELDTBLS32", "one,two"}, {"FLDTBLDIR32", "/nowhere:/tmp"}};
    s.opt.preempt = preempt;
    s.opt.mem_points = true;
    s.opt.races = races;
    s.opt.max_steps = 60000;
    s.oracle = [](const Execution &e) -> string {
      if (auto w = stuck(e); !w.empty()) return w;
      for (auto &p : e.procs)
        if (p.crashed) return p.name + " crashed";
      return "";
    };
    r.push_back(s);
  };
  const char *warm[] = {"nothing loaded", "loaded", "ids loaded", "loaded and unloaded"};
  for (int w = 0; w < 4; w++) {
    string n = warm[w];
    add("2 threads look up, " + n, 2100 + w * 10, th ? 3 : 2, true);
    add("2 threads look up and unload, " + n, 2102 + w * 10, th ? 3 : 2, true);
  }
  add("2 threads, 2 operations each, nothing loaded", 2202, th ? 2 : 1, true);
  add("2 threads, 2 operations each, loaded", 2212, th ? 2 : 1, true);
  add("3 threads look up and unload, nothing loaded", 3102, th ? 2 : 1, true);
  add("3 threads look up and unload, ids loaded", 3122, th ? 2 : 1, true);
}
