// Scenarios and oracles for the properties of the distributed runtime.
#include "dist.h"

int main(int argc, char **argv) {
  std::map<string, string> flavors;
  string set = argc > 1 ? argv[1] : "";
  string only = getenv("SIM_ONLY") ? getenv("SIM_ONLY") : "";
  for (int i = 2; i < argc; i++) {
    string a = argv[i];
    auto p = a.find('=');
    flavors[a.substr(0, p)] = a.substr(p + 1);
  }
  vector<Scenario> all;
  scenarios_msg(set, all);
  scenarios_sizes(set, all);
  scenarios_time(set, all);
  scenarios_tables(set, all);
  scenarios_crash(set, all);
  scenarios_trx(set, all);
  scenarios_fld(set, all);
  scenarios_boot(set, all);
  scenarios_admin(set, all);
  if (!only.empty()) {
    vector<Scenario> f;
    for (auto &s : all)
      if (s.name.find(only) != string::npos) f.push_back(s);
    all = f;
  }
  if (all.empty()) return 2;
  return run(all, flavors);
}
