// Simulation core: processes as fibers of one OS process, System V IPC, files,
// clocks and threads simulated, every scheduling decision explored.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "../mc.h"

namespace sim {

struct LogEntry {
  int proc;
  std::string what;
  long a, b;
  std::string s;
  long time_ms;
};

enum class End { terminal, deadline, livelock };

struct ProcInfo {
  std::string name;
  bool started = true;            // a program: whether anybody has executed it
  bool done, crashed, blocked;   // blocked: at the end of the execution
  std::string at;                // what it waits for
};

// What the oracle sees at the end of one execution
struct Execution {
  End end;
  std::vector<LogEntry> log;      // in order
  std::vector<ProcInfo> procs;
  std::vector<size_t> queue_len;  // messages left, per live queue
  std::vector<int> queue_id;
  std::vector<std::string> files;  // temporary files left
  std::vector<std::string> open_files;  // left open by processes that have not ended
  int mutexes_held;
  std::vector<int> sems;           // values
  int shms = 0;                    // live segments
  long now_ms;
  // entries of one process
  std::vector<LogEntry> of(int proc) const {
    std::vector<LogEntry> r;
    for (auto &e : log)
      if (e.proc == proc) r.push_back(e);
    return r;
  }
  std::string text() const;
};

struct Actor {
  std::string name;
  std::string flavor;  // which shared object
  std::string fn;      // its function: int fn(int arg)
  int arg = 0;
  bool daemon = false;     // the execution may end while it is blocked
  bool crashable = false;  // may be killed at any point
  bool faults = true;      // its system calls may fail
  std::string program;     // not empty: runs once somebody executes this program
};

struct Options {
  int preempt = -1;        // bound on preemptions, -1: none
  int crashes = 0;         // processes that may be killed in one execution
  int faults = 0;          // system calls that may fail in one execution
  std::vector<std::string> fault_calls;  // which ones, empty: all
  bool fail_shm = false;
  bool shm_points = false;  // every access to shared memory is a scheduling point
  bool mem_points = false;  // every access to memory shared by threads is one
  bool races = false;       // report data races between threads
  int early_ticks = 0;      // how often the clock may advance before everything is idle
  long max_ms = 30000;      // simulated time after which a blocked call counts as stuck
  long qbytes = 16384;      // capacity of a message queue
  int max_steps = 6000;
  bool unlock_points = true;
  bool no_cache = false;    // explore without state matching (validation)
  uint64_t max_states = 0;  // safety stop, reported as not exhaustive
};

struct Scenario {
  std::string name;
  std::vector<Actor> actors;
  Options opt;
  std::string config;       // UBB text; compiled with the repository's tmloadcf
  // returns "" or what is wrong
  std::function<std::string(const Execution &)> oracle;
  std::map<std::string, std::string> env;
};

// Runs all scenarios; flavors: name -> path of the shared object
int run(const std::vector<Scenario> &all, const std::map<std::string, std::string> &flavors);

}  // namespace sim
