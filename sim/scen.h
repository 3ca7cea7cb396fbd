// Scenarios: the explicit text form of one simulated experiment, its
// minimisation, replay and the batch loop shared by both simulation programs.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "rt.h"
#include "spec.h"

namespace sim {

typedef std::vector<std::string> Tokens;

struct Scenario {
  std::string prop;               // the property judged
  std::string kind;               // sub-workload
  std::vector<Sys> sys;           // generated systems
  std::vector<EnvKnobs> env;      // env[0]; C14 uses env[1] as well
  std::vector<Fault> faults;
  std::vector<Tokens> ops;        // everything else that happens, one line each
  std::vector<std::pair<uint64_t, int>> preempt;
  uint64_t quantum = 0, quantum_seed = 0;
  SharedSched shared;

  std::string text() const;
  static bool parse(const std::string &t, Scenario &out, std::string &err);
};

struct Verdict {
  bool violation = false;
  std::string cls;       // short stable name of the violation
  std::string msg;       // one readable line
  bool nontrivial = false;
  std::vector<std::string> probes;  // rare conditions reached
  uint64_t hash = 0;     // of every run made
  std::string log;       // event logs when asked for
  std::string sample;    // one line describing the case
};

// Provided by the property code
Scenario generate(const std::string &prop, Rng &r);
void judge(const Scenario &s, Verdict &v);

// Every simulated run goes through here (statistics, hash, optional log)
struct Stats {
  uint64_t scenarios = 0, nontrivial = 0, runs = 0, steps = 0, vfs = 0, allocs = 0, switches = 0, shared = 0, shorts = 0, eintrs = 0, events = 0;
  uint64_t fired[OP_N] = {0};
  std::map<std::string, uint64_t> probes, status, kinds;
  std::set<uint64_t> traces;
};
extern Stats g_stats;
extern std::vector<Outcome> *g_collect;  // when set, every outcome is also stored here
Outcome run_once(Verdict &v, const World &w, const std::vector<TaskSpec> &t);

std::string env_text(const EnvKnobs &e);
EnvKnobs benign_env(Rng &r, size_t total_bytes);
long long to_ll(const std::string &s);
std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));

// with memory instrumentation: preempt at accesses to shared memory as well
void shared_sched(Scenario &s, Rng &r);
extern const bool MEM;
int scen_main(int argc, char **argv);
}  // namespace sim
