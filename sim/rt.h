// Simulator runtime: everything the code under test can observe from outside
// itself goes through here.  One simulated run happens in one forked child.
#pragma once
#include <cstdint>
#include <cstddef>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a * 0xd6e8feb86659fd93ULL + b + 0x2545f4914f6cdd1dULL;
  splitmix(s);
  return splitmix(s);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- operations and faults
enum Op {
  OP_OPEN, OP_STAT, OP_READ, OP_SEEK, OP_CLOSE, OP_WRITE1, OP_WRITE2, OP_ALLOC,
  OP_FSTAT, OP_MUTATE, OP_OTHER, OP_N
};
const char *op_name(int op);
int op_by_name(const std::string &s);

// One injected fault: the nth operation of a kind (1-based; counted per run)
// fails with err.  err == 0 means a short transfer of `arg` bytes.
struct Fault {
  int op = OP_READ;
  uint64_t nth = 1;
  int err = 5;
  int arg = 0;
  bool persist = false;  // this and every later operation of the kind
  int task = -1;         // >= 0: counted per task, hits that task only
};

// A change of the virtual file system made by the outside world just before
// the nth VFS operation of the run.
struct FsEvent {
  uint64_t at = 0;
  std::string act;   // append | replace | unlink | mkdir | truncate | noperm | hide
  std::string path;
  std::string data;  // append/replace: the bytes ; truncate: length in text
};

struct EnvKnobs {
  int chunk_mode = 0;      // 0 whole, 1 fixed, 2 random up to chunk
  int chunk = 4096;
  double eintr = 0.0;      // probability that a read is interrupted first
  uint64_t seed = 1;       // drives chunk sizes and EINTR
  int heap_fill = 0;       // 0 none,1 zero,2 0xff,3 random,4 plausible doubles
  int free_fill = 0;
  int stack_fill = 0;
  uint64_t fill_seed = 1;
  int out_mode = 0;        // 0 fully buffered 1 line buffered 2 unbuffered
  int out_buf = 4096;
  uint64_t clock = 0;      // virtual clock / pid / env seed
};

struct Inode {
  bool dir = false;
  bool noperm = false;
  std::string data;
  int err = 0;  // every look at it fails with this
  uint64_t id = next_id()++;
  static uint64_t &next_id() {
    static uint64_t n = 1;
    return n;
  }
};

// A place of the program (innermost call sites) and some of the moments it was
// reached: the number of the operation of that kind, or the step.
const uint32_t PLACE_STEP = 100;
struct Place {
  uint32_t kind;
  uint64_t key;
  std::vector<uint64_t> at;
};

// Preemption at accesses to memory that the threads share (only in programs
// built with memory instrumentation, variant "mem"): each access number in
// [from, to) is followed by another thread with probability per_mille/1000.
struct SharedSched {
  uint64_t per_mille = 0, seed = 0, from = 0, to = ~0ull;
};

struct World {
  int record = 0;                  // 1: places of operations, 2: and of steps
  std::map<std::string, std::shared_ptr<Inode>> files;
  std::vector<FsEvent> events;
  std::vector<Fault> faults;
  EnvKnobs env;
  uint64_t step_budget = 0;        // 0: unlimited
  uint64_t heap_cap = 1ull << 30;  // live bytes
  int out_limit = 1 << 20;
  // scheduling (several tasks)
  std::vector<std::pair<uint64_t, int>> preempt;  // (step, task)
  uint64_t quantum = 0;
  uint64_t quantum_seed = 0;
  SharedSched shared;
};

// ---------------------------------------------------------------- outcome of a run
enum Status { ST_NONE = 0, ST_EXIT, ST_TERMINATE, ST_SIGNAL, ST_HANG, ST_RUNAWAY, ST_SANITIZER, ST_DEADLOCK, ST_INTERNAL };
const char *status_name(int s);

struct TaskOutcome {
  int status = ST_NONE;
  int code = 0;
  std::string what;
  std::string out, err;
  std::string attempted;            // what the program tried to put on stdout
  bool out_failed = false;          // some stdout write failed
  std::vector<std::string> opened;  // successful opens in order
  std::vector<std::string> tried;   // all opens in order
};

struct Outcome {
  std::vector<TaskOutcome> task;
  uint64_t steps = 0, allocs = 0, vfs_ops = 0, switches = 0;
  uint64_t nops[OP_N] = {0};
  uint64_t fired[OP_N] = {0};
  uint64_t shared = 0;  // accesses to memory that several threads use
  uint64_t shorts = 0, eintrs = 0, events_fired = 0;
  uint64_t maxlive = 0;
  std::string mutation;  // first attempt to change the file system
  int open_left = 0;     // descriptors open at the end
  uint64_t hash = 0;
  std::string log;       // readable event log (bounded)
  std::string extra;     // filled by API workloads
  std::vector<Place> places;
  const TaskOutcome &t0() const { return task[0]; }
};

typedef int (*MainFn)(int, const char **);
struct TaskSpec {
  std::vector<std::string> argv;
  MainFn fn = nullptr;
};

// Runs the tasks to completion in a forked child under the world.
Outcome run_world(const World &w, const std::vector<TaskSpec> &tasks, bool want_log = false);

// For API workloads running inside the child:
void extra_note(const std::string &s);     // appended to Outcome::extra
World &live_world();                       // file system as it is now
void add_fault_relative(const Fault &f);   // nth counted from now
void clear_faults();
void add_event_relative(FsEvent e);        // at counted from now
void clear_events();
void apply_now(const FsEvent &e);
int open_files();
extern volatile uint64_t g_steps;
uint64_t op_count(int op);
uint64_t fired_count(int op);
std::string norm_path(const std::string &p);  // as the virtual file system sees it

void init_process(int argc, char **argv);  // ASLR off, signal setup
}  // namespace sim
