// Workloads, fault spaces and oracles of the properties that are decided by
// running calc_J as a whole.
#include "scen.h"

#include "libcatnip/calcJconfig.hpp"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

extern "C" int calcj_main(int argc, const char **argv);

namespace sim {

#if defined(__SANITIZE_ADDRESS__)
static const bool kAsan = true;
#else
static const bool kAsan = false;
#endif

static int noop_main(int, const char **) { return 0; }

// ---------------------------------------------------------------- building blocks
static bool clean_exit(const TaskOutcome &t) { return t.status == ST_EXIT && t.code == 0; }
static std::string ending(const TaskOutcome &t) { return strf("%s %d %s", status_name(t.status), t.code, t.what.substr(0, 120).c_str()); }

static void violate(Verdict &v, const std::string &cls, const std::string &msg) {
  if (v.violation) return;
  v.violation = true;
  v.cls = cls;
  v.msg = msg;
}
// Abnormal endings are violations of every property that promises an orderly end.
static bool abnormal(Verdict &v, const TaskOutcome &t) {
  switch (t.status) {
    case ST_EXIT:
    case ST_TERMINATE: return false;
    case ST_INTERNAL: violate(v, "harness", "internal: " + t.what); return true;
    case ST_HANG: violate(v, "hang", "the run does not end within the work bound: " + t.what); return true;
    case ST_RUNAWAY: violate(v, "runaway", "unbounded memory or output: " + t.what); return true;
    case ST_SANITIZER: violate(v, "memory-error", t.what); return true;
    case ST_DEADLOCK: violate(v, "deadlock", t.what); return true;
    default: violate(v, "crash", "killed by signal " + std::to_string(t.code) + " " + t.what); return true;
  }
}

static int role_of(const std::string &r) { return r == "P" ? 0 : r == "1" ? 1 : 2; }
static const char *ROLE[3] = {"P", "1", "2"};

static FileImage &image(System &s, const std::string &what, const std::string &role) { return what == "log" ? s.log[role_of(role)] : s.pun[role_of(role)]; }

static int kind_by_name(const std::string &n) {
  for (int i = 0; i < K_N; ++i)
    if (n == kind_name[i]) return i;
  return -1;
}
// Remove the tables of one kind (all of them or the newest one only)
static void omit(FileImage &f, int kind, bool all) {
  for (int i = (int)f.sec.size() - 1; i >= 0; --i) {
    if (f.sec[i].kind != kind) continue;
    Section s = f.sec[i];
    size_t a = s.beg, b = std::min(f.bytes.size(), s.soft + 1), len = b - a;
    f.bytes.erase(a, len);
    f.sec.erase(f.sec.begin() + i);
    for (auto &q : f.sec)
      if (q.beg >= b) {
        q.beg -= len;
        q.hdr_end -= len;
        q.soft -= len;
        q.end -= len;
      } else if (q.kind == K_EA || q.kind == K_EB) {
        size_t e = f.bytes.find('\n', q.soft + 1);
        q.end = e == std::string::npos ? f.bytes.size() : e + 1;
      }
    if (!all) return;
  }
}

struct Lab {
  std::vector<System> S;
  World w;
  size_t bytes = 0;
};
static void put(World &w, const std::string &path, const std::string &bytes) {
  auto i = std::make_shared<Inode>();
  i->data = bytes;
  w.files[norm_path(path)] = i;
}
static void put_system(Lab &L, const System &s) {
  for (int i = 0; i < 3; ++i) {
    put(L.w, s.log[i].path, s.log[i].bytes);
    put(L.w, s.pun[i].path, s.pun[i].bytes);
    L.bytes += s.log[i].bytes.size() + s.pun[i].bytes.size();
  }
}
static Lab lab(const Scenario &s, int envi = 0) {
  Lab L;
  for (auto &y : s.sys) L.S.push_back(build(y));
  for (auto &o : s.ops)
    if (o.size() == 6 && o[0] == "omit") {
      int k = kind_by_name(o[4]);
      size_t si = to_ll(o[1]);
      if (k >= 0 && si < L.S.size()) omit(image(L.S[si], o[2], o[3]), k, o[5] == "all");
    }
  L.w.env = s.env[std::min((size_t)envi, s.env.size() - 1)];
  return L;
}
static TaskSpec task_of(const System &s) {
  TaskSpec t;
  t.argv = s.argv;
  t.fn = calcj_main;
  return t;
}
static const uint64_t FLAT = kAsan ? 60000000ull : 200000000ull;

// Fault-free runs are shared between the generator and the oracle.
static std::string g_cache_key;
static Outcome g_cache;
static Outcome cached(Verdict &v, const std::string &key, const World &w, const std::vector<TaskSpec> &t) {
  if (key != g_cache_key) {
    Verdict d;
    g_cache = run_once(d, w, t);
    g_cache_key = key;
    v.log += d.log;
  }
  v.hash = mix(v.hash, g_cache.hash);
  return g_cache;
}
static std::string base_key(const Scenario &s, const std::string &what) {
  std::string k = what;
  for (auto &y : s.sys)
    for (auto &p : y.v) k += "," + p.first + "=" + std::to_string(p.second);
  for (auto &e : s.env) k += "|" + env_text(e);
  for (auto &o : s.ops)
    if (o[0] == "omit")
      for (auto &x : o) k += " " + x;
  return k;
}
// the complete, unfaulted run of system 0 in environment 0
static Outcome baseline(Verdict &v, const Scenario &s) {
  Lab L = lab(s);
  put_system(L, L.S[0]);
  L.w.step_budget = FLAT;
  L.w.record = 1;
  return cached(v, base_key(s, "base"), L.w, {task_of(L.S[0])});
}
// The number of an operation, chosen by the place in the program it comes from:
// rare places are as likely as the loops.  0 if there is none.
static uint64_t pick_place(const Outcome &b, uint32_t kind, Rng &r, uint64_t *key = nullptr) {
  std::vector<const Place *> c;
  for (auto &p : b.places)
    if (p.kind == kind) c.push_back(&p);
  if (c.empty()) return 0;
  const Place *p = c[r.below(c.size())];
  if (key) *key = p->key;
  return p->at[r.below(p->at.size())];
}
static uint64_t same_place(const Outcome &b, uint64_t key, Rng &r) {
  for (auto &p : b.places)
    if (p.key == key) return p.at[r.below(p.at.size())];
  return 0;
}
static uint64_t bound(const Outcome &b) { return b.t0().status == ST_EXIT ? 30 * b.steps + 3000000 : FLAT; }

// size class: mostly small systems for the fault properties, all sizes for C01
static Sys pick_sys(Rng &r) { return random_sys(r, r.chance(0.35) ? 0 : r.chance(0.6) ? 3 : r.chance(0.7) ? 7 : 9); }
static size_t total_bytes(const System &s) {
  size_t n = 0;
  for (int i = 0; i < 3; ++i) n += s.log[i].bytes.size() + s.pun[i].bytes.size();
  return n;
}

// an interesting place to cut a file
static const char *LOGK[] = {"coord", "overlap", "Ealpha", "Ebeta", "population"};
static const char *PUNK[] = {"Calpha", "Cbeta"};

// The expected outcome of a run over files that are static while it runs.
static void judge_static(Verdict &v, const Report &want, const Outcome &o, bool paths, bool fail_always_ok = false) {
  const TaskOutcome &t = o.t0();
  if (abnormal(v, t)) return;
  std::string why;
  if (clean_exit(t)) {
    if (!want.ok) return violate(v, "success-without-data", "exit 0 although " + want.why);
    if (!same_report(want, t.out, why, paths)) return violate(v, "wrong-report", why);
    if (!want.unscrambled && t.err.find("WARNING") == std::string::npos) return violate(v, "no-warning", "basis functions used in file order without a warning on standard error");
    return;
  }
  if (want.ok && !want.may_fail && !fail_always_ok) violate(v, "refused", "complete consistent input refused: " + ending(t) + " | " + t.err.substr(0, 200));
}

// ---------------------------------------------------------------- C01
static Scenario gen_C01(Rng &r) {
  Scenario s;
  s.sys.push_back(random_sys(r, -1));
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  s.kind = "complete";
  return s;
}
static void judge_C01(const Scenario &s, Verdict &v) {
  Lab L = lab(s);
  put_system(L, L.S[0]);
  L.w.step_budget = FLAT;
  Outcome o = run_once(v, L.w, {task_of(L.S[0])});
  Report want = evaluate_full(L.S[0], selection_of(s.sys[0]));
  if (!want.ok) {
    v.probes.push_back("not-consistent");
    return;
  }
  v.nontrivial = true;
  const Sys &y = s.sys[0];
  if (!want.unscrambled) v.probes.push_back("file-order");
  if (y.get("cp")) v.probes.push_back("counterpoise");
  if (y.get("perm")) v.probes.push_back("permuted-dimer");
  if (y.get("s1") || y.get("s2") || y.get("sP")) v.probes.push_back("beta");
  if (L.S[0].r[0].n > 5) v.probes.push_back("several-overlap-blocks");
  if (L.S[0].r[0].n > 40) v.probes.push_back("more-than-40-functions");
  if (o.eintrs) v.probes.push_back("eintr");
  if (o.shorts) v.probes.push_back("short-reads");
  if (L.bytes > 8192 * 6) v.probes.push_back("files-larger-than-stream-buffer");
  judge_static(v, want, o, false);
  v.sample = ending(o.t0()) + strf(" J_eff=%.6g", want.val[4]);
}

// ---------------------------------------------------------------- C02
static void gen_omit(Scenario &s, const System &q, Rng &r) {
  bool lg = r.chance(0.75);
  std::string role = ROLE[r.below(3)];
  std::string k = lg ? LOGK[r.below(5)] : PUNK[r.below(2)];
  (void)q;
  s.ops.push_back({"omit", "0", lg ? "log" : "pun", role, k, r.chance(0.6) ? "all" : "last"});
}
static Scenario gen_C02(Rng &r) {
  Scenario s;
  s.sys.push_back(pick_sys(r));
  double d = r.unit();
  s.kind = d < 0.75 ? "cut" : d < 0.87 ? "missing-table" : "cut+missing-table";
  // tables of an earlier step must not stand in for the broken ones of a later
  if (d < 0.3 && r.chance(0.5)) s.sys[0] = random_sys(r, 7);
  if (d < 0.3)
    for (const char *k : {"stepsP", "steps1", "steps2"})
      if (r.chance(0.7)) s.sys[0][k] = r.range(2, 3);
  System q = build(s.sys[0]);
  if (d >= 0.75) gen_omit(s, q, r);
  if (d < 0.75 || d >= 0.87) {
    Lab L = lab([&] {
      Scenario c = s;
      c.env.push_back(EnvKnobs());
      return c;
    }());
    int n = r.chance(0.75) ? 1 : 2;
    for (int i = 0; i < n; ++i) {
      std::string w = r.chance(0.65) ? "log" : "pun", role = ROLE[r.below(3)];
      s.ops.push_back({"cut", "0", w, role, std::to_string(pick_cut(image(L.S[0], w, role), r))});
    }
  }
  s.env.push_back(benign_env(r, total_bytes(q)));
  return s;
}
static void slots_full(const System &s, Slot log[3], Slot pun[3]) {
  for (int i = 0; i < 3; ++i) {
    log[i] = Slot();
    pun[i] = Slot();
    log[i].sys = pun[i].sys = &s;
    log[i].role = pun[i].role = i;
    pun[i].is_log = false;
  }
}
// applies cut lines: visible sizes
static void apply_cuts(const Scenario &s, const System &q, Slot log[3], Slot pun[3]) {
  for (auto &o : s.ops)
    if (o.size() == 5 && o[0] == "cut") {
      int r = role_of(o[3]);
      Slot &t = o[2] == "log" ? log[r] : pun[r];
      size_t n = (o[2] == "log" ? q.log[r] : q.pun[r]).bytes.size();
      size_t c = std::min<size_t>(to_ll(o[4]), n);
      t.visible = std::min(t.visible, c);
    }
}
static void judge_C02(const Scenario &s, Verdict &v) {
  Outcome b = baseline(v, s);
  Lab L = lab(s);
  Slot lg[3], pn[3];
  slots_full(L.S[0], lg, pn);
  apply_cuts(s, L.S[0], lg, pn);
  put_system(L, L.S[0]);
  for (int i = 0; i < 3; ++i) {
    put(L.w, L.S[0].log[i].path, L.S[0].log[i].bytes.substr(0, lg[i].visible));
    put(L.w, L.S[0].pun[i].path, L.S[0].pun[i].bytes.substr(0, pn[i].visible));
  }
  L.w.step_budget = bound(b);
  Outcome o = run_once(v, L.w, {task_of(L.S[0])});
  Report want = evaluate(lg, pn, selection_of(s.sys[0]));
  v.nontrivial = !s.ops.empty();
  v.probes.push_back(!want.ok ? "must-fail" : want.may_fail ? "may-fail" : "must-succeed");
  if (!want.ok) v.probes.push_back("why: " + want.why.substr(want.why.find(' ') + 1));
  judge_static(v, want, o, false);
  v.sample = ending(o.t0()) + " | model: " + (want.ok ? "report" : want.why);
}

// ---------------------------------------------------------------- C03
static const int OPEN_ERR[] = {EACCES, EMFILE, ENFILE, EIO, ENOENT, ESTALE, ENOMEM};
static const int READ_ERR[] = {EIO, ESTALE, EAGAIN, EISDIR, EBADF, ENOMEM};
static const int STAT_ERR[] = {EACCES, EIO, ENOENT, ENOMEM, ESTALE};
static const int SEEK_ERR[] = {EIO, EINVAL, ESPIPE, EOVERFLOW};

static Fault io_fault(const Outcome &b, Rng &r, bool late) {
  Fault f;
  double d = r.unit();
  if (d < 0.45 || late) f.op = OP_READ;
  else if (d < 0.65) f.op = OP_OPEN;
  else if (d < 0.8) f.op = OP_STAT;
  else f.op = OP_SEEK;
  uint64_t n = b.nops[f.op];
  if (n == 0) {
    f.op = OP_READ;
    n = b.nops[OP_READ];
  }
  f.nth = 1 + r.below(n ? n : 1);
  if (r.chance(0.4))
    if (uint64_t k = pick_place(b, f.op, r)) f.nth = k;
  f.err = f.op == OP_READ ? READ_ERR[r.below(6)] : f.op == OP_OPEN ? OPEN_ERR[r.below(7)] : f.op == OP_STAT ? STAT_ERR[r.below(5)] : SEEK_ERR[r.below(4)];
  f.persist = r.chance(0.35);
  return f;
}
static Scenario gen_C03(Rng &r) {
  Scenario s;
  s.sys.push_back(pick_sys(r));
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  Verdict d;
  Outcome b = baseline(d, s);
  double k = r.unit();
  if (k < 0.8) {
    s.kind = "syscall-errors";
    int n = r.chance(0.75) ? 1 : r.range(2, 3);
    for (int i = 0; i < n; ++i) s.faults.push_back(io_fault(b, r, false));
  } else {
    s.kind = "vanishing-files";
    int n = r.chance(0.8) ? 1 : 2;
    static const char *A[] = {"unlink", "mkdir", "noperm"};
    for (int i = 0; i < n; ++i) s.ops.push_back({"ev", std::to_string(1 + r.below(b.vfs_ops)), A[r.below(3)], r.chance(0.5) ? "log" : "pun", ROLE[r.below(3)]});
  }
  return s;
}
static void judge_faulted(const Scenario &s, Verdict &v, Outcome &b, Outcome &o) {
  b = baseline(v, s);
  if (!clean_exit(b.t0())) {
    v.probes.push_back("baseline-failed");
    return;
  }
  Lab L = lab(s);
  put_system(L, L.S[0]);
  L.w.faults = s.faults;
  for (auto &x : s.ops)
    if (x.size() == 5 && x[0] == "ev") {
      FsEvent e;
      e.at = to_ll(x[1]);
      e.act = x[2];
      e.path = image(L.S[0], x[3], x[4]).path;
      L.w.events.push_back(e);
    }
  L.w.step_budget = bound(b);
  o = run_once(v, L.w, {task_of(L.S[0])});
}
static bool has_all_values(const std::string &out) {
  Printed p = parse_report(out);
  return p.has[4];
}
static void judge_C03(const Scenario &s, Verdict &v) {
  Outcome b, o;
  judge_faulted(s, v, b, o);
  if (o.task.empty()) return;
  uint64_t f = o.fired[OP_READ] + o.fired[OP_OPEN] + o.fired[OP_STAT] + o.fired[OP_SEEK];
  v.nontrivial = f + o.events_fired > 0;
  if (o.fired[OP_SEEK]) v.probes.push_back("seek-fault");
  if (o.fired[OP_READ]) v.probes.push_back("read-fault");
  const TaskOutcome &t = o.t0();
  v.sample = ending(t) + strf(" after %llu fired faults", (unsigned long long)f);
  if (abnormal(v, t)) return;
  if (clean_exit(t)) {
    v.probes.push_back("survived");
    if (t.out != b.t0().out) violate(v, "wrong-report", "exit 0 with a report that differs from the one of the fully read files");
  } else if (has_all_values(t.out)) {
    // values printed by a run that then reports failure must still be the right ones
    if (b.t0().out.compare(0, t.out.size(), t.out) != 0) violate(v, "wrong-report", "values printed that differ from those of the fully read files");
  }
}

// ---------------------------------------------------------------- C04
static Scenario gen_C04(Rng &r) {
  Scenario s;
  Sys y = random_sys(r, r.chance(0.7) ? 0 : 3);
  if (r.chance(0.4)) y["pop"] = (long long)r.below(7);
  s.sys.push_back(y);
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  Verdict d;
  Outcome b = baseline(d, s);
  static const int E[] = {ENOSPC, EIO, EPIPE, EINTR, EAGAIN, EFBIG, EDQUOT};
  int n = r.chance(0.6) ? 1 : r.range(2, 4);
  s.kind = "write-faults";
  for (int i = 0; i < n; ++i) {
    Fault f;
    f.op = b.nops[OP_WRITE2] && r.chance(0.3) ? OP_WRITE2 : OP_WRITE1;
    f.nth = 1 + r.below(std::max<uint64_t>(1, b.nops[f.op] + (n > 1 ? 3 : 0)));
    if (r.chance(0.3)) f.nth = std::max<uint64_t>(1, b.nops[f.op] - r.below(3));
    if (r.chance(0.3)) {
      f.err = 0;
      f.arg = r.range(1, 40);
    } else
      f.err = E[r.below(7)];
    f.persist = r.chance(0.4);
    s.faults.push_back(f);
  }
  if (r.chance(0.2)) {
    s.kind = "stderr-only";
    for (auto &f : s.faults) f.op = OP_WRITE2;
  }
  return s;
}
static bool subsequence(const std::string &a, const std::string &b) {
  size_t i = 0;
  for (size_t k = 0; k < b.size() && i < a.size(); ++k) i += a[i] == b[k];
  return i == a.size();
}
static void judge_C04(const Scenario &s, Verdict &v) {
  Outcome b, o;
  judge_faulted(s, v, b, o);
  if (o.task.empty()) return;
  const TaskOutcome &t = o.t0();
  v.nontrivial = o.fired[OP_WRITE1] + o.fired[OP_WRITE2] > 0;
  v.sample = ending(t) + strf(" %zu of %zu bytes delivered", t.out.size(), b.t0().out.size());
  if (o.fired[OP_WRITE1]) v.probes.push_back("stdout-fault");
  if (o.fired[OP_WRITE2]) v.probes.push_back("stderr-fault");
  if (abnormal(v, t)) return;
  // an error that passes may lose pieces in between, one that stays may not
  bool passes = false, errs = false, shorts = false;
  for (auto &f : s.faults)
    if (f.op == OP_WRITE1) {
      passes |= f.err && !f.persist;
      errs |= f.err != 0;
      shorts |= f.err == 0;
    }
  passes |= errs && shorts;  // a short write takes the place of the error
  if (!passes && b.t0().out.compare(0, t.out.size(), t.out) != 0) return violate(v, "not-a-prefix", "what was delivered is not a prefix of the report");
  if (!subsequence(t.out, b.t0().out)) return violate(v, "other-report", "what was delivered is not taken from the report");
  if (clean_exit(t) && t.out.size() != b.t0().out.size()) return violate(v, "lost-report", strf("exit 0 but only %zu of %zu bytes of the report were delivered", t.out.size(), b.t0().out.size()));
  bool stdout_touched = false;
  for (auto &f : s.faults) stdout_touched |= f.op == OP_WRITE1;
  if (!stdout_touched && !clean_exit(t)) return violate(v, "stderr-matters", "trouble on standard error alone made the run fail: " + ending(t));
}

// ---------------------------------------------------------------- C05
static Scenario gen_C05(Rng &r) {
  Scenario s;
  s.sys.push_back(random_sys(r, r.chance(0.6) ? 0 : r.chance(0.8) ? 3 : 7));
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  Verdict d;
  Outcome b = baseline(d, s);
  Fault f;
  f.op = OP_ALLOC;
  uint64_t n = std::max<uint64_t>(1, b.allocs);
  f.nth = r.chance(0.25) ? 1 + r.below(std::min<uint64_t>(n, 2000)) : r.chance(0.25) ? n - r.below(std::min<uint64_t>(n, 400)) : 1 + r.below(n);
  if (r.chance(0.5))
    if (uint64_t k = pick_place(b, OP_ALLOC, r)) f.nth = k;
  f.err = ENOMEM;
  f.persist = r.chance(0.4);
  s.faults.push_back(f);
  s.kind = f.persist ? "all-later-fail" : "one-fails";
  return s;
}
static void judge_C05(const Scenario &s, Verdict &v) {
  Outcome b, o;
  judge_faulted(s, v, b, o);
  if (o.task.empty()) return;
  const TaskOutcome &t = o.t0();
  v.nontrivial = o.fired[OP_ALLOC] > 0;
  v.sample = ending(t);
  if (abnormal(v, t)) return;
  if (clean_exit(t)) {
    if (o.fired[OP_ALLOC]) v.probes.push_back("survived");
    if (t.out != b.t0().out) violate(v, "wrong-report", "exit 0 with a report that differs from the unfaulted one");
  } else if (has_all_values(t.out) && b.t0().out.compare(0, t.out.size(), t.out) != 0)
    violate(v, "wrong-report", "a complete report with other values was printed");
}

// ---------------------------------------------------------------- C06
static Scenario gen_C06(Rng &r) {
  Scenario s;
  Sys y = random_sys(r, r.chance(0.5) ? 0 : r.chance(0.7) ? 3 : 7);
  y["stepsP"] = r.range(1, 4);
  y["steps1"] = r.range(1, 3);
  y["steps2"] = r.range(1, 3);
  if (r.chance(0.5)) y["pop"] = (long long)r.below(7);  // without populations older geometries are usable too
  s.sys.push_back(y);
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  if (r.chance(0.25)) {
    s.kind = "finished";
    // drop the newest table of some kinds: the next older one is the newest
    int n = r.range(0, 2);
    for (int i = 0; i < n; ++i) s.ops.push_back({"omit", "0", "log", ROLE[r.below(3)], LOGK[r.below(5)], "last"});
    return s;
  }
  s.kind = "growing";
  Verdict d;
  Outcome b = baseline(d, s);
  for (int i = 0; i < 3; ++i) {
    if (!r.chance(i == 0 ? 0.8 : 0.5)) continue;
    FileImage &f = q.log[i];
    int n = r.range(1, 4);
    std::vector<size_t> len;
    for (int k = 0; k < n; ++k) len.push_back(r.chance(0.5) ? pick_cut(f, r) : f.bytes.size() * (k + 1) / (n + 1));
    if (r.chance(0.7)) len.push_back(f.bytes.size());
    std::sort(len.begin(), len.end());
    s.ops.push_back({"start", ROLE[i], std::to_string(len[0])});
    std::vector<uint64_t> at;
    for (size_t k = 1; k < len.size(); ++k) at.push_back(1 + r.below(b.vfs_ops));
    std::sort(at.begin(), at.end());
    for (size_t k = 1; k < len.size(); ++k) s.ops.push_back({"grow", ROLE[i], std::to_string(at[k - 1]), std::to_string(len[k])});
  }
  return s;
}
static void judge_C06(const Scenario &s, Verdict &v) {
  Outcome b = baseline(v, s);
  Lab L = lab(s);
  put_system(L, L.S[0]);
  std::vector<size_t> vis[3];
  bool grows = false;
  for (int i = 0; i < 3; ++i) {
    size_t full = L.S[0].log[i].bytes.size(), cur = full;
    for (auto &o : s.ops)
      if (o.size() == 3 && o[0] == "start" && role_of(o[1]) == i) cur = std::min<size_t>(full, to_ll(o[2]));
    vis[i].push_back(cur);
    put(L.w, L.S[0].log[i].path, L.S[0].log[i].bytes.substr(0, cur));
    for (auto &o : s.ops)
      if (o.size() == 4 && o[0] == "grow" && role_of(o[1]) == i) {
        size_t n = std::min<size_t>(full, to_ll(o[3]));
        if (n <= cur) continue;
        FsEvent e;
        e.at = to_ll(o[2]);
        e.act = "append";
        e.path = L.S[0].log[i].path;
        e.data = L.S[0].log[i].bytes.substr(cur, n - cur);
        L.w.events.push_back(e);
        cur = n;
        vis[i].push_back(n);
        grows = true;
      }
  }
  L.w.step_budget = bound(b);
  Outcome o = run_once(v, L.w, {task_of(L.S[0])});
  const TaskOutcome &t = o.t0();
  int steps = 0;
  for (int i = 0; i < 3; ++i) steps = std::max(steps, (int)L.S[0].r[i].steps.size());
  v.nontrivial = o.events_fired > 0 || steps > 1;
  if (o.events_fired) v.probes.push_back("appended-during-run");
  if (abnormal(v, t)) return;
  Slot lg[3], pn[3];
  slots_full(L.S[0], lg, pn);
  Selection sel = selection_of(s.sys[0]);
  std::string why = "no version of the log gives a report", last;
  bool match = false, all_ok = true;
  for (size_t a : vis[0])
    for (size_t c : vis[1])
      for (size_t d : vis[2]) {
        lg[0].visible = a;
        lg[1].visible = c;
        lg[2].visible = d;
        Report w = evaluate(lg, pn, sel);
        if (!w.ok || w.may_fail) all_ok = false;
        if (!w.ok) {
          last = w.why;
          continue;
        }
        if (clean_exit(t) && same_report(w, t.out, last, false)) match = true;
      }
  v.sample = ending(t) + strf(" %zu*%zu*%zu versions, %llu appends", vis[0].size(), vis[1].size(), vis[2].size(), (unsigned long long)o.events_fired);
  if (clean_exit(t)) {
    v.probes.push_back("report");
    if (!match) violate(v, "not-a-prefix-report", "exit 0 but the report belongs to no version of the logs that existed: " + last);
  } else if (!grows && all_ok)
    violate(v, "refused", "finished logs refused: " + ending(t));
}

// ---------------------------------------------------------------- C07
static Scenario gen_C07(Rng &r) {
  Scenario s;
  int n = r.chance(0.75) ? 2 : 3;
  bool same_inputs = r.chance(0.25);
  for (int i = 0; i < n; ++i) {
    if (i && same_inputs) {
      Sys y = s.sys[0];
      y["optstyle"] = r.range(0, 1000);
      if (r.chance(0.6)) {  // other orbitals of the same files
        System z = build(y);
        for (int m = 1; m < 3; ++m) {
          const StepData &d = z.r[m].steps.back();
          int sp = y.get(m == 1 ? "s1" : "s2"), occ = d.nocc[sp], vir = (int)d.E[sp].size() - occ;
          bool lumo = vir > 0 && r.chance(0.5);
          y[m == 1 ? "lumo1" : "lumo2"] = lumo;
          y[m == 1 ? "num1" : "num2"] = (int)r.below(lumo ? vir : occ);
        }
      }
      s.sys.push_back(y);
      continue;
    }
    Sys y = random_sys(r, r.chance(0.7) ? 0 : 3);
    y["pfx"] = i + 1;
    s.sys.push_back(y);
  }
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q) * n));
  s.kind = same_inputs ? "same-files" : "own-files";
  uint64_t total = 0;
  std::vector<Outcome> solo;
  for (int i = 0; i < n; ++i) {
    Lab L = lab(s);
    put_system(L, L.S[i]);
    L.w.step_budget = FLAT;
    L.w.record = 2;
    Verdict d;
    solo.push_back(run_once(d, L.w, {task_of(L.S[i])}));
    total += solo.back().steps;
  }
  double how = r.unit();
  if (how < 0.45) {
    // one calculation stops at some place, another one comes to the same (or
    // any other) place, then they alternate for a while
    s.kind += "+place";
    int a = (int)r.below(n), b = (a + 1 + (int)r.below(n - 1)) % n;
    uint64_t key = 0, t = 0;
    if (a != 0) s.preempt.push_back({1, a});
    uint64_t pa = pick_place(solo[a], PLACE_STEP, r, &key), pb = r.chance(0.6) ? same_place(solo[b], key, r) : 0;
    if (!pb) pb = pick_place(solo[b], PLACE_STEP, r);
    t = (a != 0) + pa + r.below(3);
    s.preempt.push_back({t, b});
    t += pb + r.below(3);
    int k = 1 + (int)r.below(8);
    for (int i = 0; i < k; ++i) {
      s.preempt.push_back({t, i % 2 ? b : a});
      t += 1 + r.below(1ull << r.below(10));
    }
  } else if (how < 0.75) {
    s.quantum = 1 + (1ull << r.below(14));
    s.quantum_seed = 1 + r.below(1000000);
  } else {
    int k = 1 << r.below(6);
    for (int i = 0; i < k; ++i) s.preempt.push_back({1 + r.below(total), (int)r.below(n)});
    std::sort(s.preempt.begin(), s.preempt.end());
  }
  shared_sched(s, r);
  if (r.chance(0.5)) {
    s.kind += "+failure";
    int k = (int)r.below(n);
    double d = r.unit();
    System qs = build(s.sys[k]);
    if (d < 0.4) {
      std::string w = r.chance(0.6) ? "log" : "pun", role = ROLE[r.below(3)];
      s.ops.push_back({"cut", std::to_string(k), w, role, std::to_string(pick_cut(image(qs, w, role), r))});
    } else if (d < 0.9) {
      Fault f = io_fault(solo[k], r, false);
      f.task = k;
      s.faults.push_back(f);
    } else
      s.ops.push_back({"gone", std::to_string(k), r.chance(0.5) ? "log" : "pun", ROLE[r.below(3)]});
  }
  return s;
}
static void judge_C07(const Scenario &s, Verdict &v) {
  Lab L = lab(s);
  int n = (int)L.S.size();
  for (auto &q : L.S) put_system(L, q);
  for (auto &o : s.ops) {
    size_t k = o.size() > 1 ? to_ll(o[1]) : 99;
    if (k >= L.S.size()) continue;
    if (o[0] == "cut" && o.size() == 5) {
      FileImage &f = image(L.S[k], o[2], o[3]);
      put(L.w, f.path, f.bytes.substr(0, std::min<size_t>(f.bytes.size(), to_ll(o[4]))));
    } else if (o[0] == "gone" && o.size() == 4)
      L.w.files.erase(norm_path(image(L.S[k], o[2], o[3]).path));
  }
  // each one alone (with an idle companion, so that it ends the same way)
  std::vector<Outcome> solo;
  uint64_t sum = 0;
  for (int i = 0; i < n; ++i) {
    World w = L.w;
    w.faults.clear();
    for (auto f : s.faults)
      if (f.task == i) {
        f.task = 0;
        w.faults.push_back(f);
      }
    w.step_budget = FLAT / 4;
    TaskSpec idle;
    idle.argv = {"idle"};
    idle.fn = noop_main;
    solo.push_back(run_once(v, w, {task_of(L.S[i]), idle}));
    sum += solo.back().steps;
    if (solo.back().t0().status != ST_EXIT && solo.back().t0().status != ST_TERMINATE) {
      v.probes.push_back("alone-abnormal");
      return;
    }
  }
  World w = L.w;
  w.faults = s.faults;
  w.preempt = s.preempt;
  w.quantum = s.quantum;
  w.quantum_seed = s.quantum_seed;
  w.shared = s.shared;
  w.step_budget = 30 * sum + 3000000;
  std::vector<TaskSpec> ts;
  for (int i = 0; i < n; ++i) ts.push_back(task_of(L.S[i]));
  Outcome o = run_once(v, w, ts);
  v.nontrivial = o.switches > (uint64_t)n;
  for (int i = 0; i < n; ++i) {
    const TaskOutcome &a = solo[i].t0(), &c = o.task[i];
    if (!clean_exit(a)) v.probes.push_back("a-calculation-fails");
    if (abnormal(v, c)) return;
    if (a.status != c.status || a.code != c.code) return violate(v, "other-ending", strf("calculation %d ends with %s, alone with %s", i + 1, ending(c).c_str(), ending(a).c_str()));
    if (a.out != c.out) return violate(v, "other-report", strf("calculation %d prints another report than alone", i + 1));
    if (a.err != c.err || a.what != c.what) return violate(v, "other-message", strf("calculation %d reports other errors than alone", i + 1));
  }
  v.sample = strf("%d calculations, %llu switches", n, (unsigned long long)o.switches);
}

// ---------------------------------------------------------------- C16
// Calculations one after another in one process.  Before each the outside
// world puts other files (or none) where the earlier ones were.
struct SeqItem {
  std::vector<std::string> argv;
  std::vector<FsEvent> changes;
  std::vector<Fault> faults;
};
static std::vector<SeqItem> g_seq;
static int seq_main(int, const char **) {
  for (size_t k = 0; k < g_seq.size(); ++k) {
    clear_faults();
    for (auto &e : g_seq[k].changes) apply_now(e);
    for (auto &f : g_seq[k].faults) add_fault_relative(f);
    std::vector<const char *> a;
    for (auto &x : g_seq[k].argv) a.push_back(x.c_str());
    a.push_back(nullptr);
    std::string end;
    try {
      end = "returns " + std::to_string(calcj_main((int)a.size() - 1, a.data()));
    } catch (const std::exception &e) {
      clear_faults();
      end = std::string("throws ") + e.what();
    }
    clear_faults();
    std::cout << "\n#### " << end << "\n" << std::flush;
    std::cerr << "\n####\n" << std::flush;
  }
  return 0;
}
static std::vector<std::string> pieces(const std::string &t) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < t.size()) {
    size_t m = t.find("\n####", i);
    if (m == std::string::npos) {
      v.push_back(t.substr(i));
      break;
    }
    size_t e = t.find('\n', m + 1);
    if (e == std::string::npos) e = t.size() - 1;
    v.push_back(t.substr(i, e + 1 - i));
    i = e + 1;
  }
  return v;
}
static Scenario gen_C16(Rng &r) {
  Scenario s;
  int n = r.range(2, 4);
  Sys y = random_sys(r, r.chance(0.75) ? 0 : 3);
  s.sys.push_back(y);
  s.kind = "sequence";
  for (int i = 1; i < n; ++i) {
    double d = r.unit();
    Sys z = s.sys[r.below(s.sys.size())];
    if (d < 0.2) {
      z["optstyle"] = r.range(0, 1000000);
    } else if (d < 0.5) {
      z["csalt"] = 1 + r.below(1000);
    } else {
      Sys o = random_sys(r, r.chance(0.75) ? 0 : 3);
      if (d < 0.9)
        for (const char *k : {"paths", "stemdiff", "given", "pfx"}) o[k] = z.get(k);
      z = o;
    }
    s.sys.push_back(z);
  }
  s.env.push_back(benign_env(r, total_bytes(build(y)) * n));
  for (int k = 0; k < n; ++k) {
    if (k && r.chance(0.3)) s.ops.push_back({"clean", std::to_string(k)});
    double d = r.unit();
    std::string w = r.chance(0.6) ? "log" : "pun", role = ROLE[r.below(3)], K = std::to_string(k);
    if (d < 0.15) {
      System q = build(s.sys[k]);
      s.ops.push_back({"cut", K, w, role, std::to_string(pick_cut(image(q, w, role), r))});
    } else if (d < 0.3)
      s.ops.push_back({"gone", K, w, role});
    else if (d < 0.55 && k + 1 < n) {
      static const int kinds[] = {OP_OPEN, OP_READ, OP_ALLOC, OP_STAT, OP_SEEK};
      int op = kinds[r.below(5)];
      long long nth = op == OP_ALLOC ? (long long)std::exp(r.unit() * std::log(6000.0)) : 1 + (long long)r.below(op == OP_READ ? 20 : op == OP_STAT ? 18 : 6);
      s.ops.push_back({"fault", K, op_name(op), std::to_string(nth), std::to_string(op == OP_ALLOC ? 12 : r.chance(0.5) ? EIO : EACCES), r.chance(0.3) ? "1" : "0"});
    }
  }
  return s;
}
static void judge_C16(const Scenario &s, Verdict &v) {
  Lab L = lab(s);
  size_t n = L.S.size();
  std::vector<SeqItem> seq(n);
  std::set<std::string> there;
  for (size_t k = 0; k < n; ++k) {
    SeqItem &it = seq[k];
    it.argv = L.S[k].argv;
    std::map<std::string, std::string> now;
    for (int i = 0; i < 3; ++i) {
      now[L.S[k].log[i].path] = L.S[k].log[i].bytes;
      now[L.S[k].pun[i].path] = L.S[k].pun[i].bytes;
    }
    bool clean = false;
    std::set<std::string> gone;
    for (auto &o : s.ops) {
      if (o.size() < 2 || (size_t)to_ll(o[1]) != k) continue;
      if (o[0] == "clean") clean = true;
      if (o[0] == "cut" && o.size() == 5) {
        FileImage &f = image(L.S[k], o[2], o[3]);
        now[f.path] = f.bytes.substr(0, std::min<size_t>(f.bytes.size(), to_ll(o[4])));
      }
      if (o[0] == "gone" && o.size() == 4) gone.insert(image(L.S[k], o[2], o[3]).path);
      if (o[0] == "fault" && o.size() == 6) {
        Fault f;
        f.op = op_by_name(o[2]);
        f.nth = to_ll(o[3]);
        f.err = (int)to_ll(o[4]);
        f.persist = o[5] == "1";
        it.faults.push_back(f);
      }
    }
    auto change = [&](const char *act, const std::string &p, const std::string &d) {
      FsEvent e;
      e.act = act;
      e.path = p;
      e.data = d;
      it.changes.push_back(e);
    };
    if (clean)
      for (auto &p : there)
        if (!now.count(p)) change("unlink", p, "");
    if (clean) there.clear();
    for (auto &p : gone) {
      now.erase(p);
      if (there.count(p) || clean) change("unlink", p, "");
      there.erase(p);
    }
    for (auto &p : now) {
      change("replace", p.first, p.second);
      there.insert(p.first);
    }
  }
  TaskSpec t;
  t.argv = {"sequence"};
  t.fn = seq_main;
  World w;
  w.env = s.env[0];
  w.step_budget = FLAT * n;
  g_seq = seq;
  Outcome o = run_once(v, w, {t});
  const TaskOutcome &a = o.t0();
  if (abnormal(v, a)) return;
  std::vector<std::string> out = pieces(a.out), err = pieces(a.err);
  int judged = 0;
  for (size_t k = 0; k < n; ++k) {
    if (k >= out.size()) break;  // an earlier one ended the process
    if (!seq[k].faults.empty()) {
      v.probes.push_back("a-faulted-calculation");
      continue;
    }
    if (k == 0) continue;
    // alone, on the files as they are by then
    World u;
    u.env = s.env[0];
    u.step_budget = FLAT;
    SeqItem one = seq[k];
    one.changes.clear();
    for (size_t j = 0; j <= k; ++j)
      for (auto &e : seq[j].changes) {
        if (e.act == "replace") put(u, e.path, e.data);
        else u.files.erase(norm_path(e.path));
      }
    g_seq = {one};
    Outcome b = run_once(v, u, {t});
    if (b.t0().status != ST_EXIT && b.t0().status != ST_TERMINATE) {
      v.probes.push_back("alone-abnormal");
      return;
    }
    std::vector<std::string> so = pieces(b.t0().out), se = pieces(b.t0().err);
    std::string x = so.empty() ? "" : so[0], y = se.empty() ? "" : se[0];
    ++judged;
    v.probes.push_back(x.find("#### returns 0") != std::string::npos ? "a-report" : "a-failure");
    if (out[k] != x) {
      size_t m1 = out[k].find("####"), m2 = x.find("####");
      std::string e1 = m1 == std::string::npos ? "an exit" : out[k].substr(m1 + 5, 60), e2 = m2 == std::string::npos ? "an exit" : x.substr(m2 + 5, 60);
      if (e1 != e2) return violate(v, "other-ending", strf("calculation %zu of the process: %s; alone: %s", k + 1, e1.c_str(), e2.c_str()));
      return violate(v, "other-report", strf("calculation %zu of the process prints another report than alone on the same files", k + 1));
    }
    if ((k < err.size() ? err[k] : "") != y) return violate(v, "other-message", strf("calculation %zu of the process reports other errors than alone", k + 1));
  }
  v.nontrivial = judged > 0;
  v.sample = strf("%zu calculations in one process, %d compared", n, judged);
}

// ---------------------------------------------------------------- C10
static std::string dir_of(const std::string &p) {
  size_t i = p.rfind('/');
  return i == std::string::npos ? "" : p.substr(0, i + 1);
}
static std::string base_of(const std::string &p) {
  size_t i = p.rfind('/');
  return i == std::string::npos ? p : p.substr(i + 1);
}
static std::string stem_of(const std::string &p) {
  std::string b = base_of(p);
  return dir_of(p) + b.substr(0, b.rfind('.'));
}
static std::string decoy_path(const std::string &p, int id) {
  std::string d = dir_of(p), b = base_of(p), st = stem_of(p), ext = p.substr(p.rfind('.'));
  switch (id % 12) {
    case 0: return b;                                       // same name in the working directory
    case 1: return st + (ext == ".pun" ? ".PUN" : ".LOG");
    case 2: return p + ".bak";
    case 3: return st;
    case 4: return d + b.substr(0, b.find('.')) + ext;      // up to the first dot
    case 5: return "old/" + b;
    case 6: return d + "_" + b;
    case 7: return st + ".orb";
    case 8: return st + ".7";
    case 9: return d + "sub/" + b;
    case 10: return st + "1" + ext;
    default: return "/" + b;
  }
}
static Scenario gen_C10(Rng &r) {
  Scenario s;
  Sys y = random_sys(r, r.chance(0.7) ? 0 : 3);
  y["paths"] = r.chance(0.15) ? (long long)r.range(48, 71) : (long long)r.below(48);
  y["given"] = r.chance(0.3) ? 63 : 0;
  if (!y["given"]) {
    int g = 0;
    for (int i = 0; i < 3; ++i) {
      int k = r.range(1, 3);
      if (k & 1) g |= 1 << i;
      if (k & 2) g |= 8 << i;
    }
    y["given"] = g;
  }
  y["stemdiff"] = y["given"] == 63 && r.chance(0.5) ? (long long)r.below(8) : 0;
  s.sys.push_back(y);
  Sys z = y;  // the decoys' numbers
  z["csalt"] = 1 + r.below(1000);
  s.sys.push_back(z);
  int nd = r.chance(0.3) ? 0 : r.range(1, 6);
  for (int i = 0; i < nd; ++i) s.ops.push_back({"decoy", std::to_string(r.below(12)), r.chance(0.5) ? "log" : "pun", ROLE[r.below(3)]});
  // with different stems the companions of both may exist as well
  if (y["stemdiff"])
    for (int i = 0; i < 3; ++i)
      if (r.chance(0.6)) s.ops.push_back({"companion", r.chance(0.5) ? "log" : "pun", ROLE[i]});
  double k = r.unit();
  s.kind = "static";
  if (k < 0.25) {
    s.kind = "missing";
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) s.ops.push_back({"missing", r.chance(0.5) ? "log" : "pun", ROLE[r.below(3)]});
  } else if (k < 0.5) {
    s.kind = "changing";
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::string w = r.chance(0.5) ? "log" : "pun", role = ROLE[r.below(3)];
      bool appear = r.chance(0.5);
      // the existence checks are the first operations of a run
      s.ops.push_back({appear ? "appear" : "vanish", std::to_string(1 + r.below(r.chance(0.7) ? 14 : 60)), w, role});
    }
  }
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  return s;
}
static void judge_C10(const Scenario &s, Verdict &v) {
  if (s.sys.size() < 2) return;
  Lab L = lab(s);
  const System &A = L.S[0], &D = L.S[1];
  struct Src {
    const System *sys;
    int role;
    bool is_log;
  };
  std::map<std::string, Src> src;  // normalised path -> whose bytes
  auto add = [&](const std::string &p, const System &y, int role, bool is_log) {
    std::string n = norm_path(p);
    if (src.count(n)) return;
    src[n] = {&y, role, is_log};
    put(L.w, p, (is_log ? y.log[role] : y.pun[role]).bytes);
  };
  for (int i = 0; i < 3; ++i) {
    add(A.log[i].path, A, i, true);
    add(A.pun[i].path, A, i, false);
  }
  int given = (int)s.sys[0].get("given");
  for (auto &o : s.ops) {
    if (o[0] == "companion" && o.size() == 3) {
      int i = role_of(o[2]);
      if (o[1] == "log") add(stem_of(A.pun[i].path) + ".log", D, i, true);
      else add(stem_of(A.log[i].path) + ".pun", D, i, false);
    }
  }
  // decoys never take the name of a file that matters
  std::set<std::string> reserved;
  for (int i = 0; i < 3; ++i)
    for (const char *e : {".log", ".pun"}) {
      reserved.insert(norm_path(stem_of(A.log[i].path) + e));
      reserved.insert(norm_path(stem_of(A.pun[i].path) + e));
    }
  for (auto &o : s.ops)
    if (o[0] == "decoy" && o.size() == 4) {
      int i = role_of(o[3]);
      bool lg = o[2] == "log";
      std::string p = decoy_path(lg ? A.log[i].path : A.pun[i].path, (int)to_ll(o[1]));
      if (!reserved.count(norm_path(p))) add(p, D, i, lg);
    }
  std::set<std::string> changing;
  for (auto &o : s.ops) {
    if (o[0] == "missing" && o.size() == 3) L.w.files.erase(norm_path(image(L.S[0], o[1], o[2]).path));
    if ((o[0] == "appear" || o[0] == "vanish") && o.size() == 4) {
      FileImage &f = image(L.S[0], o[2], o[3]);
      FsEvent e;
      e.at = to_ll(o[1]);
      e.path = f.path;
      e.act = o[0] == "appear" ? "replace" : "unlink";
      e.data = o[0] == "appear" ? f.bytes : "";
      if (changing.count(norm_path(f.path))) continue;
      if (o[0] == "appear") L.w.files.erase(norm_path(f.path));
      changing.insert(norm_path(f.path));
      L.w.events.push_back(e);
    }
  }
  // resolution, per role: candidates in order of precedence
  std::string cand[6][2];
  for (int i = 0; i < 3; ++i) {
    bool gp = given & (1 << i), gl = given & (8 << i);
    if (gp) cand[i][0] = A.pun[i].path;
    if (gl) cand[3 + i][0] = A.log[i].path;
    if (gl) cand[i][1] = stem_of(A.log[i].path) + ".pun";
    if (gp) cand[3 + i][1] = stem_of(A.pun[i].path) + ".log";
  }
  L.w.step_budget = FLAT;
  Outcome o = run_once(v, L.w, {task_of(A)});
  const TaskOutcome &t = o.t0();
  v.nontrivial = true;
  v.sample = ending(t);
  if (abnormal(v, t)) return;
  auto exists = [&](const std::string &p) { return !p.empty() && L.w.files.count(norm_path(p)) && !L.w.files[norm_path(p)]->dir; };
  auto steady = [&](const std::string &p) { return p.empty() || !changing.count(norm_path(p)); };
  // paths printed
  Printed pr = parse_report(t.out);
  std::string shown[6];
  int nshown = 0;
  for (int i = 0; i < 6; ++i)
    for (auto &l : pr.lines)
      if (l.compare(0, strlen(path_label[i]), path_label[i]) == 0) {
        size_t k = strlen(path_label[i]);
        while (k < l.size() && l[k] == ' ') ++k;
        shown[i] = l.substr(k);
        ++nshown;
      }
  std::set<std::string> opened, showset;
  for (auto &p : t.opened) opened.insert(norm_path(p));
  for (int i = 0; i < 6; ++i)
    if (!shown[i].empty()) showset.insert(norm_path(shown[i]));
  std::string expect[6];
  bool resolvable = true, certain = true;
  for (int i = 0; i < 6; ++i) {
    for (int k = 0; k < 2 && expect[i].empty(); ++k) {
      if (!steady(cand[i][k])) certain = false;
      if (exists(cand[i][k])) expect[i] = cand[i][k];
    }
    if (expect[i].empty()) resolvable = false;
  }
  // whatever happens: only named or companion files are opened for reading
  for (auto &p : t.opened) {
    bool ok = false;
    for (int i = 0; i < 6; ++i)
      for (int k = 0; k < 2; ++k) ok |= !cand[i][k].empty() && norm_path(cand[i][k]) == norm_path(p);
    if (!ok) return violate(v, "foreign-file", "opened " + p + ", which is neither given nor a companion");
  }
  if (!clean_exit(t)) {
    if (has_all_values(t.out)) return violate(v, "values-without-success", "values printed by a failing run");
    if (certain && resolvable) {
      Slot lg[3], pn[3];
      for (int i = 0; i < 3; ++i) {
        Src a = src[norm_path(expect[3 + i])], b = src[norm_path(expect[i])];
        lg[i].sys = a.sys, lg[i].role = a.role, lg[i].is_log = a.is_log;
        pn[i].sys = b.sys, pn[i].role = b.role, pn[i].is_log = b.is_log;
      }
      Report w = evaluate(lg, pn, selection_of(s.sys[0]));
      if (w.ok && !w.may_fail) return violate(v, "refused", "all six files can be found, but: " + ending(t));
    }
    v.probes.push_back("refused");
    return;
  }
  v.probes.push_back("report");
  if (nshown != 6) return violate(v, "paths-not-printed", strf("%d of the six paths are printed", nshown));
  if (certain && !resolvable) return violate(v, "success-without-file", "exit 0 although a file cannot be found");
  for (int i = 0; i < 6; ++i) {
    bool ok = false;
    for (int k = 0; k < 2; ++k) ok |= !cand[i][k].empty() && shown[i] == cand[i][k];
    if (!ok) return violate(v, "wrong-path", std::string(path_label[i]) + " names " + shown[i]);
    if (certain && shown[i] != expect[i]) return violate(v, "wrong-path", std::string(path_label[i]) + " names " + shown[i] + ", expected " + expect[i]);
    if (!certain && steady(cand[i][0]) && exists(cand[i][0]) && shown[i] != cand[i][0]) return violate(v, "wrong-path", std::string(path_label[i]) + " names " + shown[i] + " although " + cand[i][0] + " was there all the time");
    if (shown[i] != cand[i][0]) v.probes.push_back("companion-used");
  }
  if (opened != showset) return violate(v, "other-files-read", "the files opened are not the files named in the report");
  Slot lg[3], pn[3];
  for (int i = 0; i < 3; ++i) {
    auto a = src.find(norm_path(shown[3 + i])), b = src.find(norm_path(shown[i]));
    if (a == src.end() || b == src.end()) return violate(v, "success-without-file", "exit 0 with a file that never existed");
    lg[i].sys = a->second.sys, lg[i].role = a->second.role, lg[i].is_log = a->second.is_log;
    pn[i].sys = b->second.sys, pn[i].role = b->second.role, pn[i].is_log = b->second.is_log;
    if (a->second.sys == &D || b->second.sys == &D) v.probes.push_back("second-set-used");
  }
  Report w = evaluate(lg, pn, selection_of(s.sys[0]));
  std::string why;
  if (!w.ok) return violate(v, "success-without-data", w.why);
  if (!same_report(w, t.out, why, false)) return violate(v, "wrong-report", "the report is not that of the files it names: " + why);
}

// ---------------------------------------------------------------- C12 / C14: storage corruption
static const char *CORR[] = {"bitflip", "byte", "zero", "garbage", "dup", "swap", "copyfrom", "dropline", "repline", "insert", "cutmid", "digits", "stars"};
static void corrupt(System &q, const Tokens &o) {
  // corrupt <log|pun> <role> <how> <off> <len> <arg>
  if (o.size() != 7) return;
  FileImage &f = image(q, o[1], o[2]);
  std::string &d = f.bytes;
  if (d.empty()) return;
  size_t off = (size_t)to_ll(o[4]) % d.size(), len = std::max<long long>(1, to_ll(o[5]));
  uint64_t arg = (uint64_t)to_ll(o[6]);
  len = std::min(len, d.size() - off);
  const std::string &how = o[3];
  Rng r(mix(arg, 4242));
  size_t ls = d.rfind('\n', off ? off - 1 : 0), le = d.find('\n', off);
  ls = ls == std::string::npos ? 0 : ls + 1;
  le = le == std::string::npos ? d.size() : le + 1;
  if (how == "bitflip") d[off] ^= 1 << (arg % 8);
  else if (how == "byte") d[off] = (char)arg;
  else if (how == "zero") memset(&d[off], 0, len);
  else if (how == "garbage") {
    for (size_t i = 0; i < len; ++i) d[off + i] = (char)r.next();
  } else if (how == "dup") d.insert(off, d.substr(off, len));
  else if (how == "swap") {
    size_t b = arg % d.size();
    for (size_t i = 0; i < len && off + i < d.size() && b + i < d.size(); ++i) std::swap(d[off + i], d[b + i]);
  } else if (how == "copyfrom") {  // a block of another file lands here
    const FileImage &g = arg & 1 ? q.log[arg / 2 % 3] : q.pun[arg / 2 % 3];
    if (!g.bytes.empty()) {
      std::string blk = g.bytes.substr((arg / 8) % g.bytes.size(), len);
      d.replace(off, std::min(len, blk.size()), blk);
    }
  } else if (how == "dropline") d.erase(ls, le - ls);
  else if (how == "repline") {
    std::string l = d.substr(ls, le - ls);
    for (uint64_t i = 0; i < 1 + arg % 3; ++i) d.insert(ls, l);
  } else if (how == "insert") {
    std::string l;
    for (size_t i = 0; i < len; ++i) l += " \n0123456789.-+DE*A"[r.below(19)];
    d.insert(off, l);
  } else if (how == "cutmid") d.erase(off, len);
  else if (how == "digits") {
    for (size_t i = off; i < off + len; ++i)
      if (d[i] >= '0' && d[i] <= '9') d[i] = (char)('0' + r.below(10));
  } else if (how == "stars") {
    for (size_t i = off; i < off + len; ++i)
      if (d[i] != '\n') d[i] = '*';
  }
}
static void gen_corruption(Scenario &s, const System &q, Rng &r, int n) {
  for (int i = 0; i < n; ++i) {
    std::string w = r.chance(0.65) ? "log" : "pun", role = ROLE[r.below(3)];
    const FileImage &f = w == "log" ? q.log[role_of(role)] : q.pun[role_of(role)];
    size_t off = pick_cut(f, r);
    static const int LEN[] = {1, 2, 4, 8, 15, 64, 512, 4096};
    s.ops.push_back({"corrupt", w, role, CORR[r.below(13)], std::to_string(off), std::to_string(LEN[r.below(8)]), std::to_string(r.below(1000000))});
  }
}
static Scenario gen_C12(Rng &r) {
  Scenario s;
  s.sys.push_back(random_sys(r, r.chance(0.6) ? 0 : r.chance(0.85) ? 3 : 7));
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  s.env[0].heap_fill = (int)r.below(5);
  double d = r.unit();
  if (d < 0.75) {
    s.kind = "corrupted";
    gen_corruption(s, q, r, r.chance(0.6) ? 1 : r.range(2, 5));
  } else if (d < 0.85) {
    s.kind = "cut";
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      std::string w = r.chance(0.65) ? "log" : "pun", role = ROLE[r.below(3)];
      s.ops.push_back({"cut", "0", w, role, std::to_string(pick_cut(image(q, w, role), r))});
    }
  } else if (d < 0.93) {
    s.kind = "missing-table";
    gen_omit(s, q, r);
  } else {
    s.kind = "misdirected-file";
    Sys y = random_sys(r, r.chance(0.8) ? 0 : 3);
    s.sys.push_back(y);
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) s.ops.push_back({"slot", r.chance(0.5) ? "log" : "pun", ROLE[r.below(3)], std::to_string(r.below(2)), ROLE[r.below(3)]});
  }
  return s;
}
// slot lines: the file of a slot is (wholly) another file of the same kind
static void apply_slots(const Scenario &s, const Lab &L, Slot lg[3], Slot pn[3]) {
  for (auto &o : s.ops)
    if (o.size() == 5 && o[0] == "slot") {
      size_t k = to_ll(o[3]);
      if (k >= L.S.size()) continue;
      Slot &t = o[1] == "log" ? lg[role_of(o[2])] : pn[role_of(o[2])];
      t.sys = &L.S[k];
      t.role = role_of(o[4]);
    }
}
static void put_slots(Lab &L, const System &names, const Slot lg[3], const Slot pn[3]) {
  for (int i = 0; i < 3; ++i) {
    put(L.w, names.log[i].path, lg[i].sys->log[lg[i].role].bytes.substr(0, lg[i].visible));
    put(L.w, names.pun[i].path, pn[i].sys->pun[pn[i].role].bytes.substr(0, pn[i].visible));
  }
}
// the world of a C12/C14/C13 scenario
static Lab stored(const Scenario &s, int envi, Slot lg[3], Slot pn[3]) {
  Lab L = lab(s, envi);
  for (auto &o : s.ops)
    if (o[0] == "corrupt") corrupt(L.S[0], o);
  return L;
  (void)lg;
  (void)pn;
}
static void judge_C12(const Scenario &s, Verdict &v) {
  Slot lg[3], pn[3];
  Lab L = stored(s, 0, lg, pn);
  slots_full(L.S[0], lg, pn);
  apply_cuts(s, L.S[0], lg, pn);
  apply_slots(s, L, lg, pn);
  put_slots(L, L.S[0], lg, pn);
  L.w.step_budget = FLAT;
  L.w.heap_cap = 400ull << 20;
  Outcome o = run_once(v, L.w, {task_of(L.S[0])});
  v.nontrivial = !s.ops.empty();
  v.sample = ending(o.t0());
  v.probes.push_back(clean_exit(o.t0()) ? "accepted" : "refused");
  abnormal(v, o.t0());
}

// ---------------------------------------------------------------- C13
static Scenario gen_C13(Rng &r) {
  Scenario s;
  s.sys.push_back(random_sys(r, r.chance(0.5) ? 0 : r.chance(0.8) ? 3 : 7));
  Sys &y = s.sys[0];
  if (r.chance(0.5)) y["pop"] = 7;
  double d = r.unit();
  if (d < 0.3) {
    s.kind = "exchanged";
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      int a = (int)r.below(3), b = (a + 1 + (int)r.below(2)) % 3;
      std::string w = r.chance(0.5) ? "log" : "pun";
      s.ops.push_back({"slot", w, ROLE[a], "0", ROLE[b]});
      if (r.chance(0.5)) s.ops.push_back({"slot", w, ROLE[b], "0", ROLE[a]});
    }
  } else {
    Sys z = y;
    if (d < 0.7) {  // an older or newer calculation of the same system
      s.kind = "stale";
      switch (r.below(8)) {
        case 0: z["seed"] = (long long)(r.next() & 0x7fffffffffffLL); break;
        case 1: z["drop"] = z["drop"] ^ (1 + (long long)r.below(7)); break;
        case 2: z["bmax"] = z["bmax"] + 1; z["bmin"] = z["bmax"]; break;
        case 3: z["na1"] = z["na1"] + 1; break;
        case 4: z["na2"] = std::max<long long>(1, z["na2"] - 1); break;
        case 5: z["perm"] = (z["perm"] + 1 + (long long)r.below(4)) % 5; break;
        case 6:
        case 7: {  // one atom moved a little between the two calculations
          static const int SH[] = {1, 2, 5, 9, 10, 30, 100, 1000};
          z["shift"] = SH[r.below(8)] * (r.chance(0.5) ? 1 : -1);
          z["shiftrole"] = 1 + (long long)r.below(7);
          z["shiftatom"] = (long long)r.below(30);
          break;
        }
      }
    } else {
      s.kind = "other-system";
      z = random_sys(r, r.chance(0.6) ? 0 : 3);
    }
    s.sys.push_back(z);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::string w = r.chance(0.5) ? "log" : "pun", role = ROLE[r.below(3)];
      s.ops.push_back({"slot", w, role, "1", r.chance(0.8) ? role : ROLE[r.below(3)]});
      if (r.chance(0.4)) s.ops.push_back({"slot", w == "log" ? "pun" : "log", role, "1", role});
    }
  }
  System q = build(s.sys[0]);
  s.env.push_back(benign_env(r, total_bytes(q)));
  return s;
}
static void judge_C13(const Scenario &s, Verdict &v) {
  Slot lg[3], pn[3];
  Lab L = lab(s);
  slots_full(L.S[0], lg, pn);
  apply_slots(s, L, lg, pn);
  put_slots(L, L.S[0], lg, pn);
  L.w.step_budget = FLAT;
  Report w = evaluate(lg, pn, selection_of(s.sys[0]));
  if (w.ok) {
    v.probes.push_back("still-consistent");
    return;
  }
  Outcome o = run_once(v, L.w, {task_of(L.S[0])});
  v.nontrivial = true;
  const TaskOutcome &t = o.t0();
  v.sample = ending(t) + " | model: " + w.why;
  std::string cl;
  for (char c : w.why)
    if (c < '0' || c > '9') cl += c;
  v.probes.push_back("why: " + cl);
  if (abnormal(v, t)) return;
  if (clean_exit(t)) return violate(v, "accepted", "exit 0 although " + w.why);
  if (has_all_values(t.out)) violate(v, "values-printed", "J_eff printed although " + w.why);
}

// ---------------------------------------------------------------- C14
static Scenario gen_C14(Rng &r) {
  Scenario s;
  double d = r.unit();
  if (d < 0.3) s.sys.push_back(random_sys(r, r.chance(0.5) ? 0 : 3));
  else s.sys.push_back(random_sys(r, r.chance(0.6) ? 0 : r.chance(0.8) ? 3 : 7));
  System q = build(s.sys[0]);
  if (d < 0.25) s.kind = "complete";
  else if (d < 0.45) {
    s.kind = "cut";
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
      std::string w = r.chance(0.65) ? "log" : "pun", role = ROLE[r.below(3)];
      s.ops.push_back({"cut", "0", w, role, std::to_string(pick_cut(image(q, w, role), r))});
    }
  } else if (d < 0.6) {
    s.kind = "missing-table";
    gen_omit(s, q, r);
    if (r.chance(0.4)) gen_omit(s, q, r);
  } else if (d < 0.8) {
    Scenario m = gen_C13(r);
    s.sys = m.sys;
    s.ops = m.ops;
    s.kind = "mismatched";
    q = build(s.sys[0]);
  } else {
    s.kind = "corrupted";
    gen_corruption(s, q, r, r.range(1, 3));
  }
  EnvKnobs a = benign_env(r, total_bytes(q)), b = benign_env(r, total_bytes(q));
  a.heap_fill = 1 + (int)r.below(4);
  do b.heap_fill = 1 + (int)r.below(4);
  while (b.heap_fill == a.heap_fill && a.heap_fill <= 2);
  a.stack_fill = 1 + (int)r.below(4);
  b.stack_fill = 1 + (int)r.below(4);
  b.fill_seed = a.fill_seed + 1;
  s.env = {a, b};
  return s;
}
static void judge_C14(const Scenario &s, Verdict &v) {
  if (s.env.size() < 2) return;
  Outcome o[2];
  for (int k = 0; k < 2; ++k) {
    Slot lg[3], pn[3];
    Lab L = stored(s, k, lg, pn);
    // buffering decides how much of the output of an aborted run is delivered
    L.w.env.out_mode = s.env[0].out_mode;
    L.w.env.out_buf = s.env[0].out_buf;
    slots_full(L.S[0], lg, pn);
    apply_cuts(s, L.S[0], lg, pn);
    apply_slots(s, L, lg, pn);
    put_slots(L, L.S[0], lg, pn);
    L.w.step_budget = FLAT / 2;
    L.w.heap_cap = 400ull << 20;
    o[k] = run_once(v, L.w, {task_of(L.S[0])});
    if (o[k].t0().status == ST_INTERNAL) return violate(v, "harness", o[k].t0().what);
  }
  v.nontrivial = true;
  const TaskOutcome &a = o[0].t0(), &b = o[1].t0();
  v.sample = ending(a);
  v.probes.push_back(clean_exit(a) ? "report" : "refused");
  if (a.status != b.status || a.code != b.code) return violate(v, "other-ending", "one run: " + ending(a) + ", the other: " + ending(b));
  if (a.out != b.out) return violate(v, "other-report", "the two runs print different reports");
  if (a.err != b.err || a.what != b.what) return violate(v, "other-message", "the two runs report different errors: '" + a.what + "' and '" + b.what + "'");
}

// ---------------------------------------------------------------- dispatch and C11
struct PropFns {
  const char *id;
  Scenario (*gen)(Rng &);
  void (*judge)(const Scenario &, Verdict &);
};
// ---------------------------------------------------------------- C24
// what is documented: the long name, the abbreviation, what it says
static const char *const USAGE[][3] = {
    {"--citation", "-cite",
     "Print software citation."},
    {"--counter_poise", "-cp",
     "Specify that the counter poise correction is being taken into account this means that there should be the same number of basis functions for the dimer as there are for each of the monomers."},
    {"--help", "-h",
     "Display help message"},
    {"--log_1", "-l_1",
     "File contains the log output from a guassian run of monomer 1. It is used to determine the orbital energies, the HOMO and LUMO levels and the number of basis functions per atom if provided. The file must have the .log extension to be read."},
    {"--log_2", "-l_2",
     "File contains the log output from a guassian run of monomer 2. It is used to determine the orbital energies, the HOMO and LUMO levels and the number of basis functions per atom if provided. The file must have the .log extension to be read."},
    {"--log_P", "-l_P",
     "File contains the log output from a guassian run of a dimer system. It is used to determine the orbital energies, the HOMO and LUMO levels and the number of basis functions per atom if provided. The file must have the .log extension to be read."},
    {"--orbital_num_1", "-orb_num_1",
     "Specify which orbital will be used for monomer 1. If you specified an orbital type of HOMO you must use 0 to indicate HOMO or a negative number. E.g. a value of -1 would access the HOMO-1. If the LUMO is specified 0 - represents the LUMO and is the default. To access another orbital specify a positive number. E.g. 4 would access the LUMO+4."},
    {"--orbital_num_2", "-orb_num_2",
     "Specify which orbital will be used for monomer 2. If you specified an orbital type of HOMO you must use 0 to indicate HOMO or a negative number. E.g. a value of -1 would access the HOMO-1. If the LUMO is specified 0 - represents the LUMO and is the default. To access another orbital specify a positive number. E.g. 4 would access the LUMO+4."},
    {"--orbital_type_1", "-orb_ty_1",
     "Specify which orbital type will be used for monomer 1. By default the HOMO will be used. Your options are HOMO or LUMO."},
    {"--orbital_type_2", "-orb_ty_2",
     "Specify which orbital type will be used for monomer 2. By default the HOMO will be used. Your options are HOMO or LUMO."},
    {"--pun_1", "-p_1",
     "File contains the atomic orbital coefficients of monomer 1. Must have the .pun/.orb/.7 file extension. This file is in the same format as the fort.7 file that comes out of a Gaussian run."},
    {"--pun_2", "-p_2",
     "File contains the atomic orbital coefficients of monomer 2. Must have the .pun/.orb/.7 file extension. This file is in the same format as the fort.7 file that comes out of a Gaussian run."},
    {"--pun_P", "-p_P",
     "File contains the atomic orbital coefficients of the dimer of both monomer units. Must have the .pun/.orb/.7 file extension. This file is in the same format as the fort.7 file that comes out of a Gaussian run."},
    {"--spin_1", "-s_1",
     "Specify which spin should be used for monomer 1 when running the transfer integral calculations. By default the same spin will be used for monomer 1, 2 and the dimer. The options are alpha or beta."},
    {"--spin_2", "-s_2",
     "Specify which spin should be used for monomer 2 when running the transfer integral calculations. By default the same spin will be used for monomer 1, 2 and the dimer. The options are alpha or beta."},
    {"--spin_P", "-s_P",
     "Specify which spin should be used for the dimer when running the transfer integral calculations. By default the same spin will be used for monomer 1, 2 and the dimer. The options are alpha or beta."},
    {"--version", "-v",
     "Print the version"},
};

static std::vector<std::string> blank_split(const std::string &t) {
  std::istringstream i(t);
  std::vector<std::string> r;
  for (std::string w; i >> w;) r.push_back(w);
  return r;
}
static const char *const ASK[4][2] = {{"--help", "-h"}, {"--citation", "-cite"}, {"--version", "-v"}, {"--version", "-version"}};
static int asked(const std::string &w) {  // 0 help, 1 citation, 2 version
  for (int i = 0; i < 4; ++i)
    if (w == ASK[i][0] || w == ASK[i][1]) return i > 2 ? 2 : i;
  return -1;
}
// Reads one usage from words[i...]; "" or what is wrong with it
static std::string usage_at(const std::vector<std::string> &w, size_t &i) {
  std::map<std::string, int> where;
  for (size_t k = 0; k < sizeof USAGE / sizeof *USAGE; ++k) where[USAGE[k][0]] = (int)k;
  size_t h = i;
  while (h < w.size() && w[h] != "Options:") ++h;
  if (h == w.size() || h > i + 8) return "no list of options";
  i = h + 1;
  std::set<int> seen;
  while (i < w.size() && where.count(w[i])) {
    int k = where[w[i]];
    if (!seen.insert(k).second) return std::string(USAGE[k][0]) + " is described twice";
    ++i;
    if (i >= w.size() || w[i] != USAGE[k][1]) return std::string(USAGE[k][0]) + " is not shown with its abbreviation";
    ++i;
    for (auto &d : blank_split(USAGE[k][2])) {
      if (i >= w.size() || w[i] != d) return std::string("the description of ") + USAGE[k][0] + " lacks or changes '" + d + "'";
      ++i;
    }
  }
  if (seen.size() != where.size())
    for (auto &x : where)
      if (!seen.count(x.second)) return x.first + " is not described";
  return "";
}
static std::string citation_at(const std::vector<std::string> &w, size_t &i) {
  std::string text = "Citation: " + catnip::calcJ_AUTHOR_SURNAME + ", " + catnip::calcJ_AUTHOR_INITIALS + " (" + std::to_string(catnip::calcJ_YEAR_PUBLISHED) + "). " + catnip::calcJ_TITLE + " (Version " + std::to_string(catnip::calcJ_VERSION_MAJOR) + "." +
                     std::to_string(catnip::calcJ_VERSION_MINOR) + "). [Software]. Available from " + catnip::calcJ_URL + ".";
  for (auto &d : blank_split(text)) {
    if (i >= w.size() || w[i] != d) return "the citation lacks or changes '" + d + "'";
    ++i;
  }
  return "";
}
static Tokens words_asked(const Scenario &s) {
  for (auto &o : s.ops)
    if (!o.empty() && o[0] == "args") return Tokens(o.begin() + 1, o.end());
  return {};
}
// the command line: the requests alone, or among the options of the calculation
static TaskSpec asking(const Scenario &s, const Lab &L) {
  TaskSpec t;
  t.fn = calcj_main;
  t.argv = {"calc_J"};
  Tokens a = words_asked(s);
  if (L.S.empty()) {
    for (auto &x : a) t.argv.push_back(x);
    return t;
  }
  t = task_of(L.S[0]);
  // each token is "position:request"; positions count options, not values
  for (auto &x : a) {
    size_t c = x.find(':');
    if (c == std::string::npos) continue;
    long long p = to_ll(x.substr(0, c));
    size_t i = 1;
    while (i < t.argv.size() && (p > 0 || t.argv[i].compare(0, 1, "-") || (t.argv[i].size() > 1 && isdigit((unsigned char)t.argv[i][1])))) {
      if (!t.argv[i].compare(0, 1, "-")) --p;
      ++i;
    }
    t.argv.insert(t.argv.begin() + i, x.substr(c + 1));
  }
  return t;
}
static Outcome unfaulted_C24(Verdict &v, const Scenario &s) {
  Lab L = lab(s);
  if (!L.S.empty()) put_system(L, L.S[0]);
  L.w.step_budget = FLAT;
  L.w.record = 1;
  std::string key = base_key(s, "ask");
  for (auto &x : words_asked(s)) key += " " + x;
  return cached(v, key, L.w, {asking(s, L)});
}
static Scenario gen_C24(Rng &r) {
  Scenario s;
  s.env.push_back(benign_env(r, 5000));
  Tokens o{"args"};
  auto one = [&](int k) { return std::string(ASK[k][r.below(2)]); };
  if (r.chance(0.25)) {  // beside a calculation
    s.kind = "beside-a-calculation";
    Sys y = random_sys(r, 0);
    y["cite"] = 0;
    s.sys.push_back(y);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) o.push_back(std::to_string(r.below(13)) + ":" + one((int)r.below(2)));
  } else {
    s.kind = "alone";
    int n = r.chance(0.06) ? 0 : r.chance(0.5) ? 1 : r.range(2, 4);
    for (int i = 0; i < n; ++i) o.push_back(one((int)r.below(4)));
    if (!n) s.kind = "nothing-asked";
  }
  s.ops.push_back(o);
  if (r.chance(0.3)) return s;
  Verdict d;
  Outcome b = unfaulted_C24(d, s);
  if (r.chance(0.3)) {
    Fault f;
    f.op = OP_ALLOC;
    uint64_t n = std::max<uint64_t>(1, b.allocs);
    f.nth = 1 + r.below(n);
    if (r.chance(0.5))
      if (uint64_t k = pick_place(b, OP_ALLOC, r)) f.nth = k;
    f.err = ENOMEM;
    f.persist = r.chance(0.4);
    s.faults.push_back(f);
    return s;
  }
  static const int E[] = {ENOSPC, EIO, EPIPE, EINTR, EAGAIN, EFBIG, EDQUOT};
  int n = r.chance(0.6) ? 1 : r.range(2, 4);
  for (int i = 0; i < n; ++i) {
    Fault f;
    f.op = OP_WRITE1;
    f.nth = 1 + r.below(std::max<uint64_t>(1, b.nops[f.op] + (n > 1 ? 3 : 0)));
    if (r.chance(0.3)) f.nth = std::max<uint64_t>(1, b.nops[f.op] - r.below(3));
    if (r.chance(0.3)) {
      f.err = 0;
      f.arg = r.range(1, 40);
    } else
      f.err = E[r.below(7)];
    f.persist = r.chance(0.4);
    s.faults.push_back(f);
  }
  return s;
}
static void judge_C24(const Scenario &s, Verdict &v) {
  Outcome b = unfaulted_C24(v, s);
  Lab L = lab(s);
  bool calc = !L.S.empty();
  TaskSpec ts = asking(s, L);
  v.nontrivial = true;
  const TaskOutcome &t = b.t0();
  v.sample = ending(t) + strf(" %zu bytes", t.out.size());
  if (abnormal(v, t)) return;
  std::string line;
  for (size_t i = 1; i < ts.argv.size(); ++i) line += " " + ts.argv[i];
  // first without faults: the text itself
  Outcome plain;
  std::string rest;
  if (calc) {
    plain = baseline(v, s);
    if (t.status != plain.t0().status || t.code != plain.t0().code) return violate(v, "changes-the-ending", "calc_J" + line + ": " + ending(t) + ", without the requests: " + ending(plain.t0()));
    rest = plain.t0().out;
  } else {
    if (ts.argv.size() == 1) {
      if (clean_exit(t)) return violate(v, "changes-the-ending", "calc_J without options exits 0");
    } else if (!clean_exit(t))
      return violate(v, "not-answered", "calc_J" + line + ": " + ending(t) + " | " + t.err.substr(0, 200));
    if (!t.tried.empty()) return violate(v, "opens-files", "calc_J" + line + " opens " + t.tried[0]);
  }
  std::vector<std::string> w = blank_split(t.out), q = blank_split(rest);
  std::vector<std::string> head = blank_split("Running calc_J VERSION " + std::to_string(catnip::calcJ_VERSION_MAJOR) + "." + std::to_string(catnip::calcJ_VERSION_MINOR));
  size_t i = 0;
  for (auto &x : head) {
    if (i >= w.size() || w[i] != x) return violate(v, "wrong-text", "calc_J" + line + ": the version is not shown");
    ++i;
  }
  for (size_t k = ts.argv.size() == 1 ? 0 : 1; k < ts.argv.size(); ++k) {
    int a = k ? asked(ts.argv[k]) : 0;  // without options the usage is shown
    if (a == 2) break;
    std::string why = a == 0 ? usage_at(w, i) : a == 1 ? citation_at(w, i) : "";
    if (!why.empty()) return violate(v, "wrong-text", "calc_J" + line + ": " + why);
  }
  size_t j = std::min(q.size(), head.size());
  while (i < w.size() && j < q.size() && w[i] == q[j]) ++i, ++j;
  if (i != w.size() || j != q.size()) return violate(v, "wrong-text", "calc_J" + line + ": " + (i < w.size() ? "'" + w[i] + "'" : "nothing") + " where " + (j < q.size() ? "'" + q[j] + "'" : "the end") + " is expected");
  if (s.faults.empty()) return;
  // and now with them
  Lab F = lab(s);
  if (calc) put_system(F, F.S[0]);
  F.w.faults = s.faults;
  F.w.step_budget = bound(b);
  Outcome o = run_once(v, F.w, {ts});
  const TaskOutcome &f = o.t0();
  v.nontrivial = o.fired[OP_WRITE1] + o.fired[OP_ALLOC] > 0;
  if (o.fired[OP_WRITE1]) v.probes.push_back("stdout-fault");
  if (o.fired[OP_ALLOC]) v.probes.push_back("alloc-fault");
  v.sample = ending(f) + strf(" %zu of %zu bytes delivered", f.out.size(), t.out.size());
  if (abnormal(v, f)) return;
  if (clean_exit(f) && f.out.size() != t.out.size()) return violate(v, "lost-text", "calc_J" + line + strf(": exit 0 but only %zu of %zu bytes of the text were delivered", f.out.size(), t.out.size()));
  if (!subsequence(f.out, t.out)) return violate(v, "other-text", "calc_J" + line + ": what was delivered is not taken from the text");
}

// ---------------------------------------------------------------- C25
// One option of calc_J: its names, what its value is, and whose it is
struct Option {
  const char *l, *s;
  char kind;  // p pun file, l log file, s spin, t orbital type, n orbital number, c counterpoise, x a text that is asked for
  int role;
};
static const Option OPTS[] = {{"--pun_P", "-p_P", 'p', 0}, {"--pun_1", "-p_1", 'p', 1}, {"--pun_2", "-p_2", 'p', 2}, {"--log_P", "-l_P", 'l', 0}, {"--log_1", "-l_1", 'l', 1}, {"--log_2", "-l_2", 'l', 2},
                              {"--spin_P", "-s_P", 's', 0}, {"--spin_1", "-s_1", 's', 1}, {"--spin_2", "-s_2", 's', 2}, {"--orbital_type_1", "-orb_ty_1", 't', 1}, {"--orbital_type_2", "-orb_ty_2", 't', 2},
                              {"--orbital_num_1", "-orb_num_1", 'n', 1}, {"--orbital_num_2", "-orb_num_2", 'n', 2}, {"--counter_poise", "-cp", 'c', 0}, {"--citation", "-cite", 'x', 0}, {"--help", "-h", 'x', 0}};
static const Option *option_named(const std::string &w) {
  for (auto &o : OPTS)
    if (w == o.l || w == o.s) return &o;
  return nullptr;
}
static std::string alt_path(const std::string &p) { return stem_of(p) + "_alt" + p.substr(p.rfind('.')); }
// Words of a command line in a scenario: %e nothing, %b a blank, @log:1 the other log of monomer 1
static std::string word_of(const std::string &t, const System &A) {
  if (t == "%e") return "";
  if (t.size() > 5 && t[0] == '@' && t[4] == ':') {
    int i = role_of(t.substr(5));
    return alt_path(t.substr(1, 3) == "log" ? A.log[i].path : A.pun[i].path);
  }
  std::string r;
  for (size_t i = 0; i < t.size(); ++i)
    if (t.compare(i, 2, "%b") == 0) r += ' ', ++i;
    else r += t[i];
  return r;
}
typedef std::vector<std::vector<std::string>> Units;
static std::vector<std::string> edited_line(const Scenario &s, const System &A) {
  Units u;
  for (size_t i = 1; i < A.argv.size(); ++i) {
    const Option *o = option_named(A.argv[i]);
    u.push_back({A.argv[i]});
    if (o && o->kind != 'c' && o->kind != 'x' && i + 1 < A.argv.size()) u.back().push_back(A.argv[++i]);
  }
  auto last = [&](const std::string &name) -> std::vector<std::string> & {
    const Option *o = option_named(name);
    for (size_t i = u.size(); i-- > 0;)
      if (!u[i].empty() && o && option_named(u[i][0]) == o) return u[i];
    u.push_back({name});
    return u.back();
  };
  for (auto &o : s.ops) {
    if (o[0] == "put" && o.size() >= 3) {  // words between two options
      std::vector<std::string> w;
      for (size_t i = 2; i < o.size(); ++i) w.push_back(word_of(o[i], A));
      size_t at = std::min<size_t>(to_ll(o[1]), u.size());
      u.insert(u.begin() + at, w);
    } else if (o[0] == "value" && o.size() == 3) {
      auto &x = last(o[1]);
      std::string n = x[0];
      x = {n, word_of(o[2], A)};
    } else if (o[0] == "no-value" && o.size() == 2) {
      auto &x = last(o[1]);
      x.resize(1);
    }
  }
  std::vector<std::string> argv{"calc_J"};
  for (auto &x : u)
    for (auto &w : x) argv.push_back(w);
  return argv;
}
// What a command line asks for; why != "" if it must be refused
struct Asked {
  std::string why;
  Selection sel;
  std::string pun[3], log[3];
};
static bool ends_with(const std::string &s, const std::string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static Asked understand(const std::vector<std::string> &argv) {
  Asked a;
  auto no = [&](const std::string &why) {
    a.why = why;
    return a;
  };
  for (size_t i = 1; i < argv.size(); ++i) {
    const Option *o = option_named(argv[i]);
    if (!o) return no("no option is called '" + argv[i] + "'");
    if (o->kind == 'x') continue;
    bool more = i + 1 < argv.size();
    if (o->kind == 'c') {
      a.sel.cp = 1;
      if (!more || option_named(argv[i + 1])) continue;
      const std::string &v = argv[++i];
      if (v == "OFF" || v == "FALSE" || v == "0") a.sel.cp = 0;
      else if (v != "ON" && v != "TRUE" && v != "1") return no("counterpoise '" + v + "'");
      continue;
    }
    if (!more) return no(argv[i] + " without a value");
    const std::string &v = argv[++i];
    if (o->kind == 's') {
      if (v != "Alpha" && v != "Beta") return no("spin '" + v + "'");
      a.sel.s[o->role] = v == "Beta";
    } else if (o->kind == 't') {
      if (v != "HOMO" && v != "LUMO") return no("orbital type '" + v + "'");
      a.sel.lumo[o->role] = v == "LUMO";
    } else if (o->kind == 'n') {
      size_t k = !v.empty() && (v[0] == '+' || v[0] == '-');
      bool digits = k < v.size();
      for (size_t j = k; j < v.size(); ++j) digits &= v[j] >= '0' && v[j] <= '9';
      if (!digits || v.size() > 18) return no("orbital number '" + v + "'");
      long long n = strtoll(v.c_str(), nullptr, 10);
      if (n > 2147483647ll || n < -2147483648ll) return no("orbital number '" + v + "'");
      n = std::max(-1000000000ll, std::min(1000000000ll, n));  // no file holds that many
      a.sel.num[o->role] = (int)n;
    } else if (o->kind == 'p') {
      if (!ends_with(v, ".pun")) return no("pun file '" + v + "'");
      a.pun[o->role] = v;
    } else {
      if (!ends_with(v, ".log")) return no("log file '" + v + "'");
      a.log[o->role] = v;
    }
  }
  for (int i = 1; i < 3; ++i) {
    if (!a.sel.lumo[i] && a.sel.num[i] > 0) return no("positive number with HOMO");
    if (a.sel.lumo[i] && a.sel.num[i] < 0) return no("negative number with LUMO");
  }
  return a;
}
static Lab lab_C25(const Scenario &s) {
  Lab L = lab(s);
  put_system(L, L.S[0]);
  if (L.S.size() > 1)
    for (int i = 0; i < 3; ++i) {
      put(L.w, alt_path(L.S[0].log[i].path), L.S[1].log[i].bytes);
      put(L.w, alt_path(L.S[0].pun[i].path), L.S[1].pun[i].bytes);
      // and their companions, where the two files of a system have different names
      put(L.w, stem_of(alt_path(L.S[0].log[i].path)) + ".pun", L.S[1].pun[i].bytes);
      put(L.w, stem_of(alt_path(L.S[0].pun[i].path)) + ".log", L.S[1].log[i].bytes);
      L.bytes += L.S[1].log[i].bytes.size() + L.S[1].pun[i].bytes.size();
    }
  L.w.step_budget = FLAT;
  return L;
}
static TaskSpec task_C25(const Scenario &s, const Lab &L) {
  TaskSpec t;
  t.fn = calcj_main;
  t.argv = edited_line(s, L.S[0]);
  return t;
}
static Outcome unfaulted_C25(Verdict &v, const Scenario &s) {
  Lab L = lab_C25(s);
  L.w.record = 1;
  std::string key = base_key(s, "line");
  for (auto &o : s.ops) {
    key += ";";
    for (auto &x : o) key += " " + x;
  }
  return cached(v, key, L.w, {task_C25(s, L)});
}
static Scenario gen_C25(Rng &r) {
  Scenario s;
  Sys y = random_sys(r, r.chance(0.7) ? 0 : 3);
  y["stemdiff"] = 0;
  s.sys.push_back(y);
  Sys z = y;
  z["csalt"] = 1 + r.below(1000);
  s.sys.push_back(z);
  System q = build(y);
  s.env.push_back(benign_env(r, total_bytes(q)));
  auto name = [&](char kind, int role = -1) {
    std::vector<const Option *> c;
    for (auto &o : OPTS)
      if (o.kind == kind && (role < 0 || o.role == role)) c.push_back(&o);
    const Option *o = c[r.below(c.size())];
    return std::string(r.chance(0.5) ? o->l : o->s);
  };
  auto role = [&] { return r.range(1, 2); };
  auto at = [&] { return std::to_string(r.chance(0.4) ? 0 : r.below(16)); };
  auto pick = [&](std::vector<const char *> c) { return std::string(c[r.below(c.size())]); };
  double d = r.unit();
  if (d < 0.4) {
    s.kind = "legal";
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      double k = r.unit();
      if (k < 0.2) {
        int ro = (int)r.below(3);
        bool beta = r.chance((y.get("unr") & (1 << ro)) ? 0.6 : 0.08);
        s.ops.push_back({"put", at(), name('s', ro), beta ? "Beta" : "Alpha"});
      }
      else if (k < 0.35) s.ops.push_back({"put", at(), name('t'), pick({"HOMO", "LUMO"})});
      else if (k < 0.55) s.ops.push_back({"put", at(), name('n'), pick({"0", "-0", "+0", "-1", "+1", "1", "-2", "007"})});
      else if (k < 0.75) {
        static const char *ON[] = {"ON", "TRUE", "1"}, *OFF[] = {"OFF", "FALSE", "0"};
        bool want = y.get("cp") ? !r.chance(0.15) : r.chance(0.15);
        if (r.chance(0.3)) s.ops.push_back({"put", "0", name('c'), pick({"ON", "OFF", "TRUE", "FALSE", "1", "0"})});
        s.ops.push_back({"value", name('c'), want ? ON[r.below(3)] : OFF[r.below(3)]});
      } else {
        int i = (int)r.below(3);
        std::string w = r.chance(0.5) ? "log" : "pun";
        s.ops.push_back({"put", r.chance(0.5) ? "0" : "99", name(w == "log" ? 'l' : 'p', i), "@" + w + ":" + ROLE[i]});
      }
    }
  } else if (d < 0.65) {
    s.kind = "orbital-limits";
    int i = role();
    const char *spk = i == 1 ? "s1" : "s2";
    if (r.chance(0.2)) s.ops.push_back({"value", name('s'), r.chance(0.7) ? "Beta" : "Alpha"});
    const StepData &e = q.r[i].steps.back();
    int sp = y.get(spk), occ = e.nocc[sp], vir = (int)e.E[sp].size() - occ;
    bool lumo = r.chance(0.5);
    int lim = lumo ? vir : occ;
    int n = r.chance(0.3) ? lim : r.chance(0.65) ? lim - 1 : r.chance(0.6) ? lim + 1 + (int)r.below(3) : -1;
    std::string t = n >= 0 ? std::to_string(n) : pick({"1000", "99999", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", "99999999999999999"});
    bool wrong = r.chance(0.12);
    if (!lumo != wrong && t != "0") t = "-" + t;
    s.ops.push_back({"value", name('t', i), lumo ? "LUMO" : "HOMO"});
    s.ops.push_back({"value", name('n', i), t});
  } else {
    s.kind = "illegal";
    double k = r.unit();
    if (k < 0.12) s.ops.push_back({"put", at(), pick({"--spin", "--pun", "-x", "--orbital_type_P", "-orb_num_P", "--counterpoise", "-CP", "-", "--", "--log_3", "-p_1=", "--Spin_1", "-s_p", "-cpON"})});
    else if (k < 0.2) s.ops.push_back({"put", at(), pick({"extra", "Alpha", "0", "HOMO", "%e", "ON", "a%bb"})});
    else if (k < 0.32) s.ops.push_back({"no-value", name("plstn"[r.below(5)])});
    else if (k < 0.47) s.ops.push_back({r.chance(0.6) ? "value" : "put", "", name('s'), pick({"alpha", "beta", "ALPHA", "A", "B", "0", "1", "Alph", "Alphaa", "Betas", "%e", "Alpha%b", "Beta%bAlpha", "up"})});
    else if (k < 0.6) s.ops.push_back({r.chance(0.6) ? "value" : "put", "", name('t'), pick({"homo", "lumo", "SOMO", "HOMO-1", "LUMO+1", "HOM", "LUMOO", "%e", "HOMO%bLUMO", "H"})});
    else if (k < 0.75) s.ops.push_back({r.chance(0.6) ? "value" : "put", "", name('n'), pick({"one", "%e", "-", "+", "1.5", "-1.0", "0x1", "-1a", "0-", "1%b2", "--1", "1e0", "99999999999999999999", "-99999999999", "-0.4", "0,5", "HOMO"})});
    else if (k < 0.88) {
      bool lg = r.chance(0.5);
      s.ops.push_back({r.chance(0.6) ? "value" : "put", "", name(lg ? 'l' : 'p'), pick({"a.txt", "noext", "%e", "b.log.gz", "c.pun.bak", "d.punx", "e.xlog", "f.PUN", "g.Log", "pun", "log", "a.", "x.lo", "y.pu"})});
    } else
      s.ops.push_back({"value", name('c'), pick({"on", "off", "2", "-1", "YES", "NO", "true", "%e", "ONN", "00", "01", "1.0"})});
    for (auto &o : s.ops) {
      if (o.size() == 4 && o[1].empty()) {
        if (o[0] == "value") o.erase(o.begin() + 1);
        else o[1] = at();
      }
    }
    if (r.chance(0.3)) s.ops.insert(s.ops.begin(), {"put", at(), name('s'), "Alpha"});
  }
  if (r.chance(0.6)) return s;
  Verdict v;
  Outcome b = unfaulted_C25(v, s);
  if (r.chance(0.6)) {
    Fault f;
    f.op = OP_ALLOC;
    f.nth = 1 + r.below(std::max<uint64_t>(1, b.allocs));
    if (r.chance(0.6))
      if (uint64_t k = pick_place(b, OP_ALLOC, r)) f.nth = k;
    f.err = ENOMEM;
    f.persist = r.chance(0.3);
    s.faults.push_back(f);
  } else {
    Fault f = io_fault(b, r, false);
    // where two files could be meant, one that seems to be missing is replaced by the other
    for (auto &o : s.ops)
      if (o.back()[0] == '@' && f.op != OP_READ && f.op != OP_SEEK) return s;
    s.faults.push_back(f);
  }
  return s;
}
static bool any_value(const std::string &out) {
  Printed p = parse_report(out);
  for (int k = 0; k < 5; ++k)
    if (p.has[k]) return true;
  return false;
}
static void judge_C25(const Scenario &s, Verdict &v) {
  if (s.sys.size() < 2) return;
  Lab L = lab_C25(s);
  const System &A = L.S[0], &D = L.S[1];
  TaskSpec ts = task_C25(s, L);
  std::string line = "calc_J";
  for (size_t i = 1; i < ts.argv.size(); ++i) line += " '" + ts.argv[i] + "'";
  Asked a = understand(ts.argv);
  // which of the files the line leads to
  Report want;
  if (a.why.empty()) {
    Slot lg[3], pn[3];
    std::string path[6];
    for (int i = 0; i < 3 && a.why.empty(); ++i) {
      if (a.pun[i].empty() && a.log[i].empty()) {
        a.why = "no files of a system";
        break;
      }
      path[i] = a.pun[i].empty() ? stem_of(a.log[i]) + ".pun" : a.pun[i];
      path[3 + i] = a.log[i].empty() ? stem_of(a.pun[i]) + ".log" : a.log[i];
      for (int k = 0; k < 2; ++k) {
        Slot &t = k ? lg[i] : pn[i];
        t.role = i;
        t.is_log = k;
        const std::string &p = path[3 * k + i], &own = k ? A.log[i].path : A.pun[i].path;
        if (norm_path(p) == norm_path(own)) t.sys = &A;
        else if (norm_path(p) == norm_path(alt_path(own))) t.sys = &D;
        else a.why = "no file " + p;
      }
    }
    if (a.why.empty()) {
      want = evaluate(lg, pn, a.sel);
      for (int i = 0; i < 6; ++i) want.path[i] = path[i];
      if (!want.ok) a.why = want.why;
    }
  }
  bool refuse = !a.why.empty();
  v.nontrivial = true;
  v.probes.push_back(s.kind + (refuse ? ": must be refused" : ": must be honoured"));
  if (!refuse && std::fabs(1 - want.val[3] * want.val[3]) < 1e-2) {
    v.probes.push_back("nearly-singular");
    return;
  }
  auto check = [&](const Outcome &o, bool faulted) {
    const TaskOutcome &t = o.t0();
    if (abnormal(v, t)) return;
    if (!refuse) return judge_static(v, want, o, true, faulted);
    if (clean_exit(t)) return violate(v, "not-refused", line + " exits 0 although: " + a.why);
    if (any_value(t.out)) return violate(v, "values-without-data", line + " prints values although: " + a.why);
  };
  Outcome b = unfaulted_C25(v, s);
  v.sample = ending(b.t0()) + " | " + (refuse ? "must be refused: " + a.why : std::string("must be honoured"));
  check(b, false);
  if (s.faults.empty() || v.violation) return;
  L.w.faults = s.faults;
  L.w.step_budget = bound(b);
  Outcome o = run_once(v, L.w, {ts});
  if (o.fired[OP_ALLOC] + o.fired[OP_READ] + o.fired[OP_OPEN] + o.fired[OP_STAT] + o.fired[OP_SEEK]) v.probes.push_back(refuse ? "refused-with-fault" : "honoured-with-fault");
  const TaskOutcome &t = o.t0();
  check(o, true);
  if (!v.violation && !refuse && !clean_exit(t) && any_value(t.out) && b.t0().out.compare(0, t.out.size(), t.out) != 0) violate(v, "wrong-report", "values printed that differ from those without the fault");
}

static const PropFns FNS[] = {{"C01", gen_C01, judge_C01}, {"C02", gen_C02, judge_C02}, {"C03", gen_C03, judge_C03}, {"C04", gen_C04, judge_C04}, {"C05", gen_C05, judge_C05}, {"C06", gen_C06, judge_C06}, {"C07", gen_C07, judge_C07}, {"C10", gen_C10, judge_C10}, {"C12", gen_C12, judge_C12}, {"C13", gen_C13, judge_C13}, {"C14", gen_C14, judge_C14}, {"C16", gen_C16, judge_C16}, {"C24", gen_C24, judge_C24}, {"C25", gen_C25, judge_C25}};
static const PropFns *fns(const std::string &id) {
  for (auto &f : FNS)
    if (id == f.id) return &f;
  return nullptr;
}
static Scenario gen_C11(Rng &r) {
  const PropFns &f = FNS[r.below(sizeof FNS / sizeof *FNS)];
  Scenario s = f.gen(r);
  s.kind = std::string(f.id) + ":" + s.kind;
  return s;
}
static void judge_C11(const Scenario &s, Verdict &v) {
  Scenario in = s;
  size_t c = s.kind.find(':');
  in.prop = s.kind.substr(0, c);
  in.kind = c == std::string::npos ? "" : s.kind.substr(c + 1);
  const PropFns *f = fns(in.prop);
  if (!f) return;
  std::vector<Outcome> all;
  g_collect = &all;
  Verdict inner;
  f->judge(in, inner);
  g_collect = nullptr;
  v.hash = inner.hash;
  v.log = inner.log;
  v.nontrivial = !all.empty() && inner.nontrivial;
  v.sample = strf("%zu runs, no modifying call", all.size());
  for (auto &o : all) {
    if (!o.mutation.empty()) return violate(v, "file-system-changed", "modifying call: " + o.mutation);
    for (auto &t : o.task)
      if (t.status == ST_INTERNAL) return violate(v, "harness", t.what);
  }
}

Scenario generate(const std::string &prop, Rng &r) {
  if (prop == "C11") return gen_C11(r);
  const PropFns *f = fns(prop);
  if (!f) {
    fprintf(stderr, "unknown property %s\n", prop.c_str());
    _Exit(2);
  }
  return f->gen(r);
}
void judge(const Scenario &s, Verdict &v) {
  if (s.prop == "C11") return judge_C11(s, v);
  const PropFns *f = fns(s.prop);
  if (f) f->judge(s, v);
}
}  // namespace sim

int main(int argc, char **argv) { return sim::scen_main(argc, argv); }
