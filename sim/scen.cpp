#include "scen.h"
#include <sys/stat.h>

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

namespace sim {

Stats g_stats;
std::vector<Outcome> *g_collect = nullptr;
static bool g_log = false;

std::string strf(const char *f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
long long to_ll(const std::string &s) { return strtoll(s.c_str(), nullptr, 10); }

static const EnvKnobs DEF;
struct EnvField {
  const char *name;
  int kind;  // 0 int, 1 double, 2 u64
  size_t off;
};
static const EnvField EF[] = {
    {"chunk_mode", 0, offsetof(EnvKnobs, chunk_mode)}, {"chunk", 0, offsetof(EnvKnobs, chunk)}, {"eintr", 1, offsetof(EnvKnobs, eintr)}, {"seed", 2, offsetof(EnvKnobs, seed)}, {"heap_fill", 0, offsetof(EnvKnobs, heap_fill)}, {"free_fill", 0, offsetof(EnvKnobs, free_fill)}, {"stack_fill", 0, offsetof(EnvKnobs, stack_fill)}, {"fill_seed", 2, offsetof(EnvKnobs, fill_seed)}, {"out_mode", 0, offsetof(EnvKnobs, out_mode)}, {"out_buf", 0, offsetof(EnvKnobs, out_buf)}, {"clock", 2, offsetof(EnvKnobs, clock)},
};
static std::string field_text(const EnvKnobs &e, const EnvField &f) {
  const char *p = (const char *)&e + f.off;
  if (f.kind == 0) return std::to_string(*(const int *)p);
  if (f.kind == 1) return strf("%.6g", *(const double *)p);
  return std::to_string(*(const uint64_t *)p);
}
static void field_set(EnvKnobs &e, const EnvField &f, const std::string &t) {
  char *p = (char *)&e + f.off;
  if (f.kind == 0) *(int *)p = (int)to_ll(t);
  else if (f.kind == 1) *(double *)p = strtod(t.c_str(), nullptr);
  else *(uint64_t *)p = strtoull(t.c_str(), nullptr, 10);
}
std::string env_text(const EnvKnobs &e) {
  std::string o;
  for (auto &f : EF) {
    std::string a = field_text(e, f);
    if (a != field_text(DEF, f)) o += std::string(" ") + f.name + "=" + a;
  }
  return o;
}

#ifdef SIM_MEM
const bool MEM = true;
#else
const bool MEM = false;
#endif
void shared_sched(Scenario &s, Rng &r) {
  if (!MEM) return;
  static const int P[] = {1, 5, 30, 150, 400};
  s.shared.per_mille = P[r.below(5)];
  s.shared.seed = 1 + r.below(1000000);
  if (r.chance(0.5)) s.shared.to = 1 + r.below(1 << (4 + r.below(10)));
  // by shared memory alone, or beside the quanta
  if (r.chance(0.5)) s.quantum = 0, s.quantum_seed = 0, s.preempt.clear();
}
std::string Scenario::text() const {
  std::string o = "prop " + prop + "\nkind " + kind + "\n";
  for (size_t i = 0; i < sys.size(); ++i) {
    o += "sys";
    for (auto &p : sys[i].v)
      if (p.second || p.first == "seed") o += " " + p.first + "=" + std::to_string(p.second);
    o += "\n";
  }
  for (auto &e : env) o += "env" + env_text(e) + "\n";
  for (auto &f : faults) o += strf("fault %s nth=%llu err=%d arg=%d persist=%d task=%d\n", op_name(f.op), (unsigned long long)f.nth, f.err, f.arg, f.persist ? 1 : 0, f.task);
  for (auto &t : ops) {
    o += "op";
    for (auto &x : t) o += " " + x;
    o += "\n";
  }
  for (auto &p : preempt) o += strf("preempt %llu %d\n", (unsigned long long)p.first, p.second);
  if (quantum) o += strf("quantum %llu %llu\n", (unsigned long long)quantum, (unsigned long long)quantum_seed);
  if (shared.per_mille)
    o += strf("shared %llu %llu %llu %llu\n", (unsigned long long)shared.per_mille, (unsigned long long)shared.seed, (unsigned long long)shared.from, (unsigned long long)shared.to);
  return o;
}
bool Scenario::parse(const std::string &t, Scenario &s, std::string &err) {
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream ls(l);
    std::string k, x;
    ls >> k;
    Tokens tok;
    while (ls >> x) tok.push_back(x);
    auto kv = [&](const std::string &q, std::string &a, std::string &b) {
      size_t i = q.find('=');
      if (i == std::string::npos) return false;
      a = q.substr(0, i);
      b = q.substr(i + 1);
      return true;
    };
    std::string a, b;
    if (k == "prop" && tok.size() == 1) s.prop = tok[0];
    else if (k == "kind") s.kind = tok.empty() ? "" : tok[0];
    else if (k == "sys") {
      Sys y;
      for (auto &q : tok)
        if (kv(q, a, b)) y.v[a] = to_ll(b);
      s.sys.push_back(y);
    } else if (k == "env") {
      EnvKnobs e;
      for (auto &q : tok)
        if (kv(q, a, b))
          for (auto &f : EF)
            if (a == f.name) field_set(e, f, b);
      s.env.push_back(e);
    } else if (k == "fault" && !tok.empty()) {
      Fault f;
      f.op = op_by_name(tok[0]);
      for (auto &q : tok)
        if (kv(q, a, b)) {
          if (a == "nth") f.nth = strtoull(b.c_str(), nullptr, 10);
          if (a == "err") f.err = (int)to_ll(b);
          if (a == "arg") f.arg = (int)to_ll(b);
          if (a == "persist") f.persist = to_ll(b) != 0;
          if (a == "task") f.task = (int)to_ll(b);
        }
      if (f.op < 0) {
        err = "bad fault line: " + l;
        return false;
      }
      s.faults.push_back(f);
    } else if (k == "op") s.ops.push_back(tok);
    else if (k == "preempt" && tok.size() == 2) s.preempt.push_back({strtoull(tok[0].c_str(), nullptr, 10), (int)to_ll(tok[1])});
    else if (k == "quantum" && tok.size() == 2) {
      s.quantum = strtoull(tok[0].c_str(), nullptr, 10);
      s.quantum_seed = strtoull(tok[1].c_str(), nullptr, 10);
    } else if (k == "shared" && tok.size() == 4) {
      uint64_t *f[4] = {&s.shared.per_mille, &s.shared.seed, &s.shared.from, &s.shared.to};
      for (int i = 0; i < 4; ++i) *f[i] = strtoull(tok[i].c_str(), nullptr, 10);
    } else {
      err = "bad line: " + l;
      return false;
    }
  }
  if (s.env.empty()) s.env.push_back(EnvKnobs());
  if (s.prop.empty()) {
    err = "no property";
    return false;
  }
  return true;
}

EnvKnobs benign_env(Rng &r, size_t total) {
  EnvKnobs e;
  static const int CH[] = {1, 3, 7, 16, 61, 128, 511, 1024, 4095, 4096, 8190, 8191};
  if (r.chance(0.7)) {
    e.chunk_mode = r.range(1, 2);
    e.chunk = CH[r.below(12)];
    size_t lo = total / 3000;
    if ((size_t)e.chunk < lo) e.chunk = (int)lo + 1;
  }
  if (r.chance(0.3)) e.eintr = r.chance(0.5) ? 0.1 : 0.5;
  e.seed = 1 + r.below(1000000);
  e.heap_fill = (int)r.below(5);
  e.free_fill = r.chance(0.5) ? 0xdd : 0;
  e.stack_fill = (int)r.below(5);
  e.fill_seed = 1 + r.below(1000000);
  e.out_mode = (int)r.below(3);
  e.out_buf = r.chance(0.5) ? 4096 : (int)r.range(1, 300);
  e.clock = r.chance(0.5) ? 0 : 1 + r.below(1u << 30);
  return e;
}

static std::string g_dump;  // write the files and arguments of the first run there
static std::string sh_quote(const std::string &a) {
  std::string r = "'";
  for (char c : a) r += c == '\'' ? std::string("'\\''") : std::string(1, c);
  return r + "'";
}
static void dump_world(const World &w, const std::vector<TaskSpec> &t) {
  for (auto &f : w.files) {
    std::string p = g_dump + "/" + (f.first[0] == '/' ? f.first.substr(1) : f.first);
    std::string d = f.second->dir ? p : p.substr(0, p.find_last_of('/'));
    for (size_t i = 1; i <= d.size(); ++i)
      if (i == d.size() || d[i] == '/') mkdir(d.substr(0, i).c_str(), 0755);
    if (!f.second->dir) std::ofstream(p) << f.second->data;
  }
  std::ofstream c(g_dump + "/cmd");
  for (auto &k : t) {
    for (auto &a : k.argv) c << sh_quote(a) << " ";
    c << "\n";
  }
  g_dump.clear();
}
Outcome run_once(Verdict &v, const World &w, const std::vector<TaskSpec> &t) {
  if (!g_dump.empty()) dump_world(w, t);
  Outcome o = run_world(w, t, g_log);
  ++g_stats.runs;
  g_stats.steps += o.steps;
  g_stats.vfs += o.vfs_ops;
  g_stats.allocs += o.allocs;
  g_stats.switches += o.switches;
  g_stats.shared += o.shared;
  g_stats.shorts += o.shorts;
  g_stats.eintrs += o.eintrs;
  g_stats.events += o.events_fired;
  for (int i = 0; i < OP_N; ++i) g_stats.fired[i] += o.fired[i];
  for (auto &k : o.task) ++g_stats.status[status_name(k.status) + (k.status == ST_EXIT ? std::string("-") + std::to_string(k.code) : "")];
  if (g_stats.traces.size() < 400000) g_stats.traces.insert(o.hash);
  v.hash = mix(v.hash, o.hash);
  if (g_log) {
    v.log += "---- run\n" + o.log;
    for (size_t i = 0; i < o.task.size(); ++i) {
      auto &k = o.task[i];
      v.log += strf("task %zu: %s code %d %s, %llu steps in all\n", i, status_name(k.status), k.code, k.what.c_str(), (unsigned long long)o.steps);
      v.log += "stdout:\n" + k.out + "\nstderr:\n" + k.err + "\n";
    }
    if (!o.extra.empty()) v.log += "history:\n" + o.extra;
  }
  if (g_collect) g_collect->push_back(o);
  return o;
}

static Verdict judge_fresh(const Scenario &s) {
  Verdict v;
  judge(s, v);
  return v;
}

// ---------------------------------------------------------------- minimisation
static Scenario minimise(Scenario s, const std::string &cls, int budget) {
  int used = 0;
  time_t t0 = time(nullptr);
  auto bad = [&](const Scenario &c) {
    if (used >= budget || time(nullptr) - t0 > 150) return false;
    ++used;
    Verdict v = judge_fresh(c);
    return v.violation && v.cls == cls;
  };
  bool again = true;
  while (again && used < budget) {
    again = false;
    // drop groups of events, then single ones
    auto shrink_list = [&](auto get) {
      for (size_t n = get(s).size(); n >= 1; n /= 2) {
        for (size_t i = 0; i + 1 <= get(s).size();) {
          Scenario c = s;
          auto &v = get(c);
          size_t e = std::min(v.size(), i + n);
          v.erase(v.begin() + i, v.begin() + e);
          if (bad(c)) {
            s = c;
            again = true;
          } else
            i += n;
        }
        if (n == 1) break;
      }
    };
    shrink_list([](Scenario &x) -> std::vector<Fault> & { return x.faults; });
    shrink_list([](Scenario &x) -> std::vector<Tokens> & { return x.ops; });
    shrink_list([](Scenario &x) -> std::vector<std::pair<uint64_t, int>> & { return x.preempt; });
    if (s.quantum) {
      Scenario c = s;
      c.quantum = 0;
      if (bad(c)) s = c, again = true;
    }
    if (s.shared.per_mille) {
      Scenario c = s;
      c.shared = SharedSched();
      if (bad(c)) s = c, again = true;
    }
    if (s.shared.per_mille) {
      // fewer of the switches at shared memory
      uint64_t lo = s.shared.from, hi = std::min<uint64_t>(s.shared.to, 1 << 20);
      while (hi - lo > 1) {
        uint64_t n = (hi - lo + 1) / 2;
        Scenario c = s, d = s;
        c.shared.from = lo, c.shared.to = hi - n;
        d.shared.from = lo + n, d.shared.to = hi;
        if (bad(c)) s = c, again = true;
        else if (bad(d)) s = d, again = true;
        else {
          // from either end alone
          uint64_t step = std::max<uint64_t>(1, (hi - lo) / 8);
          d = s;
          d.shared.from = lo + step, d.shared.to = hi;
          c = s;
          c.shared.from = lo, c.shared.to = hi - step;
          if (bad(d)) s = d, again = true;
          else if (bad(c)) s = c, again = true;
          else break;
        }
        lo = s.shared.from, hi = s.shared.to;
      }
    }
    // environment back to plain
    for (size_t k = 0; k < s.env.size(); ++k)
      for (auto &f : EF) {
        std::string d = field_text(DEF, f);
        if (field_text(s.env[k], f) == d) continue;
        Scenario c = s;
        field_set(c.env[k], f, d);
        if (bad(c)) s = c, again = true;
      }
    // smaller systems
    static const char *zero[] = {"fill", "layout", "glue", "jitter", "geo", "drop", "olap", "punhdr", "puntail", "noccvar", "dgeo", "fullocc", "optstyle", "defaults", "cite", "stemdiff", "paths", "cp", "perm", "unr", "num1", "num2", "lumo1", "lumo2", "sP", "s1", "s2"};
    for (size_t k = 0; k < s.sys.size(); ++k) {
      for (auto z : zero) {
        if (!s.sys[k].get(z)) continue;
        Scenario c = s;
        c.sys[k][z] = 0;
        if (bad(c)) s = c, again = true;
      }
      static const char *one[] = {"stepsP", "steps1", "steps2", "na1", "na2", "bmin", "bmax"};
      for (auto z : one) {
        long long cur = s.sys[k].get(z);
        for (long long t : {1LL, cur / 2, cur - 1}) {
          if (t < 1 || t >= s.sys[k].get(z)) continue;
          Scenario c = s;
          c.sys[k][z] = t;
          if (bad(c)) {
            s = c;
            again = true;
            break;
          }
        }
      }
      if (s.sys[k].get("pop") != 7) {
        Scenario c = s;
        c.sys[k]["pop"] = 7;
        if (bad(c)) s = c, again = true;
      }
      if (s.sys[k].get("given") != 63) {
        Scenario c = s;
        c.sys[k]["given"] = 63;
        if (bad(c)) s = c, again = true;
      }
    }
    // simpler faults
    for (size_t k = 0; k < s.faults.size(); ++k) {
      if (s.faults[k].persist) {
        Scenario c = s;
        c.faults[k].persist = false;
        if (bad(c)) s = c, again = true;
      }
    }
  }
  return s;
}

// ---------------------------------------------------------------- command line
static std::string slurp(const std::string &p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += strf("\\u%04x", c);
    else o += c;
  }
  return o;
}
static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Scenario scenario_at(const std::string &prop, uint64_t seed, uint64_t i) {
  Rng r(mix(mix(seed, hash_str(prop)), i));
  Scenario s = generate(prop, r);
  s.prop = prop;
  if (s.env.empty()) s.env.push_back(EnvKnobs());
  return s;
}

int scen_main(int argc, char **argv) {
  init_process(argc, argv);
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  std::map<std::string, std::string> a;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string x = argv[i];
    if (x.compare(0, 2, "--") == 0 && i + 1 < argc) {
      a[x.substr(2)] = argv[i + 1];
      ++i;
    } else
      pos.push_back(x);
  }
  uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10);
  if (cmd == "run") {
    // run --prop P --seed S --from A --to B --out DIR --id K --deadline SEC
    uint64_t from = strtoull(a["from"].c_str(), nullptr, 10), to = strtoull(a["to"].c_str(), nullptr, 10);
    uint64_t stride = a.count("stride") ? strtoull(a["stride"].c_str(), nullptr, 10) : 1;
    double dead = a.count("deadline") ? atof(a["deadline"].c_str()) : 1e18;
    int maxv = a.count("maxviol") ? atoi(a["maxviol"].c_str()) : 3;
    double t0 = now();
    std::string viol, samples;
    int nv = 0, ns = 0;
    uint64_t done = 0;
    bool cut = false;
    std::map<std::string, int> seen;
    std::string hashes;
    std::vector<uint64_t> nontriv;
    for (uint64_t i = from; i < to; i += stride) {
      if (now() - t0 > dead) {
        cut = true;
        break;
      }
      Scenario s = scenario_at(a["prop"], seed, i);
      Verdict v = judge_fresh(s);
      ++done;
      ++g_stats.scenarios;
      ++g_stats.kinds[s.kind.empty() ? "-" : s.kind];
      if (v.nontrivial) {
        ++g_stats.nontrivial;
        nontriv.push_back(v.hash);
      }
      for (auto &p : v.probes) ++g_stats.probes[p];
      if (a.count("hashes")) hashes += strf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)v.hash, v.violation ? v.cls.c_str() : "-");
      if (ns < 2 && v.nontrivial && !v.violation) {
        samples += std::string(ns ? "," : "") + "{\"index\":" + std::to_string(i) + ",\"scenario\":\"" + jesc(s.text()) + "\",\"outcome\":\"" + jesc(v.sample) + "\"}";
        ++ns;
      }
      if (v.violation && seen[v.cls]++ < 2) {
        std::string f = a["out"] + "/viol-" + a["prop"] + "-" + std::to_string(i) + ".scn";
        std::ofstream(f) << s.text();
        viol += std::string(nv ? "," : "") + "{\"index\":" + std::to_string(i) + ",\"class\":\"" + jesc(v.cls) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"file\":\"" + jesc(f) + "\",\"hash\":\"" + strf("%016llx", (unsigned long long)v.hash) + "\"}";
        if (++nv >= maxv) break;
      }
    }
    Stats &g = g_stats;
    std::string o = "{";
    auto num = [&](const char *k, uint64_t n) { o += strf("\"%s\":%llu,", k, (unsigned long long)n); };
    num("scenarios", g.scenarios);
    num("nontrivial", g.nontrivial);
    num("runs", g.runs);
    num("steps", g.steps);
    num("vfs_ops", g.vfs);
    num("allocs", g.allocs);
    num("switches", g.switches);
    num("shared_accesses", g.shared);
    num("short_transfers", g.shorts);
    num("eintrs", g.eintrs);
    num("fs_events", g.events);
    num("done", done);
    auto mp = [&](const char *k, const std::map<std::string, uint64_t> &m) {
      o += std::string("\"") + k + "\":{";
      bool first = true;
      for (auto &p : m) {
        o += std::string(first ? "" : ",") + "\"" + jesc(p.first) + "\":" + std::to_string(p.second);
        first = false;
      }
      o += "},";
    };
    mp("probes", g.probes);
    mp("status", g.status);
    mp("kinds", g.kinds);
    std::map<std::string, uint64_t> fm;
    for (int i = 0; i < OP_N; ++i)
      if (g.fired[i]) fm[op_name(i)] = g.fired[i];
    mp("faults_fired", fm);
    o += std::string("\"cut\":") + (cut ? "true" : "false") + ",";
    o += "\"samples\":[" + samples + "],";
    o += "\"violations\":[" + viol + "]}";
    std::ofstream(a["out"] + "/res-" + a["id"] + ".json") << o;
    {
      std::ofstream h(a["out"] + "/trc-" + a["id"] + ".bin", std::ios::binary);
      for (auto x : g.traces) h.write((const char *)&x, 8);
    }
    {
      std::ofstream h(a["out"] + "/non-" + a["id"] + ".bin", std::ios::binary);
      for (auto x : nontriv) h.write((const char *)&x, 8);
    }
    if (a.count("hashes")) std::ofstream(a["hashes"]) << hashes;
    return 0;
  }
  if (cmd == "gen") {
    Scenario s = scenario_at(a["prop"], seed, strtoull(a["index"].c_str(), nullptr, 10));
    std::cout << s.text();
    return 0;
  }
  if (cmd == "replay" || cmd == "show") {
    if (pos.empty()) return 2;
    Scenario s;
    std::string err;
    if (!Scenario::parse(slurp(pos[0]), s, err)) {
      std::cerr << err << "\n";
      return 2;
    }
    g_log = cmd == "show";
    if (a.count("dump")) g_dump = a["dump"];
    Verdict v = judge_fresh(s);
    if (cmd == "show") std::cout << v.log;
    std::cout << (v.violation ? "violation " + v.cls : std::string("ok -")) << " " << strf("%016llx", (unsigned long long)v.hash) << " " << (v.violation ? v.msg : v.sample) << "\n";
    return v.violation ? 1 : 0;
  }
  if (cmd == "minimise") {
    if (pos.size() < 2) return 2;
    Scenario s;
    std::string err;
    if (!Scenario::parse(slurp(pos[0]), s, err)) return 2;
    Verdict v = judge_fresh(s);
    if (!v.violation) {
      std::cout << "ok -\n";
      return 0;
    }
    Scenario m = minimise(s, v.cls, a.count("budget") ? atoi(a["budget"].c_str()) : 400);
    std::ofstream(pos[1]) << m.text();
    Verdict w = judge_fresh(m);
    std::cout << (w.violation ? "violation " + w.cls : std::string("ok -")) << " " << strf("%016llx", (unsigned long long)w.hash) << " " << w.msg << "\n";
    return w.violation ? 1 : 0;
  }
  return 2;
}
}  // namespace sim
