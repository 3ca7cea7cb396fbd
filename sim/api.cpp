// Workloads that use the library's objects directly and over and over: the
// readers (C08) and the file arguments (C09).  A history of file system
// changes, faults and calls runs inside one simulated process; the model is
// kept beside it.
#include "scen.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>

#include "libcatnip/io/arguments/argumentfile.hpp"
#include "libcatnip/io/arguments/properties/propertyfileexist.hpp"
#include "libcatnip/io/arguments/properties/propertyfileext.hpp"
#include "libcatnip/io/arguments/properties/propertysisterfile.hpp"
#include "libcatnip/io/argumentparser.hpp"
#include "libcatnip/io/file_readers/logreader.hpp"
#include "libcatnip/io/file_readers/punreader.hpp"
#include "libcatnip/io/io.hpp"
#include "libcatnip/matrix.hpp"
#include "libcatnip/qc_functions.hpp"

namespace sim {

using namespace catnip;

static void violate(Verdict &v, const std::string &cls, const std::string &msg) {
  if (v.violation) return;
  v.violation = true;
  v.cls = cls;
  v.msg = msg;
}

// what the child works on (copied by fork)
static const Scenario *g_sc;
static std::vector<System> g_sys;

static void viol(const std::string &cls, const std::string &msg) { extra_note("VIOL " + cls + " " + msg); }
static void probe(const std::string &p) { extra_note("PROBE " + p); }

// ---------------------------------------------------------------- C08
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

struct LogAnswer {
  bool has_e[2] = {false, false}, has_s = false;
  std::vector<double> e[2];
  int homo[2] = {-1, -1};
  bool has_homo[2] = {false, false};
  std::vector<int> basis;
  std::map<std::pair<int, std::string>, std::map<std::string, std::vector<double>>> pop;
  std::vector<std::vector<double>> xyz;
  int sr = 0, sc = 0;
  std::vector<double> s;
};
static LogAnswer ask(LogReader &r) {
  LogAnswer a;
  const char *sp[2] = {"Alpha", "Beta"};
  for (int k = 0; k < 2; ++k) {
    try {
      a.e[k] = r.getOE(sp[k]);
      a.has_e[k] = true;
    } catch (const std::exception &) {
    }
    try {
      a.homo[k] = r.getHOMOLevel(sp[k]);
      a.has_homo[k] = true;
    } catch (const std::exception &) {
    }
  }
  try {
    Matrix *m = r.getOverlapMatrix();
    if (m) {
      a.has_s = true;
      a.sr = m->get_rows();
      a.sc = m->get_cols();
      for (int i = 1; i <= a.sr; ++i)
        for (int j = 1; j <= a.sc; ++j) a.s.push_back(m->get_elem(i, j));
    }
  } catch (const std::exception &) {
  }
  try {
    a.basis = r.getBasisFuncCount();
    a.pop = r.getOrbitalInfo();
  } catch (const std::exception &) {
  }
  try {
    a.xyz = r.getCoords();
  } catch (const std::exception &) {
  }
  return a;
}
struct PunAnswer {
  bool has[2] = {false, false};
  int r[2] = {0, 0}, c[2] = {0, 0};
  std::vector<double> v[2];
  bool restricted = false;
};
static PunAnswer ask(PunReader &r) {
  PunAnswer a;
  const char *sp[2] = {"Alpha", "Beta"};
  for (int k = 0; k < 2; ++k) try {
      Matrix *m = r.getCoefsMatrix(sp[k]);
      if (!m) continue;
      a.has[k] = true;
      a.r[k] = m->get_rows();
      a.c[k] = m->get_cols();
      for (int i = 1; i <= a.r[k]; ++i)
        for (int j = 1; j <= a.c[k]; ++j) a.v[k].push_back(m->get_elem(i, j));
    } catch (const std::exception &) {
    }
  a.restricted = r.restrictedShell();
  return a;
}
static std::string differ(const LogAnswer &a, const LogAnswer &b) {
  for (int k = 0; k < 2; ++k) {
    if (a.has_e[k] != b.has_e[k] || a.e[k] != b.e[k]) return "the energies";
    if (a.has_homo[k] != b.has_homo[k] || a.homo[k] != b.homo[k]) return "the occupied level";
  }
  if (a.has_s != b.has_s || a.sr != b.sr || a.sc != b.sc || a.s.size() != b.s.size()) return "the overlap";
  for (size_t i = 0; i < a.s.size(); ++i)
    if (memcmp(&a.s[i], &b.s[i], 8)) return "the overlap";
  if (a.basis != b.basis) return "the basis function counts";
  if (a.pop != b.pop) return "the populations";
  if (a.xyz != b.xyz) return "the coordinates";
  return "";
}
static std::string differ(const PunAnswer &a, const PunAnswer &b) {
  for (int k = 0; k < 2; ++k) {
    if (a.has[k] != b.has[k] || a.r[k] != b.r[k] || a.c[k] != b.c[k] || a.v[k].size() != b.v[k].size()) return "the coefficients";
    for (size_t i = 0; i < a.v[k].size(); ++i)
      if (memcmp(&a.v[k][i], &b.v[k][i], 8)) return "the coefficients";
  }
  if (a.restricted != b.restricted) return "restrictedShell";
  return "";
}
static bool empty_answer(const LogAnswer &a, std::string &what) {
  for (int k = 0; k < 2; ++k) {
    if (!a.e[k].empty()) return what = "energies", false;
    if (a.has_homo[k] && a.homo[k] != 0) return what = "occupied level", false;
  }
  if (a.has_s) return what = "overlap", false;
  if (!a.basis.empty()) return what = "basis function counts", false;
  if (!a.pop.empty()) return what = "populations", false;
  for (auto &x : a.xyz)
    if (!x.empty()) return what = "coordinates", false;
  return true;
}
static bool empty_answer(const PunAnswer &a, std::string &what) {
  for (int k = 0; k < 2; ++k)
    if (a.has[k]) return what = "coefficients", false;
  return true;
}

// Is a successful read with this answer right for the first `cut` bytes?
// must: 0 the read must fail, 1 it must succeed, 2 both are fine
static std::string judge_log(const LogAnswer &a, const System &q, int role, size_t cut, int &must) {
  View v = view_of(q.log[role], cut);
  must = 1;
  for (int k = 0; k < K_N; ++k) {
    if (v.state[k] == SS_PARTIAL) must = 0;
    if (v.state[k] == SS_AMBIG && must) must = 2;
  }
  // the header of a table may have been read in part only
  if (must == 0) return "a table is incomplete";
  const Role &R = q.r[role];
  auto have = [&](int k) { return v.state[k] == SS_COMPLETE || v.state[k] == SS_AMBIG; };
  for (int sp = 0; sp < 2; ++sp) {
    int k = sp ? K_EB : K_EA;
    if (have(k)) {
      const StepData &d = R.steps[v.step[k]];
      if (!a.has_e[sp] || a.e[sp].size() != d.E[sp].size()) return "wrong number of energies";
      for (size_t i = 0; i < a.e[sp].size(); ++i)
        if (!near(a.e[sp][i], d.E[sp][i])) return "wrong energies";
      if (!a.has_homo[sp] || a.homo[sp] != d.nocc[sp]) return "wrong occupied level";
    } else if (!a.e[sp].empty() || (a.has_homo[sp] && a.homo[sp] != 0))
      return "energies that the file does not hold";
  }
  if (have(K_OVERLAP)) {
    const StepData &d = R.steps[v.step[K_OVERLAP]];
    if (!a.has_s || a.sr != d.n || a.sc != d.n) return "wrong overlap size";
    for (size_t i = 0; i < a.s.size(); ++i)
      if (!near(a.s[i], d.S[i])) return "wrong overlap";
  } else if (a.has_s)
    return "an overlap that the file does not hold";
  if (have(K_AO)) {
    const StepData &d = R.steps[v.step[K_AO]];
    if (a.basis.size() != d.atoms.size()) return "wrong number of atoms with basis functions";
    for (size_t i = 0; i < a.basis.size(); ++i)
      if (a.basis[i] != d.atoms[i].nbf) return "wrong basis function counts";
    if (a.pop.size() != d.atoms.size()) return "populations of a wrong number of atoms";
    size_t ao = 0;
    for (size_t i = 0; i < d.atoms.size(); ++i) {
      auto it = a.pop.find({(int)i + 1, element(d.atoms[i].elem)});
      if (it == a.pop.end()) return "no populations for an atom and its element";
      if ((int)it->second.size() != d.atoms[i].nbf) return "wrong number of populations";
      for (int k = 0; k < d.atoms[i].nbf; ++k, ++ao) {
        const std::string &name = d.atoms[i].label[k];
        size_t blank = name.find(' ');
        auto f = it->second.find(name);
        std::vector<double> want = d.pop[ao];
        if (f == it->second.end() && blank != std::string::npos) {
          // "4D 0": where the name ends and the numbers begin is not marked
          f = it->second.find(name.substr(0, blank));
          want.insert(want.begin(), atof(name.c_str() + blank));
        }
        if (f == it->second.end()) return "no population for a basis function";
        if (f->second.size() != want.size()) return "wrong number of populations for a basis function";
        for (size_t c = 0; c < want.size(); ++c)
          if (!near(f->second[c], want[c])) return "wrong populations";
      }
    }
  } else if (!a.basis.empty() || !a.pop.empty())
    return "basis function counts that the file does not hold";
  if (have(K_COORD)) {
    const StepData &d = R.steps[v.step[K_COORD]];
    if (a.xyz.size() != 3) return "wrong coordinates";
    for (int c = 0; c < 3; ++c) {
      if (a.xyz[c].size() != d.atoms.size()) return "wrong number of coordinates";
      for (size_t i = 0; i < d.atoms.size(); ++i)
        if (!near(a.xyz[c][i], d.atoms[i].x[c])) return "wrong coordinates";
    }
  } else
    for (auto &x : a.xyz)
      if (!x.empty()) return "coordinates that the file does not hold";
  return "";
}
static std::string judge_pun(const PunAnswer &a, const System &q, int role, size_t cut, int &must) {
  const FileImage &f = q.pun[role];
  const Role &R = q.r[role];
  must = 1;
  std::string vis = f.bytes.substr(0, std::min(cut, f.bytes.size()));
  int rows[2] = {0, 0};
  bool open_row = false;    // inside an orbital whose header was complete
  bool odd_header = false;  // the last line is the beginning of a header
  bool odd_first = false;   // ... which is recognisable as that of a first orbital
  int sp = 0, vals = 0;
  size_t i = 0;
  while (i < vis.size()) {
    size_t e = vis.find('\n', i);
    bool full = e != std::string::npos;
    std::string l = vis.substr(i, (full ? e : vis.size()) - i);
    i = full ? e + 1 : vis.size();
    if (open_row && l.find("D15") == std::string::npos && l.find("MO") == std::string::npos) {
      vals += (int)l.size() / 15;
      if (vals >= R.n) {
        ++rows[sp];
        vals = 0;
        open_row = false;
      }
      continue;
    }
    if (full && l.find(" MO OE") != std::string::npos) {
      sp = l.find("Beta") != std::string::npos ? 1 : 0;
      open_row = true;
      vals = 0;
    } else if (!full && !l.empty()) {
      odd_header = true;
      odd_first = l.find(" 1 Alpha MO ") != std::string::npos || l.find(" 1 Beta MO ") != std::string::npos;
      if (odd_first) sp = l.find("Beta") != std::string::npos ? 1 : 0;
    }
  }
  // How long an orbital is is only known once one is complete; the file does
  // not say how many there are, so that one that ends between two orbitals is
  // complete as far as anybody can tell.
  if (odd_first) must = sp == 1 && rows[0] <= 1 ? 2 : 0;
  else if (open_row && rows[0] + rows[1] > 0) must = 0;
  else if (open_row && vals == 0) must = 0;
  else if (open_row || odd_header) must = 2;
  if (must == 0) return "an orbital is incomplete";
  if (open_row) return "";  // a piece of the first orbital
  for (int k = 0; k < 2; ++k) {
    if (rows[k] == 0) {
      if (a.has[k]) return "coefficients that the file does not hold";
      continue;
    }
    if (!a.has[k]) return "coefficients missing";
    if (a.r[k] != rows[k] || a.c[k] != R.n) return "wrong number of coefficients";
    for (int r = 0; r < a.r[k]; ++r)
      for (int c = 0; c < R.n; ++c)
        if (!near(a.v[k][(size_t)r * R.n + c], R.C[k][(size_t)r * R.n + c])) return "wrong coefficients";
  }
  if (rows[0] > 0 && a.restricted != (rows[1] == 0)) return "wrong answer whether the shells are restricted";
  return "";
}

static const char *SLOT_PATH[3] = {"run/m0.log", "run/m1.log", "run/m0.pun"};
struct SlotState {
  int what = 0;  // 0 absent 1 content 2 directory 3 unreadable 4 hidden
  int sys = 0, role = 0;
  size_t cut = 0;
  bool corrupt = false;
  std::vector<size_t> more;  // further lengths the file may get during the next read
};

static std::string judge_any(const LogAnswer &a, const System &q, int role, size_t cut, int &must) { return judge_log(a, q, role, cut, must); }
static std::string judge_any(const PunAnswer &a, const System &q, int role, size_t cut, int &must) { return judge_pun(a, q, role, cut, must); }

template <class R>
static void do_read(R &obj, SlotState &st, int slot, const Tokens &op, int opno) {
  bool faulted = op.size() >= 6 && op[2] != "-";
  std::string where = "step " + std::to_string(opno) + " " + SLOT_PATH[slot] + ": ";
  // what a reader that was never used before makes of unusual contents
  bool use_fresh = st.corrupt && st.what == 1 && !faulted && st.more.empty();
  bool fresh_ok = false;
  decltype(ask(obj)) fresh;
  if (use_fresh) {
    R f(SLOT_PATH[slot]);
    try {
      f.read();
      fresh_ok = true;
      fresh = ask(f);
    } catch (const std::exception &) {
    }
  }
  int before = open_files();
  Fault f;
  int opk = 0;
  uint64_t fired0 = 0;
  if (faulted) {
    f.op = opk = op_by_name(op[2]);
    f.nth = to_ll(op[3]);
    f.err = (int)to_ll(op[4]);
    f.persist = to_ll(op[5]) != 0;
    f.arg = 1;
    add_fault_relative(f);
    fired0 = fired_count(opk);
  }
  bool ok = false;
  std::string what;
  try {
    obj.read();
    ok = true;
  } catch (const std::exception &e) {
    clear_faults();
    what = e.what();
  }
  clear_faults();
  clear_events();
  bool fired = faulted && fired_count(opk) > fired0;
  if (fired) probe(std::string("fault-") + op[2]);
  extra_note(where + (ok ? "ok" : "fails: " + what));
  if (open_files() != before) viol("descriptor-left-open", where + std::to_string(open_files() - before) + " more descriptors are open after the read" + (ok ? "" : " that failed"));
  auto a = ask(obj);
  std::string why;
  if (!ok) {
    if (!empty_answer(a, why)) viol("data-after-failure", where + "the read failed (" + what + ") but the reader still answers with " + why);
    probe("failed-read");
  }
  if (st.what != 1) {
    if (ok) viol("success-without-file", where + "the read succeeds without a readable file");
    return;
  }
  if (st.corrupt) {
    if (use_fresh) {
      if (ok != fresh_ok) viol("history-dependent", where + "a new reader " + (fresh_ok ? "succeeds" : "fails") + ", the used one " + (ok ? "succeeds" : "fails") + " " + what);
      else if (ok && !(why = differ(a, fresh)).empty()) viol("history-dependent", where + why + " differ from those of a new reader");
      probe("corrupt-contents");
    }
    return;
  }
  std::vector<size_t> cuts = st.more;
  cuts.insert(cuts.begin(), st.cut);
  bool good = false, may_fail = fired;
  std::string first;
  for (size_t c : cuts) {
    int must = 1;
    std::string e = judge_any(a, g_sys[st.sys], st.role, c, must);
    if (must != 1) may_fail = true;
    if (ok && must != 0 && e.empty()) good = true;
    if (first.empty()) first = e;
  }
  if (cuts.size() > 1) may_fail = true;  // a growing file may be refused
  if (ok && !good) {
    const FileImage &fi = slot == 2 ? g_sys[st.sys].pun[st.role] : g_sys[st.sys].log[st.role];
    std::string tail = fi.bytes.substr(0, st.cut);
    tail = tail.size() > 40 ? tail.substr(tail.size() - 40) : tail;
    for (char &ch : tail)
      if (ch == '\n') ch = '|';
    viol(first.find("incomplete") != std::string::npos ? "half-table" : "wrong-data",
         where + "the read succeeds with " + first + " (" + std::to_string(st.cut) + " of " + std::to_string(fi.bytes.size()) + " bytes, the last: \"" + tail + "\")");
  }
  if (!ok && !may_fail) viol("refused", where + "a complete file is refused: " + what);
  if (!st.more.empty()) {
    st.cut = st.more.back();
    st.more.clear();
  }
}

static std::shared_ptr<Inode> ino(const std::string &d, bool dir = false, bool noperm = false, int err = 0) {
  auto i = std::make_shared<Inode>();
  i->data = d;
  i->dir = dir;
  i->noperm = noperm;
  i->err = err;
  return i;
}

static int c08_main(int, const char **) {
  SlotState st[3];
  std::unique_ptr<LogReader> lr[2];
  std::unique_ptr<PunReader> pr;
  int n = 0;
  for (auto &op : g_sc->ops) {
    ++n;
    if (op.size() < 2) continue;
    int k = (int)to_ll(op[1]);
    if (k < 0 || k > 2) continue;
    SlotState &s = st[k];
    std::string p = norm_path(SLOT_PATH[k]);
    auto &files = live_world().files;
    if (op[0] == "set" && op.size() == 5) {
      int si = (int)to_ll(op[2]), ro = (int)to_ll(op[3]);
      if (si < 0 || si >= (int)g_sys.size() || ro < 0 || ro > 2) continue;
      const FileImage &f = k == 2 ? g_sys[si].pun[ro] : g_sys[si].log[ro];
      s = SlotState();
      s.what = 1;
      s.sys = si;
      s.role = ro;
      long long c = to_ll(op[4]);
      s.cut = c < 0 ? f.bytes.size() : std::min((size_t)c, f.bytes.size());
      files[p] = ino(f.bytes.substr(0, s.cut));
    } else if (op[0] == "corrupt" && op.size() == 4) {
      if (s.what != 1) continue;
      std::string &d = files[p]->data;
      if (d.empty()) continue;
      d[(size_t)to_ll(op[2]) % d.size()] = (char)to_ll(op[3]);
      s.corrupt = true;
    } else if (op[0] == "gone") {
      s = SlotState();
      files.erase(p);
    } else if (op[0] == "dir") {
      s = SlotState();
      s.what = 2;
      files[p] = ino("", true);
    } else if (op[0] == "noperm") {
      if (s.what != 1) continue;
      s.what = 3;
      files[p]->noperm = true;
    } else if (op[0] == "hide") {
      if (s.what != 1) continue;
      s.what = 4;
      files[p]->err = EACCES;
    } else if (op[0] == "grow" && op.size() == 4) {
      if (s.what != 1 || s.corrupt) continue;
      const FileImage &f = k == 2 ? g_sys[s.sys].pun[s.role] : g_sys[s.sys].log[s.role];
      size_t from = s.more.empty() ? s.cut : s.more.back();
      size_t to = std::min(f.bytes.size(), from + (size_t)std::max(1LL, to_ll(op[2])));
      if (to <= from) continue;
      FsEvent e;
      e.at = std::max(1LL, to_ll(op[3]));
      e.act = "append";
      e.path = SLOT_PATH[k];
      e.data = f.bytes.substr(from, to - from);
      if (!s.more.empty()) continue;
      add_event_relative(e);
      s.more.push_back(to);
    } else if (op[0] == "new") {
      if (k == 2) pr.reset();
      else lr[k].reset();
    } else if (op[0] == "read") {
      if (k == 2) {
        if (!pr) pr.reset(new PunReader(SLOT_PATH[2]));
        do_read(*pr, s, k, op, n);
      } else {
        if (!lr[k]) lr[k].reset(new LogReader(SLOT_PATH[k]));
        do_read(*lr[k], s, k, op, n);
      }
      // an append that did not come in time happens now
      if (s.what == 1 && !s.corrupt) {
        const FileImage &f = k == 2 ? g_sys[s.sys].pun[s.role] : g_sys[s.sys].log[s.role];
        files[p] = ino(f.bytes.substr(0, s.cut));
      }
    }
  }
  return 0;
}

static const int FAULT_OPS[] = {OP_OPEN, OP_STAT, OP_READ, OP_READ, OP_READ, OP_SEEK, OP_ALLOC, OP_ALLOC};
static const int FAULT_ERR[] = {EIO, EACCES, EMFILE, ESTALE, ENOMEM, EBADF, ENFILE, EISDIR, ETIMEDOUT};

static Scenario gen_C08(Rng &r) {
  Scenario s;
  int ns = r.range(1, 3);
  for (int i = 0; i < ns; ++i) s.sys.push_back(random_sys(r, r.chance(0.8) ? 0 : 3));
  size_t tot = 0;
  std::vector<System> q;
  for (auto &y : s.sys) {
    q.push_back(build(y));
    for (int k = 0; k < 3; ++k) tot += q.back().log[k].bytes.size() + q.back().pun[k].bytes.size();
  }
  s.env.push_back(benign_env(r, tot * 6));
  int len = r.range(4, 24);
  int only = r.chance(0.5) ? (int)r.below(3) : -1;
  auto set = [&](int k, bool full) {
    int si = (int)r.below(ns), ro = (int)r.below(3);
    const FileImage &f = k == 2 ? q[si].pun[ro] : q[si].log[ro];
    long long cut = -1;
    if (!full) {
      if (r.chance(0.3)) cut = pick_cut(f, r);
      else if (r.chance(0.4) || f.sec.empty()) cut = r.below(f.bytes.size() + 1);
      else {  // around the borders of a table
        const Section &c = f.sec[r.below(f.sec.size())];
        size_t at[4] = {c.hdr_end, c.soft, c.end, c.beg};
        size_t span = c.end > c.beg ? c.end - c.beg : 1;
        cut = r.chance(0.5) ? (long long)(c.beg + r.below(span)) : (long long)at[r.below(4)] + r.range(-2, 2);
        if (cut < 0) cut = 0;
      }
    }
    s.ops.push_back({"set", std::to_string(k), std::to_string(si), std::to_string(ro), std::to_string(cut)});
  };
  auto fault_read = [&](int k) {
    int op = FAULT_OPS[r.below(8)];
    uint64_t nth = op == OP_OPEN || op == OP_STAT ? 1 : op == OP_READ ? 1 + r.below(r.chance(0.5) ? 4 : 60) : op == OP_SEEK ? 1 + r.below(30) : 1 + r.below(r.chance(0.5) ? 60 : 3000);
    int err = op == OP_ALLOC ? ENOMEM : FAULT_ERR[r.below(9)];
    s.ops.push_back({"read", std::to_string(k), op_name(op), std::to_string(nth), std::to_string(err), std::to_string(r.chance(0.3) ? 1 : 0)});
  };
  bool corrupting = r.chance(0.15);
  for (int i = 0; i < len; ++i) {
    int k = only >= 0 ? only : (int)r.below(3);
    std::string ks = std::to_string(k);
    double d = r.unit();
    if (d < 0.28) set(k, r.chance(0.6));
    else if (d < 0.33) s.ops.push_back({"gone", ks});
    else if (d < 0.36) s.ops.push_back({"dir", ks});
    else if (d < 0.39) s.ops.push_back({"noperm", ks});
    else if (d < 0.41) s.ops.push_back({"hide", ks});
    else if (d < 0.43) s.ops.push_back({"new", ks});
    else if (d < 0.49) {
      set(k, false);
      s.ops.push_back({"grow", ks, std::to_string(1 + r.below(r.chance(0.5) ? 200 : 6000)), std::to_string(1 + r.below(r.chance(0.5) ? 6 : 60))});
      s.ops.push_back({"read", ks, "-"});
    } else if (d < 0.53 && corrupting) {
      set(k, true);
      int c = r.range(1, 3);
      for (int j = 0; j < c; ++j) s.ops.push_back({"corrupt", ks, std::to_string(r.below(1 << 20)), std::to_string(r.chance(0.5) ? "0123456789 .-D\n"[r.below(15)] : r.range(1, 126))});
      s.ops.push_back({"read", ks, "-"});
    } else if (d < 0.78) s.ops.push_back({"read", ks, "-"});
    else fault_read(k);
    // and what everybody wants: it works afterwards
    if (r.chance(0.2)) {
      set(k, true);
      s.ops.push_back({"read", ks, "-"});
    }
  }
  int reads = 0;
  for (auto &o : s.ops) reads += o[0] == "read";
  s.kind = corrupting ? "with-corruption" : "history";
  return s;
}

// ---------------------------------------------------------------- C09
static const char *DIR_[5] = {"", "a/", "a b/", "/abs/x.y/", "./"};
static const char *STEM_[4] = {"m", "m.2", "m n", "mm"};
static const char *EXT_[6] = {".log", ".pun", ".7", ".orb", ".txt", ""};
static std::string path_of(const std::string &tok) {
  long long v = to_ll(tok);
  if (v < 0) v = 0;
  return std::string(DIR_[v / 24 % 5]) + STEM_[v / 6 % 4] + EXT_[v % 6];
}
struct Fs {  // the model: what can be found
  std::map<std::string, int> f;
  bool has(const std::string &p) const { return f.count(norm_path(p)) != 0; }
};
static std::string sister(const std::string &p, const std::string &ext) {
  size_t sl = p.rfind('/'), dot = p.rfind('.');
  if (dot == std::string::npos || (sl != std::string::npos && dot < sl)) return p + ext;
  return p.substr(0, dot) + ext;
}
static std::string ext_of(const std::string &p) {
  size_t sl = p.rfind('/'), dot = p.rfind('.');
  if (dot == std::string::npos || (sl != std::string::npos && dot < sl)) return "";
  return p.substr(dot);
}
static std::string join(const std::vector<std::string> &v) {
  std::string o;
  for (auto &x : v) o += (o.empty() ? "" : " ") + x;
  return o;
}

struct Expect {  // with a racing change two answers are possible
  bool a, b;
  bool fits(bool x) const { return x == a || x == b; }
};

static int c09_main(int, const char **) {
  PropertyFileExist e0, e1(1);
  PropertySisterFile s1, s3;
  s1.setPropOption("ALLOWED_SISTER_FILE_EXT", std::vector<std::string>{".log"});
  std::vector<std::string> other{".orb", ".7", ".pun"};
  s3.setPropOption("ALLOWED_SISTER_FILE_EXT", other);
  std::set<std::string> pe{".orb", ".7", ".pun"}, le{".log"};
  ArgumentFile a0, a1;
  a0.setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", pe);
  a0.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", std::string(".log"));
  a0.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", 0);
  a1.setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", le);
  a1.setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", other);
  a1.setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", 1);
  auto parser = prepareParser();
  Fs fs;
  int n = 0;
  std::map<std::string, std::string> last;
  for (auto &op : g_sc->ops) {
    ++n;
    if (op.size() < 2) continue;
    std::string where = "step " + std::to_string(n) + ": ";
    auto change = [&](const std::string &act, const std::string &path, Fs &m) {
      FsEvent e;
      e.path = path;
      std::string np = norm_path(path);
      if (act == "touch") {
        e.act = "replace";
        e.data = "x";
        m.f[np] = 1;
      } else if (act == "mkdir") {
        e.act = "mkdir";
        m.f[np] = 1;
      } else if (act == "noperm") {
        e.act = "noperm";  // it can still be found
      } else if (act == "hide") {
        e.act = "hide";
        e.data = std::to_string(EACCES);
        m.f.erase(np);
      } else {
        e.act = "unlink";
        m.f.erase(np);
      }
      return e;
    };
    if (op[0] == "touch" || op[0] == "mkdir" || op[0] == "rm" || op[0] == "noperm" || op[0] == "hide") {
      apply_now(change(op[0], path_of(op[1]), fs));
      continue;
    }
    if (op[0] != "check" || op.size() < 3) continue;
    std::string obj = op[1], p = path_of(op[2]);
    Fs before = fs, after = fs;
    if (op.size() == 6) {  // the outside world acts during the validation
      FsEvent e = change(op[3], path_of(op[4]), after);
      e.at = std::max(1LL, to_ll(op[5]));
      add_event_relative(e);
    }
    auto found = [&](const std::string &x) { return Expect{before.has(x), after.has(x)}; };
    bool threw = false;
    std::string what, ans_exist, flag;
    std::vector<std::string> names, yes, exts;
    std::string jn, jy;
    int exist = -1;
    bool joined = false, may_must = false, wrong_ext = false;
    try {
      if (obj == "E0") e0.propValid(p);
      else if (obj == "E1") e1.propValid(p);
      else if (obj == "S1") s1.propValid(p);
      else if (obj == "S3") s3.propValid(p);
      else if (obj == "A0") a0.argValid(p);
      else if (obj == "A1") a1.argValid(p);
      else if (obj == "PP" || obj == "PL") {
        std::string fl = obj == "PP" ? "--pun_1" : "--log_2";
        const char *av[3] = {"calc_J", fl.c_str(), p.c_str()};
        parser->parse(av, 3);
      }
    } catch (const std::exception &e) {
      threw = true;
      what = e.what();
    }
    clear_events();
    // a change that did not come in time comes now
    if (op.size() == 6) apply_now(change(op[3], path_of(op[4]), fs));
    if (obj == "S1" || obj == "A0" || obj == "PP") exts = {".log"};
    if (obj == "S3" || obj == "A1" || obj == "PL") exts = other;
    if (obj == "A0" || obj == "PP") wrong_ext = !pe.count(ext_of(p));
    if (obj == "A1" || obj == "PL") wrong_ext = !le.count(ext_of(p));
    may_must = obj == "E1" || obj == "A1";
    Expect ex = found(p);
    extra_note(where + obj + " '" + p + "' " + (threw ? "throws " + what : "accepted"));
    if (threw) {
      if (may_must && ex.fits(false)) {
        probe("rejected-missing");
        // what it says about the file must not be left over from an earlier one
        if (!ex.fits(true)) {
          int v = obj == "E1" ? e1.getPropOption("FILE_DOES_EXIST") : (int)to_ll(a1.getPropertyValues("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST"));
          if (v) viol("stale-existence", where + obj + " rejects '" + p + "' as missing but keeps saying that it exists");
        }
        if (obj == "E1") {
          bool post = false;
          try {
            e1.postCheck();
          } catch (const std::exception &) {
            post = true;
          }
          if (!post && !ex.fits(true)) viol("stale-existence", where + "the final check passes although '" + p + "' is missing");
        }
      } else if (wrong_ext)
        probe("rejected-extension");
      else
        viol("rejected", where + obj + " rejects '" + p + "': " + what);
      continue;
    }
    if (may_must && !ex.fits(true)) {
      viol("accepted-missing", where + obj + " accepts '" + p + "' which does not exist");
      continue;
    }
    if (wrong_ext) continue;  // not this property's business
    auto text = [&](const std::string &prop, const std::string &o) {
      if (obj == "A0") return a0.getPropertyValues(prop, o);
      if (obj == "A1") return a1.getPropertyValues(prop, o);
      return parser->getFlagArgOptValue(obj == "PP" ? "--pun_1" : "--log_2", "ARGUMENT_FILE", prop, o);
    };
    try {
      if (obj == "E0") exist = e0.getPropOption("FILE_DOES_EXIST");
      if (obj == "E1") {
        exist = e1.getPropOption("FILE_DOES_EXIST");
        e1.postCheck();
      }
      if (obj == "S1" || obj == "S3") {
        PropertySisterFile &sx = obj == "S1" ? s1 : s3;
        jn = join(sx.getPropOption("SISTER_FILE_PATH_NAME"));
        jy = join(sx.getPropOption("SISTER_FILE_EXISTS"));
      }
      if (obj[0] == 'A' || obj[0] == 'P') {
        exist = (int)to_ll(text("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST"));
        jn = text("PROPERTY_SISTER_FILE", "SISTER_FILE_PATH_NAME");
        jy = text("PROPERTY_SISTER_FILE", "SISTER_FILE_EXISTS");
      }
    } catch (const std::exception &e) {
      viol("no-answer", where + obj + " accepted '" + p + "' but gives no answer: " + e.what());
      continue;
    }
    if (exist >= 0 && !ex.fits(exist != 0)) viol("wrong-existence", where + obj + " says that '" + p + "' " + (exist ? "exists" : "does not exist"));
    if (last.count(obj) && last[obj] != std::to_string(exist) + jy) probe("answer-changed");
    last[obj] = std::to_string(exist) + jy;
    if (!exts.empty()) {
      std::vector<std::string> want;
      for (auto &x : exts) want.push_back(sister(p, x));
      if (jn != join(want)) viol("wrong-companion-path", where + obj + " of '" + p + "' gives companions '" + jn + "', not '" + join(want) + "'");
      std::vector<std::string> got;
      size_t i = 0;
      while (i < jy.size()) {
        size_t e = jy.find(' ', i);
        if (e == std::string::npos) e = jy.size();
        got.push_back(jy.substr(i, e - i));
        i = e + 1;
      }
      if (got.size() != exts.size()) viol("wrong-companion", where + obj + " answers '" + jy + "' for " + std::to_string(exts.size()) + " companions");
      else
        for (size_t k = 0; k < got.size(); ++k)
          if (!found(want[k]).fits(got[k] == "true")) viol("wrong-companion", where + obj + " of '" + p + "' says '" + got[k] + "' about " + want[k]);
      if (jy.find("true") != std::string::npos) probe("companion-found");
    }
  }
  return 0;
}

static Scenario gen_C09(Rng &r) {
  Scenario s;
  Rng q(1);
  s.env.push_back(benign_env(r, 1));
  static const char *OBJ[] = {"E0", "E1", "S1", "S3", "A0", "A1", "PP", "PL"};
  int len = r.range(3, 40);
  // few names, so that they meet
  int dirs = r.range(1, 2), d0 = (int)r.below(5), stems = r.range(1, 2), s0 = (int)r.below(4);
  auto name = [&](int ext) { return std::to_string(((d0 + (int)r.below(dirs)) % 5) * 24 + ((s0 + (int)r.below(stems)) % 4) * 6 + ext); };
  auto any = [&]() { return name((int)r.below(r.chance(0.9) ? 4 : 6)); };
  static const char *ACT[] = {"touch", "rm", "touch", "rm", "mkdir", "noperm", "hide"};
  int o1 = (int)r.below(8), o2 = (int)r.below(8);
  bool few = r.chance(0.5);
  for (int i = 0; i < len; ++i) {
    if (r.chance(0.45)) {
      s.ops.push_back({ACT[r.below(7)], any()});
      continue;
    }
    int o = few ? (r.chance(0.5) ? o1 : o2) : (int)r.below(8);
    std::string nm = any();
    if (o >= 4 && r.chance(0.85)) nm = name(o == 4 || o == 6 ? 1 + (int)r.below(3) : 0);
    Tokens t{"check", OBJ[o], nm};
    if (r.chance(0.15)) {
      t.push_back(r.chance(0.5) ? "touch" : "rm");
      t.push_back(any());
      t.push_back(std::to_string(1 + r.below(5)));
    }
    s.ops.push_back(t);
  }
  s.kind = few ? "few-objects" : "all-objects";
  return s;
}

// ---------------------------------------------------------------- C15
// Calculation objects on one set of matrices, asked over and over, on up to
// two threads.
struct Mats {
  Matrix *c[3][2], *e[3][2], *s;
  std::vector<std::vector<double>> xyz[3];
  std::vector<int> nbf[3];
  int nocc[3][2];
  bool can_match = true;
};
static std::vector<Mats> g_mats;

static Matrix *mat_of(const std::vector<double> &v, int rows, int cols) {
  Matrix *m = new Matrix(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) m->set_elem(v[(size_t)i * cols + j], i + 1, j + 1);
  return m;
}
static bool mat_is(const Matrix *m, const std::vector<double> &v, int rows, int cols) {
  if (m->get_rows() != rows || m->get_cols() != cols) return false;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) {
      double a = m->get_elem(i + 1, j + 1), b = v[(size_t)i * cols + j];
      if (memcmp(&a, &b, 8)) return false;
    }
  return true;
}
static Mats mats_of(const System &q) {
  Mats m;
  for (int i = 0; i < 3; ++i) {
    const Role &R = q.r[i];
    View v = view_of(q.log[i], ~(size_t)0 >> 1);
    for (int sp = 0; sp < 2; ++sp) {
      m.c[i][sp] = m.e[i][sp] = nullptr;
      int k = sp ? K_EB : K_EA;
      if ((sp && !R.unr) || v.state[k] != SS_COMPLETE) continue;
      const StepData &d = R.steps[v.step[k]];
      m.c[i][sp] = mat_of(R.C[sp], R.m, R.n);
      m.e[i][sp] = mat_of(d.E[sp], (int)d.E[sp].size(), 1);
      m.nocc[i][sp] = d.nocc[sp];
    }
    if (v.state[K_AO] != SS_COMPLETE || v.state[K_COORD] != SS_COMPLETE) {
      m.can_match = false;
      continue;
    }
    m.xyz[i].resize(3);
    for (auto &a : R.steps[v.step[K_COORD]].atoms)
      for (int c = 0; c < 3; ++c) m.xyz[i][c].push_back(a.x[c]);
    for (auto &a : R.steps[v.step[K_AO]].atoms) m.nbf[i].push_back(a.nbf);
  }
  View v = view_of(q.log[0], ~(size_t)0 >> 1);
  m.s = v.state[K_OVERLAP] == SS_COMPLETE ? mat_of(q.r[0].steps[v.step[K_OVERLAP]].S, q.r[0].n, q.r[0].n) : nullptr;
  return m;
}
static std::string inputs_changed() {
  for (size_t i = 0; i < g_mats.size(); ++i) {
    const System &q = g_sys[i];
    const Mats &m = g_mats[i];
    for (int k = 0; k < 3; ++k)
      for (int sp = 0; sp < 2; ++sp)
        if (m.c[k][sp]) {
          View v = view_of(q.log[k], ~(size_t)0 >> 1);
          const StepData &d = q.r[k].steps[v.step[sp ? K_EB : K_EA]];
          if (!mat_is(m.c[k][sp], q.r[k].C[sp], q.r[k].m, q.r[k].n)) return "orbital coefficients";
          if (!mat_is(m.e[k][sp], d.E[sp], (int)d.E[sp].size(), 1)) return "orbital energies";
        }
    View v = view_of(q.log[0], ~(size_t)0 >> 1);
    if (m.s && !mat_is(m.s, q.r[0].steps[v.step[K_OVERLAP]].S, q.r[0].n, q.r[0].n)) return "overlap";
  }
  return "";
}
static bool g_alone;
static void arm(const Tokens &op, size_t at) {
  if (!g_alone || op.size() < at + 2 || op[at] != "alloc") return;
  Fault f;
  f.op = OP_ALLOC;
  f.nth = std::max(1LL, to_ll(op[at + 1]));
  f.err = 12;
  add_fault_relative(f);
}
static int c15_main(int argc, const char **argv) {
  int me = argc > 1 ? atoi(argv[1]) : 0, n = 0;
  struct Obj {
    std::unique_ptr<TransferComplex> t;
    int sys = 0, cp = 0, s[3] = {0, 0, 0};
    bool lined = false;
  };
  Obj ob[3];
  for (auto &op : g_sc->ops) {
    ++n;
    if (op.size() < 3 || to_ll(op[0]) != me) continue;
    size_t k = to_ll(op[2]);
    if (k > 2) continue;
    Obj &o = ob[k];
    std::string where = "step " + std::to_string(n) + ": ";
    if (op[1] == "new" && op.size() >= 7) {
      size_t si = to_ll(op[3]);
      if (si >= g_mats.size()) continue;
      Mats &m = g_mats[si];
      Obj x;
      x.sys = (int)si;
      x.cp = (int)g_sc->sys[si].get("cp");
      for (int i = 0; i < 3; ++i) x.s[i] = to_ll(op[4 + i]) ? 1 : 0;
      bool have = m.s != nullptr;
      for (int i = 0; i < 3; ++i) have = have && m.c[i][x.s[i]];
      if (!have) continue;
      std::pair<int, int> o1{m.c[1][x.s[1]]->get_rows(), m.nocc[1][x.s[1]]}, o2{m.c[2][x.s[2]]->get_rows(), m.nocc[2][x.s[2]]};
      if (op.size() >= 9 && op[7] == "misfit") {  // one of the matrices is of another size
        int k = (int)(llabs(to_ll(op[8])) % 12);
        Matrix c1(*m.c[1][x.s[1]]), c2(*m.c[2][x.s[2]]), cP(*m.c[0][x.s[0]]), S(*m.s), E(*m.e[0][x.s[0]]);
        bool cp = x.cp != 0;
        auto cols = [](Matrix &a, int d) {
          if (a.get_cols() + d > 0) a.set_cols(a.get_cols() + d);
        };
        auto rows = [](Matrix &a, int d) {
          if (a.get_rows() + d > 0) a.set_rows(a.get_rows() + d);
        };
        int before[5][2] = {{c1.get_rows(), c1.get_cols()}, {c2.get_rows(), c2.get_cols()}, {cP.get_rows(), cP.get_cols()}, {S.get_rows(), S.get_cols()}, {E.get_rows(), E.get_cols()}};
        auto o10 = o1, o20 = o2;
        if (k == 0) cols(S, -1), rows(S, -1);
        if (k == 1) cols(S, 1), rows(S, 1);
        if (k == 2) rows(E, -1);
        if (k == 3) rows(E, 1);
        if (k == 4) o1.first += 1;
        if (k == 5) o2.first -= 1;
        if (k == 6) cols(c1, -1);
        if (k == 7) cols(c1, 1);
        if (k == 8) cols(c2, -1);
        if (k == 9) cols(c2, 1);
        if (k == 10) cp = !cp;
        if (k == 11) cols(cP, -1);
        int after[5][2] = {{c1.get_rows(), c1.get_cols()}, {c2.get_rows(), c2.get_cols()}, {cP.get_rows(), cP.get_cols()}, {S.get_rows(), S.get_cols()}, {E.get_rows(), E.get_cols()}};
        if (k != 10 && !memcmp(before, after, sizeof before) && o1 == o10 && o2 == o20) continue;
        bool refused = false;
        double J = 0;
        std::cout << "\n@@" << n << "\n" << std::flush;
        try {
          TransferComplex t(&c1, &c2, &cP, o1, o2, &S, &E, cp);
          J = t.calcJ({{"mon1", "HOMO"}, {"mon2", "HOMO"}}, {{"mon1", 0}, {"mon2", 0}});
        } catch (const std::exception &) {
          refused = true;
        }
        std::cout << "\n@@0\n" << std::flush;
        extra_note(where + "misfit " + (refused ? "refused" : "done"));
        if (!refused) viol("misfit-accepted", where + strf("matrices that do not fit (%d) give %g", k, J));
        else probe("misfit-refused");
        continue;
      }
      try {
        x.t.reset(new TransferComplex(m.c[1][x.s[1]], m.c[2][x.s[2]], m.c[0][x.s[0]], o1, o2, m.s, m.e[0][x.s[0]], x.cp != 0));
      } catch (const std::exception &e) {
        viol("refused", where + "matching matrices are refused: " + e.what());
        continue;
      }
      o = std::move(x);
      continue;
    }
    if (!o.t) continue;
    const Mats &m = g_mats[o.sys];
    if (op[1] == "match" && op.size() >= 4) {
      if (!m.can_match) continue;
      auto xyz0 = m.xyz[0], xyz1 = m.xyz[1], xyz2 = m.xyz[2];
      auto b0 = m.nbf[0], b1 = m.nbf[1], b2 = m.nbf[2];
      bool wrong = false;
      if (op[3] == "moved" && op.size() >= 6) {  // an atom that is somewhere else
        auto &x = to_ll(op[4]) == 0 ? xyz0 : to_ll(op[4]) == 1 ? xyz1 : xyz2;
        x[0][to_ll(op[5]) % x[0].size()] += 777.25;
        wrong = true;
      } else if (op[3] == "basis" && op.size() >= 6) {  // an atom with another number of functions
        auto &b = to_ll(op[4]) == 0 ? b0 : to_ll(op[4]) == 1 ? b1 : b2;
        b[to_ll(op[5]) % b.size()] += 1;
        wrong = true;
      } else if (op[3] == "fewer" && op.size() >= 6) {  // the functions of one atom are not given
        auto &b = to_ll(op[4]) == 0 ? b0 : to_ll(op[4]) == 1 ? b1 : b2;
        if (b.size() < 2) continue;
        b.erase(b.begin() + to_ll(op[5]) % b.size());
        wrong = true;
      } else if (op[3] == "lost" && op.size() >= 6) {  // an atom is missing
        auto &x = to_ll(op[4]) == 0 ? xyz0 : to_ll(op[4]) == 1 ? xyz1 : xyz2;
        if (x[0].size() < 2) continue;
        size_t a = to_ll(op[5]) % x[0].size();
        for (auto &c : x) c.erase(c.begin() + a);
        wrong = true;
      } else if (op[3] == "swapped" && op.size() >= 6) {  // the functions of two atoms are exchanged
        auto &b = to_ll(op[4]) == 0 ? b0 : to_ll(op[4]) == 1 ? b1 : b2;
        size_t a = to_ll(op[5]) % b.size(), c = 0;
        while (c < b.size() && b[c] == b[a]) ++c;
        if (c == b.size()) continue;
        std::swap(b[a], b[c]);
        wrong = true;
      }
      bool threw = false, mem = false;
      std::string what;
      uint64_t fired0 = 0;
      try {
        Matrix x1(xyz1), x2(xyz2), xP(xyz0);
        arm(op, 3);
        fired0 = fired_count(OP_ALLOC);
        if (op[3] == "short") o.t->unscramble(x1, x2, xP, b0, b2);  // the functions of monomer 1 follow from the dimer's
        else o.t->unscramble(x1, x2, xP, b0, b2, b1);
      } catch (const std::bad_alloc &) {
        threw = mem = true;
      } catch (const std::exception &e) {
        clear_faults();
        threw = true;
        what = e.what();
      }
      clear_faults();
      bool fired = fired_count(OP_ALLOC) > fired0;
      extra_note(where + "match " + (threw ? mem ? "out of memory" : "refused: " + what : "done"));
      if (wrong && !threw) viol("mismatch-accepted", where + "atoms that do not match are accepted");
      if (!wrong && threw && !fired) viol("match-refused", where + "matching atoms are refused: " + what);
      if (!wrong && !threw) {
        if (o.lined) probe("matched-again");
        o.lined = true;
      }
      if (threw) probe(wrong ? "match-refused" : "match-out-of-memory");
      std::cout.clear();
      std::cerr.clear();
    } else if (op[1] == "calc" && op.size() >= 7) {
      static const char *T[] = {"HOMO", "LUMO", "SOMO", "homo"};
      int t1 = (int)(to_ll(op[3]) & 3), t2 = (int)(to_ll(op[5]) & 3), n1 = (int)to_ll(op[4]), n2 = (int)to_ll(op[6]);
      std::map<std::string, std::string> type{{"mon1", T[t1]}, {"mon2", T[t2]}};
      std::map<std::string, int> num{{"mon1", n1}, {"mon2", n2}};
      std::cout << "\n@@" << n << "\n" << std::flush;
      std::cerr << "\n@@" << n << "\n" << std::flush;
      bool threw = false, mem = false;
      double J = 0;
      std::string what;
      uint64_t fired0 = fired_count(OP_ALLOC);
      arm(op, 7);
      try {
        J = o.t->calcJ(type, num);
      } catch (const std::bad_alloc &) {
        threw = mem = true;
      } catch (const std::exception &e) {
        clear_faults();
        threw = true;
        what = e.what();
      }
      clear_faults();
      bool fired = fired_count(OP_ALLOC) > fired0;
      bool good_out = (bool)std::cout && (bool)std::cerr;
      std::cout.clear();
      std::cerr.clear();
      std::cout << "\n@@0\n" << std::flush;
      std::cerr << "\n@@0\n" << std::flush;
      Selection sel;
      sel.cp = o.cp;
      for (int i = 0; i < 3; ++i) sel.s[i] = o.s[i];
      sel.lumo[1] = t1;
      sel.lumo[2] = t2;
      sel.num[1] = n1;
      sel.num[2] = n2;
      bool exists = t1 < 2 && t2 < 2;
      Report R;
      if (exists) {
        R = evaluate_full(g_sys[o.sys], sel, !o.lined);
        exists = R.ok;
      }
      extra_note(where + "calc " + (threw ? mem ? "out of memory" : "refused: " + what : strf("%.17g", J)));
      if (threw) {
        if (!(mem && fired)) {
          if (exists) viol("refused", where + "a pair of orbitals that exists is refused: " + what);
          else probe("no-such-orbital");
        } else
          probe("calc-out-of-memory");
        continue;
      }
      if (!exists) {
        viol("impossible-orbital", where + "an orbital that does not exist gets a value");
        continue;
      }
      if (std::fabs(1 - R.val[3] * R.val[3]) < 1e-4) continue;
      double H = 27.2114;
      if (!(std::fabs(J - R.val[4] / H) <= R.tol[4] / H))
        viol("wrong-coupling", where + strf("%s HOMO/LUMO %s%+d %s%+d: %.9g, reference %.9g", o.lined ? "matched" : "unmatched", T[t1], n1, T[t2], n2, J, R.val[4] / H));
      probe(o.lined ? "calc-matched" : "calc-in-order");
      if (good_out && !fired)
        extra_note(strf("PRINTED %d %d %d %d %d %d %d %d %d %d %d %d", me, n, o.sys, (int)o.lined, o.cp, o.s[0], o.s[1], o.s[2], t1, n1, t2, n2));
    }
  }
  std::string ch = inputs_changed();
  if (!ch.empty()) viol("inputs-changed", "the " + ch + " handed in were changed");
  return 0;
}
static std::string segment(const std::string &t, int n) {
  std::string m = "\n@@" + std::to_string(n) + "\n";
  size_t b = t.find(m);
  if (b == std::string::npos) return "";
  b += m.size();
  size_t e = t.find("\n@@", b);
  return t.substr(b, e == std::string::npos ? e : e - b + 1);
}
static void judge_printed(const Outcome &o, Verdict &v) {
  size_t i = 0;
  while (i < o.extra.size()) {
    size_t e = o.extra.find('\n', i);
    if (e == std::string::npos) e = o.extra.size();
    std::string l = o.extra.substr(i, e - i);
    i = e + 1;
    int x[12];
    if (sscanf(l.c_str(), "PRINTED %d %d %d %d %d %d %d %d %d %d %d %d", x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7, x + 8, x + 9, x + 10, x + 11) != 12) continue;
    if (x[0] >= (int)o.task.size()) continue;
    Selection sel;
    sel.cp = x[4];
    for (int k = 0; k < 3; ++k) sel.s[k] = x[5 + k];
    sel.lumo[1] = x[8];
    sel.num[1] = x[9];
    sel.lumo[2] = x[10];
    sel.num[2] = x[11];
    Report R = evaluate_full(g_sys[x[2]], sel, !x[3]);
    Printed p = parse_report(segment(o.task[x[0]].out, x[1]));
    static const char *nm[5] = {"J_ab", "e_a", "e_b", "S_ab", "J_eff"};
    for (int k = 0; k < 5; ++k) {
      if (p.count[k] != 1) return violate(v, "wrong-printout", strf("step %d prints %s %d times", x[1], nm[k], p.count[k]));
      if (!(std::fabs(p.val[k] - R.val[k]) <= R.tol[k])) return violate(v, "wrong-printout", strf("step %d prints %s %.9g, reference %.9g", x[1], nm[k], p.val[k], R.val[k]));
    }
    bool warned = segment(o.task[x[0]].err, x[1]).find("WARNING") != std::string::npos;
    if (warned && x[3]) return violate(v, "warned", strf("step %d warns although the functions are lined up", x[1]));
    if (!warned && !x[3]) return violate(v, "not-warned", strf("step %d does not warn although the functions were never lined up", x[1]));
  }
}
static Scenario gen_C15(Rng &r) {
  Scenario s;
  int ns = r.chance(0.75) ? 1 : 2;
  for (int i = 0; i < ns; ++i) {
    Sys y = random_sys(r, r.chance(0.6) ? 0 : r.chance(0.7) ? 3 : 6);
    if (r.chance(0.5)) y["cp"] = 1;
    if (r.chance(0.7)) y["unr"] = r.chance(0.5) ? 7 : (long long)r.below(8);
    y["pop"] = 7;
    y["stepsP"] = y["steps1"] = y["steps2"] = 1;
    if (r.chance(0.8)) y["perm"] = 1;
    s.sys.push_back(y);
  }
  std::vector<System> S;
  for (auto &y : s.sys) S.push_back(build(y));
  s.env.push_back(benign_env(r, 1));
  int nt = MEM || r.chance(0.35) ? 2 : 1;
  int len = r.range(3, 24);
  std::vector<Tokens> ops;
  int cur[2][3], spin[2][3][3] = {};
  for (auto &a : cur)
    for (int &b : a) b = -1;
  bool tame = r.chance(0.4);
  for (int i = 0; i < len; ++i) {
    int t = (int)r.below(nt), k = (int)r.below(tame ? 1 : 2);
    std::string T = std::to_string(t), K = std::to_string(k);
    if (cur[t][k] < 0 || r.chance(0.06)) {
      int si = (int)r.below(ns);
      cur[t][k] = si;
      Tokens o{T, "new", K, std::to_string(si)};
      for (int j = 0; j < 3; ++j) {
        spin[t][k][j] = S[si].r[j].unr && r.chance(0.5);
        o.push_back(spin[t][k][j] ? "1" : "0");
      }
      if (r.chance(0.12)) {
        Tokens w = o;
        w.insert(w.end(), {"misfit", std::to_string(r.below(12))});
        ops.push_back(w);
      }
      ops.push_back(o);
      continue;
    }
    const System &q = S[cur[t][k]];
    double d = r.unit();
    auto alloc = [&](Tokens &o) {
      o.push_back("alloc");
      o.push_back(std::to_string((long long)std::exp(r.unit() * std::log(1500.0))));
    };
    if (d < 0.4) {
      Tokens o{T, "match", K};
      double e = r.unit();
      if (e < 0.35) o.push_back(r.chance(0.85) ? "right" : "short");
      else if (e < 0.55) {
        o.push_back("moved");
        o.push_back(std::to_string(r.below(3)));
        o.push_back(std::to_string(r.below(8)));
      } else if (e < 0.7) {
        o.push_back("basis");
        o.push_back(std::to_string(r.below(3)));
        o.push_back(std::to_string(r.below(8)));
      } else if (e < 0.8) {
        o.push_back(r.chance(0.33) ? "fewer" : r.chance(0.5) ? "lost" : "swapped");
        o.push_back(std::to_string(r.below(3)));
        o.push_back(std::to_string(r.below(8)));
      } else if (nt == 1)
        alloc(o);
      else
        o.push_back("right");
      ops.push_back(o);
    } else {
      Tokens o{T, "calc", K};
      for (int j = 1; j < 3; ++j) {
        const StepData &dd = q.r[j].steps.back();
        int occ = dd.nocc[spin[t][k][j]], vir = q.r[j].m - occ;
        bool lumo = vir > 0 ? r.chance(0.5) : r.chance(0.1);
        int lim = lumo ? vir : occ;
        if (r.chance(0.02)) {
          o.push_back(r.chance(0.5) ? "2" : "3");
          o.push_back("0");
          continue;
        }
        o.push_back(lumo ? "1" : "0");
        int num = lim > 0 && r.chance(0.9) ? (int)r.below(lim) : lim + (int)r.below(2);
        if (r.chance(0.03)) num = -num;
        o.push_back(std::to_string(lumo ? num : -num));
      }
      if (nt == 1 && r.chance(0.12)) alloc(o);
      ops.push_back(o);
    }
  }
  s.ops = ops;
  if (nt > 1) {
    s.quantum = 1 + (1ull << r.range(4, 13));
    s.quantum_seed = 1 + r.below(1000000);
    shared_sched(s, r);
  }
  s.kind = nt > 1 ? "two-threads" : "one-thread";
  return s;
}

// ---------------------------------------------------------------- judging
static void judge_api(const Scenario &s, Verdict &v, MainFn fn) {
  g_sc = &s;
  g_sys.clear();
  for (auto &y : s.sys) g_sys.push_back(build(y));
  World w;
  w.env = s.env[0];
  w.env.out_mode = 0;
  w.step_budget = 400000000ull;
  w.heap_cap = 1ull << 30;
  std::vector<TaskSpec> ts;
  int nt = 1;
  if (fn == c15_main) {
    g_mats.clear();
    for (auto &q : g_sys) g_mats.push_back(mats_of(q));
    for (auto &op : s.ops)
      if (!op.empty() && op[0] == "1") nt = 2;
    g_alone = nt == 1;  // allocations are counted for all threads together
    w.preempt = s.preempt;
    w.quantum = s.quantum;
    w.quantum_seed = s.quantum_seed;
    w.shared = s.shared;
  }
  for (int i = 0; i < nt; ++i) {
    TaskSpec t;
    t.argv = {"history", std::to_string(i)};
    t.fn = fn;
    ts.push_back(t);
  }
  Outcome o = run_once(v, w, ts);
  for (auto &t : o.task)
    if (t.status == ST_INTERNAL) return violate(v, "harness", t.what);
  size_t i = 0;
  int checks = 0;
  while (i < o.extra.size()) {
    size_t e = o.extra.find('\n', i);
    if (e == std::string::npos) e = o.extra.size();
    std::string l = o.extra.substr(i, e - i);
    i = e + 1;
    if (l.compare(0, 5, "VIOL ") == 0) {
      size_t b = l.find(' ', 5);
      violate(v, l.substr(5, b - 5), l.substr(b + 1));
    } else if (l.compare(0, 6, "PROBE ") == 0)
      v.probes.push_back(l.substr(6));
    else if (l.compare(0, 8, "PRINTED ") != 0)
      ++checks;
  }
  v.nontrivial = checks >= 2;
  v.sample = strf("%d calls judged, %s", checks, status_name(o.t0().status));
  if (fn == c15_main && !v.violation) judge_printed(o, v);
  bool corrupt = false;
  for (auto &op : s.ops) corrupt |= op[0] == "corrupt";
  if (v.violation || corrupt) return;
  for (auto &k : o.task)
    if (!(k.status == ST_EXIT && k.code == 0)) return violate(v, k.status == ST_HANG ? "hang" : k.status == ST_SANITIZER ? "memory-error" : "crash", std::string("the process ends with ") + status_name(k.status) + " " + std::to_string(k.code) + " " + k.what);
}

Scenario generate(const std::string &prop, Rng &r) { return prop == "C15" ? gen_C15(r) : prop == "C09" ? gen_C09(r) : gen_C08(r); }
void judge(const Scenario &s, Verdict &v) { judge_api(s, v, s.prop == "C15" ? c15_main : s.prop == "C09" ? c09_main : c08_main); }
}  // namespace sim

int main(int argc, char **argv) { return sim::scen_main(argc, argv); }
