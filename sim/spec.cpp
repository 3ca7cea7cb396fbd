#include "spec.h"

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>

namespace sim {

const char *kind_name[K_N] = {"coord", "overlap", "Ealpha", "Ebeta", "population", "Calpha", "Cbeta"};

static const struct {
  const char *sym;
  int z;
} ELEM[] = {{"H", 1}, {"C", 6}, {"N", 7}, {"O", 8}, {"S", 16}, {"Cl", 17}, {"Br", 35}, {"Si", 14}, {"F", 9}, {"Zn", 30}, {"P", 15}, {"He", 2}};
const char *element(int i) { return ELEM[i].sym; }
static const int NELEM = sizeof ELEM / sizeof *ELEM;

static const char *LABELS[] = {"1S", "2S", "2PX", "2PY", "2PZ", "3S", "3PX", "3PY", "3PZ", "4D 0", "4D+1", "4D-1", "4D+2", "4D-2", "5XX", "5YY", "5ZZ", "5XY", "5XZ", "5YZ", "6S", "6PX", "6PY", "6PZ", "7D 0", "7D+1", "7D-1", "7D+2", "7D-2", "8F 0"};
static const int NLABEL = sizeof LABELS / sizeof *LABELS;

uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// Fortran D format: 0.dddddddD+ee with `dig` digits; returns text and the exact value
static std::string fortranD(double v, int dig, int width, double &val) {
  if (v == 0) {
    val = 0;
    std::string z = "0." + std::string(dig, '0') + "D+00";
    return std::string(width > (int)z.size() ? width - z.size() : 0, ' ') + z;
  }
  bool neg = v < 0;
  double a = std::fabs(v);
  int e = (int)std::floor(std::log10(a)) + 1;
  double scaled = a / std::pow(10.0, e);
  long long mant = llround(scaled * std::pow(10.0, dig));
  long long lim = 1;
  for (int i = 0; i < dig; ++i) lim *= 10;
  if (mant >= lim) {
    mant /= 10;
    ++e;
  }
  if (mant < lim / 10) {
    mant = llround(a / std::pow(10.0, e - 1) * std::pow(10.0, dig));
    --e;
  }
  std::string s = fmt("%s0.%0*lldD%c%02d", neg ? "-" : "", dig, mant, e < 0 ? '-' : '+', std::abs(e));
  std::string num = fmt("%s0.%0*llde%d", neg ? "-" : "", dig, mant, e);
  val = strtod(num.c_str(), nullptr);
  if ((int)s.size() < width) s = std::string(width - s.size(), ' ') + s;
  return s;
}

static double gauss(Rng &r) {
  double u = 0;
  for (int i = 0; i < 6; ++i) u += r.unit();
  return (u - 3.0) * 1.41421356;
}

// ---------------------------------------------------------------- geometry and basis
static std::vector<Atom> make_atoms(const Sys &s, int n, Rng &r, std::set<std::vector<int>> &used) {
  std::vector<Atom> v;
  int bmin = std::max<int>(1, s.get("bmin")), bmax = std::max<int>(bmin, s.get("bmax"));
  int geo = s.get("geo");  // 0 generic, 1 grid (shared coordinates), 2 planar with signed zeros, 3 far from the origin
  for (int i = 0; i < n; ++i) {
    Atom a;
    a.elem = r.below(NELEM);
    a.nbf = r.range(bmin, bmax);
    std::vector<std::string> pool;
    int start = a.nbf <= 20 && r.chance(0.3) ? r.below(NLABEL - a.nbf + 1) : 0;
    for (int k = 0; k < a.nbf; ++k) {
      int idx = start + k;
      if (idx < NLABEL) a.label.push_back(LABELS[idx]);
      else a.label.push_back(fmt("%dS", idx - NLABEL + 9));
    }
    for (int tries = 0;; ++tries) {
      std::vector<int> k(3);
      for (int c = 0; c < 3; ++c) {
        if (geo == 1) k[c] = 10000 * r.range(-2, 2 + tries / 50);
        else if (geo == 2) k[c] = c == 2 ? 0 : r.range(-50000, 50000);
        else if (geo == 3) k[c] = r.range(100000, 999999) * (r.chance(0.5) ? 1 : -1);
        else k[c] = r.range(-90000, 90000);
      }
      if (geo == 0 && !v.empty() && r.chance(0.3)) {  // a near neighbour: differs in the fourth decimal only
        for (int c = 0; c < 3; ++c) k[c] = (int)llround(v.back().x[c] * 10000);
        k[r.below(3)] += r.chance(0.5) ? 1 : -1;
      }
      if (!used.insert(k).second) continue;
      for (int c = 0; c < 3; ++c) a.x[c] = k[c] / 10000.0;
      break;
    }
    v.push_back(a);
  }
  return v;
}
// The same atom printed by another run: the last two decimals may differ
static Atom jitter(const Atom &a, Rng &r, bool on) {
  Atom b = a;
  for (int c = 0; c < 3; ++c) {
    long long k = llround(a.x[c] * 10000) * 100 + (on ? r.range(-30, 30) : 0);
    b.x[c] = k / 1e6;
    if (k == 0 && on && r.chance(0.5)) b.x[c] = -0.0;
  }
  return b;
}

static void make_energies(const Sys &s, int m, int nocc, Rng &r, std::vector<double> &E) {
  bool glue = s.get("glue");
  std::vector<long long> v;
  for (int i = 0; i < m; ++i) {
    if (i < nocc) {
      if (glue && r.chance(0.4)) v.push_back(-(long long)r.range(10000000, 99999999));
      else if (r.chance(0.3)) v.push_back(-(long long)r.range(150000, 9999999));
      else v.push_back(-(long long)r.range(20000, 140000));
    } else
      v.push_back(r.range(-10000, 400000));
  }
  std::sort(v.begin(), v.begin() + nocc);
  std::sort(v.begin() + nocc, v.end());
  E.clear();
  for (auto k : v) E.push_back(k / 100000.0);
}

// ---------------------------------------------------------------- rendering
static void text(std::string &o, const std::string &line) {
  o += line;
  o += '\n';
}
static void filler(std::string &o, Rng &r, int n) {
  static const char *F[] = {" Leave Link  303 at Tue Jan 23 16:20:37 2018, MaxMem=   536870912 cpu:         0.0", " SCF Done:  E(RB3LYP) =  -78.5874573113     A.U. after    9 cycles", " The electronic state is 1-A.", " (Enter /opt/g09/l601.exe)", "", " Population analysis using the SCF density.", " **********************************************************************", "     Density Matrix:", "    Full Mulliken population analysis:", " Orbital symmetries:", "       Occupied  (A) (A) (A) (A)", "     Eigenvalues --   -10.18844 -10.18829  -0.75447  -0.58191  -0.47025", " Center     Atomic                   Forces (Hartrees/Bohr)", " Rotational constants (GHZ):    148.1234567    30.1234567    25.1234567", "                          Input orientation done", " 1\\1\\GINC-NODE\\SP\\RB3LYP\\6-31G(d)\\C2H4\\USER\\23-Jan-2018\\0\\\\# b3lyp", " Alpha orbitals are printed above", " Overlap normalized", " Beta is not used here"};
  for (int i = 0; i < n; ++i) text(o, F[r.below(sizeof F / sizeof *F)]);
}

static void render_coord(FileImage &f, const StepData &d, int step, Rng &r, bool plain) {
  std::string &o = f.bytes;
  bool input = !plain && r.chance(0.3);
  text(o, input ? "                          Input orientation:                          " : "                         Standard orientation:                         ");
  text(o, " ---------------------------------------------------------------------");
  Section s;
  s.kind = K_COORD;
  s.step = step;
  s.beg = o.size();
  bool alt = !plain && r.chance(0.4);
  std::string head = alt ? " Center     Atomic     Atomic              Coordinates (Angstroms)" : " Center     Atomic      Atomic             Coordinates (Angstroms)";
  s.hdr_end = s.beg + (alt ? strlen(" Center     Atomic     Atomic") : strlen(" Center     Atomic      Atomic"));
  text(o, head);
  text(o, alt ? " Number     Number      Type              X           Y           Z" : " Number     Number       Type             X           Y           Z");
  text(o, " ---------------------------------------------------------------------");
  int i = 1;
  for (auto &a : d.atoms) {
    text(o, fmt("%7d%11d%12d    %12.6f%12.6f%12.6f", i, ELEM[a.elem].z, 0, a.x[0], a.x[1], a.x[2]));
    ++i;
  }
  s.soft = o.size() - 1;
  text(o, " ---------------------------------------------------------------------");
  s.end = o.size();
  f.sec.push_back(s);
}

static void render_overlap(FileImage &f, const std::vector<double> &S, int n, int step, Rng &r, bool plain) {
  std::string &o = f.bytes;
  Section s;
  s.kind = K_OVERLAP;
  s.step = step;
  s.beg = o.size();
  s.hdr_end = s.beg + strlen(" *** Overlap ***");
  text(o, " *** Overlap *** ");
  for (int c0 = 0; c0 < n; c0 += 5) {
    std::string h = "      ";
    for (int c = c0; c < std::min(n, c0 + 5); ++c) h += fmt("%14d", c + 1);
    text(o, h);
    for (int i = c0; i < n; ++i) {
      std::string l = fmt("%7d", i + 1);
      for (int c = c0; c < std::min(n, c0 + 5) && c <= i; ++c) {
        double v;
        l += fortranD(S[(size_t)i * n + c], 6, 14, v);
      }
      text(o, l);
    }
  }
  s.soft = o.size() - 1;
  if (plain || r.chance(0.7)) text(o, " *** Kinetic Energy ***");
  else if (r.chance(0.5)) text(o, " Leave Link  302 at Tue Jan 23 16:20:37 2018");
  else text(o, " (Enter /opt/g09/l303.exe)");
  s.end = o.size();
  f.sec.push_back(s);
}

static void render_energies(FileImage &f, const StepData &d, int spin, int step) {
  std::string &o = f.bytes;
  Section s;
  s.kind = spin ? K_EB : K_EA;
  s.step = step;
  s.beg = o.size();
  const char *occ = spin ? "  Beta  occ. eigenvalues -- " : " Alpha  occ. eigenvalues -- ";
  const char *vir = spin ? "  Beta virt. eigenvalues -- " : " Alpha virt. eigenvalues -- ";
  s.hdr_end = s.beg + strlen(occ) - 1;
  const auto &E = d.E[spin];
  int nocc = d.nocc[spin];
  for (int part = 0; part < 2; ++part) {
    int a = part ? nocc : 0, b = part ? (int)E.size() : nocc;
    for (int i = a; i < b; i += 5) {
      std::string l = part ? vir : occ;
      for (int k = i; k < std::min(b, i + 5); ++k) l += fmt("%10.5f", E[k]);
      text(o, l);
    }
  }
  s.soft = o.size() - 1;
  s.end = o.size();  // extended by the next line
  f.sec.push_back(s);
}

static void render_ao(FileImage &f, StepData &d, bool unr, int step, Rng &r) {
  std::string &o = f.bytes;
  Section s;
  s.kind = K_AO;
  s.step = step;
  s.beg = o.size();
  s.hdr_end = s.beg + strlen("     Gross orbital populations:");
  text(o, "     Gross orbital populations:");
  bool four = unr;
  d.pop.clear();
  text(o, four ? "                         Total     Alpha     Beta      Spin" : "                           1");
  int ao = 1, at = 1;
  for (auto &a : d.atoms) {
    for (int k = 0; k < a.nbf; ++k) {
      std::string l;
      if (k == 0) l = fmt("%4d %-4d%-2s %-12s", ao, at, ELEM[a.elem].sym, a.label[k].c_str());
      else l = fmt("%4d        %-12s", ao, a.label[k].c_str());
      double p = r.unit() * 2;
      std::string nums = four ? fmt("%9.5f%10.5f%10.5f%10.5f", p, p / 2, p / 2, 0.0) : fmt("%9.5f", p);
      l += nums;
      d.pop.emplace_back();
      for (size_t c = 0, w = 9; c < nums.size(); c += w, w = 10) d.pop.back().push_back(strtod(nums.substr(c, w).c_str(), nullptr));
      text(o, l);
      ++ao;
    }
    ++at;
  }
  s.soft = o.size() - 1;
  text(o, "          Condensed to atoms (all electrons):");
  s.end = o.size();
  f.sec.push_back(s);
}

static void render_log(System &sys, int role, const Sys &s, Rng r) {
  FileImage &f = sys.log[role];
  Role &R = sys.r[role];
  std::string &o = f.bytes;
  bool plain = s.get("layout") == 0;
  int fillmax = s.get("fill");
  auto fill = [&](int base) {
    int n = plain ? base : (int)r.below(1 + fillmax) + base;
    filler(o, r, n);
  };
  text(o, " Entering Gaussian System, Link 0=g09");
  fill(1);
  for (int st = 0; st < (int)R.steps.size(); ++st) {
    StepData &d = R.steps[st];
    bool last = st + 1 == (int)R.steps.size();
    if (R.has_coord) render_coord(f, d, st, r, plain);
    fill(1);
    if (R.has_olap && (last || st == 0 || r.chance(0.7) || true)) render_overlap(f, d.S, d.n, st, r, plain);
    fill(1);
    for (int sp = 0; sp < (R.unr ? 2 : 1); ++sp) {
      render_energies(f, d, sp, st);
      // the line after the table closes it
      if (sp == 0 && R.unr) continue;
    }
    if (plain || r.chance(0.6)) text(o, "     Molecular Orbital Coefficients:");
    else text(o, "          Condensed to atoms (all electrons):");
    for (auto &x : f.sec)
      if (x.step == st && (x.kind == K_EA || x.kind == K_EB)) {
        size_t e = o.find('\n', x.soft + 1);
        x.end = e == std::string::npos ? o.size() : e + 1;
      }
    fill(1);
    if (R.has_ao) render_ao(f, d, R.unr, st, r);
    fill(1);
  }
  text(o, " Normal termination of Gaussian 09 at Tue Jan 23 16:20:40 2018.");
}

static void render_pun(System &sys, int role, const Sys &s) {
  FileImage &f = sys.pun[role];
  Role &R = sys.r[role];
  std::string &o = f.bytes;
  int between = s.get("punhdr");  // 0 beta follows directly, 1 with its own format line
  for (int sp = 0; sp < (R.unr ? 2 : 1); ++sp) {
    if (sp == 0 || between) text(o, "(5D15.8)");
    Section c;
    c.kind = sp ? K_CB : K_CA;
    c.step = 0;
    c.beg = o.size();
    for (int i = 0; i < R.m; ++i) {
      double dummy;
      std::string l = fmt("%5d %s MO OE=%s", i + 1, sp ? "Beta" : "Alpha", fortranD(R.steps.back().E[sp][i], 8, 15, dummy).c_str());
      if (i == 0) c.hdr_end = o.size() + strlen("    1 ") + (sp ? 5 : 6) + 3;
      text(o, l);
      std::string row;
      for (int k = 0; k < R.n; ++k) {
        row += fortranD(R.C[sp][(size_t)i * R.n + k], 8, 15, dummy);
        if (k % 5 == 4 || k + 1 == R.n) {
          text(o, row);
          row.clear();
        }
      }
    }
    c.soft = c.end = o.size() - 1;
    f.sec.push_back(c);
  }
  if (s.get("puntail")) o += "\n";
}

static std::string stem_for(const Sys &s, int role) {
  static const char *base[4][3] = {{"dimer", "mon1", "mon2"}, {"pair_AB", "A", "B"}, {"P-6.31g", "1-6.31g", "2-6.31g"}, {"d", "dd", "ddd"}};
  static const char *dir[6] = {"", "./", "data/", "runs/pair.7/", "/abs/calc/", "../other/"};
  int p = s.get("paths");
  std::string d = dir[(p / 4) % 6];
  if (p >= 24 && p < 48) d += role == 0 ? "P/" : role == 1 ? "M1/" : "M2/";
  if (p >= 48) d += "my data/";
  if (s.get("pfx")) d += "t" + std::to_string(s.get("pfx")) + "/";
  return d + base[p % 4][role];
}

System build(const Sys &s) {
  System sys;
  uint64_t seed = (uint64_t)s.get("seed");
  Rng rg(mix(seed, 11));
  int na[2] = {std::max<int>(1, s.get("na1")), std::max<int>(1, s.get("na2"))};
  std::set<std::vector<int>> used;
  std::vector<Atom> A[2];
  for (int i = 0; i < 2; ++i) {
    Rng ra(mix(seed, 100 + i));
    A[i] = make_atoms(s, na[i], ra, used);
  }
  bool cp = s.get("cp");
  int perm = s.get("perm");
  std::vector<Atom> all = A[0];
  all.insert(all.end(), A[1].begin(), A[1].end());
  auto shuffled = [&](std::vector<Atom> v, int salt) {
    Rng q(mix(seed, 300 + salt));
    if (perm == 1)
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[q.below(i)]);
    else if (perm == 2)
      std::reverse(v.begin(), v.end());
    else if (perm == 3 && !v.empty())
      std::rotate(v.begin(), v.begin() + 1 + q.below(v.size()), v.end());
    else if (perm == 4 && v.size() > 1) {
      size_t i = q.below(v.size() - 1);
      std::swap(v[i], v[i + 1]);
    }
    return v;
  };
  std::vector<Atom> at[3];
  at[0] = shuffled(all, 0);
  at[1] = cp ? shuffled(all, 1) : A[0];
  at[2] = cp ? shuffled(all, 2) : A[1];
  bool jit = s.get("jitter"), wild = s.get("wild");
  int pop = s.get("pop"), unr = s.get("unr"), olap = s.get("olap"), drop = s.get("drop");
  static const char *stepkey[3] = {"stepsP", "steps1", "steps2"};
  for (int r = 0; r < 3; ++r) {
    Role &R = sys.r[r];
    int bit = 1 << r;
    R.n = 0;
    for (auto &a : at[r]) R.n += a.nbf;
    R.m = R.n;
    if ((drop & bit) && R.n > 3) R.m = R.n - 1 - (int)(mix(seed, 500 + r) % 2);
    R.unr = (unr & bit) != 0;
    R.has_ao = (pop & bit) != 0;
    R.has_olap = r == 0 || (olap & bit);
    int ns = std::max<int>(1, s.get(stepkey[r]));
    Rng rc(mix(seed + 7919 * (uint64_t)s.get("csalt"), 600 + r));
    double sc = 1.0 / std::sqrt((double)R.n);
    for (int sp = 0; sp < 2; ++sp) {
      R.C[sp].resize((size_t)R.m * R.n);
      for (auto &c : R.C[sp]) {
        double v = gauss(rc) * sc;
        if (rc.chance(0.05)) v = 0;
        if (rc.chance(0.05)) v *= 1e-6;
        if (wild && rc.chance(0.15)) v *= std::pow(10.0, rc.chance(0.4) ? rc.range(0, 3) : -rc.range(7, 14));  // two-digit and large exponents
        double exact;
        fortranD(v, 8, 15, exact);
        c = exact;
      }
    }
    int nocc[2];
    Rng ro(mix(seed, 700 + r));
    nocc[0] = 1 + (int)ro.below(R.m);
    nocc[1] = 1 + (int)ro.below(R.m);
    if (s.get("fullocc") && r > 0) nocc[0] = nocc[1] = R.m;
    for (int st = 0; st < ns; ++st) {
      StepData d;
      Rng rs(mix(seed, 800 + r * 10 + (ns - 1 - st)));  // the last step does not depend on the number of steps
      for (auto &a : at[r]) d.atoms.push_back(jitter(a, rs, jit));
      int m = R.m;
      d.n = R.n;
      if (int var = st + 1 < ns ? (int)s.get("stepvar") : 0) {  // an earlier step may be of another basis set or molecule
        Rng q(mix(seed, 3000 + r * 10 + (ns - 1 - st)));
        auto &at = d.atoms;
        if (var & 2) {
          if (at.size() > 1 && q.chance(0.5)) at.pop_back();
          else {
            at.push_back(at[q.below(at.size())]);
            for (double &x : at.back().x) x = llround((x + 3.25) * 1e6) / 1e6;
          }
        }
        d.n = 0;
        for (auto &a : at) {
          if ((var & 1) && q.chance(0.5)) {
            a.nbf = std::max(1, a.nbf + q.range(-2, 2));
            a.label.clear();
            for (int k = 0; k < a.nbf; ++k) a.label.push_back(k < NLABEL ? std::string(LABELS[k]) : fmt("%dS", k - NLABEL + 9));
          }
          if ((var & 4) && q.chance(0.3)) a.elem = (int)q.below(NELEM);
          d.n += a.nbf;
        }
        m = d.n;
        if (d.n > 2 && q.chance(0.3)) --m;
      }
      if (s.get("shift") && (s.get("shiftrole") & bit)) {  // one atom of this geometry was moved a little
        size_t k = (size_t)s.get("shiftatom") % d.atoms.size();
        double &x = d.atoms[k].x[s.get("shiftatom") % 3];
        x = llround((x + s.get("shift") * 1e-4) * 1e6) / 1e6;
      }
      if (st + 1 < ns) {  // an earlier geometry: displaced
        double dx = (s.get("dgeo") ? 0.0002 : 0.01) * (ns - st);
        for (size_t k = 0; k < d.atoms.size(); ++k) d.atoms[k].x[k % 3] = llround((d.atoms[k].x[k % 3] + dx * (1 + k % 4)) * 1e6) / 1e6;
        if (st % 2 == 0 && d.atoms.size() > 1) std::swap(d.atoms[0].x[0], d.atoms[1].x[0]);
      }
      for (int sp = 0; sp < 2; ++sp) {
        d.nocc[sp] = nocc[sp];
        if (st + 1 < ns && s.get("noccvar")) d.nocc[sp] = 1 + (int)rs.below(R.m);
        d.nocc[sp] = std::min(d.nocc[sp], m);
        Rng re(mix(seed + 7919 * (uint64_t)s.get("csalt"), 1000 + r * 100 + (ns - 1 - st) * 2 + sp));
        make_energies(s, m, d.nocc[sp], re, d.E[sp]);
      }
      Rng rv(mix(seed + 7919 * (uint64_t)s.get("csalt"), 2000 + r * 100 + (ns - 1 - st)));
      if (R.has_olap) {
        d.S.assign((size_t)d.n * d.n, 0);
        for (int i = 0; i < d.n; ++i)
          for (int j = 0; j <= i; ++j) {
            double v = i == j ? 1.0 : gauss(rv) * 0.3 * sc, exact;
            if (i != j && rv.chance(0.1)) v = 0;
            if (wild && i != j && rv.chance(0.1)) v *= std::pow(10.0, -rv.range(5, 14));
            if (i == j && rv.chance(0.3)) v = 0.7 + 0.5 * rv.unit();
            fortranD(v, 6, 14, exact);
            d.S[(size_t)i * d.n + j] = d.S[(size_t)j * d.n + i] = exact;
          }
      }
      R.steps.push_back(d);
    }
  }
  for (int r = 0; r < 3; ++r) {
    std::string st = stem_for(s, r);
    sys.log[r].path = st + ".log";
    sys.pun[r].path = st + ".pun";
    // stems may differ between the two files of a system when both are given
    if (s.get("given") == 63 && (s.get("stemdiff") & (1 << r))) sys.pun[r].path = st + "_orbitals.pun";
    render_log(sys, r, s, Rng(mix(seed, 900 + r * 2 + 1000 * s.get("layout"))));
    render_pun(sys, r, s);
  }
  // ---- the command line
  struct Opt {
    std::string l, sh, val;
  };
  std::vector<Opt> o;
  static const char *rn[3] = {"P", "1", "2"};
  int given = s.get("given");
  for (int r = 0; r < 3; ++r) {
    if (given & (1 << r)) o.push_back({std::string("--pun_") + rn[r], std::string("-p_") + rn[r], sys.pun[r].path});
    if (given & (8 << r)) o.push_back({std::string("--log_") + rn[r], std::string("-l_") + rn[r], sys.log[r].path});
  }
  for (int i = 0; i < 3; ++i) {
    sys.expect_path[i] = sys.pun[i].path;
    sys.expect_path[3 + i] = sys.log[i].path;
  }
  Selection sel = selection_of(s);
  int defs = s.get("defaults");
  for (int r = 0; r < 3; ++r)
    if (sel.s[r] || (defs & (1 << r))) o.push_back({std::string("--spin_") + rn[r], std::string("-s_") + rn[r], sel.s[r] ? "Beta" : "Alpha"});
  for (int r = 1; r < 3; ++r) {
    if (sel.lumo[r] || (defs & (4 << r))) o.push_back({std::string("--orbital_type_") + rn[r], std::string("-orb_ty_") + rn[r], sel.lumo[r] ? "LUMO" : "HOMO"});
    if (sel.num[r] || (defs & (16 << r))) o.push_back({std::string("--orbital_num_") + rn[r], std::string("-orb_num_") + rn[r], fmt("%d", sel.num[r])});
  }
  if (cp) o.push_back({"--counter_poise", "-cp", ""});
  if (s.get("cite")) o.push_back({"--citation", "-cite", ""});
  uint64_t os = s.get("optstyle");
  Rng q(mix(os, 5));
  if (os)
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[q.below(i)]);
  // --counter_poise must be followed by another option or end the line; -cite is
  // not an option the switch recognises as "next flag is a value", both are flags.
  sys.argv.push_back("calc_J");
  for (auto &x : o) {
    sys.argv.push_back(os && q.chance(0.5) ? x.l : x.sh);
    if (!x.val.empty()) sys.argv.push_back(x.val);
  }
  return sys;
}

Selection selection_of(const Sys &s) {
  Selection x;
  x.cp = s.get("cp");
  x.s[0] = s.get("sP");
  x.s[1] = s.get("s1");
  x.s[2] = s.get("s2");
  x.lumo[1] = s.get("lumo1");
  x.lumo[2] = s.get("lumo2");
  x.num[1] = x.lumo[1] ? s.get("num1") : -s.get("num1");
  x.num[2] = x.lumo[2] ? s.get("num2") : -s.get("num2");
  return x;
}

// ---------------------------------------------------------------- reference model
View view_of(const FileImage &f, size_t L) {
  View v;
  for (int k = 0; k < K_N; ++k) {
    v.state[k] = SS_ABSENT;
    v.step[k] = -1;
  }
  for (auto &s : f.sec) {
    if (L < s.hdr_end) continue;
    v.step[s.kind] = s.step;
    v.state[s.kind] = L >= s.end ? SS_COMPLETE : L >= s.soft ? SS_AMBIG : SS_PARTIAL;
  }
  return v;
}

static std::string k4(double x) {
  char b[40];
  double r = std::round(x * 10000) / 10000.0 + 0.0;
  if (r == 0) r = 0;
  snprintf(b, sizeof b, "%.4f", r);
  return b;
}
static std::string key4(const Atom &a) { return k4(a.x[0]) + "," + k4(a.x[1]) + "," + k4(a.x[2]); }

Report evaluate(const Slot log[3], const Slot pun[3], const Selection &sel, bool in_order) {
  Report R;
  const char *nm[3] = {"dimer", "monomer 1", "monomer 2"};
  View lv[3], pv[3];
  const Role *lr[3], *pr[3];
  auto fail = [&](const std::string &w) {
    R.ok = false;
    R.why = w;
    return R;
  };
  for (int i = 0; i < 3; ++i) {
    if (!log[i].sys || !pun[i].sys) return fail(std::string("file missing for ") + nm[i]);
    if (!log[i].is_log || pun[i].is_log) return fail("wrong kind of file");
    lv[i] = view_of(log[i].sys->log[log[i].role], log[i].visible);
    pv[i] = view_of(pun[i].sys->pun[pun[i].role], pun[i].visible);
    lr[i] = &log[i].sys->r[log[i].role];
    pr[i] = &pun[i].sys->r[pun[i].role];
  }
  bool may_fail = false;
  auto need = [&](const View &v, int k, const std::string &who) -> bool {
    if (v.state[k] == SS_ABSENT || v.state[k] == SS_PARTIAL) {
      R.why = who + " " + kind_name[k] + (v.state[k] == SS_ABSENT ? " missing" : " incomplete");
      return false;
    }
    if (v.state[k] == SS_AMBIG) may_fail = true;
    return true;
  };
  for (int i = 0; i < 3; ++i) {
    if (!need(lv[i], sel.s[i] ? K_EB : K_EA, nm[i])) return R;
    if (!need(pv[i], sel.s[i] ? K_CB : K_CA, nm[i])) return R;
  }
  if (!need(lv[0], K_OVERLAP, nm[0])) return R;
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < K_N; ++k) {
      if (lv[i].state[k] == SS_PARTIAL || lv[i].state[k] == SS_AMBIG) may_fail = true;
      if (pv[i].state[k] == SS_PARTIAL || pv[i].state[k] == SS_AMBIG) may_fail = true;
    }
  // the number of orbitals a log and its pun file know about must agree
  int m[3], n[3];
  for (int i = 0; i < 3; ++i) {
    n[i] = pr[i]->n;
    m[i] = pr[i]->m;
    int sp = sel.s[i];
    const StepData &d = lr[i]->steps[lv[i].step[sp ? K_EB : K_EA]];
    if ((int)d.E[sp].size() != m[i]) return fail(fmt("%s: %d energies, %d orbitals", nm[i], (int)d.E[sp].size(), m[i]));
  }
  const StepData &dS = lr[0]->steps[lv[0].step[K_OVERLAP]];
  if (dS.n != n[0]) return fail("overlap size differs from the dimer orbitals");
  if (sel.cp) {
    if (n[1] != n[0] || n[2] != n[0]) return fail("counterpoise sizes differ");
  } else if (n[1] + n[2] != n[0])
    return fail("monomer sizes do not add up to the dimer");

  // orbital choice
  int row[3] = {0, 0, 0};
  for (int i = 1; i < 3; ++i) {
    int sp = sel.s[i];
    const StepData &d = lr[i]->steps[lv[i].step[sp ? K_EB : K_EA]];
    int homo = d.nocc[sp];
    if (!sel.lumo[i]) {
      if (sel.num[i] > 0) return fail("positive number with HOMO");
      row[i] = homo + sel.num[i];
      if (row[i] < 1) return fail("no such HOMO");
    } else {
      if (sel.num[i] < 0) return fail("negative number with LUMO");
      row[i] = homo + 1 + sel.num[i];
      if (row[i] > m[i]) return fail("no such LUMO");
    }
  }
  // where every basis function of the monomers sits in the dimer
  bool ao = !in_order;
  for (int i = 0; i < 3; ++i)
    if (lv[i].state[K_AO] == SS_ABSENT) ao = false;
    else if (lv[i].state[K_AO] == SS_PARTIAL) return fail(std::string(nm[i]) + " population table incomplete");
  std::vector<int> pos[3];
  for (int i = 1; i < 3; ++i) pos[i].resize(n[i]);
  if (!ao) {
    for (int i = 1; i < 3; ++i)
      for (int k = 0; k < n[i]; ++k) pos[i][k] = (i == 2 && !sel.cp) ? n[1] + k : k;
    R.unscrambled = false;
    for (int i = 0; i < 3; ++i)
      if (lv[i].state[K_COORD] != SS_COMPLETE) may_fail = true;
  } else {
    for (int i = 0; i < 3; ++i)
      if (!need(lv[i], K_COORD, nm[i])) return R;
    R.unscrambled = true;
    // offsets
    std::vector<int> off[3];
    std::vector<int> nbf[3];
    const std::vector<Atom> *xyz[3];
    for (int i = 0; i < 3; ++i) {
      const auto &pa = lr[i]->steps[lv[i].step[K_AO]].atoms;
      xyz[i] = &lr[i]->steps[lv[i].step[K_COORD]].atoms;
      int t = 0;
      for (auto &a : pa) {
        off[i].push_back(t);
        nbf[i].push_back(a.nbf);
        t += a.nbf;
      }
      if (t != n[i]) return fail(std::string(nm[i]) + " population table does not account for its basis functions");
      if (pa.size() != xyz[i]->size()) return fail(std::string(nm[i]) + " population and coordinate tables differ");
    }
    std::map<std::string, int> where;
    std::set<int> taken;
    for (size_t k = 0; k < xyz[0]->size(); ++k) {
      if (!where.insert({key4((*xyz[0])[k]), (int)k}).second) return fail("two dimer atoms coincide");
    }
    for (int i = 1; i < 3; ++i) {
      if (sel.cp) taken.clear();
      for (size_t k = 0; k < xyz[i]->size(); ++k) {
        auto it = where.find(key4((*xyz[i])[k]));
        if (it == where.end()) return fail(fmt("%s atom %d not in the dimer", nm[i], (int)k + 1));
        if (!taken.insert(it->second).second) return fail(fmt("%s atom %d matched twice", nm[i], (int)k + 1));
        if (nbf[i][k] != nbf[0][it->second]) return fail(fmt("%s atom %d has another basis in the dimer", nm[i], (int)k + 1));
        for (int b = 0; b < nbf[i][k]; ++b) pos[i][off[i][k] + b] = off[0][it->second] + b;
      }
      if (sel.cp && taken.size() != xyz[0]->size()) return fail("counterpoise atoms do not cover the dimer");
    }
    if (!sel.cp && taken.size() != xyz[0]->size()) return fail("monomer atoms do not cover the dimer");
  }
  // projection, in long double
  int N = n[0], M = m[0];
  int sp0 = sel.s[0];
  const auto &C = pr[0]->C[sp0];
  const auto &E = lr[0]->steps[lv[0].step[sp0 ? K_EB : K_EA]].E[sp0];
  std::vector<long double> g[3], ga[3];
  for (int i = 1; i < 3; ++i) {
    std::vector<long double> v(N, 0), w(N, 0), wa(N, 0);
    for (int k = 0; k < n[i]; ++k) v[pos[i][k]] += pr[i]->C[sel.s[i]][(size_t)(row[i] - 1) * n[i] + k];
    for (int a = 0; a < N; ++a)
      for (int b = 0; b < N; ++b) {
        long double t = (long double)dS.S[(size_t)a * N + b] * v[b];
        w[a] += t;
        wa[a] += fabsl(t);
      }
    g[i].assign(M, 0);
    ga[i].assign(M, 0);
    for (int k = 0; k < M; ++k)
      for (int a = 0; a < N; ++a) {
        g[i][k] += (long double)C[(size_t)k * N + a] * w[a];
        ga[i][k] += fabsl((long double)C[(size_t)k * N + a]) * wa[a];
      }
  }
  long double J = 0, ea = 0, eb = 0, S = 0, Ja = 0, eaa = 0, eba = 0, Sa = 0;
  for (int k = 0; k < M; ++k) {
    J += g[2][k] * E[k] * g[1][k];
    ea += g[1][k] * E[k] * g[1][k];
    eb += g[2][k] * E[k] * g[2][k];
    S += g[2][k] * g[1][k];
    long double e = fabsl(E[k]);
    Ja += ga[2][k] * e * ga[1][k];
    eaa += ga[1][k] * e * ga[1][k];
    eba += ga[2][k] * e * ga[2][k];
    Sa += ga[2][k] * ga[1][k];
  }
  const long double H = 27.2114L;
  long double den = 1 - S * S;
  long double Jeff = (J - (ea + eb) * S / 2) / den;
  R.val[0] = (double)(J * H);
  R.val[1] = (double)(ea * H);
  R.val[2] = (double)(eb * H);
  R.val[3] = (double)S;
  R.val[4] = (double)(Jeff * H);
  const double c = 1e-12;  // rounding of the double computation, generously
  R.tol[0] = c * (double)(Ja * H);
  R.tol[1] = c * (double)(eaa * H);
  R.tol[2] = c * (double)(eba * H);
  R.tol[3] = c * (double)Sa;
  double dd = std::fabs((double)den);
  if (dd < 1e-9) dd = 1e-9;
  R.tol[4] = c * (double)((Ja + (eaa + eba) * (Sa + 1)) * H) / dd + std::fabs(R.val[4]) * 2 * c * (double)(Sa * fabsl(S)) / dd;
  for (int i = 0; i < 5; ++i) R.tol[i] += 6e-6 * std::fabs(R.val[i]) + 1e-300;
  static const char *spn[2] = {"Alpha", "Beta"};
  R.line[0] = std::string("Dimer     Spin ") + spn[sel.s[0]];
  for (int i = 1; i < 3; ++i) {
    R.line[i] = fmt("Monomer %d Spin %s Orbital %s", i, spn[sel.s[i]], sel.lumo[i] ? "LUMO" : "HOMO");
    if (sel.num[i]) R.line[i] += fmt("%+d", sel.num[i]);
  }
  R.ok = true;
  R.may_fail = may_fail;
  return R;
}

Report evaluate_full(const System &s, const Selection &sel, bool in_order) {
  Slot l[3], p[3];
  for (int i = 0; i < 3; ++i) {
    l[i].sys = p[i].sys = &s;
    l[i].role = p[i].role = i;
    p[i].is_log = false;
  }
  Report r = evaluate(l, p, sel, in_order);
  for (int i = 0; i < 6; ++i) r.path[i] = s.expect_path[i];
  return r;
}

// ---------------------------------------------------------------- reading the report
static const char *LABEL[5] = {"J_ab", "e_a", "e_b", "S_ab", "J_eff"};
const char *path_label[6] = {"pun file for the dimer is:", "pun file for the first monomer is:", "pun file for the second monomer is:", "log file for dimer is:", "log file for first monomer is:", "log file for second monomer is:"};

bool Printed::line(const std::string &s) const { return std::find(lines.begin(), lines.end(), s) != lines.end(); }

static std::string rtrim(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == '\r' || s.back() == '\t')) s.pop_back();
  return s;
}
static std::string ltrim(const std::string &s) {
  size_t i = 0;
  while (i < s.size() && s[i] == ' ') ++i;
  return s.substr(i);
}

Printed parse_report(const std::string &out) {
  Printed p;
  size_t i = 0;
  while (i < out.size()) {
    size_t j = out.find('\n', i);
    bool whole = j != std::string::npos;
    if (!whole) j = out.size();
    std::string l = rtrim(out.substr(i, j - i));
    i = j + 1;
    p.lines.push_back(l);
    if (!whole) continue;  // a cut line is not a printed value
    for (int k = 0; k < 5; ++k) {
      size_t n = strlen(LABEL[k]);
      if (l.compare(0, n, LABEL[k]) == 0 && n < l.size() && (l[n] == ' ' || l[n] == '=' || l[n] == ':')) {
        size_t q = n;
        while (q < l.size() && (l[q] == ' ' || l[q] == '=' || l[q] == ':')) ++q;
        char *e;
        double v = strtod(l.c_str() + q, &e);
        if (e == l.c_str() + q) v = NAN;
        p.has[k] = true;
        ++p.count[k];
        p.val[k] = v;
      }
    }
  }
  p.nlines = (int)p.lines.size();
  return p;
}

bool same_report(const Report &want, const std::string &out, std::string &why, bool check_paths) {
  Printed p = parse_report(out);
  for (int k = 0; k < 5; ++k) {
    if (!p.has[k]) {
      why = std::string(LABEL[k]) + " is not printed";
      return false;
    }
    if (p.count[k] != 1) {
      why = std::string(LABEL[k]) + " is printed more than once";
      return false;
    }
    double d = std::fabs(p.val[k] - want.val[k]);
    if (!(d <= want.tol[k])) {
      why = fmt("%s printed %.9g, reference %.9g", LABEL[k], p.val[k], want.val[k]);
      return false;
    }
  }
  for (int i = 0; i < 3; ++i)
    if (!p.line(want.line[i])) {
      why = "line '" + want.line[i] + "' is not printed";
      return false;
    }
  if (check_paths)
    for (int i = 0; i < 6; ++i) {
      int found = 0;
      for (auto &l : p.lines)
        if (l.compare(0, strlen(path_label[i]), path_label[i]) == 0) {
          ++found;
          if (ltrim(l.substr(strlen(path_label[i]))) != want.path[i]) {
            why = std::string(path_label[i]) + " printed '" + l + "', expected " + want.path[i];
            return false;
          }
        }
      if (found != 1) {
        why = std::string("line '") + path_label[i] + "' appears " + fmt("%d", found) + " times";
        return false;
      }
    }
  return true;
}

// ---------------------------------------------------------------- random valid configurations
Sys random_sys(Rng &r, int size_class) {
  Sys s;
  s["seed"] = (long long)(r.next() & 0x7fffffffffffLL);
  int c = size_class >= 0 ? size_class : (int)r.below(10);
  // swarm: sizes from one orbital to files larger than any stream buffer
  if (c <= 1) {
    s["na1"] = r.range(1, 2);
    s["na2"] = r.range(1, 2);
    s["bmin"] = 1;
    s["bmax"] = r.range(1, 3);
  } else if (c <= 5) {
    s["na1"] = r.range(1, 5);
    s["na2"] = r.range(1, 5);
    s["bmin"] = r.range(1, 2);
    s["bmax"] = r.range(2, 5);
  } else if (c <= 8) {
    s["na1"] = r.range(2, 10);
    s["na2"] = r.range(1, 10);
    s["bmin"] = 1;
    s["bmax"] = r.range(1, 5);
  } else {
    s["na1"] = r.range(2, 14);
    s["na2"] = r.range(2, 14);
    s["bmin"] = 1;
    s["bmax"] = r.range(2, 9);
  }
  // keep the dimer below ~70 basis functions, except for a few with three-digit numbers
  int limit = 66;
  if (size_class < 0 && r.chance(0.006)) {
    s["na1"] = r.range(4, 60);
    s["na2"] = r.range(4, 60);
    s["bmin"] = 1;
    s["bmax"] = r.range(1, 9);
    limit = 140;
  }
  while ((s["na1"] + s["na2"]) * (s["bmin"] + s["bmax"]) / 2 > limit) {
    if (s["bmax"] > s["bmin"] + 1) --s["bmax"];
    else if (s["na1"] > 2) --s["na1"];
    else --s["na2"];
  }
  s["cp"] = r.chance(0.3);
  s["perm"] = r.chance(0.25) ? 0 : r.chance(0.6) ? 1 : r.range(2, 4);
  s["pop"] = r.chance(0.8) ? 7 : (int)r.below(8);
  s["geo"] = r.chance(0.4) ? 0 : r.range(1, 3);
  s["jitter"] = r.chance(0.6);
  s["glue"] = r.chance(0.35);
  s["unr"] = r.chance(0.5) ? 0 : r.chance(0.5) ? 7 : (int)r.below(8);
  s["sP"] = (s["unr"] & 1) && r.chance(0.5);
  s["s1"] = (s["unr"] & 2) && r.chance(0.5);
  s["s2"] = (s["unr"] & 4) && r.chance(0.5);
  s["drop"] = r.chance(0.8) ? 0 : (int)r.below(8);
  s["olap"] = (int)r.below(4) * 2;
  s["layout"] = r.chance(0.3) ? 0 : (long long)r.range(1, 1000000);
  s["fill"] = r.chance(0.2) ? r.range(20, 120) : r.range(0, 6);
  s["punhdr"] = r.chance(0.5);
  s["puntail"] = r.chance(0.15);
  s["stepsP"] = r.chance(0.75) ? 1 : r.range(2, 3);
  s["steps1"] = r.chance(0.75) ? 1 : r.range(2, 3);
  s["steps2"] = r.chance(0.75) ? 1 : r.range(2, 3);
  s["stepvar"] = r.chance(0.6) ? 0 : r.range(1, 7);
  s["noccvar"] = r.chance(0.5);
  s["wild"] = r.chance(0.3);
  s["dgeo"] = r.chance(0.4);
  s["fullocc"] = r.chance(0.05);
  s["optstyle"] = r.chance(0.3) ? 0 : (long long)r.range(1, 1000000);
  s["defaults"] = r.chance(0.6) ? 0 : (long long)r.below(128);
  s["cite"] = r.chance(0.06);
  s["given"] = r.chance(0.5) ? 63 : 0;
  if (!s["given"]) {
    // at least one file of each system
    int g = 0;
    for (int i = 0; i < 3; ++i) {
      int k = r.range(1, 3);
      if (k & 1) g |= 1 << i;
      if (k & 2) g |= 8 << i;
    }
    s["given"] = g;
  }
  s["stemdiff"] = r.chance(0.7) ? 0 : (long long)r.below(8);
  s["paths"] = r.chance(0.3) ? 0 : (long long)r.below(48);
  // choose orbitals that exist
  System sys = build(s);
  for (int i = 1; i < 3; ++i) {
    const StepData &d = sys.r[i].steps.back();
    int sp = s.get(i == 1 ? "s1" : "s2");
    int occ = d.nocc[sp], vir = (int)d.E[sp].size() - occ;
    bool lumo = vir > 0 && r.chance(0.5);
    int lim = lumo ? vir : occ;
    int num = r.chance(0.5) ? 0 : r.chance(0.4) ? lim - 1 : (int)r.below(lim);
    s[i == 1 ? "lumo1" : "lumo2"] = lumo;
    s[i == 1 ? "num1" : "num2"] = num;
  }
  // stay away from the singularity of the formula (|S_ab| = 1)
  for (int t = 0; t < 20; ++t) {
    System q = build(s);
    Report e = evaluate_full(q, selection_of(s));
    if (e.ok && std::fabs(1 - e.val[3] * e.val[3]) > 1e-2) break;
    if (!e.ok) break;
    s["seed"] = (s["seed"] * 31 + 17) & 0x7fffffffffffLL;
    // the number of occupied orbitals changes with the seed: fall back to the frontier
    s["num1"] = s["num2"] = 0;
    System q2 = build(s);
    for (int i = 1; i < 3; ++i) {
      const StepData &d = q2.r[i].steps.back();
      int sp = s.get(i == 1 ? "s1" : "s2");
      if ((int)d.E[sp].size() == d.nocc[sp]) s[i == 1 ? "lumo1" : "lumo2"] = 0;
    }
  }
  return s;
}
size_t pick_cut(const FileImage &f, Rng &r) {
  size_t n = f.bytes.size();
  if (n == 0) return 0;
  double d = r.unit();
  if (d < 0.06) return 0;
  if (d < 0.12) return n - 1;
  if (d < 0.25 || f.sec.empty()) return r.below(n);
  size_t si = r.below(f.sec.size());
  if (r.chance(0.3)) si = std::max(si, (size_t)r.below(f.sec.size()));
  const Section &s = f.sec[si];
  size_t lo = s.beg, hi = std::min(s.end, n);
  if (hi <= lo) return lo;
  d = r.unit();
  if (d < 0.2) return lo + r.below(hi - lo);
  size_t anchor;
  if (d < 0.35) anchor = s.hdr_end;
  else if (d < 0.5) anchor = s.soft;
  else if (d < 0.6) anchor = s.end;
  else if (d < 0.78) {  // where a line is followed by a shorter one, a block of the table ends there
    std::vector<size_t> at;
    size_t last = 0;
    for (size_t q = f.bytes.rfind('\n', lo) + 1; q < hi;) {
      size_t e = f.bytes.find('\n', q);
      if (e == std::string::npos) break;
      if (q > lo && e - q < last) at.push_back(q);
      last = e - q;
      q = e + 1;
    }
    if (!at.empty()) return at[r.below(at.size())];
    anchor = s.soft;
  }
  else {  // near an end of line
    size_t q = lo + r.below(hi - lo);
    size_t e = f.bytes.find('\n', q);
    anchor = e == std::string::npos ? q : e;
  }
  long long off = (long long)anchor + r.range(-3, 3);
  if (off < 0) off = 0;
  if (off > (long long)n) off = n;
  return (size_t)off;
}
}  // namespace sim
