// What a simulated input set looks like: generated systems, the bytes of their
// six files together with a map of the tables inside, and the reference model.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "rt.h"

namespace sim {

// ---- the small integers a system is generated from (all text-serialisable and shrinkable)
struct Sys {
  std::map<std::string, long long> v;
  long long get(const char *k) const {
    auto it = v.find(k);
    return it == v.end() ? 0 : it->second;
  }
  long long &operator[](const char *k) { return v[k]; }
};

enum Kind { K_COORD, K_OVERLAP, K_EA, K_EB, K_AO, K_CA, K_CB, K_N };
extern const char *kind_name[K_N];

struct Section {
  int kind = 0;
  int step = 0;
  size_t beg = 0, hdr_end = 0, soft = 0, end = 0;
};

struct FileImage {
  std::string path;   // as written on the command line
  std::string bytes;
  std::vector<Section> sec;
};

struct Atom {
  int elem = 0;  // index in the element table
  double x[3];   // as printed
  int nbf = 0;
  std::vector<std::string> label;
};

const char *element(int i);

struct StepData {          // what one log step holds
  int n = 0;               // basis functions
  std::vector<Atom> atoms;
  std::vector<double> S;   // n*n
  std::vector<double> E[2];
  int nocc[2] = {0, 0};
  std::vector<std::vector<double>> pop;  // populations, by basis function
};

struct Role {  // dimer or a monomer
  int n = 0, m = 0;
  bool unr = false;
  bool has_ao = true, has_olap = true, has_coord = true;
  std::vector<StepData> steps;
  std::vector<double> C[2];  // m*n
};

struct System {
  Role r[3];                // 0 dimer, 1, 2
  FileImage log[3], pun[3];
  std::vector<std::string> argv;
  std::string expect_path[6];  // punP pun1 pun2 logP log1 log2 as calc_J should report them
};

System build(const Sys &s);
size_t pick_cut(const FileImage &f, Rng &r);  // a place to cut a file, biased to the borders of its tables
Sys random_sys(Rng &r, int size_class);  // a valid random configuration

// ---- reference model
enum SecState { SS_ABSENT, SS_PARTIAL, SS_COMPLETE, SS_AMBIG };
struct View {
  int state[K_N];
  int step[K_N];
};
View view_of(const FileImage &f, size_t visible);

struct Report {
  bool ok = false;        // false: must fail
  bool may_fail = false;  // the report is right, but failing is acceptable as well
  std::string why;
  bool unscrambled = false;
  double val[5];  // J_ab e_a e_b S_ab J_eff, printed units
  double tol[5];
  std::string line[3];  // Dimer / Monomer 1 / Monomer 2
  std::string path[6];
};
struct Selection {
  int cp = 0, s[3] = {0, 0, 0}, lumo[3] = {0, 0, 0}, num[3] = {0, 0, 0};
};
Selection selection_of(const Sys &s);

// log[i]/pun[i] : which system and role the bytes of slot i came from, and how much is visible
struct Slot {
  const System *sys = nullptr;
  int role = 0;
  bool is_log = true;
  size_t visible = ~(size_t)0;
};
// in_order: the functions of the monomers are taken in the order given, as if
// there were no population tables
Report evaluate(const Slot log[3], const Slot pun[3], const Selection &sel, bool in_order = false);
Report evaluate_full(const System &s, const Selection &sel, bool in_order = false);

// ---- reading calc_J's report
struct Printed {
  bool has[5] = {false, false, false, false, false};
  int count[5] = {0, 0, 0, 0, 0};
  double val[5];
  int nlines = 0;
  std::vector<std::string> lines;
  bool line(const std::string &s) const;
};
Printed parse_report(const std::string &out);
bool same_report(const Report &want, const std::string &out, std::string &why, bool check_paths);
extern const char *path_label[6];

uint64_t hash_str(const std::string &s);
}  // namespace sim
