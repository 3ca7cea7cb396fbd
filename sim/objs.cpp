// Workloads that use the library's value and option objects over and over: the
// matrices (C17) and the option parser (C18).  A history of calls with
// allocation failures runs inside one simulated process, in part on two
// preemptively scheduled threads; the model is kept beside it.
#include "scen.h"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <type_traits>

#include "libcatnip/io/argumentparser.hpp"
#include "libcatnip/io/arguments/argumentstring.hpp"
#include "libcatnip/io/arguments/properties/propertyfileext.hpp"
#include "libcatnip/io/arguments/properties/propertystring.hpp"
#include "libcatnip/io/arguments/properties/propertystringchoice.hpp"
#include "libcatnip/matrix.hpp"

namespace sim {

using namespace catnip;

static void violate(Verdict &v, const std::string &cls, const std::string &msg) {
  if (v.violation) return;
  v.violation = true;
  v.cls = cls;
  v.msg = msg;
}
static const Scenario *g_sc;
static void viol(const std::string &cls, const std::string &msg) { extra_note("VIOL " + cls + " " + msg); }
static void probe(const std::string &p) { extra_note("PROBE " + p); }
static bool g_alone;

// the token "alloc" and a number at the end of an operation: that allocation
// of the call fails
static uint64_t alloc_of(const Tokens &op) {
  if (!g_alone || op.size() < 3 || op[op.size() - 2] != "alloc") return 0;
  return std::max(1LL, to_ll(op.back()));
}
template <class F>
static int call(uint64_t alloc, std::string &what, F f) {  // 0 returned, 1 threw, 2 out of memory as injected
  uint64_t fired = fired_count(OP_ALLOC);
  if (alloc) {
    Fault x;
    x.op = OP_ALLOC;
    x.nth = alloc;
    x.err = 12;
    add_fault_relative(x);
  }
  int r = 0;
  try {
    f();
  } catch (const std::bad_alloc &) {
    r = 2;
  } catch (const std::exception &e) {
    clear_faults();
    r = 1;
    what = e.what();
  }
  clear_faults();
  if (fired_count(OP_ALLOC) > fired) probe(r == 2 ? "out-of-memory" : r == 1 ? "refused-without-memory" : "survived-without-memory");
  if (r == 2 && fired_count(OP_ALLOC) == fired) {
    r = 1;
    what = "bad_alloc with memory at hand";
  }
  if (r == 1 && fired_count(OP_ALLOC) > fired) r = 2;  // it may give another reason
  return r;
}

// ---------------------------------------------------------------- C17
struct Model {
  int r = 0, c = 0, s = 1;
  std::vector<double> v;
  Model() {}
  Model(int R, int C, int S = 1) : r(R), c(C), s(S), v((size_t)R * C * S, 0.0) {}
  double &at(int i, int j, int k = 0) { return v[((size_t)i * c + j) * s + k]; }
  double at(int i, int j, int k = 0) const { return v[((size_t)i * c + j) * s + k]; }
  bool flat() const { return s == 1; }
};
static bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static std::string dims(int r, int c, int s) { return strf("%dx%dx%d", r, c, s); }
// value number t of the workload: distinct, both signs, some small integers
static double value(long long t) {
  Rng q((uint64_t)t * 7919 + 13);
  double d = q.unit();
  if (d < 0.3) return (double)q.range(-9, 9);
  if (d < 0.35) return 0.0;
  if (d < 0.4) return (q.unit() - 0.5) * 1e-9;
  if (d < 0.45) return (q.unit() - 0.5) * 1e12;
  return (q.unit() - 0.5) * 20;
}
// coarse values for matching: few, clearly different or equal
static double coarse(long long t) {
  Rng q((uint64_t)t * 104729 + 5);
  double d = (double)q.range(-2, 2) * 1.5, k = q.unit();
  return k < 0.85 ? d : k < 0.92 ? d + 0.002 : k < 0.96 ? d + 0.0003 : d + 0.04;  // equal with few digits only
}
static std::string unlike(const Matrix &m, const Model &x, double tol = 0) {
  if (m.get_rows() != x.r || m.get_cols() != x.c || m.get_shel() != x.s)
    return "is " + dims(m.get_rows(), m.get_cols(), m.get_shel()) + ", not " + dims(x.r, x.c, x.s);
  for (int i = 0; i < x.r; ++i)
    for (int j = 0; j < x.c; ++j)
      for (int k = 0; k < x.s; ++k) {
        double a = m.get_elem(i + 1, j + 1, k + 1), b = x.at(i, j, k);
        if (tol ? !(std::fabs(a - b) <= tol) : !(a == b)) return strf("has %.17g at %d,%d,%d, not %.17g", a, i + 1, j + 1, k + 1, b);
      }
  return "";
}
static std::vector<Matrix *> g_shared;  // read by all threads, written by none
static std::vector<Model> g_smod;

static int c17_main(int argc, const char **argv) {
  int me = argc > 1 ? atoi(argv[1]) : 0, n = 0;
  const int NS = 4, BIG = 40;
  std::unique_ptr<Matrix> a[NS];
  Model mod[NS];
  bool kept[NS] = {};  // products: not ours to delete
  for (auto &op : g_sc->ops) {
    ++n;
    if (op.size() < 3 || to_ll(op[0]) != me) continue;
    const std::string &w = op[1];
    std::vector<long long> x;
    for (size_t i = 2; i < op.size() && op[i] != "alloc"; ++i) x.push_back(to_ll(op[i]));
    x.resize(8);
    uint64_t al = alloc_of(op);
    std::string where = "step " + std::to_string(n) + " " + w + ": ", what;
    // slots: 0..3 this thread's own, 4.. shared
    auto src = [&](long long s) -> Matrix * {
      s = s < 0 ? 0 : s;
      if (s < NS) return a[s].get();
      return s - NS < (long long)g_shared.size() ? g_shared[s - NS] : nullptr;
    };
    auto smod = [&](long long s) -> Model & { return s < 0 ? mod[0] : s < NS ? mod[s] : g_smod[s - NS]; };
    long long d = x[0] < 0 ? 0 : x[0] % NS;
    int rc = -1;
    Matrix *made = nullptr;
    bool held = false;
    Model want = mod[d];  // what the destination holds afterwards
    bool creates = false, must_throw = false;
    double tol = 0;
    auto lim = [](long long v, int hi) { return (int)(v < 1 ? 1 : v > hi ? hi : v); };
    if (w == "new") {  // new D kind r c s t
      creates = true;
      int k = (int)(x[1] % 7), r = lim(x[2], BIG), c = lim(x[3], BIG), s = lim(x[4], 5);
      std::vector<double> v;
      std::vector<int> vi;
      std::vector<std::vector<double>> vv;
      if (k == 0) want = Model(1, 1);
      if (k == 1) want = Model(r, 1);
      if (k == 2) want = Model(r, c);
      if (k == 3) want = Model(r, c, s);
      if (k == 4) want = Model(r, 1);
      if (k == 5) want = Model(r, 1);
      if (k == 6) want = Model(r, c);
      if (k == 4)
        for (int i = 0; i < r; ++i) v.push_back(want.at(i, 0) = value(x[5] + i));
      if (k == 5)
        for (int i = 0; i < r; ++i) {
          vi.push_back((int)((x[5] + i * 7) % 100 - 50));
          want.at(i, 0) = vi.back();
        }
      if (k == 6)
        for (int i = 0; i < r; ++i) {
          vv.push_back({});
          for (int j = 0; j < c; ++j) vv.back().push_back(want.at(i, j) = value(x[5] + i * c + j));
        }
      if (k == 6 && x[6] && r > 1) {  // a row of another length
        int q = 1 + (int)((x[6] - 1) % (r - 1));
        if (x[6] % 2 || c == 1) vv[q].push_back(1);
        else vv[q].pop_back();
        must_throw = true;
      }
      rc = call(al, what, [&] {
        made = k == 0 ? new Matrix() : k == 1 ? new Matrix(r) : k == 2 ? new Matrix(r, c) : k == 3 ? new Matrix(r, c, s) : k == 4 ? new Matrix(v) : k == 5 ? new Matrix(vi) : new Matrix(vv);
      });
    } else if (w == "copy" || w == "copyf" || w == "transpose" || w == "diag" || w == "row" || w == "col") {  // D S [i]
      Matrix *s = src(x[1]);
      if (!s) continue;
      const Model &q = smod(x[1]);
      creates = true;
      int i = (int)(x[2] < 0 ? 0 : x[2]);
      if (w == "copy" || w == "copyf") {
        want = q;
        rc = call(al, what, [&] { made = w == "copy" ? new Matrix(*s) : new Matrix(Matrix_copy(*s)); });
      } else if (w == "transpose") {
        if (!q.flat()) continue;
        want = Model(q.c, q.r);
        for (int j = 0; j < q.r; ++j)
          for (int k = 0; k < q.c; ++k) want.at(k, j) = q.at(j, k);
        rc = call(al, what, [&] { made = new Matrix(s->invert()); });
      } else if (w == "diag") {
        if (!q.flat()) continue;
        if (q.r > 1 && q.c > 1) must_throw = true;
        else {
          int len = std::max(q.r, q.c);
          want = Model(len, len);
          for (int j = 0; j < len; ++j) want.at(j, j) = q.v[j];
        }
        rc = call(al, what, [&] { made = new Matrix(Matrix_diag(*s)); });
      } else if (w == "row") {
        i %= q.r;
        want = Model(1, q.c, q.s);
        for (int j = 0; j < q.c; ++j)
          for (int k = 0; k < q.s; ++k) want.at(0, j, k) = q.at(i, j, k);
        rc = call(al, what, [&] { made = new Matrix(s->getRow(i + 1)); });
      } else {
        i %= q.c;
        want = Model(q.r, 1, q.s);
        for (int j = 0; j < q.r; ++j)
          for (int k = 0; k < q.s; ++k) want.at(j, 0, k) = q.at(j, i, k);
        rc = call(al, what, [&] { made = new Matrix(s->getCol(i + 1)); });
      }
    } else if (w == "mult" || w == "below" || w == "beside") {  // D S T
      Matrix *s = src(x[1]), *t = src(x[2]);
      if (!s || !t) continue;
      const Model &p = smod(x[1]), &q = smod(x[2]);
      creates = true;
      if (w == "mult") {
        if (!p.flat() || !q.flat() || p.c != q.r) continue;
        want = Model(p.r, q.c);
        double big = 0;
        for (int i = 0; i < p.r; ++i)
          for (int j = 0; j < q.c; ++j) {
            long double sum = 0;
            double abs = 0;
            for (int k = 0; k < p.c; ++k) {
              sum += (long double)p.at(i, k) * q.at(k, j);
              abs += std::fabs(p.at(i, k) * q.at(k, j));
            }
            want.at(i, j) = (double)sum;
            big = std::max(big, abs);
          }
        tol = big * 1e-13 + 1e-300;
        rc = call(al, what, [&] {
          auto &&p = (*s) * (*t);  // a reference today: the caller keeps it
          if (std::is_lvalue_reference<decltype((*s) * (*t))>::value) made = &p, held = true;
          else made = new Matrix(p);
        });
      } else if (w == "below") {
        if (p.c != q.c || p.s != q.s) continue;
        want = Model(p.r + q.r, p.c, p.s);
        if (want.r > BIG + 9) continue;
        std::copy(p.v.begin(), p.v.end(), want.v.begin());
        std::copy(q.v.begin(), q.v.end(), want.v.begin() + p.v.size());
        rc = call(al, what, [&] { made = new Matrix(Matrix_concatenate_rows(*s, *t)); });
      } else {
        if (p.r != q.r || p.s != q.s) continue;
        want = Model(p.r, p.c + q.c, p.s);
        if (want.c > BIG + 9) continue;
        for (int i = 0; i < p.r; ++i)
          for (int k = 0; k < p.s; ++k) {
            for (int j = 0; j < p.c; ++j) want.at(i, j, k) = p.at(i, j, k);
            for (int j = 0; j < q.c; ++j) want.at(i, p.c + j, k) = q.at(i, j, k);
          }
        rc = call(al, what, [&] { made = new Matrix(Matrix_concatenate_cols(*s, *t)); });
      }
    } else if (w == "match") {  // - S T byrows
      Matrix *s = src(x[1]), *t = src(x[2]);
      if (!s || !t) continue;
      const Model &p = smod(x[1]), &q = smod(x[2]);
      if (!p.flat() || !q.flat()) continue;
      bool rows = x[3] % 2 == 0;
      int digits = x[4] < 1 ? 3 : (int)std::min(4LL, x[4]);
      double unit = std::pow(10, digits);
      must_throw = rows ? p.c != q.c : p.r != q.r;
      std::vector<int> got;
      rc = call(al, what, [&] { got = rows ? s->matchRow(*t, digits) : s->matchCol(*t, digits); });
      if (rc == 0 && !must_throw) {
        int np = rows ? p.r : p.c, nq = rows ? q.r : q.c, len = rows ? p.c : p.r;
        bool clear = true;  // only values that round in one way
        for (auto *m : {&p, &q})
          for (double e : m->v)
            if (std::fabs(e * unit - std::round(e * unit)) > 0.45 || std::fabs(e) > 99) clear = false;
        if ((int)got.size() != np) viol("wrong-match", where + "answers for " + std::to_string(got.size()) + " of " + std::to_string(np));
        else if (clear)
          for (int i = 0; i < np; ++i) {
            bool any = false, ok = false;
            for (int j = 0; j < nq; ++j) {
              bool eq = true;
              for (int k = 0; k < len; ++k) {
                double u = rows ? p.at(i, k) : p.at(k, i), z = rows ? q.at(j, k) : q.at(k, j);
                if (std::round(u * unit) != std::round(z * unit)) eq = false;
              }
              any |= eq;
              if (eq && got[i] == j + 1) ok = true;
            }
            if (any ? !ok : got[i] != -1) viol("wrong-match", where + strf("%d is said to match %d", i + 1, got[i]));
            probe(any ? "matched" : "unmatched");
          }
      }
      if (rc == 0 && must_throw) viol("accepted", where + "matrices of different sizes are compared");
      if (rc == 1 && !must_throw) viol("refused", where + what);
    } else if (w == "ask") {  // - S i j: what it says about itself
      Matrix *s = src(x[1]);
      if (!s) continue;
      const Model &q = smod(x[1]);
      int i = (int)(llabs(x[2]) % q.r), j = (int)(llabs(x[3]) % q.c);
      double got[4] = {0, 0, 0, 0};
      std::vector<double> row, col;
      int total = 0;
      std::string text;
      rc = call(al, what, [&] {
        got[0] = s->get_elem();
        got[1] = s->get_elem(i + 1);
        got[2] = s->get_elem(i + 1, j + 1);
        got[3] = *s->get_elem_ptr(i + 1, j + 1);
        total = s->total_elem();
        row = s->get_row(i + 1);
        col = s->get_col(j + 1);
        std::ostringstream o;
        o << *s;
        if (o) text = o.str();
      });
      if (rc == 1) viol("refused", where + what);
      if (rc) continue;
      if (!same_bits(got[0], q.at(0, 0)) || !same_bits(got[1], q.at(i, 0)) || !same_bits(got[2], q.at(i, j)) || !same_bits(got[3], q.at(i, j))) viol("wrong-element", where + strf("%.17g for element %d,%d", got[2], i + 1, j + 1));
      if (total != (int)q.v.size()) viol("wrong-element", where + "counts " + std::to_string(total) + " elements");
      bool ok = (int)row.size() == q.c && (int)col.size() == q.r;
      for (int k = 0; ok && k < q.c; ++k) ok = same_bits(row[k], q.at(i, k));
      for (int k = 0; ok && k < q.r; ++k) ok = same_bits(col[k], q.at(k, j));
      if (!ok) viol("wrong-element", where + "a wrong row or column");
      if (!text.empty()) {  // every element is printed, in order
        std::istringstream is(text);
        std::vector<std::string> tok;
        std::string t;
        while (is >> t) tok.push_back(t);
        size_t p = 0;
        for (int sh = 0; sh < q.s; ++sh)
          for (int r = 0; r < q.r; ++r)
            for (int c = 0; c < q.c; ++c) {
              std::ostringstream o;
              o << q.at(r, c, sh);
              while (p < tok.size() && tok[p] != o.str()) ++p;
              if (p++ >= tok.size()) {
                viol("wrong-print", where + "element " + o.str() + " is not printed in its place");
                sh = q.s;
                r = q.r;
                break;
              }
            }
      }
      probe("asked");
      continue;
    } else if (w == "wrong") {  // D form which far S t: what no matrix of these sizes can do
      Matrix *m = a[d].get();
      if (!m) continue;
      Model &q = mod[d];
      int f = (int)(llabs(x[1]) % 24);
      int pos[3] = {1 + (int)(x[5] % q.r), 1 + (int)(x[5] % q.c), 1 + (int)(x[5] % q.s)};
      const int hi[3] = {q.r, q.c, q.s};
      // how many positions the call takes, or the only one it takes
      static const int NP[24] = {1, 2, 3, 1, 2, 3, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 2, 0, 0, 0};
      int which = (int)(llabs(x[2]) % std::max(1, NP[f]));
      static const int ROW[] = {6, 9, 11, 13, 15}, COL[] = {7, 10, 12, 14, 16};
      for (int k : ROW)
        if (f == k) which = 0;
      for (int k : COL)
        if (f == k) which = 1;
      auto out = [&](int h) -> int {
        static const int LOW[] = {0, -1, INT_MIN};
        int far = (int)(llabs(x[3]) % 6);
        return far < 3 ? LOW[far] : far == 3 ? h + 1 : far == 4 ? h + 7 : INT_MAX;
      };
      pos[which] = out(hi[which]);
      static const int BAD[] = {-1, 0, -7, INT_MIN};
      int bad[3] = {2, 2, 2};
      bad[which] = BAD[llabs(x[3]) % 4];
      if ((f == 17 || (f >= 21)) && bad[which] == 0) bad[which] = -2;
      if (f >= 21) bad[0] = bad[which];
      Matrix *o = src(x[4]);
      const Model &p = o ? smod(x[4]) : q;
      std::vector<double> line((size_t)(f == 9 ? q.c : q.r), 1.0), got;
      int in = 1 + (int)(x[5] % (which ? q.c : q.r)), from = x[5] % 2 ? in : pos[which], to = x[5] % 2 ? pos[which] : in;
      // products and comparisons of sizes that do not fit
      bool product = x[2] % 3 == 0 && o && (f == 0 || f == 3), turn = x[2] % 3 == 1 && (f == 0 || f == 3), match = x[2] % 3 == 2 && o && f == 0;
      if (product && q.flat() && p.flat() && q.c == p.r) continue;
      if (turn && q.flat()) continue;
      if (match && q.flat() && p.flat()) continue;
      must_throw = true;
      extra_note("MISUSE " + std::to_string(me));
      rc = call(0, what, [&] {
        if (product) (void)((*m) * (*o));
        else if (turn) (void)m->invert();
        else if (match) (void)(x[3] % 2 ? m->matchRow(*o, 3) : m->matchCol(*o, 3));
        else if (f == 0) (void)m->get_elem(pos[0]);
        else if (f == 1) (void)m->get_elem(pos[0], pos[1]);
        else if (f == 2) (void)m->get_elem(pos[0], pos[1], pos[2]);
        else if (f == 3) m->set_elem(1.0, pos[0]);
        else if (f == 4) m->set_elem(1.0, pos[0], pos[1]);
        else if (f == 5) m->set_elem(1.0, pos[0], pos[1], pos[2]);
        else if (f == 6) got = m->get_row(pos[0]);
        else if (f == 7) got = m->get_col(pos[1]);
        else if (f == 8) (void)m->get_elem_ptr(pos[0], pos[1]);
        else if (f == 9) m->set_row(line, pos[0]);
        else if (f == 10) m->set_col(line, pos[1]);
        else if (f == 11) m->move_row(from, to);
        else if (f == 12) m->move_col(from, to);
        else if (f == 13) m->swap_row(from, to);
        else if (f == 14) m->swap_col(from, to);
        else if (f == 15) (void)m->getRow(pos[0]);
        else if (f == 16) (void)m->getCol(pos[1]);
        else if (f == 17) (void)new Matrix(bad[0]);
        else if (f == 18) (void)new Matrix(bad[0], bad[1]);
        else if (f == 19) (void)new Matrix(bad[0], bad[1], bad[2]);
        else if (f == 20) m->resize(bad[0], bad[1]);
        else if (f == 21) m->set_rows(bad[0]);
        else if (f == 22) m->set_cols(bad[0]);
        else m->set_shel(bad[0]);
      });
      extra_note("MISUSED " + std::to_string(me));
    } else {  // changes of D
      Matrix *m = a[d].get();
      if (!m) continue;
      Model &q = mod[d];
      if (w == "set") {  // D form i j k t
        int f = (int)(llabs(x[1]) % 4), i = (int)(llabs(x[2]) % q.r), j = (int)(llabs(x[3]) % q.c), k = (int)(llabs(x[4]) % q.s);
        double v = value(x[5]);
        if (f < 3) k = 0;
        if (f < 2) j = 0;
        if (f < 1) i = 0;
        want.at(i, j, k) = v;
        rc = call(al, what, [&] {
          if (f == 0) m->set_elem(v);
          if (f == 1) m->set_elem(v, i + 1);
          if (f == 2) m->set_elem(v, i + 1, j + 1);
          if (f == 3) m->set_elem(v, i + 1, j + 1, k + 1);
        });
      } else if (w == "fill" || w == "coarse") {  // D t
        for (int i = 0; i < q.r; ++i)
          for (int j = 0; j < q.c; ++j)
            for (int k = 0; k < q.s; ++k) want.at(i, j, k) = w == "fill" ? value(x[1] + i * 31 + j * 7 + k) : coarse(x[1] + i * 31 + j * 7 + k);
        rc = call(0, what, [&] {
          for (int i = 0; i < q.r; ++i)
            for (int j = 0; j < q.c; ++j)
              for (int k = 0; k < q.s; ++k) m->set_elem(want.at(i, j, k), i + 1, j + 1, k + 1);
        });
      } else if (w == "setrow" || w == "setcol") {  // D i t wrong
        if (!q.flat()) continue;
        bool row = w == "setrow";
        int i = (int)(llabs(x[1]) % (row ? q.r : q.c)), len = row ? q.c : q.r;
        std::vector<double> v;
        for (int k = 0; k < len; ++k) {
          v.push_back(value(x[2] + k));
          (row ? want.at(i, k) : want.at(k, i)) = v.back();
        }
        if (x[3]) {
          if (x[3] % 2 || len == 1) v.push_back(1);
          else v.pop_back();
          must_throw = true;
        }
        rc = call(al, what, [&] { row ? m->set_row(v, i + 1) : m->set_col(v, i + 1); });
      } else if (w == "movrow" || w == "movcol" || w == "swprow" || w == "swpcol") {  // D from to
        if (!q.flat()) continue;
        bool row = w.substr(3) == "row", mov = w[0] == 'm';
        int cnt = row ? q.r : q.c, f = (int)(llabs(x[1]) % cnt), t = (int)(llabs(x[2]) % cnt);
        std::vector<int> ord;
        for (int i = 0; i < cnt; ++i) ord.push_back(i);
        if (mov) {
          ord.erase(ord.begin() + f);
          ord.insert(ord.begin() + t, f);
        } else
          std::swap(ord[f], ord[t]);
        for (int i = 0; i < q.r; ++i)
          for (int j = 0; j < q.c; ++j) want.at(i, j) = row ? q.at(ord[i], j) : q.at(i, ord[j]);
        rc = call(al, what, [&] {
          if (mov) row ? m->move_row(f + 1, t + 1) : m->move_col(f + 1, t + 1);
          else row ? m->swap_row(f + 1, t + 1) : m->swap_col(f + 1, t + 1);
        });
      } else if (w == "resize" || w == "rows" || w == "cols" || w == "shel") {  // D r c
        int r = q.r, c = q.c, s = q.s;
        if (w == "resize") {
          if (!q.flat()) continue;
          r = lim(x[1], BIG);
          c = lim(x[2], BIG);
        }
        if (w == "rows") r = lim(x[1], BIG);
        if (w == "cols") c = lim(x[1], BIG);
        if (w == "shel") s = lim(x[1], 5);
        want = Model(r, c, s);
        for (int i = 0; i < std::min(r, q.r); ++i)
          for (int j = 0; j < std::min(c, q.c); ++j)
            for (int k = 0; k < std::min(s, q.s); ++k) want.at(i, j, k) = q.at(i, j, k);
        rc = call(al, what, [&] {
          if (w == "resize") m->resize(r, c);
          if (w == "rows") m->set_rows(r);
          if (w == "cols") m->set_cols(c);
          if (w == "shel") m->set_shel(s);
        });
      } else if (w == "assign") {  // D S
        Matrix *s = src(x[1]);
        if (!s) continue;
        want = smod(x[1]);
        rc = call(al, what, [&] { *m = *s; });
      } else
        continue;
    }
    // the outcome of a call that makes or changes D
    if (rc == 1 && !must_throw) viol("refused", where + what);
    if (rc == 0 && must_throw && w != "match") viol("accepted", where + "sizes that do not fit are accepted");
    if (rc == 1) probe("refused");
    if (rc == 0 && !must_throw && w != "match") {
      if (creates) {
        std::string u = unlike(*made, want, tol);
        if (!u.empty()) viol("wrong-result", where + "the result " + u);
        if (tol)
          for (int i = 0; i < want.r && u.empty(); ++i)
            for (int j = 0; j < want.c; ++j) want.at(i, j) = made->get_elem(i + 1, j + 1);
        if (a[d] && kept[d]) a[d].release();
        a[d].reset(made);
        kept[d] = held;
      }
      mod[d] = want;
    }
    std::cout.clear();
    std::cerr.clear();
    extra_note(where + (rc == 0 ? "done" : rc == 1 ? "refused" : "out of memory"));
    // nothing else has changed, and a call that failed has changed nothing
    for (int i = 0; i < NS; ++i)
      if (a[i]) {
        std::string u = unlike(*a[i], mod[i]);
        if (!u.empty()) {
          viol(i == d && rc == 0 ? "wrong-result" : rc == 2 ? "changed-by-failure" : "changed-another", where + strf("matrix %d ", i) + u);
          for (int j = 0; j < NS; ++j)
            if (a[j] && kept[j]) a[j].release();
          return 0;
        }
      }
  }
  for (int i = 0; i < NS; ++i)
    if (a[i] && kept[i]) a[i].release();
  for (size_t i = 0; i < g_shared.size(); ++i) {
    std::string u = unlike(*g_shared[i], g_smod[i]);
    if (!u.empty()) viol("changed-another", "a matrix that was only read " + u);
  }
  return 0;
}
static Scenario gen_C17(Rng &r) {
  Scenario s;
  s.env.push_back(benign_env(r, 1));
  int nt = MEM || r.chance(0.25) ? 2 : 1, len = r.range(4, 40);
  bool cubes = r.chance(0.3);
  auto S = [](long long v) { return std::to_string(v); };
  auto any = [&] { return S((long long)r.below(r.chance(0.2) ? 6 : 4)); };
  int made[2] = {0, 0};
  // a common size, so that matrices fit each other
  int top = r.chance(0.03) ? 40 : 6;
  int R = r.range(1, top == 6 ? 5 : top), C = r.chance(0.5) ? R : r.range(1, top == 6 ? 5 : top);
  auto size = [&](int d) { return S(r.chance(0.6) ? d : r.range(1, top)); };
  auto alloc = [&](Tokens &o, double p) {
    if (nt == 1 && r.chance(p)) {
      o.push_back("alloc");
      o.push_back(S((long long)std::exp(r.unit() * std::log(o[1] == "match" ? 60.0 : o[1] == "ask" ? 12.0 : 5.0))));
    }
  };
  for (int i = 0; i < len; ++i) {
    int t = (int)r.below(nt);
    Tokens o{S(t)};
    std::string d = S((long long)r.below(4)), v = S((long long)r.below(100000));
    double k = r.unit();
    if (made[t] < 2 || k < 0.1) {
      ++made[t];
      int kind = cubes && r.chance(0.6) ? 3 : (int)r.below(7);
      Tokens x{"new", d, S(kind), size(R), size(C), S(r.range(1, 4)), v, S(r.chance(0.15) ? 1 + (long long)r.below(6) : 0)};
      o.insert(o.end(), x.begin(), x.end());
      alloc(o, 0.1);
      s.ops.push_back(o);
      if (kind < 4 || r.chance(0.3)) s.ops.push_back({S(t), r.chance(0.3) ? "coarse" : "fill", d, v});
      continue;
    }
    static const char *CH[] = {"setrow", "setcol", "movrow", "movcol", "swprow", "swpcol", "resize", "rows", "cols", "shel", "set", "set", "fill", "coarse"};
    static const char *MK[] = {"copy", "copy", "copyf", "transpose", "diag", "row", "col", "mult", "mult", "below", "beside"};
    if (k < 0.45) {
      std::string w = CH[r.below(14)];
      if (w == "shel" && !cubes) w = "rows";
      o.push_back(w);
      o.push_back(d);
      if (w == "setrow" || w == "setcol") {
        o.push_back(S((long long)r.below(top)));
        o.push_back(v);
        o.push_back(S(r.chance(0.1) ? 1 + (long long)r.below(2) : 0));
      } else if (w == "set") {
        o.push_back(S((long long)r.below(4)));
        for (int j = 0; j < 3; ++j) o.push_back(S((long long)r.below(top)));
        o.push_back(v);
      } else if (w == "fill" || w == "coarse")
        o.push_back(r.chance(0.3) ? "77" : v);
      else {
        o.push_back(w[0] == 'm' || w[0] == 's' && w != "shel" ? S((long long)r.below(top)) : w == "shel" ? S(r.range(1, 4)) : size(w == "cols" ? C : R));
        o.push_back(w[0] == 'm' || w[0] == 's' ? S((long long)r.below(top)) : size(C));
      }
      alloc(o, 0.25);
    } else if (k < 0.58) {
      o.push_back("assign");
      o.push_back(d);
      o.push_back(any());
      alloc(o, 0.25);
    } else if (k < 0.82) {
      std::string w = MK[r.below(11)];
      o.push_back(w);
      o.push_back(d);
      o.push_back(any());
      o.push_back(w == "row" || w == "col" ? S((long long)r.below(top)) : any());
      alloc(o, 0.2);
    } else if (k < 0.9) {
      o.push_back("match");
      o.push_back("0");
      o.push_back(any());
      o.push_back(any());
      o.push_back(S((long long)r.below(2)));
      o.push_back(S(r.range(1, 4)));
      alloc(o, 0.2);
    } else {
      o.push_back("ask");
      o.push_back("0");
      o.push_back(any());
      o.push_back(S((long long)r.below(top)));
      o.push_back(S((long long)r.below(top)));
      alloc(o, 0.1);
    }
    s.ops.push_back(o);
    if (r.chance(0.03)) s.ops.push_back({S(t), "wrong", S((long long)r.below(4)), S((long long)r.below(24)), S((long long)r.below(12)), S((long long)r.below(24)), any(), S((long long)r.below(12))});
  }
  if (nt > 1) {
    s.quantum = 1 + (1ull << r.range(2, 9));
    s.quantum_seed = 1 + r.below(1000000);
    shared_sched(s, r);
  }
  s.kind = nt > 1 ? "two-threads" : cubes ? "with-shelves" : "flat";
  return s;
}

// ---------------------------------------------------------------- C18
static const int NF = 8;
static const char *LONG_[NF] = {"--alpha", "--beta", "--beta-two", "--gamma", "--delta", "--eps", "--zeta", "--eta"};
static const char *SHORT_[NF] = {"-a", "-b", "-b2", "", "-d", "-e", "-z", "-y"};

struct Rules {
  long long imin = INT_MIN, imax = INT_MAX;
  double dmin = -1.7976931348623157e308, dmax = 1.7976931348623157e308;
  std::set<std::string> choices{"NOT_DEFINED"}, exts{"*"};
  bool enforced = false, must = false;
  std::string sw = "OFF";
};
static std::string joined(const std::set<std::string> &v) {
  std::string o;
  for (auto &x : v) o += (o.empty() ? "" : " ") + x;
  return o;
}
static std::set<std::string> listed(const std::string &t) {
  std::set<std::string> r;
  std::string x;
  for (char c : t + ",")
    if (c == ',') {
      if (!x.empty()) r.insert(x);
      x.clear();
    } else
      x += c;
  return r;
}
static bool whole_number(const std::string &t, long long &v) {
  size_t i = !t.empty() && t[0] == '-' ? 1 : 0;
  if (t.size() <= i || t.size() > 18) return false;
  for (size_t k = i; k < t.size(); ++k)
    if (!isdigit((unsigned char)t[k])) return false;
  v = to_ll(t);
  return true;
}
static bool real_number(const std::string &t, double &v) {
  if (t.empty() || isalpha((unsigned char)t[0]) || (t[0] == '-' && (t.size() < 2 || !isdigit((unsigned char)t[1])))) return false;
  char *e;
  v = strtod(t.c_str(), &e);
  return *e == 0 && std::isfinite(v);
}
static int positive_of(const std::string &t) {
  if (t == "ON" || t == "TRUE" || t == "1") return 1;
  if (t == "OFF" || t == "FALSE" || t == "0") return 0;
  return -1;
}
static std::string ext_of(const std::string &p) {
  size_t sl = p.rfind('/'), dot = p.rfind('.');
  if (dot == std::string::npos || (sl != std::string::npos && dot < sl)) return "";
  return p.substr(dot);
}

// one parser and two property objects, and what is known about them
struct Kept {
  std::unique_ptr<ArgumentParser> P;
  char type[NF];
  Rules rule[NF];
  std::vector<std::string> may[NF];  // what an option may hold: texts, "" for nothing yet; a default counts
  PropertyString ps;
  PropertyStringChoice pc;
  PropertyFileExt px;
  size_t lmin = 0, lmax = (size_t)-1;
  std::set<std::string> pch{"NOT_DEFINED"};
  std::set<std::string> pexts{"*"};
  bool penf = false;
  const char *abbr[NF];
  std::map<int, std::set<std::string>> sizes;  // sizes an option may hold, "" for none
  explicit Kept(int id) {
    std::set<std::vector<std::string>> flags;
    for (int i = 0; i < NF; ++i) {
      abbr[i] = SHORT_[id ? NF - 1 - i : i];  // the second parser abbreviates in another way
      std::vector<std::string> f{LONG_[i], "An option of the history"};
      if (abbr[i][0]) f.push_back(abbr[i]);
      flags.insert(f);
    }
    P.reset(new ArgumentParser(flags));
    memset(type, 0, sizeof type);
    for (auto &m : may) m.push_back("");
  }
};
static int c18_main(int argc, const char **argv) {
  int me = argc > 1 ? atoi(argv[1]) : 0, n = 0;
  std::unique_ptr<Kept> kept[2];
  std::set<std::string> files;
  static const std::map<char, std::string> ARG{{'I', "ARGUMENT_INT"}, {'D', "ARGUMENT_DOUBLE"}, {'S', "ARGUMENT_STRING"}, {'W', "ARGUMENT_SWITCH"}, {'F', "ARGUMENT_FILE"}};
  for (auto &op : g_sc->ops) {
    ++n;
    if (op.size() < 3 || to_ll(op[0]) % 2 != me) continue;
    const std::string &w = op[1];
    int which = to_ll(op[0]) > 1;
    if (!kept[which]) kept[which].reset(new Kept(which));
    Kept &K = *kept[which];
    auto &P = K.P;
    auto &type = K.type;
    auto &rule = K.rule;
    auto &may = K.may;
    auto &ps = K.ps;
    auto &px = K.px;
    auto &pexts = K.pexts;
    auto &pc = K.pc;
    auto &lmin = K.lmin;
    auto &lmax = K.lmax;
    auto &pch = K.pch;
    auto &penf = K.penf;
    auto &SH = K.abbr;
    uint64_t al = alloc_of(op);
    std::vector<std::string> x(op.begin() + 2, op.end() - (al ? 2 : 0));
    std::string where = "step " + std::to_string(n) + " " + w + ": ", what;
    auto path = [&](const std::string &t) { return "t" + std::to_string(me) + "/" + t; };
    auto note = [&](int rc) {
      std::cout.clear();
      std::cerr.clear();
      extra_note(where + (rc == 0 ? "done" : rc == 1 ? "refused" : "out of memory"));
    };
    int rc = 0;
    if (w == "touch" || w == "rm") {
      FsEvent e;
      e.path = path(x[0]);
      e.act = w == "touch" ? "replace" : "unlink";
      e.data = "x";
      if (w == "touch") files.insert(e.path);
      else files.erase(e.path);
      apply_now(e);
      continue;
    }
    if (w == "length" && x.size() >= 2) {  // MIN|MAX n
      size_t v = (size_t)to_ll(x[1]);
      std::string o = x[0] + "_LENGTH";
      rc = call(al, what, [&] { ps.setPropOption(o, v); });
      if (rc == 1) viol("refused", where + what);
      if (rc == 0) (x[0] == "MIN" ? lmin : lmax) = v;
      if (rc == 2 && ps.getPropOption(o) != (x[0] == "MIN" ? lmin : lmax)) viol("half-set", where + "the limit has changed without success");
      note(rc);
      continue;
    }
    if (w == "text") {
      rc = call(al, what, [&] { ps.propValid(x[0]); });
      bool ok = x[0].size() >= lmin && x[0].size() <= lmax;
      if (rc == 0 && !ok) viol("accepted", where + "a text of " + std::to_string(x[0].size()) + " letters");
      if (rc == 1 && ok) viol("refused", where + what);
      note(rc);
      continue;
    }
    if (w == "choices") {
      std::set<std::string> v = listed(x[0]);
      bool one = x.size() > 1 && x[1] == "one" && v.size() == 1;  // as a single text
      rc = call(al, what, [&] {
        if (one) pc.setPropOption("STRING_CHOICES", *v.begin());
        else pc.setPropOption("STRING_CHOICES", v);
      });
      if (rc == 1) viol("refused", where + what);
      if (rc == 0 && pc.getPropOption("STRING_CHOICES") != v) viol("half-set", where + "the choices are not the ones set");
      if (rc == 0) pch = v;
      if (rc == 2 && pc.getPropOption("STRING_CHOICES") != pch && pc.getPropOption("STRING_CHOICES") != v) viol("half-set", where + "the choices are neither the old nor the new ones");
      pch = pc.getPropOption("STRING_CHOICES");
      note(rc);
      continue;
    }
    if (w == "enforce") {  // a word; only true and false are allowed
      bool ok = x[0] == "true" || x[0] == "false";
      std::set<std::string> v = listed(x[0]);
      bool one = x.size() > 1 && x[1] == "one" && v.size() == 1;
      rc = call(al, what, [&] {
        if (one) pc.setPropOption("STRING_CHOICE_ENFORCED", *v.begin());
        else pc.setPropOption("STRING_CHOICE_ENFORCED", v);
      });
      if (rc == 0 && !ok) viol("accepted", where + x[0]);
      if (rc == 1 && ok) viol("refused", where + what);
      std::set<std::string> now = pc.getPropOption("STRING_CHOICE_ENFORCED"), old{penf ? "true" : "false"};
      if (rc == 0 ? now != v : rc == 1 ? now != old : now != v && now != old) viol("half-set", where + "is now " + joined(now));
      penf = now.count("true") != 0;
      note(rc);
      continue;
    }
    if (w == "kinds") {  // extensions a file may have
      std::set<std::string> v = listed(x[0]), old = px.getPropOption("ALLOWED_FILE_EXT");
      bool one = x.size() > 1 && x[1] == "one" && v.size() == 1;
      rc = call(al, what, [&] {
        if (one) px.setPropOption("ALLOWED_FILE_EXT", *v.begin());
        else px.setPropOption("ALLOWED_FILE_EXT", v);
      });
      if (rc == 1) viol("refused", where + what);
      std::set<std::string> now = px.getPropOption("ALLOWED_FILE_EXT");
      if (rc == 0 ? now != v : now != v && now != old) viol("half-set", where + "is now " + joined(now));
      pexts = now;
      note(rc);
      continue;
    }
    if (w == "kind") {
      rc = call(al, what, [&] { px.propValid(x[0]); });
      bool ok = pexts.count("*") || pexts.count(ext_of(x[0]));
      if (rc == 0 && !ok) viol("accepted", where + x[0] + " is not one of " + joined(pexts));
      if (rc == 1 && ok) viol("refused", where + what);
      note(rc);
      continue;
    }
    if (w == "choose") {
      rc = call(al, what, [&] { pc.propValid(x[0]); });
      bool ok = !penf || pch.count(x[0]);
      if (rc == 0 && !ok) viol("accepted", where + x[0] + " is not among " + joined(pch));
      if (rc == 1 && ok) viol("refused", where + what);
      note(rc);
      continue;
    }
    if (w == "parse") {
      std::vector<std::string> words;
      std::vector<std::pair<int, std::string>> gives;  // option and what it is given
      for (auto &t : x) {
        if (t == "-") continue;
        if (t[0] == 'L' || t[0] == 'S') {
          int f = (int)(llabs(to_ll(t.substr(1))) % NF);
          words.push_back(t[0] == 'S' && SH[f][0] ? SH[f] : LONG_[f]);
        } else if (t[0] == 'H')
          words.push_back(t == "H1" ? "-h" : "--help");
        else if (t[0] == 'C')
          words.push_back(t == "C1" ? "-cite" : "--citation");
        else if (t[0] == 'U')
          words.push_back("--unknown");
        else
          words.push_back(t.size() > 1 && t[1] == '/' ? path(t.substr(2)) : t.substr(1));
      }
      // what the line means
      auto flag_of = [&](const std::string &t) {
        for (int i = 0; i < NF; ++i)
          if (t == LONG_[i] || (SH[i][0] && t == SH[i])) return i;
        return -1;
      };
      bool good = !words.empty(), unsure = false, alonehelp = true;
      std::set<int> seen;
      for (auto &t : words) alonehelp &= t == "-h" || t == "--help" || t == "-cite" || t == "--citation";
      if (alonehelp && !words.empty()) continue;  // would end the process
      for (size_t i = 0; i < words.size() && good; ++i) {
        const std::string &t = words[i];
        if (t == "-h" || t == "--help" || t == "-cite" || t == "--citation") continue;
        int f = flag_of(t);
        if (f < 0 || !type[f]) {
          good = false;
          break;
        }
        bool more = i + 1 < words.size();
        if (type[f] == 'W') {
          if (!more || flag_of(words[i + 1]) >= 0 || words[i + 1] == "-h" || words[i + 1] == "--help") {
            gives.push_back({f, "ON"});
          } else if (positive_of(words[i + 1]) >= 0)
            gives.push_back({f, words[++i]});
          else
            good = false;
          continue;
        }
        if (!more) {
          good = false;
          break;
        }
        const std::string &v = words[++i];
        const Rules &r = rule[f];
        long long iv;
        double dv;
        if (type[f] == 'I') good = whole_number(v, iv) && iv >= r.imin && iv <= r.imax;
        if (type[f] == 'D') good = real_number(v, dv) && dv >= r.dmin && dv <= r.dmax;
        if (type[f] == 'S') good = !r.enforced || r.choices.count(v);
        if (type[f] == 'F') {
          good = (r.exts.count("*") || r.exts.count(ext_of(v))) && (!r.must || files.count(v));
          seen.insert(f);
        }
        if (good) gives.push_back({f, v});
      }
      if (good)
        for (int f = 0; f < NF; ++f)
          if (type[f] == 'F' && rule[f].must && !seen.count(f)) unsure = true;
      std::vector<const char *> av{"calc_J"};
      for (auto &t : words) av.push_back(t.c_str());
      rc = call(al, what, [&] { P->parse(av.data(), (int)av.size()); });
      std::string line;
      for (auto &t : words) line += " " + t;
      if (rc == 0 && !good) viol("accepted", where + "'" + line + " '");
      if (rc == 1 && good && !unsure) viol("refused", where + "'" + line + " ': " + what);
      if (rc == 0) {
        for (auto &g : gives) may[g.first] = {g.second};
        probe("line-accepted");
      } else {
        // what came before the fault may or may not count
        for (auto &g : gives) may[g.first].push_back(rc == 2 && type[g.first] == 'W' ? "?" : g.second);
        if (rc == 1) probe("line-refused");
      }
      note(rc);
      continue;
    }
    if (w == "make") {  // another parser, from names, abbreviations and descriptions
      std::set<std::vector<std::string>> flags;
      bool ok = true;
      std::string first, shrt;
      for (size_t k = 0; k < x.size(); ++k) {
        int cnt[3] = {0, 0, 0};
        std::vector<std::string> v;
        std::string nm, ab;
        for (char c : x[k]) {
          if (c == 'N') nm = "--opt" + std::to_string(k) + (cnt[0] ? "-again" : ""), v.push_back(nm), ++cnt[0];
          if (c == 'A') ab = "-o" + std::to_string(k) + (cnt[1] ? "again" : ""), v.push_back(ab), ++cnt[1];
          if (c == 'D') v.push_back("What it is for" + std::string(cnt[2] ? ", again" : "")), ++cnt[2];
        }
        if (v.size() > 3 || cnt[0] != 1 || cnt[1] > 1 || cnt[2] > 1) ok = false;
        if (first.empty()) first = nm, shrt = ab;
        flags.insert(v);
      }
      int got = 0, again = 0;
      rc = call(al, what, [&] {
        ArgumentParser p(flags);
        if (first.empty()) return;
        p.addFlagArg(first, "ARGUMENT_INT");
        const char *av[] = {"calc_J", first.c_str(), "41"};
        p.parse(av, 3);
        got = p.getInt(first);
        if (!shrt.empty()) {
          const char *bv[] = {"calc_J", shrt.c_str(), "42"};
          p.parse(bv, 3);
          again = p.getInt(first);
        } else
          again = 42;
      });
      if (rc == 0 && !ok) viol("accepted", where + "a parser of" + [&] { std::string o; for (auto &t : x) o += " " + t; return o; }());
      if (rc == 1 && ok) viol("refused", where + what);
      if (rc == 0 && ok && !first.empty() && (got != 41 || again != 42)) viol("wrong-value", where + strf("a fresh parser answers %d and %d", got, again));
      note(rc);
      continue;
    }
    // the others name an option and its kind
    int f = (int)(llabs(to_ll(x[0])) % NF);
    if (x.size() < 2 || !ARG.count(x[1][0])) continue;
    char T = x[1][0];
    std::string arg = ARG.at(T), flag = LONG_[f];
    if (type[f] && type[f] != T) continue;
    if (w == "add") {
      rc = call(al, what, [&] { P->addFlagArg(flag, arg); });
      if (rc == 0 && type[f]) viol("accepted", where + flag + " is declared a second time");
      if (rc == 1 && !type[f]) viol("refused", where + what);
      if (rc == 0) type[f] = T;
    } else if (w == "badrule") {
      int k = x.size() > 2 ? (int)(llabs(to_ll(x[2])) % 11) : 0;
      std::string one = "1";
      static const std::map<char, std::string> PROP{{'I', "PROPERTY_INT"}, {'D', "PROPERTY_DOUBLE"}, {'S', "PROPERTY_STRING_CHOICE"}, {'W', "PROPERTY_SWITCH"}, {'F', "PROPERTY_FILE_EXT"}};
      const std::string &prop = PROP.at(T);
      std::set<std::string> vs{"true"};
      std::vector<std::string> vv{".log"};
      rc = call(al, what, [&] {
        // of a kind the option does not take
        if (k == 3) T == 'D' || T == 'S' ? P->setFlagArgOpt(flag, arg, prop, "MIN", 1) : P->setFlagArgOpt(flag, arg, prop, "MIN", 1.5);
        if (k == 4) T == 'S' || T == 'F' ? P->setFlagArgOpt(flag, arg, "PROPERTY_UNKNOWN", "OTHER", vs) : P->setFlagArgOpt(flag, arg, prop, "MIN", vs);
        if (k == 5) P->setFlagArgOpt(flag, arg, prop, "MIN", vv);
        if (k == 6) T == 'I' || T == 'D' ? P->setFlagArgOpt(flag, arg, prop, "MIN", one) : P->setFlagArgOpt(flag, arg, prop, "MIN", 0.5);
        // one the property does not have
        if (k == 7) T == 'I' ? P->setFlagArgOpt(flag, arg, prop, "MIDDLE", 1) : T == 'D' ? P->setFlagArgOpt(flag, arg, prop, "MIDDLE", 1.0) : T == 'W' ? P->setFlagArgOpt(flag, arg, prop, "MIDDLE", std::string("ON")) : P->setFlagArgOpt(flag, arg, prop, "MIDDLE", vs);
        if (k == 8) T == 'F' ? P->setFlagArgOpt(flag, arg, prop, "FILE_MUST_EXIST", 1) : P->setFlagArgOpt(flag, arg, "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", 1);
        if (k == 9) T == 'W' ? P->setFlagArgOpt(flag, arg, prop, "DEFAULT", 2) : P->setFlagArgOpt(flag, "", prop, "MIN", 1);
        if (k == 10) T == 'W' ? P->setFlagArgOpt(flag, arg, prop, "DEFAULT", -1) : P->setFlagArgOpt(flag, "ARGUMENT", prop, "MIN", one);
        if (k == 0) P->setFlagArgOpt(flag, arg, "PROPERTY_UNKNOWN", "MIN", 1);
        if (k == 1) P->setFlagArgOpt(flag, "ARGUMENT_UNKNOWN", "PROPERTY_INT", "MIN", 1);
        if (k == 2) P->setFlagArgOpt(flag, arg, "PROPERTY_UNKNOWN", "OTHER", one);
      });
      if (rc == 0) viol("accepted", where + "an unknown rule");
    } else if (w == "rule" && x.size() >= 4) {
      Rules old = rule[f], nw = old;
      std::string prop, opt;
      bool ok = true;
      double dv = 0;
      const std::string &o = x[2], &v = x[3];
      std::set<std::string> vs = listed(v);
      std::string expect_old, expect_new;
      if (T == 'I') {
        prop = "PROPERTY_INT";
        opt = o == "MIN" ? "MIN" : "MAX";
        long long &q = opt == "MIN" ? nw.imin : nw.imax;
        expect_old = std::to_string(q);
        q = (int)to_ll(v);
        expect_new = std::to_string(q);
      } else if (T == 'D') {
        prop = "PROPERTY_DOUBLE";
        opt = o == "MIN" ? "MIN" : "MAX";
        dv = strtod(v.c_str(), nullptr);
        (opt == "MIN" ? nw.dmin : nw.dmax) = dv;
      } else if (T == 'S') {
        prop = "PROPERTY_STRING_CHOICE";
        opt = o == "ENFORCE" ? "STRING_CHOICE_ENFORCED" : "STRING_CHOICES";
        if (o == "ENFORCE") {
          vs = {v == "true" ? "true" : "false"};
          expect_old = old.enforced ? "true" : "false";
          nw.enforced = v == "true";
        } else {
          expect_old = joined(old.choices);
          nw.choices = vs;
        }
        expect_new = joined(vs);
      } else if (T == 'W') {
        prop = "PROPERTY_SWITCH";
        opt = "DEFAULT";
        ok = v == "ON" || v == "OFF" || v == "0" || v == "1";
        expect_old = old.sw;
        nw.sw = expect_new = v == "0" ? "OFF" : v == "1" ? "ON" : v;
      } else {
        prop = o == "MUST" ? "PROPERTY_FILE_EXIST" : "PROPERTY_FILE_EXT";
        opt = o == "MUST" ? "FILE_MUST_EXIST" : "ALLOWED_FILE_EXT";
        if (o == "MUST") {
          expect_old = old.must ? "1" : "0";
          nw.must = v == "1";
          expect_new = nw.must ? "1" : "0";
        } else {
          expect_old = joined(old.exts);
          nw.exts = vs;
          expect_new = joined(vs);
        }
      }
      bool one = x.size() > 4 && x[4] == "one" && vs.size() == 1 && T != 'W';  // as a single text
      std::string first = vs.empty() ? "" : *vs.begin();
      rc = call(al, what, [&] {
        if (T == 'I') P->setFlagArgOpt(flag, arg, prop, opt, (int)to_ll(v));
        else if (T == 'D') P->setFlagArgOpt(flag, arg, prop, opt, dv);
        else if (T == 'W' && v.size() == 1) P->setFlagArgOpt(flag, arg, prop, opt, (int)to_ll(v));
        else if (T == 'W') P->setFlagArgOpt(flag, arg, prop, opt, v);
        else if (o == "MUST") P->setFlagArgOpt(flag, arg, prop, opt, v == "1" ? 1 : 0);
        else if (one) P->setFlagArgOpt(flag, arg, prop, opt, first);
        else P->setFlagArgOpt(flag, arg, prop, opt, vs);
      });
      if (rc == 0 && !ok) viol("accepted", where + v);
      if (rc == 1 && ok) viol("refused", where + what);
      if (rc == 0) {
        type[f] = T;
        rule[f] = nw;
      }
      if (rc == 2 && ok) {  // which of the two is in force now?
        if (T == 'D') {
          if (type[f]) {
            P->setFlagArgOpt(flag, arg, prop, opt, dv);
            rule[f] = nw;
          }
        } else if (type[f]) {
          std::string now = P->getFlagArgOptValue(flag, arg, prop, opt);
          if (now == expect_new) rule[f] = nw;
          else if (now != expect_old) viol("half-set", where + "the rule is now '" + now + "', neither '" + expect_old + "' nor '" + expect_new + "'");
        }
      }
    } else if (w == "ruleof" && x.size() >= 3 && T != 'D') {
      std::string prop, opt, want, got;
      if (T == 'I') prop = "PROPERTY_INT", opt = x[2] == "MIN" ? "MIN" : "MAX", want = std::to_string(x[2] == "MIN" ? rule[f].imin : rule[f].imax);
      if (T == 'S') prop = "PROPERTY_STRING_CHOICE", opt = x[2] == "ENFORCE" ? "STRING_CHOICE_ENFORCED" : "STRING_CHOICES", want = x[2] == "ENFORCE" ? rule[f].enforced ? "true" : "false" : joined(rule[f].choices);
      if (T == 'W') prop = "PROPERTY_SWITCH", opt = "DEFAULT", want = rule[f].sw;
      if (T == 'F') prop = x[2] == "MUST" ? "PROPERTY_FILE_EXIST" : "PROPERTY_FILE_EXT", opt = x[2] == "MUST" ? "FILE_MUST_EXIST" : "ALLOWED_FILE_EXT", want = x[2] == "MUST" ? rule[f].must ? "1" : "0" : joined(rule[f].exts);
      rc = call(al, what, [&] { got = P->getFlagArgOptValue(flag, arg, prop, opt); });
      if (rc == 0 && !type[f]) viol("accepted", where + "a rule of an option without a kind");
      if (rc == 1 && type[f]) viol("refused", where + what);
      if (rc == 0 && got != want) viol("wrong-rule", where + flag + " " + opt + " is said to be '" + got + "', set was '" + want + "'");
    } else if (w == "default" && x.size() >= 3) {
      const std::string &v = x[2];
      if (T == 'W' && !type[f]) continue;
      int iv = (int)to_ll(v);
      double dv = strtod(v.c_str(), nullptr);
      rc = call(al, what, [&] {
        if (T == 'I' || (T == 'W' && v.size() == 1)) P->setFlagDefaultValue(flag, iv);
        else if (T == 'D') P->setFlagDefaultValue(flag, dv);
        else P->setFlagDefaultValue(flag, v);
      });
      if (rc == 1) viol("refused", where + what);
      if (rc == 0) may[f] = {v};
      else may[f].push_back(v);
    } else if (w == "size" && x.size() >= 3) {  // a default of the kind size
      size_t v = (size_t)to_ll(x[2]);
      rc = call(al, what, [&] { P->setFlagDefaultValue(flag, v); });
      if (rc == 1) viol("refused", where + what);
      auto &z = K.sizes[f];
      if (z.empty()) z.insert("");
      if (rc == 0) z.clear();
      z.insert(std::to_string(v));
      if (rc == 2) z.insert("0");  // made, not filled
    } else if (w == "getsize") {
      size_t got = 0;
      rc = call(al, what, [&] { got = P->getSize_t(flag); });
      if (rc == 2) {
        note(rc);
        continue;
      }
      auto &z = K.sizes[f];
      std::string shown = rc ? "" : std::to_string(got);
      if (z.empty()) z.insert("");
      if (!z.count(shown)) viol("wrong-value", where + flag + " is said to be of size '" + shown + "', last given '" + *z.begin() + "'");
      z = {shown};
    } else if (w == "getwrong") {  // an answer of another kind
      int k = x.size() > 2 ? (int)(llabs(to_ll(x[2])) % 2) : 0;
      std::string shown;
      rc = call(al, what, [&] {
        if (T == 'I' || T == 'D') {
          if (k) shown = P->getStr(flag);
          else if (T == 'I') shown = std::to_string(P->getDouble(flag));
          else shown = std::to_string(P->getInt(flag));
        } else if (k || T == 'W')
          shown = std::to_string(P->getDouble(flag));
        else
          shown = std::to_string(P->getInt(flag));
      });
      if (rc == 0) viol("wrong-value", where + flag + " of another kind is said to be " + shown);
    } else if (w == "get") {
      int gi = 0;
      double gd = 0;
      std::string gs;
      rc = call(al, what, [&] {
        if (T == 'I') gi = P->getInt(flag);
        if (T == 'D') gd = P->getDouble(flag);
        if (T == 'S' || T == 'F') gs = P->getStr(flag);
        if (T == 'W') {
          gi = P->getInt(flag);
          gs = P->getStr(flag);
        }
      });
      std::string shown = rc == 1 ? "nothing" : T == 'I' ? std::to_string(gi) : T == 'D' ? strf("%.17g", gd) : T == 'W' ? std::to_string(gi) + "/" + gs : gs;
      if (rc == 2) {
        note(rc);
        continue;
      }
      std::vector<std::string> left;
      std::string list;
      for (auto &m : may[f]) {
        bool fits = m.empty() ? rc == 1 : rc == 0;
        if (m == "?") {
          left.push_back(m);
          continue;
        }
        if (fits && rc == 0) {
          if (T == 'I') fits = gi == to_ll(m);
          if (T == 'D') fits = gd == strtod(m.c_str(), nullptr);
          if (T == 'S' || T == 'F') fits = gs == m;
          if (T == 'W') fits = gi == positive_of(m) && positive_of(gs) == gi;
        }
        if (fits) left.push_back(m);
        list += (list.empty() ? "" : " or ") + (m.empty() ? std::string("nothing") : m);
      }
      if (left.empty()) viol("wrong-value", where + flag + " is said to be " + shown + ", last given " + list);
      else may[f] = left;
      probe(rc ? "no-value" : "value");
    }
    note(rc);
  }
  return 0;
}
static Scenario gen_C18(Rng &r) {
  Scenario s;
  s.env.push_back(benign_env(r, 1));
  int nt = MEM || r.chance(0.2) ? 2 : 1, len = r.range(5, 45);
  auto S = [](long long v) { return std::to_string(v); };
  char type[4][NF];  // parsers 0 and 1 of the two threads, 2 and 3 their second ones
  bool known[4][NF] = {}, parsed[4] = {}, two = r.chance(0.3);
  int lim = r.range(2, NF);  // few options are met more often
  for (auto &t : type)
    for (char &c : t) c = "IDSWF"[r.below(5)];
  static const char *EXT[] = {".log", ".pun", ".7", ".orb", ""};
  static const char *FILE_[] = {"x.log", "x.pun", "y.7", "a.b/x.log", "y.tar.log", "x.orb", "noext"};
  static const char *WORD[] = {"one", "two", "three", "a_much_longer_word_than_fits", "NOT_DEFINED", "Two", "true", "twofold", "thre", "on"};
  auto word = [&] { return std::string(WORD[r.below(10)]); };
  auto words = [&] {
    std::string o;
    int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) o += (i ? "," : "") + word();
    return o;
  };
  auto num = [&] { return r.chance(0.7) ? S(r.range(-6, 6)) : r.chance(0.5) ? S((long long)r.below(4000000000ull) - 2000000000) : S(r.chance(0.5) ? INT_MAX : INT_MIN); };
  auto real = [&] { return r.chance(0.5) ? S(r.range(-6, 6)) : r.chance(0.5) ? strf("%.3f", (r.unit() - 0.5) * 12) : strf("%.3fe%d", (r.unit() - 0.5) * 10, r.range(-9, 9)); };
  std::map<int, std::string> limit;  // of an option, set last
  auto val = [&](char T, int of = -1) -> std::string {
    if ((T == 'I' || T == 'D') && limit.count(of) && r.chance(0.35)) {  // at and next to a limit
      double e = r.unit();
      const std::string &l = limit[of];
      if (T == 'D') return e < 0.4 ? l : e < 0.7 ? strf("%.12f", atof(l.c_str()) + (r.chance(0.5) ? 1e-9 : -1e-9)) : strf("%.3f", atof(l.c_str()) + r.range(-1, 1) * 0.001);
      long long n = to_ll(l);
      return S(e < 0.3 ? n : e < 0.55 ? n + 1 : e < 0.8 ? n - 1 : n + (r.chance(0.5) ? 4294967296ll : -4294967296ll));
    }
    static const char *NI[] = {"abc", "99999999999", "1.5", "2x", "3,4", "1e1", "-2-", "0x1"}, *ND[] = {"abc", "1e999", "1.5.2", "2.5x", "1,5", "3e2e1", "-1.0-"};
    if (T == 'I') return r.chance(0.85) ? num() : NI[r.below(8)];
    if (T == 'D') return r.chance(0.88) ? real() : ND[r.below(7)];
    if (T == 'S') return word();
    if (T == 'W') {
      static const char *V[] = {"ON", "OFF", "TRUE", "FALSE", "1", "0", "MAYBE", "2"};
      return V[r.below(r.chance(0.85) ? 6 : 8)];
    }
    return std::string("/") + FILE_[r.below(7)];
  };
  auto alloc = [&](Tokens &o, double p) {
    if (nt == 1 && r.chance(p)) {
      o.push_back("alloc");
      o.push_back(S((long long)std::exp(r.unit() * std::log(o[1] == "parse" ? 400.0 : 25.0))));
    }
  };
  auto rule = [&](int t, int f, Tokens o) {
    char T = type[t][f];
    o.push_back("rule");
    o.push_back(S(f));
    o.push_back(std::string(1, T));
    if (T == 'I' || T == 'D') {
      bool mn = r.chance(0.5);
      o.push_back(mn ? "MIN" : "MAX");
      o.push_back(T == 'I' ? r.chance(0.8) ? S(mn ? r.range(-6, 1) : r.range(0, 6)) : num() : r.chance(0.8) ? S(mn ? r.range(-6, 1) : r.range(0, 6)) : real());
      limit[t * NF + f] = o.back();
    } else if (T == 'S') {
      bool e = r.chance(0.5);
      o.push_back(e ? "ENFORCE" : "CHOICES");
      o.push_back(e ? r.chance(0.75) ? "true" : "false" : words());
      if (r.chance(0.4)) o.push_back("one");
    } else if (T == 'W') {
      o.push_back("DEFAULT");
      o.push_back(r.chance(0.8) ? r.chance(0.5) ? "ON" : "OFF" : r.chance(0.7) ? r.chance(0.5) ? "1" : "0" : "MAYBE");
    } else if (r.chance(0.3)) {
      o.push_back("MUST");
      o.push_back(r.chance(0.6) ? "1" : "0");
    } else {
      o.push_back("EXT");
      std::string e;
      int k = r.range(1, 3);
      for (int i = 0; i < k; ++i) e += (i ? "," : "") + std::string(EXT[r.below(4)]);
      o.push_back(r.chance(0.1) ? "*" : e);
      if (r.chance(0.4)) o.push_back("one");
    }
    alloc(o, 0.2);
    known[t][f] = true;
    s.ops.push_back(o);
  };
  for (int i = 0; i < len; ++i) {
    int t = (int)r.below(nt) + (two && r.chance(0.45) ? 2 : 0), f = (int)r.below(lim);
    char T = type[t][f];
    std::string Ts(1, T);
    Tokens o{S(t)};
    double k = r.unit();
    if (k < 0.08 || !known[t][f] && r.chance(0.6)) {
      if (r.chance(0.7)) {
        o.insert(o.end(), {"add", S(f), Ts});
        alloc(o, 0.2);
        known[t][f] = true;
      } else
        o.insert(o.end(), {"badrule", S(f), Ts, S((long long)r.below(11))});
    } else if (k < 0.26) {
      rule(t, f, o);
      continue;
    } else if (k < 0.32 && !parsed[t]) {
      std::string d = val(T);
      if (T == 'I') d = num();
      if (T == 'D') d = real();
      if (T == 'W') d = f % 2 ? S((long long)r.below(2)) : r.chance(0.5) ? "ON" : "OFF";
      if (T == 'F') d = "t" + S(t % 2) + d;
      o.insert(o.end(), {"default", S(f), Ts, d});
      alloc(o, 0.15);
    } else if (k < 0.6) {
      parsed[t] = true;
      o.push_back("parse");
      int m = r.chance(0.03) ? 0 : r.range(1, r.chance(0.7) ? 3 : 7);
      for (int j = 0; j < m; ++j) {
        int g = (int)r.below(lim);
        if (!known[t][g] && r.chance(0.9)) continue;
        char G = type[t][g];
        if (r.chance(0.03)) {
          o.push_back(r.chance(0.5) ? "U" : "H1");
          continue;
        }
        if (r.chance(0.03) && (o.size() < 3 || o.back()[0] == '=')) {
          o.push_back("C1");
          continue;
        }
        o.push_back((r.chance(0.5) ? "L" : "S") + S(g));
        bool last = j + 1 == m;
        if (last && r.chance(0.08)) continue;
        if (G == 'W' && r.chance(0.4)) continue;
        o.push_back("=" + val(G, t * NF + g));
      }
      if (o.size() == 2) o.push_back("-");
      // something that takes a value must not be followed by an option
      for (size_t j = 2; j + 1 < o.size(); ++j)
        if ((o[j][0] == 'L' || o[j][0] == 'S') && type[t][to_ll(o[j].substr(1))] != 'W' && o[j + 1][0] != '=') o.insert(o.begin() + j + 1, "=" + val(type[t][to_ll(o[j].substr(1))], t * NF + (int)to_ll(o[j].substr(1))));
      alloc(o, 0.12);
    } else if (k < 0.78) {
      o.insert(o.end(), {"get", S(f), Ts});
    } else if (k < 0.8) {
      double e = r.unit();
      if (e < 0.3) {
        static const char *SP[] = {"NAD", "ND", "NA", "N", "NAD", "DNA", "ADN", "NND", "NAA", "NDD", "AD", "D", "NADD", "NADA", "NADN"};
        o.push_back("make");
        int n = r.range(1, 4);
        for (int q = 0; q < n; ++q) o.push_back(SP[r.below(r.chance(0.7) ? 7 : 15)]);
      } else if (e < 0.5) o.insert(o.end(), {"size", S(f), Ts, S(r.chance(0.7) ? (long long)r.below(9) : 9000000000000000000ll)});
      else if (e < 0.75) o.insert(o.end(), {"getsize", S(f), Ts});
      else o.insert(o.end(), {"getwrong", S(f), Ts, S((long long)r.below(2))});
      alloc(o, 0.15);
    } else if (k < 0.85) {
      o.insert(o.end(), {"ruleof", S(f), Ts, T == 'S' ? r.chance(0.5) ? "ENFORCE" : "CHOICES" : T == 'F' ? r.chance(0.5) ? "MUST" : "EXT" : r.chance(0.5) ? "MIN" : "MAX"});
    } else if (k < 0.9) {
      o.insert(o.end(), {r.chance(0.6) ? "touch" : "rm", FILE_[r.below(7)]});
    } else {
      double e = r.unit();
      if (e < 0.25) o.insert(o.end(), {"length", r.chance(0.5) ? "MIN" : "MAX", S(r.range(0, 8))});
      else if (e < 0.5) o.insert(o.end(), {"text", std::string((size_t)r.range(1, 9), 'q')});
      else if (e < 0.65) {
        o.insert(o.end(), {"choices", words()});
        if (r.chance(0.4)) o.push_back("one");
      }
      else if (e < 0.8) o.insert(o.end(), {"enforce", r.chance(0.6) ? "true" : r.chance(0.6) ? "false" : r.chance(0.4) ? "TRUE" : r.chance(0.5) ? "true,false" : ","}), r.chance(0.3) ? o.push_back("one") : void();
      else if (e < 0.9) o.insert(o.end(), {"choose", word()});
      else if (e < 0.95) {
        std::string k;
        int n = r.chance(0.5) ? 1 : 2;
        for (int i = 0; i < n; ++i) k += (i ? "," : "") + std::string(EXT[r.below(4)]);
        o.insert(o.end(), {"kinds", r.chance(0.1) ? "*" : k});
        if (r.chance(0.4)) o.push_back("one");
      } else
        o.insert(o.end(), {"kind", FILE_[r.below(7)]});
      alloc(o, 0.15);
    }
    s.ops.push_back(o);
  }
  // in the end everything is asked for
  for (int t = 0; t < 4; ++t)
    for (int f = 0; f < lim && t % 2 < nt && (t < 2 || two); ++f) s.ops.push_back({S(t), "get", S(f), std::string(1, type[t][f])});
  if (nt > 1) {
    s.quantum = 1 + (1ull << r.range(2, 11));
    s.quantum_seed = 1 + r.below(1000000);
    shared_sched(s, r);
  }
  s.kind = nt > 1 ? "two-threads" : "one-thread";
  return s;
}

// ---------------------------------------------------------------- judging
static void judge_objs(const Scenario &s, Verdict &v, MainFn fn) {
  g_sc = &s;
  World w;
  w.env = s.env[0];
  w.env.out_mode = 0;
  w.step_budget = 50000000ull;
  w.heap_cap = 256ull << 20;
  int nt = 1;
  for (auto &op : s.ops)
    if (!op.empty() && (op[0] == "1" || op[0] == "3")) nt = 2;
  g_alone = nt == 1;  // allocations are counted for all threads together
  w.preempt = s.preempt;
  w.quantum = s.quantum;
  w.quantum_seed = s.quantum_seed;
  w.shared = s.shared;
  if (fn == c17_main && g_shared.empty()) {
    for (int k = 0; k < 2; ++k) {
      Model m(3, k ? 4 : 3);
      Matrix *p = new Matrix(m.r, m.c);
      for (int i = 0; i < m.r; ++i)
        for (int j = 0; j < m.c; ++j) p->set_elem(m.at(i, j) = k ? value(i * 9 + j) : coarse(i * 31 + j * 7 + 77), i + 1, j + 1);
      g_shared.push_back(p);
      g_smod.push_back(m);
    }
  }
  std::vector<TaskSpec> ts;
  for (int i = 0; i < nt; ++i) {
    TaskSpec t;
    t.argv = {"history", std::to_string(i)};
    t.fn = fn;
    ts.push_back(t);
  }
  Outcome o = run_once(v, w, ts);
  for (auto &t : o.task)
    if (t.status == ST_INTERNAL) return violate(v, "harness", t.what);
  if (fn == c17_main)
    for (size_t k = 0; k < g_shared.size(); ++k) {
      std::string u = unlike(*g_shared[k], g_smod[k]);
      if (u.empty()) continue;
      violate(v, "changed-another", "a matrix that was only read " + u);
      g_shared.clear();
      g_smod.clear();
    }
  size_t i = 0;
  int checks = 0;
  std::set<std::string> misuse;  // threads that asked for what cannot be done and did not come back
  while (i < o.extra.size()) {
    size_t e = o.extra.find('\n', i);
    if (e == std::string::npos) e = o.extra.size();
    std::string l = o.extra.substr(i, e - i);
    i = e + 1;
    if (l.compare(0, 5, "VIOL ") == 0) {
      size_t b = l.find(' ', 5);
      violate(v, l.substr(5, b - 5), l.substr(b + 1));
    } else if (l.compare(0, 6, "PROBE ") == 0)
      v.probes.push_back(l.substr(6));
    else if (l.compare(0, 7, "MISUSE ") == 0)
      misuse.insert(l.substr(7));
    else if (l.compare(0, 8, "MISUSED ") == 0)
      misuse.erase(l.substr(8));
    else
      ++checks;
  }
  v.nontrivial = checks >= 3;
  v.sample = strf("%d calls judged, %s", checks, status_name(o.t0().status));
  if (v.violation) return;
  for (size_t t = 0; t < o.task.size(); ++t) {
    const TaskOutcome &k = o.task[t];
    if (misuse.count(std::to_string(t))) {  // it may end the program, with a failure status
      v.probes.push_back("misuse-ends-the-program");
      if (k.status == ST_EXIT && k.code != 0) continue;
    }
    if (!(k.status == ST_EXIT && k.code == 0)) return violate(v, k.status == ST_HANG ? "hang" : k.status == ST_SANITIZER ? "memory-error" : "crash", std::string("the process ends with ") + status_name(k.status) + " " + std::to_string(k.code) + " " + k.what);
  }
}

Scenario generate(const std::string &prop, Rng &r) { return prop == "C17" ? gen_C17(r) : gen_C18(r); }
void judge(const Scenario &s, Verdict &v) { judge_objs(s, v, s.prop == "C17" ? c17_main : c18_main); }
}  // namespace sim

int main(int argc, char **argv) { return sim::scen_main(argc, argv); }
