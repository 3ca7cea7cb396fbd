#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <iostream>
#include <new>
#include <stdexcept>
#include <streambuf>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <utime.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
#else
#define SIM_ASAN 0
#endif

namespace sim {

static const char *OPN[OP_N] = {"open", "stat", "read", "seek", "close", "write1", "write2", "alloc", "fstat", "mutate", "other"};
const char *op_name(int op) { return OPN[op]; }
int op_by_name(const std::string &s) {
  for (int i = 0; i < OP_N; ++i)
    if (s == OPN[i]) return i;
  return -1;
}
const char *status_name(int s) {
  static const char *n[] = {"none", "exit", "terminate", "signal", "hang", "runaway-memory", "sanitizer", "deadlock", "internal"};
  return n[s];
}

// ---------------------------------------------------------------- shared result area
const int MAXT = 3;
struct SBuf {
  uint32_t len, cap, off;
};
struct STask {
  int status, code;
  char what[400];
  uint32_t outlen, errlen, openlen, triedlen;
  int out_failed;
  char out[1 << 17];
  char err[1 << 15];
  char opened[1 << 13];
  char tried[1 << 13];
};
const uint32_t MAXPLACE = 16384;  // open addressing
struct RawPlace {
  uint64_t key, smp[4];
  uint32_t kind, count, order;
};
struct Shared {
  uint64_t steps, allocs, vfs_ops, switches;
  uint64_t nops[OP_N], fired[OP_N];
  uint64_t shared, shorts, eintrs, events_fired, maxlive;
  char mutation[400];
  int open_left;
  uint64_t hash;
  uint32_t loglen, extralen;
  int finished;
  uint32_t nplaces;
  char log[1 << 18];
  char extra[1 << 18];
  STask t[MAXT];
  RawPlace place[MAXPLACE];
};
static Shared *S = nullptr;

// ---------------------------------------------------------------- live state of the child
static World *W = nullptr;
static volatile bool g_in_sim = false;
static __thread int g_harness = 0;  // per thread: this thread is inside the simulator
volatile uint64_t g_steps = 0;
static volatile uint64_t g_next = ~0ull;
static uint64_t g_allocs = 0;
static int64_t g_live = 0;
static uint64_t g_alloc_fail_at = 0;
static bool g_alloc_persist = false;
static bool g_want_log = false;
// one stream per task, all alike, so that a task meets the same deliveries alone and in company
static std::vector<Rng> g_envrngs;
#define g_envrng (g_envrngs[g_cur])
static int g_ntasks = 0;
static int g_cur = 0;
static size_t g_pre_idx = 0;
static uint64_t g_next_quantum = ~0ull;
static Rng g_qrng(1);
static std::vector<Fault> g_faults;

struct H {  // "we are in the harness"
  bool was;
  H() { ++g_harness; }
  ~H() { --g_harness; }
};
// Where in the program the run is: the innermost call sites.  Only kept while
// recording, to choose moments by place and not only by time.
static int g_record = 0;
static const int CTX = 4;
static uintptr_t g_stk[MAXT][256];
static int g_depth[MAXT];
static void note_place(uint32_t kind, uint64_t value, uintptr_t extra = 0) {
  uint64_t k = kind * 0x9e3779b97f4a7c15ULL + extra;
  int d = g_depth[g_cur];
  for (int i = 0; i < CTX && d - 1 - i >= 0; ++i) k = (k ^ g_stk[g_cur][(d - 1 - i) & 255]) * 0x9fb21c651e98df25ULL, k ^= k >> 31;
  if (!k) k = 1;
  for (uint32_t h = k >> 7, n = 0; n < 64; ++h, ++n) {
    RawPlace &p = S->place[h % MAXPLACE];
    if (p.key != k) {
      if (p.key || S->nplaces * 4 > MAXPLACE * 3) continue;
      p.key = k;
      p.kind = kind;
      p.order = ++S->nplaces;
    }
    ++p.count;
    if (p.count <= 4) p.smp[p.count - 1] = value;
    else {
      uint64_t s = k + p.count;
      uint64_t r = splitmix(s) % p.count;
      if (r < 4) p.smp[r] = value;
    }
    return;
  }
}
static inline bool active() { return g_in_sim && !g_harness; }

static void fold(uint64_t v) {
  uint64_t h = S->hash ^ v;
  h *= 0x9fb21c651e98df25ULL;
  h ^= h >> 29;
  S->hash = h;
}
static uint64_t hstr(const char *p, size_t n) {
  uint64_t h = 1469598103934665603ULL;
  for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ULL;
  return h;
}
static void slog(const char *fmt, ...) {
  if (!g_want_log) return;
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  if (S->loglen + n + 1 < sizeof S->log) {
    memcpy(S->log + S->loglen, buf, n);
    S->loglen += n;
  }
}

// ---------------------------------------------------------------- real functions
template <class F>
static F real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(ret, name, ...)                         \
  typedef ret (*fn_##name)(__VA_ARGS__);             \
  static fn_##name p_##name = nullptr;               \
  static fn_##name real_##name() {                   \
    if (!p_##name) p_##name = real<fn_##name>(#name);\
    return p_##name;                                 \
  }
REAL(FILE *, fopen, const char *, const char *)
REAL(int, fclose, FILE *)
REAL(int, fileno, FILE *)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(ssize_t, pread, int, void *, size_t, off_t)
REAL(off_t, lseek, int, off_t, int)
REAL(int, fstat, int, struct stat *)
REAL(int, stat, const char *, struct stat *)
REAL(int, lstat, const char *, struct stat *)
REAL(int, fstatat, int, const char *, struct stat *, int)
REAL(int, close, int)
REAL(int, poll, struct pollfd *, nfds_t, int)
REAL(int, access, const char *, int)
REAL(int, faccessat, int, const char *, int, int)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(time_t, time, time_t *)
REAL(pid_t, getpid, void)
REAL(char *, getenv, const char *)
REAL(void *, mmap, void *, size_t, int, int, int, off_t)
REAL(FILE *, fdopen, int, const char *)
REAL(FILE *, freopen, const char *, const char *, FILE *)
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, unlink, const char *)
REAL(int, remove, const char *)
REAL(int, rename, const char *, const char *)
REAL(int, mkdir, const char *, mode_t)
REAL(int, rmdir, const char *)
REAL(int, truncate, const char *, off_t)
REAL(int, ftruncate, int, off_t)
REAL(int, chmod, const char *, mode_t)
REAL(int, fchmod, int, mode_t)
REAL(int, link, const char *, const char *)
REAL(int, symlink, const char *, const char *)
REAL(int, creat, const char *, mode_t)
REAL(int, mkstemp, char *)
REAL(FILE *, tmpfile, void)
REAL(DIR *, opendir, const char *)
REAL(int, system, const char *)
REAL(FILE *, popen, const char *, const char *)
REAL(pid_t, fork, void)
REAL(int, nanosleep, const struct timespec *, struct timespec *)
REAL(int, usleep, useconds_t)
REAL(unsigned, sleep, unsigned)
REAL(int, sched_yield, void)
REAL(ssize_t, getrandom, void *, size_t, unsigned)
REAL(int, getentropy, void *, size_t)
REAL(void, exit, int)
REAL(void, abort, void)
typedef int (*open_fn)(const char *, int, ...);
typedef int (*openat_fn)(int, const char *, int, ...);
typedef int (*ioctl_fn)(int, unsigned long, ...);

// ---------------------------------------------------------------- tasks
struct Task {
  sem_t sem;
  bool done = false;
  bool blocked = false;
  FILE *out = nullptr, *err = nullptr;
  pthread_t th;
  TaskSpec spec;
  jmp_buf jb;
};
static Task *T = nullptr;
static sem_t g_all_done;

[[noreturn]] static void child_end() {
  // open descriptors are counted where they are opened/closed
  S->steps = g_steps;
  S->allocs = g_allocs;
  S->finished = 1;
  _exit(0);
}
[[noreturn]] static void die(int status, int code, const char *what) {
  STask &t = S->t[g_cur];
  if (t.status == ST_NONE) {
    t.status = status;
    t.code = code;
    if (what) {
      strncpy(t.what, what, sizeof t.what - 1);
    }
    fold(0xdead + status);
  }
  child_end();
}

static void set_std(int i) {
  stdout = T[i].out;
  stderr = T[i].err;
}

static int pick_other(uint64_t r) {
  int c = 0, cand[MAXT];
  for (int i = 0; i < g_ntasks; ++i)
    if (i != g_cur && !T[i].done) cand[c++] = i;
  if (!c) return -1;
  return cand[r % c];
}
static void recompute_next() {
  uint64_t n = ~0ull;
  if (W->step_budget && W->step_budget < n) n = W->step_budget;
  if (g_ntasks > 1) {
    if (g_pre_idx < W->preempt.size() && W->preempt[g_pre_idx].first < n) n = W->preempt[g_pre_idx].first;
    if (g_next_quantum < n) n = g_next_quantum;
  }
  g_next = n;
}
static void switch_to(int t) {
  if (t == g_cur || T[t].done) return;
  int prev = g_cur;
  ++S->switches;
  fold(0x5117c4 + t * 7919 + g_steps * 31);
  slog("step %llu: switch task %d -> %d\n", (unsigned long long)g_steps, prev, t);
  g_cur = t;
  set_std(t);
  int e = errno;
  sem_post(&T[t].sem);
  if (!T[prev].done)
    while (sem_wait(&T[prev].sem) != 0) {
    }
  errno = e;
}
// A place where the simulated thread cannot go on until another one has run.
static int g_spin = 0;
static void block_yield() {
  H h;
  int t = pick_other(g_qrng.next());
  if (t < 0 || ++g_spin > 200000) die(ST_DEADLOCK, 0, "all tasks blocked");
  switch_to(t);
}
static void slow_step() {
  H h;
  if (W->step_budget && g_steps >= W->step_budget) die(ST_HANG, 0, "step budget exhausted");
  if (g_ntasks > 1) {
    while (g_pre_idx < W->preempt.size() && W->preempt[g_pre_idx].first <= g_steps) {
      int t = W->preempt[g_pre_idx].second;
      ++g_pre_idx;
      recompute_next();
      if (t >= 0 && t < g_ntasks && !T[t].done && t != g_cur) {
        switch_to(t);
        return;
      }
    }
    if (g_steps >= g_next_quantum) {
      g_next_quantum = g_steps + 1 + g_qrng.below(2 * W->quantum);
      recompute_next();
      int t = pick_other(g_qrng.next());
      if (t >= 0) {
        switch_to(t);
        return;
      }
    }
  }
  recompute_next();
}

// stdout/stderr -------------------------------------------------------------
static uint64_t g_task_ops[MAXT][OP_N];
static const Fault *match_fault(int op) {
  uint64_t all = ++S->nops[op], mine = ++g_task_ops[g_cur][op];
  if (g_record) note_place(op, mine);
  for (auto &f : g_faults) {
    if (f.op != op || (f.task >= 0 && f.task != g_cur)) continue;
    uint64_t n = f.task >= 0 ? mine : all;
    if (f.nth == n || (f.persist && n >= f.nth)) {
      ++S->fired[op];
      return &f;
    }
  }
  return nullptr;
}
static ssize_t dev_write(int task, int which, const char *buf, size_t n) {
  int op = which == 1 ? OP_WRITE1 : OP_WRITE2;
  STask &t = S->t[task];
  if (n == 0) return 0;
  const Fault *f = match_fault(op);
  if (f && f->err) {
    slog("%s %zu bytes -> error %d\n", OPN[op], n, f->err);
    fold(op * 1000 + f->err);
    if (which == 1) t.out_failed = 1;
    errno = f->err;
    return -1;
  }
  if (f && f->arg >= 0 && (size_t)f->arg < n) {
    n = f->arg > 0 ? f->arg : 1;
    ++S->shorts;
  }
  uint32_t &len = which == 1 ? t.outlen : t.errlen;
  size_t cap = which == 1 ? sizeof t.out : sizeof t.err;
  char *dst = which == 1 ? t.out : t.err;
  size_t room = cap - len;
  size_t k = n < room ? n : room;
  memcpy(dst + len, buf, k);
  len += k;
  if (k < n) die(ST_RUNAWAY, 1, "unbounded output");
  fold(op + hstr(buf, n) * 3);
  slog("%s %zu bytes\n", OPN[op], n);
  return (ssize_t)n;
}
struct Dev {
  int task, which;
};
static Dev g_dev[MAXT][2];
static ssize_t dev_cookie_write(void *c, const char *buf, size_t n) {
  H h;
  Dev *d = (Dev *)c;
  size_t left = n;
  while (left > 0) {  // what glibc's own file write does: loop on short, stop on error
    ssize_t k = dev_write(d->task, d->which, buf + (n - left), left);
    if (k < 0) return (ssize_t)(n - left);
    left -= k;
  }
  return (ssize_t)n;
}
class TaskBuf : public std::streambuf {
  bool err_;
  FILE *f() { return err_ ? T[g_cur].err : T[g_cur].out; }

 public:
  explicit TaskBuf(bool e) : err_(e) {}
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return fflush(f()) ? traits_type::eof() : traits_type::not_eof(c);
    return putc(c, f());
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override { return (std::streamsize)fwrite(s, 1, n, f()); }
  int sync() override { return fflush(f()); }
};

// ---------------------------------------------------------------- virtual file system
struct OpenFile {
  bool used = false;
  std::shared_ptr<Inode> ino;
  std::string path;
  off_t pos = 0;
  bool wr = false;
  int task = 0;
};
static const int FD0 = 1000;
static std::vector<OpenFile> *g_fds;
static std::map<FILE *, int> *g_files;
static bool simfd(int fd) { return fd >= FD0 && g_fds && fd - FD0 < (int)g_fds->size() && (*g_fds)[fd - FD0].used; }

static std::string norm(const std::string &p) {
  std::string q = (!p.empty() && p[0] == '/') ? p : "/work/" + p;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < q.size()) {
    while (i < q.size() && q[i] == '/') ++i;
    size_t j = i;
    while (j < q.size() && q[j] != '/') ++j;
    if (j > i) {
      std::string c = q.substr(i, j - i);
      if (c == "..") {
        if (!parts.empty()) parts.pop_back();
      } else if (c != ".")
        parts.push_back(c);
    }
    i = j;
  }
  std::string r;
  for (auto &s : parts) r += "/" + s;
  return r.empty() ? "/" : r;
}
std::string norm_path(const std::string &p) { return norm(p); }
static std::shared_ptr<Inode> lookup(const char *cpath, int &err) {
  std::string p(cpath);
  if (p.empty()) {
    err = ENOENT;
    return nullptr;
  }
  if (p.size() > 4095) {
    err = ENAMETOOLONG;
    return nullptr;
  }
  std::string n = norm(p);
  auto it = W->files.find(n);
  if (it != W->files.end()) {
    if (p.back() == '/' && !it->second->dir) {
      err = ENOTDIR;
      return nullptr;
    }
    if (it->second->err) {
      err = it->second->err;
      return nullptr;
    }
    return it->second;
  }
  // implicit directories
  std::string pre = n == "/" ? "/" : n + "/";
  if (n == "/work" || n == "/") return std::make_shared<Inode>(Inode{true, false, ""});
  auto lb = W->files.lower_bound(pre);
  if (lb != W->files.end() && lb->first.compare(0, pre.size(), pre) == 0) return std::make_shared<Inode>(Inode{true, false, ""});
  // a component that is a plain file
  for (size_t k = n.find('/', 1); k != std::string::npos; k = n.find('/', k + 1)) {
    auto c = W->files.find(n.substr(0, k));
    if (c != W->files.end() && !c->second->dir) {
      err = ENOTDIR;
      return nullptr;
    }
  }
  err = ENOENT;
  return nullptr;
}
static void apply_event(const FsEvent &e) {
  std::string n = norm(e.path);
  auto it = W->files.find(n);
  ++S->events_fired;
  slog("fs-event %s %s (%zu bytes)\n", e.act.c_str(), n.c_str(), e.data.size());
  fold(hstr(e.act.data(), e.act.size()) ^ hstr(n.data(), n.size()) ^ e.data.size());
  if (e.act == "append") {
    if (it != W->files.end()) it->second->data += e.data;
    else W->files[n] = std::make_shared<Inode>(Inode{false, false, e.data});
  } else if (e.act == "replace") {
    W->files[n] = std::make_shared<Inode>(Inode{false, false, e.data});
  } else if (e.act == "unlink") {
    if (it != W->files.end()) W->files.erase(it);
  } else if (e.act == "mkdir") {
    W->files[n] = std::make_shared<Inode>(Inode{true, false, ""});
  } else if (e.act == "truncate") {
    size_t l = strtoull(e.data.c_str(), nullptr, 10);
    if (it != W->files.end() && it->second->data.size() > l) it->second->data.resize(l);
  } else if (e.act == "noperm") {
    if (it != W->files.end()) it->second->noperm = true;
  } else if (e.act == "hide") {
    if (it != W->files.end()) it->second->err = (int)strtol(e.data.c_str(), nullptr, 10);
  }
}
static void tick() {
  uint64_t n = ++S->vfs_ops;
  g_spin = 0;
  for (auto &e : W->events)
    if (e.at == n) apply_event(e);
  // a file operation is also a scheduling point
  if (++g_steps >= g_next) {
    slow_step();
  }
}
static void note_mutation(const char *what, const char *path) {
  ++S->nops[OP_MUTATE];
  fold(0x3117a7e + hstr(what, strlen(what)));
  slog("MUTATION %s %s\n", what, path ? path : "");
  if (!S->mutation[0]) snprintf(S->mutation, sizeof S->mutation, "%s %s", what, path ? path : "");
}
static void addline(char *buf, uint32_t &len, size_t cap, const std::string &s) {
  if (len + s.size() + 1 < cap) {
    memcpy(buf + len, s.data(), s.size());
    len += s.size();
    buf[len++] = '\n';
  }
}
static int vfs_open(const char *path, bool wr, bool create, bool trunc, const char *how) {
  tick();
  STask &t = S->t[g_cur];
  addline(t.tried, t.triedlen, sizeof t.tried, path);
  const Fault *f = match_fault(OP_OPEN);
  if (f && f->err) {
    slog("open %s -> error %d\n", path, f->err);
    fold(hstr(path, strlen(path)) + f->err);
    errno = f->err;
    return -1;
  }
  if (wr || create || trunc) note_mutation(how, path);
  int err = 0;
  auto ino = lookup(path, err);
  if (!ino && create && err == ENOENT) {
    ino = std::make_shared<Inode>();
    W->files[norm(path)] = ino;
  }
  if (!ino) {
    slog("open %s -> errno %d\n", path, err);
    fold(hstr(path, strlen(path)) + err);
    errno = err;
    return -1;
  }
  if (ino->noperm) {
    slog("open %s -> EACCES\n", path);
    fold(EACCES);
    errno = EACCES;
    return -1;
  }
  if (ino->dir && wr) {
    errno = EISDIR;
    return -1;
  }
  if (trunc) ino->data.clear();
  int k = -1;
  for (size_t i = 0; i < g_fds->size(); ++i)
    if (!(*g_fds)[i].used) {
      k = (int)i;
      break;
    }
  if (k < 0) {
    g_fds->push_back(OpenFile());
    k = (int)g_fds->size() - 1;
  }
  OpenFile &o = (*g_fds)[k];
  o.used = true;
  o.ino = ino;
  o.path = path;
  o.pos = 0;
  o.wr = wr;
  o.task = g_cur;
  ++S->open_left;
  addline(t.opened, t.openlen, sizeof t.opened, path);
  slog("open %s -> fd %d\n", path, FD0 + k);
  fold(hstr(path, strlen(path)));
  return FD0 + k;
}
static int vfs_close(int fd) {
  ++S->nops[OP_CLOSE];
  OpenFile &o = (*g_fds)[fd - FD0];
  slog("close fd %d\n", fd);
  fold(0xc105e + fd);
  o.used = false;
  o.ino.reset();
  --S->open_left;
  return 0;
}
static ssize_t vfs_read(int fd, void *buf, size_t n, off_t *at) {
  tick();
  OpenFile &o = (*g_fds)[fd - FD0];
  const EnvKnobs &e = W->env;
  if (e.eintr > 0 && g_envrng.chance(e.eintr)) {
    ++S->eintrs;
    fold(EINTR);
    slog("read fd %d -> EINTR\n", fd);
    errno = EINTR;
    return -1;
  }
  const Fault *f = match_fault(OP_READ);
  if (f && f->err) {
    slog("read fd %d (%s) at %lld -> error %d\n", fd, o.path.c_str(), (long long)o.pos, f->err);
    fold(0x4ead + f->err);
    errno = f->err;
    return -1;
  }
  if (o.ino->dir) {
    errno = EISDIR;
    fold(EISDIR);
    return -1;
  }
  off_t &pos = at ? *at : o.pos;
  const std::string &d = o.ino->data;
  size_t avail = pos < (off_t)d.size() ? d.size() - pos : 0;
  size_t k = n < avail ? n : avail;
  if (f && f->err == 0 && k > 0) {
    size_t a = f->arg > 0 ? f->arg : 1;
    if (a < k) k = a;
    ++S->shorts;
  } else if (e.chunk_mode && k > 0) {
    size_t a = e.chunk < 1 ? 1 : e.chunk;
    if (e.chunk_mode == 2) a = 1 + g_envrng.below(a);
    if (a < k) {
      k = a;
      ++S->shorts;
    }
  }
  memcpy(buf, d.data() + pos, k);
  slog("read fd %d (%s) at %lld: %zu of %zu\n", fd, o.path.c_str(), (long long)pos, k, n);
  pos += k;
  fold(0x4ead0000 + k * 31 + pos);
  return (ssize_t)k;
}
static off_t vfs_seek(int fd, off_t off, int wh) {
  tick();
  OpenFile &o = (*g_fds)[fd - FD0];
  const Fault *f = match_fault(OP_SEEK);
  if (f && f->err) {
    slog("lseek fd %d -> error %d\n", fd, f->err);
    fold(0x5eec + f->err);
    errno = f->err;
    return -1;
  }
  off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.pos : (off_t)o.ino->data.size();
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  o.pos = base + off;
  slog("lseek fd %d -> %lld\n", fd, (long long)o.pos);
  fold(0x5eec0000 + o.pos);
  return o.pos;
}
static void fill_stat(struct stat *st, const Inode &i) {
  memset(st, 0, sizeof *st);
  st->st_mode = i.dir ? (S_IFDIR | 0755) : (S_IFREG | (i.noperm ? 0 : 0644));
  st->st_size = i.data.size();
  st->st_dev = 1;
  st->st_ino = i.id;
  st->st_mtime = st->st_ctime = st->st_atime = (time_t)(1600000000 + W->env.clock % 100000000);  // everything happens within a second
  st->st_blksize = 4096;
  st->st_nlink = 1;
  st->st_blocks = (i.data.size() + 511) / 512;
}
static int vfs_stat(const char *path, struct stat *st) {
  tick();
  const Fault *f = match_fault(OP_STAT);
  int err = 0;
  if (f && f->err) err = f->err;
  else {
    auto ino = lookup(path, err);
    if (ino) {
      if (st) fill_stat(st, *ino);
      slog("stat %s -> ok\n", path);
      fold(hstr(path, strlen(path)) + 1);
      return 0;
    }
  }
  slog("stat %s -> errno %d\n", path, err);
  fold(hstr(path, strlen(path)) + err * 7);
  errno = err;
  return -1;
}

static ssize_t fck_read(void *c, char *b, size_t n) {
  H h;
  return vfs_read((int)(intptr_t)c, b, n, nullptr);
}
static ssize_t fck_write(void *c, const char *b, size_t n) {
  H h;
  OpenFile &o = (*g_fds)[(int)(intptr_t)c - FD0];
  if (o.ino && o.wr) o.ino->data.append(b, n);
  return (ssize_t)n;
}
static int fck_seek(void *c, off64_t *off, int wh) {
  H h;
  off_t r = vfs_seek((int)(intptr_t)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int fck_close(void *c) {
  H h;
  return vfs_close((int)(intptr_t)c);
}
static FILE *cookie_file(int fd, const char *mode) {
  cookie_io_functions_t io = {fck_read, fck_write, fck_seek, fck_close};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  if (f) (*g_files)[f] = fd;
  return f;
}

// ---------------------------------------------------------------- ending a task
static void flush_all() {
  std::cout.flush();
  std::cerr.flush();
  {
    H h;
    fflush(T[g_cur].out);
    fflush(T[g_cur].err);
  }
}
[[noreturn]] static void task_finished() {
  H h;
  T[g_cur].done = true;
  fold(0xf1a1 + g_cur);
  int t = pick_other(g_qrng.next());
  if (t < 0) child_end();
  int prev = g_cur;
  ++S->switches;
  g_cur = t;
  set_std(t);
  slog("step %llu: task %d finished, run %d\n", (unsigned long long)g_steps, prev, t);
  sem_post(&T[t].sem);
  for (;;) pause();
}
static void record_end(int status, int code, const char *what) {
  STask &t = S->t[g_cur];
  if (t.status == ST_NONE) {
    t.status = status;
    t.code = code;
    if (what) strncpy(t.what, what, sizeof t.what - 1);
    fold(0xe4d + status * 100 + code);
    slog("task %d ends: %s %d %s\n", g_cur, status_name(status), code, what ? what : "");
  }
}
static void on_terminate() {
  char buf[400] = "unknown exception";
  {
    H h;
    if (auto p = std::current_exception()) {
      try {
        std::rethrow_exception(p);
      } catch (std::exception &e) {
        snprintf(buf, sizeof buf, "%s", e.what());
      } catch (...) {
      }
    }
  }
  record_end(ST_TERMINATE, 134, buf);
  child_end();
}
static void *task_main(void *a) {
  int id = (int)(intptr_t)a;
  while (sem_wait(&T[id].sem) != 0) {
  }
  Task &t = T[id];
  std::vector<const char *> av;
  ++g_harness;
  for (auto &s : t.spec.argv) av.push_back(s.c_str());
  av.push_back(nullptr);
  --g_harness;
  int rc = 0;
  if (setjmp(t.jb) == 0) {
    if (g_ntasks == 1) {
      rc = t.spec.fn((int)av.size() - 1, av.data());  // an escaping exception terminates, as in the real program
      record_end(ST_EXIT, rc & 255, nullptr);
      flush_all();
    } else {
      try {
        rc = t.spec.fn((int)av.size() - 1, av.data());
        record_end(ST_EXIT, rc & 255, nullptr);
      } catch (std::exception &e) {
        record_end(ST_TERMINATE, 134, e.what());
      } catch (...) {
        record_end(ST_TERMINATE, 134, "unknown exception");
      }
      flush_all();
    }
  }
  task_finished();
}

static void fill_bytes(void *p, size_t n, int mode, uint64_t seed) {
  unsigned char *c = (unsigned char *)p;
  switch (mode) {
    case 0: return;
    case 1: memset(c, 0, n); return;
    case 2: memset(c, 0xff, n); return;
    case 3: {
      uint64_t s = seed;
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        uint64_t v = s ^ (s >> 31);
        memcpy(c + i, &v, 8);
      }
      for (; i < n; ++i) c[i] = (unsigned char)(s >> (8 * (i & 7)));
      return;
    }
    default: {
      uint64_t s = seed;
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        double v = ((double)(int64_t)s) / 9.3e18;
        memcpy(c + i, &v, 8);
      }
      for (; i < n; ++i) c[i] = 0x3f;
    }
  }
}

#if SIM_ASAN
static void asan_cb(const char *rep) {
  if (!S) return;
  STask &t = S->t[g_cur];
  const char *p = strstr(rep, "ERROR: AddressSanitizer");
  if (!p) p = rep;
  if (t.status == ST_NONE) {
    t.status = ST_SANITIZER;
    size_t k = 0;
    // first line plus the first frames inside the code under test
    while (p[k] && p[k] != '\n' && k < 150) {
      t.what[k] = p[k];
      ++k;
    }
    t.what[k] = 0;
    // drop addresses so that the text is stable
    char *q = strstr(t.what, " on address");
    if (q) *q = 0;
  }
}
#endif

static void run_child(const World &w, const std::vector<TaskSpec> &tasks, bool want_log) {
  ++g_harness;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {40, 45};
#if SIM_ASAN
  rl = {120, 125};
#endif
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit nc = {0, 0};
  setrlimit(RLIMIT_CORE, &nc);
  alarm(240);
  int nul = (*(open_fn)dlsym(RTLD_NEXT, "open"))("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);
  dup2(nul, 2);
#if SIM_ASAN
  __asan_set_error_report_callback(asan_cb);
#endif
  std::set_terminate(on_terminate);
  W = new World(w);
  Inode::next_id() = 1;  // the same numbers in every process
  for (auto &f : W->files) f.second->id = Inode::next_id()++;
  // inodes are shared pointers: give the child its own copies so that events
  // and the program cannot touch the parent's (they could not: fork), cheap.
  g_faults = w.faults;
  for (auto &f : g_faults)
    if (f.op == OP_ALLOC) {
      g_alloc_fail_at = f.nth;
      g_alloc_persist = f.persist;
    }
  g_want_log = want_log;
  g_record = w.record;
  g_envrngs.assign(MAXT, Rng(mix(w.env.seed, 77)));
  g_qrng = Rng(mix(w.quantum_seed, 78));
  g_fds = new std::vector<OpenFile>();
  g_files = new std::map<FILE *, int>();
  g_ntasks = (int)tasks.size();
  T = new Task[g_ntasks];
  sem_init(&g_all_done, 0, 0);
  cookie_io_functions_t io = {nullptr, dev_cookie_write, nullptr, nullptr};
  for (int i = 0; i < g_ntasks; ++i) {
    sem_init(&T[i].sem, 0, 0);
    T[i].spec = tasks[i];
    g_dev[i][0] = {i, 1};
    g_dev[i][1] = {i, 2};
    T[i].out = fopencookie(&g_dev[i][0], "w", io);
    T[i].err = fopencookie(&g_dev[i][1], "w", io);
    size_t bs = w.env.out_buf < 1 ? 1 : w.env.out_buf;
    setvbuf(T[i].out, (char *)malloc(bs), w.env.out_mode == 0 ? _IOFBF : w.env.out_mode == 1 ? _IOLBF : _IONBF, bs);
    setvbuf(T[i].err, nullptr, _IONBF, 0);
  }
  std::cout.rdbuf(new TaskBuf(false));
  std::cerr.rdbuf(new TaskBuf(true));
  std::clog.rdbuf(new TaskBuf(true));
  std::cout.clear();
  std::cerr.clear();
  const size_t SS = 16 << 20;
  for (int i = 0; i < g_ntasks; ++i) {
    char *stk = (char *)real_mmap()(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t top = 192 << 10;
    fill_bytes(stk + SS - top, top, w.env.stack_fill, mix(w.env.fill_seed, 1000 + i));
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stk, SS);
    pthread_create(&T[i].th, &at, task_main, (void *)(intptr_t)i);
  }
  g_cur = 0;
  set_std(0);
  if (w.quantum) g_next_quantum = 1 + g_qrng.below(2 * w.quantum);
  g_steps = 0;
  recompute_next();
  g_allocs = 0;
  g_live = 0;
  g_in_sim = true;
  --g_harness;
  sem_post(&T[0].sem);
  for (;;) pause();
}

static std::vector<std::string> lines(const char *p, size_t n) {
  std::vector<std::string> r;
  std::string s(p, n);
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i);
    if (j == std::string::npos) j = s.size();
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return r;
}

Outcome run_world(const World &w, const std::vector<TaskSpec> &tasks, bool want_log) {
  if (!S) S = (Shared *)real_mmap()(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // reset
  memset(S, 0, offsetof(Shared, log));
  if (w.record) memset(S->place, 0, sizeof S->place);
  for (int i = 0; i < MAXT; ++i) {
    STask &t = S->t[i];
    t.status = 0;
    t.code = 0;
    memset(t.what, 0, sizeof t.what);
    t.outlen = t.errlen = t.openlen = t.triedlen = 0;
    t.out_failed = 0;
  }
  S->hash = 0x1234567;
  pid_t pid = real_fork()();
  if (pid == 0) {
    run_child(w, tasks, want_log);
    _exit(99);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  o.task.resize(tasks.size());
  for (size_t i = 0; i < tasks.size(); ++i) {
    STask &t = S->t[i];
    TaskOutcome &r = o.task[i];
    r.status = t.status;
    r.code = t.code;
    r.what = t.what;
    r.out.assign(t.out, t.outlen);
    r.err.assign(t.err, t.errlen);
    r.out_failed = t.out_failed;
    r.opened = lines(t.opened, t.openlen);
    r.tried = lines(t.tried, t.triedlen);
  }
  // a task still running when the process ended
  auto mark = [&](int status, int code, const std::string &what) {
    for (auto &r : o.task)
      if (r.status == ST_NONE) {
        r.status = status;
        r.code = code;
        r.what = what;
      }
  };
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) mark(ST_HANG, sg, "cpu or wall limit");
    else mark(ST_SIGNAL, sg, strsignal(sg));
  } else if (!S->finished) {
    int c = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (c == 77) mark(ST_SANITIZER, 77, "sanitizer report");
    else mark(ST_INTERNAL, c, "child ended early");
  } else {
    // another task ended the process (terminate, signal, hang)
    int first = ST_NONE;
    std::string what;
    int code = 0;
    for (auto &r : o.task)
      if (r.status != ST_NONE && r.status != ST_EXIT) {
        first = r.status;
        what = r.what;
        code = r.code;
      }
    if (first != ST_NONE) mark(first, code, "with another task: " + what);
    else mark(ST_INTERNAL, 0, "no status");
  }
  o.steps = S->steps;
  o.allocs = S->allocs;
  o.vfs_ops = S->vfs_ops;
  o.switches = S->switches;
  for (int i = 0; i < OP_N; ++i) {
    o.nops[i] = S->nops[i];
    o.fired[i] = S->fired[i];
  }
  o.shared = S->shared;
  o.shorts = S->shorts;
  o.eintrs = S->eintrs;
  o.events_fired = S->events_fired;
  o.maxlive = S->maxlive;
  o.mutation = S->mutation;
  o.open_left = S->open_left;
  o.hash = S->hash;
  for (auto &r : o.task) o.hash = mix(o.hash, hstr(r.out.data(), r.out.size()) ^ hstr(r.err.data(), r.err.size()) ^ (uint64_t)(r.status * 1000 + r.code) ^ hstr(r.what.data(), r.what.size()));
  o.hash = mix(o.hash, o.steps);
  o.hash = mix(o.hash, o.allocs);
  o.log.assign(S->log, S->loglen);
  if (w.record) {
    std::map<uint32_t, const RawPlace *> by;
    for (auto &p : S->place)
      if (p.key) by[p.order] = &p;
    for (auto &b : by) {
      Place q;
      q.kind = b.second->kind;
      q.key = b.second->key;
      q.at.assign(b.second->smp, b.second->smp + std::min<uint32_t>(4, b.second->count));
      o.places.push_back(q);
    }
  }
  o.extra.assign(S->extra, S->extralen);
  return o;
}

void extra_note(const std::string &s) {
  H h;
  if (S->extralen + s.size() + 1 < sizeof S->extra) {
    memcpy(S->extra + S->extralen, s.data(), s.size());
    S->extralen += s.size();
    S->extra[S->extralen++] = '\n';
  }
  fold(hstr(s.data(), s.size()));
}
World &live_world() { return *W; }
void add_fault_relative(const Fault &f) {
  H h;
  Fault g = f;
  if (g.op == OP_ALLOC) {
    g_alloc_fail_at = g_allocs + g.nth;
    g_alloc_persist = g.persist;
    return;
  }
  g.nth += S->nops[g.op];
  g_faults.push_back(g);
}
void clear_faults() {
  H h;
  g_faults.clear();
  g_alloc_fail_at = 0;
  g_alloc_persist = false;
}
void add_event_relative(FsEvent e) {
  H h;
  e.at += S->vfs_ops;
  W->events.push_back(e);
}
void clear_events() {
  H h;
  W->events.clear();
}
void apply_now(const FsEvent &e) {
  H h;
  apply_event(e);
}
int open_files() { return S->open_left; }
uint64_t fired_count(int op) { return S->fired[op]; }
uint64_t op_count(int op) { return S->nops[op]; }

void init_process(int argc, char **argv) {
  (void)argc;
  if (!real_getenv()("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
}

// ---------------------------------------------------------------- allocator
static void *sim_alloc(size_t n) {
  bool a = active();
  if (a) {
    uint64_t k = ++g_allocs;
    if (g_record) note_place(OP_ALLOC, k);
    if (g_alloc_fail_at && (k == g_alloc_fail_at || (g_alloc_persist && k >= g_alloc_fail_at))) {
      ++S->fired[OP_ALLOC];
      fold(0xa110c + k);
      if (g_want_log) {
        H h;
        slog("alloc #%llu of %zu bytes fails\n", (unsigned long long)k, n);
      }
      return nullptr;
    }
    if (n > W->heap_cap) {
      return nullptr;  // what a real allocator answers to an absurd request
    }
    if (g_live + (int64_t)n > (int64_t)W->heap_cap) {
      H h;
      die(ST_RUNAWAY, 0, "live heap exceeds the cap");
    }
  }
  void *p = malloc(n ? n : 1);
  if (!p) return nullptr;
  if (a) {
    g_live += malloc_usable_size(p);
    if (g_live > (int64_t)S->maxlive) S->maxlive = g_live;
    if (W->env.heap_fill) fill_bytes(p, n, W->env.heap_fill, mix(W->env.fill_seed, g_allocs));
  }
  return p;
}
static void sim_free(void *p) {
  if (!p) return;
  if (active()) {
    size_t u = malloc_usable_size(p);
    g_live -= u;
    if (W->env.free_fill) memset(p, W->env.free_fill & 255, u);
  }
  free(p);
}
}  // namespace sim

using namespace sim;

void *operator new(size_t n) {
  void *p = sim_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = sim_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p); }

extern "C" {

#if SIM_ASAN
const char *__asan_default_options() { return "exitcode=77:detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"; }
const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=77"; }
#endif

void __cyg_profile_func_enter(void *fn, void *site) {
  if (!g_in_sim || g_harness) return;
  if (g_record) {
    g_stk[g_cur][g_depth[g_cur]++ & 255] = (uintptr_t)fn * 31 + (uintptr_t)site;
    if (g_record > 1) note_place(PLACE_STEP, g_steps + 1);
  }
  if (++g_steps >= g_next) slow_step();
}
void __cyg_profile_func_exit(void *fn, void *site) {
  if (!g_in_sim || g_harness) return;
  if (g_record) {
    if (g_record > 1) note_place(PLACE_STEP, g_steps + 1, 1);
    if (g_depth[g_cur] > 0) --g_depth[g_cur];
  }
  if (++g_steps >= g_next) slow_step();
}

// ------------------------------------------------------------ memory accesses
// The code under test of the variant "mem" calls these around its accesses.
// Accesses to writable global data, and to memory that two threads have touched
// and one of them has written, may be followed by another thread.
extern char __data_start[], _end[];
struct Touched {
  uintptr_t at;
  uint8_t read, written;
};
static Touched g_touched[1 << 14];
static Rng g_shrng(1);
static inline void mem_access(uintptr_t p, bool write) {
  if (g_ntasks < 2 || !g_in_sim || g_harness || !W->shared.per_mille) return;
  bool global = p >= (uintptr_t)__data_start && p < (uintptr_t)_end;
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  if (!global && p + (12 << 20) > here && p < here + (12 << 20)) return;  // its own stack
  Touched &t = g_touched[(p >> 3) * 0x9E3779B97F4A7C15ull >> 50];
  if (t.at != p >> 3) t = {p >> 3, 0, 0};
  (write ? t.written : t.read) |= 1 << g_cur;
  uint8_t who = t.read | t.written;
  if (!global && (!t.written || !(who & (who - 1)))) return;
  uint64_t n = S->shared++;
  if (n == 0) g_shrng = Rng(mix(W->shared.seed, 79));
  bool go = g_shrng.below(1000) < W->shared.per_mille;
  if (!go || n < W->shared.from || n >= W->shared.to) return;
  H h;
  int o = pick_other(g_shrng.next());
  if (o >= 0) switch_to(o);
}
#define MEMFN(n)                                                                                        \
  void __tsan_read##n(void *p) { mem_access((uintptr_t)p, false); }                                     \
  void __tsan_write##n(void *p) { mem_access((uintptr_t)p, true); }                                     \
  void __tsan_unaligned_read##n(void *p) { mem_access((uintptr_t)p, false); }                           \
  void __tsan_unaligned_write##n(void *p) { mem_access((uintptr_t)p, true); }                           \
  void __tsan_volatile_read##n(void *p) { mem_access((uintptr_t)p, false); }                            \
  void __tsan_volatile_write##n(void *p) { mem_access((uintptr_t)p, true); }
MEMFN(1)
MEMFN(2)
MEMFN(4)
MEMFN(8)
MEMFN(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void *p) { mem_access((uintptr_t)p, false); }
void __tsan_vptr_update(void *p, void *) { mem_access((uintptr_t)p, true); }
void __tsan_read_range(void *p, size_t) { mem_access((uintptr_t)p, false); }
void __tsan_write_range(void *p, size_t) { mem_access((uintptr_t)p, true); }
#define MEMATOMIC(b, T)                                                                                       \
  T __tsan_atomic##b##_load(const volatile T *p, int) {                                                       \
    mem_access((uintptr_t)p, false);                                                                          \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                           \
  void __tsan_atomic##b##_store(volatile T *p, T v, int) {                                                    \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                 \
    mem_access((uintptr_t)p, true);                                                                           \
  }                                                                                                           \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) {                                                    \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                           \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) {                                                   \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                           \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) {                                                   \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                           \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) {                                                    \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                           \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) {                                                   \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                           \
  T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) {                                                   \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                           \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                        \
    mem_access((uintptr_t)p, true);                                                                           \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
  }                                                                                                           \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {                          \
    return __tsan_atomic##b##_compare_exchange_strong(p, e, v, 0, 0);                                         \
  }                                                                                                           \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                              \
    mem_access((uintptr_t)p, true);                                                                           \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
    return e;                                                                                                 \
  }
MEMATOMIC(8, uint8_t)
MEMATOMIC(16, uint16_t)
MEMATOMIC(32, uint32_t)
MEMATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ files
FILE *fopen(const char *path, const char *mode) {
  if (!active()) return real_fopen()(path, mode);
  H h;
  bool wr = strpbrk(mode, "wa+") != nullptr;
  int fd = vfs_open(path, wr, strpbrk(mode, "wa") != nullptr, strchr(mode, 'w') != nullptr, "fopen-for-writing");
  if (fd < 0) return nullptr;
  FILE *f = cookie_file(fd, mode);
  if (f && strchr(mode, 'a')) (*g_fds)[fd - FD0].pos = (*g_fds)[fd - FD0].ino->data.size();
  return f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, const char *mode) noexcept {
  if (!active()) return real_fdopen()(fd, mode);
  H h;
  if (!simfd(fd)) {
    errno = EBADF;
    return nullptr;
  }
  return cookie_file(fd, mode);
}
FILE *freopen(const char *p, const char *m, FILE *f) {
  if (!active()) return real_freopen()(p, m, f);
  H h;
  note_mutation("freopen", p);
  errno = EACCES;
  return nullptr;
}
int fclose(FILE *f) {
  if (!g_in_sim || !g_files) return real_fclose()(f);
  H h;
  g_files->erase(f);
  return real_fclose()(f);
}
int fileno(FILE *f) noexcept {
  if (!g_in_sim) return real_fileno()(f);
  H h;
  for (int i = 0; i < g_ntasks; ++i) {
    if (f == T[i].out) return 1;
    if (f == T[i].err) return 2;
  }
  auto it = g_files->find(f);
  if (it != g_files->end()) return it->second;
  return real_fileno()(f);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (!g_in_sim) return real_read()(fd, buf, n);
  H h;
  if (simfd(fd)) return vfs_read(fd, buf, n, nullptr);
  if (fd == 0) return 0;
  errno = EBADF;
  return -1;
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  if (!g_in_sim) return real_pread()(fd, buf, n, off);
  H h;
  if (simfd(fd)) return vfs_read(fd, buf, n, &off);
  errno = EBADF;
  return -1;
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!g_in_sim) return real_readv()(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; ++i) {
    ssize_t k = read(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return tot ? tot : k;
    tot += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return tot;
}
static ssize_t sim_write(int fd, const void *buf, size_t n) {
  H h;
  if (fd == 1 || fd == 2) return dev_write(g_cur, fd, (const char *)buf, n);
  if (simfd(fd)) {
    OpenFile &o = (*g_fds)[fd - FD0];
    note_mutation("write", o.path.c_str());
    if (o.wr) o.ino->data.append((const char *)buf, n);
    return (ssize_t)n;
  }
  errno = EBADF;
  return -1;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!g_in_sim) return real_write()(fd, buf, n);
  return sim_write(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!g_in_sim) return real_writev()(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t k = sim_write(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return tot ? tot : k;
    tot += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return tot;
}
off_t lseek(int fd, off_t off, int wh) noexcept {
  if (!g_in_sim) return real_lseek()(fd, off, wh);
  H h;
  if (simfd(fd)) return vfs_seek(fd, off, wh);
  errno = ESPIPE;
  return -1;
}
off_t lseek64(int fd, off_t off, int wh) noexcept { return lseek(fd, off, wh); }
int close(int fd) {
  if (!g_in_sim) return real_close()(fd);
  H h;
  if (simfd(fd)) return vfs_close(fd);
  errno = EBADF;
  return -1;
}
static int sim_open(const char *path, int flags) {
  H h;
  int acc = flags & O_ACCMODE;
  return vfs_open(path, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, "open-for-writing");
}
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!active()) {
    static open_fn r = real<open_fn>("open");
    return r(path, flags, mode);
  }
  return sim_open(path, flags);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!active()) {
    static open_fn r = real<open_fn>("open64");
    return r(path, flags, mode);
  }
  return sim_open(path, flags);
}
int openat(int d, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!active()) {
    static openat_fn r = real<openat_fn>("openat");
    return r(d, path, flags, mode);
  }
  return sim_open(path, flags);
}
int stat(const char *p, struct stat *st) noexcept {
  if (!active()) return real_stat()(p, st);
  H h;
  return vfs_stat(p, st);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept {
  if (!active()) return real_lstat()(p, st);
  H h;
  return vfs_stat(p, st);
}
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int fl) noexcept {
  if (!active()) return real_fstatat()(d, p, st, fl);
  H h;
  return vfs_stat(p, st);
}
int fstat(int fd, struct stat *st) noexcept {
  if (!g_in_sim) return real_fstat()(fd, st);
  H h;
  ++S->nops[OP_FSTAT];
  if (simfd(fd)) {
    fill_stat(st, *(*g_fds)[fd - FD0].ino);
    return 0;
  }
  memset(st, 0, sizeof *st);
  if (fd >= 0 && fd <= 2) {
    st->st_mode = S_IFIFO | 0600;
    st->st_blksize = 4096;
    return 0;
  }
  errno = EBADF;
  return -1;
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
static int sim_access(const char *p, int mode) {
  H h;
  struct stat st;
  if (vfs_stat(p, &st) != 0) return -1;
  int e = 0;
  auto i = lookup(p, e);
  if (i && i->noperm && (mode & R_OK)) {
    errno = EACCES;
    return -1;
  }
  return 0;
}
int access(const char *p, int mode) noexcept {
  if (!active()) return real_access()(p, mode);
  return sim_access(p, mode);
}
int faccessat(int d, const char *p, int mode, int fl) noexcept {
  if (!active()) return real_faccessat()(d, p, mode, fl);
  return sim_access(p, mode);
}
int poll(struct pollfd *f, nfds_t n, int to) {
  if (!active()) return real_poll()(f, n, to);
  int c = 0;
  for (nfds_t i = 0; i < n; ++i) {
    f[i].revents = f[i].events & POLLIN;
    if (f[i].revents) ++c;
  }
  return c;
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (!active()) {
    static ioctl_fn r = real<ioctl_fn>("ioctl");
    return r(fd, req, arg);
  }
  H h;
  if (simfd(fd) && req == FIONREAD) {
    OpenFile &o = (*g_fds)[fd - FD0];
    *(int *)arg = o.pos < (off_t)o.ino->data.size() ? (int)(o.ino->data.size() - o.pos) : 0;
    return 0;
  }
  errno = ENOTTY;
  return -1;
}
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) noexcept {
  if (!active() || fd < FD0) return real_mmap()(a, n, prot, fl, fd, off);
  H h;
  if (!simfd(fd)) {
    errno = EBADF;
    return MAP_FAILED;
  }
  tick();
  const std::string &d = (*g_fds)[fd - FD0].ino->data;
  void *p = real_mmap()(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p != MAP_FAILED && off < (off_t)d.size()) memcpy(p, d.data() + off, std::min(n, d.size() - (size_t)off));
  return p;
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) noexcept { return mmap(a, n, prot, fl, fd, off); }

// ------------------------------------------------------------ changes to the file system
#define MUT2(name, args, call, pathexpr)                \
  int name args noexcept {                              \
    if (!active()) return real_##name() call;           \
    H h;                                                \
    note_mutation(#name, pathexpr);                     \
    return 0;                                           \
  }
int unlink(const char *p) noexcept {
  if (!active()) return real_unlink()(p);
  H h;
  note_mutation("unlink", p);
  return W->files.erase(norm(p)) ? 0 : (errno = ENOENT, -1);
}
int remove(const char *p) noexcept {
  if (!active()) return real_remove()(p);
  H h;
  note_mutation("remove", p);
  return W->files.erase(norm(p)) ? 0 : (errno = ENOENT, -1);
}
int rename(const char *a, const char *b) noexcept {
  if (!active()) return real_rename()(a, b);
  H h;
  note_mutation("rename", a);
  auto it = W->files.find(norm(a));
  if (it == W->files.end()) {
    errno = ENOENT;
    return -1;
  }
  auto i = it->second;
  W->files.erase(it);
  W->files[norm(b)] = i;
  return 0;
}
int ftruncate(int fd, off_t n) noexcept {
  if (!active()) return real_ftruncate()(fd, n);
  H h;
  note_mutation("ftruncate", "");
  return 0;
}
int fchmod(int fd, mode_t m) noexcept {
  if (!active()) return real_fchmod()(fd, m);
  H h;
  note_mutation("fchmod", "");
  return 0;
}
MUT2(mkdir, (const char *p, mode_t m), (p, m), p)
MUT2(rmdir, (const char *p), (p), p)
MUT2(truncate, (const char *p, off_t n), (p, n), p)
MUT2(chmod, (const char *p, mode_t m), (p, m), p)
MUT2(link, (const char *p, const char *q), (p, q), q)
MUT2(symlink, (const char *p, const char *q), (p, q), q)
#define MUTAT(name, args, pathexpr)                                  \
  int name args noexcept {                                           \
    if (!g_in_sim) {                                                 \
      errno = ENOSYS;                                                \
      return -1;                                                     \
    }                                                                \
    H h;                                                             \
    note_mutation(#name, pathexpr);                                  \
    return 0;                                                        \
  }
MUTAT(unlinkat, (int, const char *p, int), p)
MUTAT(mkdirat, (int, const char *p, mode_t), p)
MUTAT(renameat, (int, const char *p, int, const char *), p)
MUTAT(renameat2, (int, const char *p, int, const char *, unsigned), p)
MUTAT(symlinkat, (const char *, int, const char *p), p)
MUTAT(linkat, (int, const char *, int, const char *p, int), p)
MUTAT(utimensat, (int, const char *p, const struct timespec *, int), p)
MUTAT(utimes, (const char *p, const struct timeval *), p)
MUTAT(truncate64, (const char *p, off64_t), p)
MUTAT(mkfifo, (const char *p, mode_t), p)
MUTAT(chown, (const char *p, uid_t, gid_t), p)
MUTAT(lchown, (const char *p, uid_t, gid_t), p)
MUTAT(fchown, (int, uid_t, gid_t), "")
MUTAT(fchownat, (int, const char *p, uid_t, gid_t, int), p)
MUTAT(fchmodat, (int, const char *p, mode_t, int), p)
MUTAT(utime, (const char *p, const struct utimbuf *), p)
MUTAT(futimens, (int, const struct timespec *), "")
MUTAT(futimes, (int, const struct timeval *), "")
MUTAT(ftruncate64, (int, off64_t), "")
MUTAT(mknod, (const char *p, mode_t, dev_t), p)
MUTAT(setxattr, (const char *p, const char *, const void *, size_t, int), p)
MUTAT(removexattr, (const char *p, const char *), p)
#undef MUTAT
// the same for those that may be cancelled (declared without noexcept)
#define MUTX(name, args, pathexpr)  \
  int name args {                   \
    if (!g_in_sim) {                \
      errno = ENOSYS;               \
      return -1;                    \
    }                               \
    H h;                            \
    note_mutation(#name, pathexpr); \
    errno = EACCES;                 \
    return -1;                      \
  }
MUTX(mkstemp64, (char *p), p)
MUTX(mkostemp, (char *p, int), p)
MUTX(mkstemps, (char *p, int), p)
MUTX(posix_fallocate, (int, off_t, off_t), "")
MUTX(fallocate, (int, int, off_t, off_t), "")
#undef MUTX
char *mkdtemp(char *p) noexcept {
  if (!g_in_sim) {
    errno = ENOSYS;
    return nullptr;
  }
  H h;
  note_mutation("mkdtemp", p);
  errno = EACCES;
  return nullptr;
}
int creat64(const char *p, mode_t m) {
  if (!active()) return real_creat()(p, m);
  return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC);
}
// programs started: whatever they would do is outside of what can be followed
static int no_program(const char *what, const char *path) {
  H h;
  note_mutation(what, path);
  errno = EACCES;
  return -1;
}
typedef int (*execve_fn)(const char *, char *const[], char *const[]);
int execve(const char *p, char *const a[], char *const e[]) noexcept {
  if (!active()) {
    static execve_fn r = real<execve_fn>("execve");
    return r(p, a, e);
  }
  return no_program("execve", p);
}
typedef int (*execv_fn)(const char *, char *const[]);
int execv(const char *p, char *const a[]) noexcept {
  if (!active()) {
    static execv_fn r = real<execv_fn>("execv");
    return r(p, a);
  }
  return no_program("execv", p);
}
int execvp(const char *p, char *const a[]) noexcept {
  if (!active()) {
    static execv_fn r = real<execv_fn>("execvp");
    return r(p, a);
  }
  return no_program("execvp", p);
}
typedef int (*spawn_fn)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
int posix_spawn(pid_t *pid, const char *p, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char *const a[],
                char *const e[]) noexcept {
  if (!active()) {
    static spawn_fn r = real<spawn_fn>("posix_spawn");
    return r(pid, p, f, t, a, e);
  }
  no_program("posix_spawn", p);
  return EACCES;
}
int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char *const a[],
                 char *const e[]) noexcept {
  if (!active()) {
    static spawn_fn r = real<spawn_fn>("posix_spawnp");
    return r(pid, p, f, t, a, e);
  }
  no_program("posix_spawnp", p);
  return EACCES;
}
int creat(const char *p, mode_t m) {
  if (!active()) return real_creat()(p, m);
  return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC);
}
int mkstemp(char *p) {
  if (!active()) return real_mkstemp()(p);
  H h;
  note_mutation("mkstemp", p);
  errno = EACCES;
  return -1;
}
FILE *tmpfile() {
  if (!active()) return real_tmpfile()();
  H h;
  note_mutation("tmpfile", "");
  return nullptr;
}
int system(const char *c) {
  if (!active()) return real_system()(c);
  H h;
  note_mutation("system", c);
  return -1;
}
FILE *popen(const char *c, const char *m) {
  if (!active()) return real_popen()(c, m);
  H h;
  note_mutation("popen", c);
  return nullptr;
}
pid_t fork() noexcept {
  if (!active()) return real_fork()();
  H h;
  note_mutation("fork", "");
  errno = EAGAIN;
  return -1;
}
DIR *opendir(const char *p) {
  if (!active()) return real_opendir()(p);
  H h;
  ++S->nops[OP_OTHER];
  errno = EACCES;
  return nullptr;
}

// ------------------------------------------------------------ clock, identity, randomness
static uint64_t vnow_ns() { return (1500000000ull + (W->env.clock % 400000000ull)) * 1000000000ull + g_steps * 50ull; }
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!active()) return real_clock_gettime()(c, ts);
  uint64_t n = vnow_ns();
  ts->tv_sec = n / 1000000000ull;
  ts->tv_nsec = n % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval *tv, void *z) noexcept {
  if (!active()) return real_gettimeofday()(tv, z);
  uint64_t n = vnow_ns();
  tv->tv_sec = n / 1000000000ull;
  tv->tv_usec = n % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t *t) noexcept {
  if (!active()) return real_time()(t);
  time_t v = vnow_ns() / 1000000000ull;
  if (t) *t = v;
  return v;
}
clock_t clock() noexcept { return g_in_sim ? (clock_t)(g_steps / 20 + W->env.clock % 1000) : 0; }
pid_t getpid() noexcept {
  if (!active()) return real_getpid()();
  return 100 + W->env.clock % 30000;
}
char *getenv(const char *n) noexcept {
  if (!active()) return real_getenv()(n);
  // the environment is part of the simulated world: any variable may be set
  uint64_t h = mix(W->env.clock, hstr(n, strlen(n)));
  if (W->env.clock == 0 || h % 3 == 0) return nullptr;
  static char v[3][8] = {"1", "0", "de_DE"};
  return v[h / 3 % 3];
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!active()) return real_getrandom()(b, n, fl);
  fill_bytes(b, n, 3, mix(W->env.clock, 99));
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  if (!active()) return real_getentropy()(b, n);
  fill_bytes(b, n, 3, mix(W->env.clock, 98));
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!active()) return real_nanosleep()(a, b);
  g_steps += 1000;
  if (g_steps >= g_next) slow_step();
  return 0;
}
int usleep(useconds_t u) {
  if (!active()) return real_usleep()(u);
  g_steps += 1000;
  if (g_steps >= g_next) slow_step();
  return 0;
}
unsigned sleep(unsigned u) {
  if (!active()) return real_sleep()(u);
  g_steps += 1000;
  if (g_steps >= g_next) slow_step();
  return 0;
}
int sched_yield() noexcept {
  if (!active()) return real_sched_yield()();
  g_steps += 10;
  if (g_steps >= g_next) slow_step();
  return 0;
}

// ------------------------------------------------------------ blocking primitives: the scheduler decides
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (!active() || g_ntasks < 2) return real_pthread_mutex_lock()(m);
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) block_yield();
  return r;
}
int __cxa_guard_acquire(long long *gp) {
  volatile unsigned char *g = (volatile unsigned char *)gp;
  if (g[0]) return 0;
  while (g[1]) {  // another task is constructing the object
    if (active() && g_ntasks > 1) block_yield();
    else sched_yield();
    if (g[0]) return 0;
  }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(long long *gp) {
  volatile unsigned char *g = (volatile unsigned char *)gp;
  g[0] = 1;
  g[1] = 0;
}
void __cxa_guard_abort(long long *gp) {
  volatile unsigned char *g = (volatile unsigned char *)gp;
  g[1] = 0;
}

// ------------------------------------------------------------ endings
void exit(int code) noexcept {
  if (!active()) {
    real_exit()(code);
    __builtin_unreachable();
  }
  record_end(ST_EXIT, code & 255, "exit()");
  flush_all();
  if (g_ntasks == 1) {
    H h;
    child_end();
  }
  longjmp(T[g_cur].jb, 1);
}
void abort() noexcept {
  if (!g_in_sim) {
    real_abort()();
    __builtin_unreachable();
  }
  H h;
  die(ST_SIGNAL, SIGABRT, "abort()");
}
}
