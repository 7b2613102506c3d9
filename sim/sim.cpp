// Deterministic simulator core: choices, tasks, memory, virtual time, driver.
#include "sim.hpp"
#include "internal.hpp"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

static const char *stream_name[NSTREAM] = {"work", "sched", "fault", "conf", "mem"};
constexpr int MAXC = 400000;
constexpr int NCNT = 96;
constexpr int NOTES = 24000;

struct Result {
  uint64_t hash, ohash, covsig, sim_ns, edges, harmful, benign;
  int status; // 3 running, 0 ok, 1 violation
  int nontriv, abort_ok;
  char abort_sig[64];
  char sig[96];
  char msg[1500];
  struct { char name[44]; uint64_t v; } cnt[NCNT];
  uint32_t nch[NSTREAM];
  uint32_t ch[NSTREAM][MAXC];
  uint32_t note_len;
  char notes[NOTES];
};
static Result *R = nullptr;
bool in_run = false;
static bool keep_notes = false;

// ------------------------------------------------------------- hashing/rng
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 29);
}
static inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) : s(seed) {}
uint64_t Rng::next() { return splitmix(s); }
uint32_t Rng::below(uint32_t n) { return (uint32_t)(next() % n); }
double Rng::u() { return (next() >> 11) * 0x1.0p-53; }

static uint64_t sstate[NSTREAM];
static const std::vector<uint32_t> *replay = nullptr; // NSTREAM vectors
static uint32_t rpos[NSTREAM];

uint32_t draw(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay) {
    const auto &r = replay[s];
    v = rpos[s] < r.size() ? r[rpos[s]] : 0;
    ++rpos[s];
    if (v >= n) v %= n;
  } else {
    v = (uint32_t)((splitmix(sstate[s]) >> 16) % n);
  }
  if (R) {
    if (R->nch[s] < MAXC) R->ch[s][R->nch[s]] = v;
    R->nch[s]++;
    R->hash = mix(R->hash, v * 8 + s);
  }
  return v;
}
bool chance(Stream s, uint32_t pm) {
  if (!pm) return false;
  return draw(s, 1000) >= 1000 - std::min<uint32_t>(pm, 999);
}
double Wu() { return draw(WORK, 1u << 30) * 0x1.0p-30; }
double Wd(double lo, double hi) { return lo + (hi - lo) * Wu(); }
Rng Wrng() { return Rng(draw(WORK, 0xffffffffu)); }

std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  return std::string(b, n);
}
void note(const char *f, ...) {
  if (!keep_notes) return;
  char b[600];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b - 1, f, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (R->note_len + n < NOTES) {
    memcpy(R->notes + R->note_len, b, n);
    R->note_len += n;
  }
}
void observe_u(uint64_t v) {
  R->hash = mix(R->hash, v);
  R->ohash = mix(R->ohash, v);
}
void observe_d(double d) {
  uint64_t v;
  if (d != d) v = 0x7ff8000000000000ull; else memcpy(&v, &d, 8);
  observe_u(v);
}
void observe(const void *p, size_t n) {
  uint64_t h = n;
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  observe_u(h);
}
void io_event(uint64_t v) { if (R) R->hash = mix(R->hash, v); }
void count(const char *name, uint64_t n) {
  if (!R) return;
  for (int i = 0; i < NCNT; i++) {
    if (!R->cnt[i].name[0]) {
      strncpy(R->cnt[i].name, name, sizeof R->cnt[i].name - 1);
      R->cnt[i].v = n;
      return;
    }
    if (!strncmp(R->cnt[i].name, name, sizeof R->cnt[i].name - 1)) {
      R->cnt[i].v += n;
      return;
    }
  }
}
void nontrivial() { R->nontriv = 1; }

static void finish_run();
[[noreturn]] void fail(const char *sig, const char *f, ...) {
  in_run = false;
  va_list ap;
  va_start(ap, f);
  vsnprintf(R->msg, sizeof R->msg, f, ap);
  va_end(ap);
  strncpy(R->sig, sig, sizeof R->sig - 1);
  R->status = 1;
  finish_run();
  _exit(0);
}
bool same_double(double a, double b) {
  return (a != a && b != b) || memcmp(&a, &b, sizeof a) == 0;
}
bool close_to(double a, double b, double rtol, double atol) {
  if (a != a || b != b) return (a != a) && (b != b);
  if (a == b) return true;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

// ------------------------------------------------------------- time
static uint64_t vnow = 1700000000ull * 1000000000ull, vstart = vnow;
uint64_t now_ns() { return vnow; }
void advance_ns(uint64_t d) { vnow += d; }

// ------------------------------------------------------------- coverage
static uint8_t cov[1 << 16];
static uint64_t g_edges = 0;
uint64_t max_edges = 40000000;
static uint64_t fuel = 0; // edges until the next preemption (0 = none)
uint64_t edges() { return g_edges; }

// ------------------------------------------------------------- memory
bool abort_allowed = false;
const char *abort_sig = "process-died";
static int fillkind = -1;
static uint64_t fillseed = 0;
static void fill(void *p, size_t n) {
  if (fillkind <= 0) { if (fillkind == 0) memset(p, 0, n); return; }
  if (fillkind == 1) { memset(p, 0xA5, n); return; }
  if (fillkind == 2) { memset(p, 0xFF, n); return; }
  if (fillkind == 3) { // plausible small doubles
    double v = 3.25; size_t i = 0;
    for (; i + 8 <= n; i += 8) memcpy((char *)p + i, &v, 8);
    memset((char *)p + i, 0x11, n - i);
    return;
  }
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t v = splitmix(fillseed); memcpy((char *)p + i, &v, 8); }
  memset((char *)p + i, 0x77, n - i);
}
constexpr size_t TSZ = 1 << 15;
static void *tptr[TSZ];
static uint8_t tkind[TSZ];
static thread_local bool tracking = false;
static int64_t tlive = 0;
static uint64_t tfail = 0, ttotal = 0;
uint32_t alloc_fail_permille = 0;
static size_t tfind(void *p) {
  size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 49;
  for (size_t i = 0; i < TSZ; i++) {
    size_t k = (h + i) & (TSZ - 1);
    if (tptr[k] == p) return k;
    if (!tptr[k]) return TSZ;
  }
  return TSZ;
}
static void tadd(void *p, int kind) {
  size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 49;
  for (size_t i = 0; i < TSZ; i++) {
    size_t k = (h + i) & (TSZ - 1);
    if (!tptr[k] || tptr[k] == (void *)1) { tptr[k] = p; tkind[k] = kind; tlive++; return; }
  }
}
void alloc_track(bool on) { tracking = on; }
int64_t alloc_live_tracked() { return tlive; }
AllocStats alloc_stats() { return {tlive, ttotal, tfail}; }
static void *do_new(size_t n, int kind, bool nothrow) {
  if (in_run && alloc_fail_permille && tracking && chance(FAULT, alloc_fail_permille)) {
    tfail++;
    count("fault.alloc_fail");
    abort_allowed = true;
    R->abort_ok = 1;
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void *p = malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (in_run) fill(p, n);
  if (in_run && tracking) { ttotal++; tadd(p, kind); }
  return p;
}
static void do_delete(void *p, int kind) {
  if (!p) return;
  if (in_run && tlive) {
    size_t k = tfind(p);
    if (k != TSZ) {
      if (tkind[k] != kind) fail("mismatched-delete", "block allocated with %s released with %s", tkind[k] ? "new[]" : "new", kind ? "delete[]" : "delete");
      tptr[k] = (void *)1;
      tlive--;
    }
  }
  free(p);
}
} // namespace sim
void *operator new(size_t n) { return sim::do_new(n, 0, false); }
void *operator new[](size_t n) { return sim::do_new(n, 1, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, 0, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, 1, true); }
void operator delete(void *p) noexcept { sim::do_delete(p, 0); }
void operator delete[](void *p) noexcept { sim::do_delete(p, 1); }
void operator delete(void *p, size_t) noexcept { sim::do_delete(p, 0); }
void operator delete[](void *p, size_t) noexcept { sim::do_delete(p, 1); }
namespace sim {

// ------------------------------------------------------------- tasks
struct Task {
  std::string name;
  std::function<void()> fn;
  pthread_t th;
  sem_t sem;
  bool done = false, crashed = false, started = false;
  void *stk = nullptr;
};
static std::vector<Task *> tasks;
static int cur = -1;
static sem_t main_sem;
static int nopre = 0;
static uint32_t preempt_mean = 0;
int cur_task() { return cur; }
bool task_crashed(int id) { return tasks[id]->crashed; }
void no_preempt(int d) { nopre += d; }
void set_preempt_rate(uint32_t m) { preempt_mean = m; }
static constexpr size_t STK = 1 << 20, STKFILL = 160 << 10;

static std::vector<int> others() {
  std::vector<int> v;
  for (int i = 0; i < (int)tasks.size(); i++)
    if (i != cur && !tasks[i]->done && !tasks[i]->crashed) v.push_back(i);
  return v;
}
static void sem_waiti(sem_t *s) { while (sem_wait(s)) {} }
static void refuel() {
  fuel = 0;
  if (preempt_mean && tasks.size() > 1 && cur >= 0) {
    NoPreempt np;
    if (!others().empty()) {
      uint32_t k = draw(SCHED, 4);                 // quiet: no further edge preemption
      if (k) fuel = 1 + draw(SCHED, k == 1 ? preempt_mean / 16 + 2 : k == 2 ? preempt_mean : preempt_mean * 4);
    }
  }
}
static void *task_main(void *a) {
  Task *t = (Task *)a;
  sem_waiti(&t->sem);
  refuel();
  t->fn();
  nopre++;
  t->done = true;
  cur = -1;
  nopre--;
  sem_post(&main_sem);
  return nullptr;
}
int spawn(const char *name, std::function<void()> fn) {
  NoPreempt np;
  Task *t = new Task;
  t->name = name;
  t->fn = std::move(fn);
  sem_init(&t->sem, 0, 0);
  tasks.push_back(t);
  return (int)tasks.size() - 1;
}
static void start_thread(Task *t) {
  t->stk = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (fillkind > 0) fill((char *)t->stk + STK - STKFILL, STKFILL);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, t->stk, STK);
  if (pthread_create(&t->th, &at, task_main, t)) { perror("pthread_create"); _exit(9); }
  pthread_attr_destroy(&at);
  t->started = true;
}
void run_tasks() {
  if (tasks.size() > 1) count("tasks", tasks.size());
  for (;;) {
    std::vector<int> v;
    for (int i = 0; i < (int)tasks.size(); i++)
      if (!tasks[i]->done && !tasks[i]->crashed) v.push_back(i);
    if (v.empty()) break;
    int k = v[draw(SCHED, v.size())];
    note("[sched] run task %s", tasks[k]->name.c_str());
    if (!tasks[k]->started) start_thread(tasks[k]);
    cur = k;
    sem_post(&tasks[k]->sem);
    sem_waiti(&main_sem);
    cur = -1;
  }
  for (auto t : tasks) if (t->done) pthread_join(t->th, nullptr);
  // crashed tasks stay parked; forget the finished ones
  for (auto t : tasks) if (t->done) { munmap(t->stk, STK); delete t; }
  tasks.clear();
}
int lone(std::function<void()> fn) {
  int id = spawn("main", std::move(fn));
  Task *t = tasks[id];
  bool crashed = false;
  (void)t;
  // run now
  for (;;) {
    if (!t->started) start_thread(t);
    cur = id;
    sem_post(&t->sem);
    sem_waiti(&main_sem);
    cur = -1;
    crashed = t->crashed;
    if (t->done || t->crashed) break;
  }
  if (t->done) pthread_join(t->th, nullptr);
  tasks.clear();
  return crashed;
}
static void switch_to(int k, const char *why) {
  int me = cur;
  note("[sched] %s: %s -> %s", why, tasks[me]->name.c_str(), tasks[k]->name.c_str());
  count("preemptions");
  if (!tasks[k]->started) start_thread(tasks[k]);
  cur = k;
  Task *t = tasks[me];
  sem_post(&tasks[k]->sem);
  sem_waiti(&t->sem);
  refuel();
}
void yield_point(const char *kind) {
  if (cur < 0 || nopre || tasks.size() < 2) return;
  no_preempt(1);
  auto v = others();
  int k = -1;
  if (!v.empty()) {
    uint32_t n = v.size(), d = draw(SCHED, 4 * n);
    if (d >= 3 * n) k = v[d - 3 * n];
  }
  no_preempt(-1);
  if (k >= 0) switch_to(k, kind);
}
// forced switch while a lock is held by someone else
bool must_yield() {
  no_preempt(1);
  auto v = others();
  int k = v.empty() ? -1 : v[draw(SCHED, v.size())];
  no_preempt(-1);
  if (k < 0) return false;
  switch_to(k, "blocked");
  return true;
}
static void edge_preempt() {
  if (cur < 0 || nopre) { fuel = 1; return; }
  no_preempt(1);
  auto v = others();
  int k = v.empty() ? -1 : v[draw(SCHED, v.size())];
  no_preempt(-1);
  if (k >= 0) { count("edge_preemptions"); switch_to(k, "preempt"); }
  else fuel = 0;
}
void crash_current() {
  int me = cur;
  nopre = 0;
  fuel = 0;
  count("fault.crash");
  note("[fault] crash of %s", tasks[me]->name.c_str());
  tasks[me]->crashed = true;
  cur = -1;
  sem_post(&main_sem);
  for (;;) pause();
}
bool in_task() { return in_run && cur >= 0; }
} // namespace sim

extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (!sim::in_run) return;
  sim::cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
  if (++sim::g_edges > sim::max_edges) {
    sim::max_edges = ~0ull;
    sim::fail("no-progress", "no progress: more than the allowed number of steps (%llu) executed", (unsigned long long)sim::g_edges);
  }
  if (sim::fuel && --sim::fuel == 0) sim::edge_preempt();
}
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=0:handle_segv=1:detect_stack_use_after_return=0:"
         "allocator_may_return_null=1:malloc_context_size=0:fast_unwind_on_malloc=1:quarantine_size_mb=8:"
         "detect_container_overflow=0:intercept_tls_get_addr=0:max_malloc_fill_size=0";
}

namespace sim {
// ------------------------------------------------------------- one run
static void finish_run() {
  R->sim_ns = vnow - vstart;
  R->edges = g_edges;
  R->harmful = fs::harmful_fired();
  { uint64_t all = 0; for (int i = 0; i < NCNT && R->cnt[i].name[0]; i++) if (!strncmp(R->cnt[i].name, "fault.", 6)) all += R->cnt[i].v;
    uint64_t disk = R->harmful + fs::benign_fired(); if (all > disk) R->harmful += all - disk; } // faults injected by the harness itself
  R->benign = fs::benign_fired();
  uint64_t h = 1469598103934665603ull;
  const uint64_t *c = (const uint64_t *)cov;
  for (size_t i = 0; i < sizeof cov / 8; i++)
    if (c[i]) h = mix(h, c[i] ^ (i << 40));
  R->covsig = h;
}
static void child_run(const Property &p, uint64_t seed, const std::vector<uint32_t> *rep, bool notes) {
  replay = rep;
  keep_notes = notes;
  for (int i = 0; i < NSTREAM; i++) { sstate[i] = seed ^ (0xD1B54A32D192ED03ull * (i + 1)); splitmix(sstate[i]); }
  sem_init(&main_sem, 0, 0);
  uint32_t fk = draw(MEM, 6);
  fillseed = 0x1234567ull + (fk >= 4 ? draw(MEM, 1 << 20) : 0);
  fillkind = fk > 4 ? 4 : fk;
  fs::reset();
  in_run = true;
  p.run();
  in_run = false;
  R->status = 0;
  finish_run();
}
static void reset_result() {
  size_t keep = offsetof(Result, ch);
  memset(R, 0, keep);
  R->note_len = 0;
  R->status = 3;
  R->hash = 0xcbf29ce484222325ull;
  R->ohash = 0x84222325cbf29ce4ull;
}
struct RunOut { int status; std::string sig, msg; uint64_t hash; bool timeout; };
static RunOut run_child(const Property &p, uint64_t seed, const std::vector<uint32_t> *rep, bool notes, const char *errfile = nullptr) {
  reset_result();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(60);
    int fd = ::open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    child_run(p, seed, rep, notes);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  RunOut o{R->status, R->sig, R->msg, R->hash, false};
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.timeout = true; o.status = 4; return o; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.timeout = true; o.status = 4; return o; }
  if (R->status == 3 || WIFSIGNALED(st) || WEXITSTATUS(st)) {
    if (R->status == 1) return o;
    if (R->abort_ok) { o.status = 0; R->status = 0; count("aborted_after_alloc_fault"); return o; }
    o.status = 1;
    o.sig = R->abort_sig[0] ? R->abort_sig : "process-died";
    o.msg = WIFSIGNALED(st) ? fmt("the process died: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                            : WEXITSTATUS(st) == 66 ? std::string("memory error (address sanitizer report)")
                                                    : fmt("the process exited with %d in the middle of the run", WEXITSTATUS(st));
  }
  return o;
}
void set_abort_sig(const char *s) { strncpy(R->abort_sig, s, sizeof R->abort_sig - 1); }

struct Shared {
  volatile int stop;
  volatile uint64_t found_idx[64];
};
static double wall() {
  timespec t;
  syscall_clock(&t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t run_seed(uint64_t base, uint64_t i) {
  uint64_t s = base * 0x2545F4914F6CDD1Dull + i * 0x9E3779B97F4A7C15ull + 0x1357;
  splitmix(s);
  return splitmix(s);
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}
using Choices = std::vector<uint32_t>[NSTREAM];
static void grab(std::vector<uint32_t> *c) {
  for (int s = 0; s < NSTREAM; s++) {
    uint32_t n = std::min<uint32_t>(R->nch[s], MAXC);
    c[s].assign(R->ch[s], R->ch[s] + n);
    while (!c[s].empty() && !c[s].back()) c[s].pop_back();
  }
}
static bool still(const Property &p, std::vector<uint32_t> *c, const std::string &sig) {
  RunOut o = run_child(p, 0, c, false);
  return o.status == 1 && o.sig == sig;
}
static int minimise(const Property &p, std::vector<uint32_t> *best, const std::string &sig, double budget) {
  double t0 = wall();
  int runs = 0;
  auto over = [&] { return wall() - t0 > budget || runs > 3000; };
  auto attempt = [&](std::vector<uint32_t> *c) {
    runs++;
    if (!still(p, c, sig)) return false;
    for (int s = 0; s < NSTREAM; s++) {
      // adopt what the run really consumed
      best[s] = c[s];
      while (!best[s].empty() && !best[s].back()) best[s].pop_back();
    }
    return true;
  };
  const int order[NSTREAM] = {MEM, SCHED, FAULT, CONF, WORK};
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (int oi = 0; oi < NSTREAM && !over(); oi++) {
      int s = order[oi];
      Choices c;
      auto load = [&] { for (int k = 0; k < NSTREAM; k++) c[k] = best[k]; };
      load();
      if (!c[s].empty()) { c[s].clear(); if (attempt(c)) { progress = true; continue; } }
      // truncate, then delete chunks, then zero chunks
      for (size_t len = best[s].size() / 2; len >= 1 && !over(); len /= 2) {
        load();
        if (c[s].size() > len) { c[s].resize(c[s].size() - len); if (attempt(c)) progress = true; }
        for (size_t at = 0; at + len <= best[s].size() && !over();) {
          load();
          c[s].erase(c[s].begin() + at, c[s].begin() + at + len);
          if (attempt(c)) { progress = true; continue; }
          load();
          bool nz = false;
          for (size_t i = at; i < at + len; i++) { nz |= c[s][i] != 0; c[s][i] = 0; }
          if (nz && attempt(c)) progress = true;
          at += len;
        }
      }
      for (size_t i = 0; i < best[s].size() && !over(); i++) {
        uint32_t v = best[s][i];
        for (uint32_t nv : {v / 2, v - 1}) {
          if (v == 0 || nv >= v || i >= best[s].size()) break;
          load();
          c[s][i] = nv;
          if (attempt(c)) { progress = true; break; }
        }
      }
    }
  }
  return runs;
}

int main_driver(int argc, char **argv, const std::vector<Property> &props) {
  std::string pid, replay_file, outdir, known;
  uint64_t seed = 1, runs = 1000;
  double tlimit = 60;
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
  long only = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") pid = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10);
    else if (a == "--time") tlimit = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--replay") replay_file = nx();
    else if (a == "--outdir") outdir = nx();
    else if (a == "--known") known = nx();
    else if (a == "--only") only = atol(nx().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (jobs < 1) jobs = 1;
  if (jobs > 60) jobs = 60;
  const Property *p = nullptr;
  for (auto &q : props) if (pid == q.id) p = &q;
  if (!p) { fprintf(stderr, "no such property %s\n", pid.c_str()); return 2; }
  R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (outdir.empty()) outdir = "/tmp";

  if (!replay_file.empty()) {
    FILE *f = fopen(replay_file.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    Choices c;
    char *ln = nullptr;
    size_t cap = 0;
    unsigned long long by_seed = 0; int tries = 1;
    while (getline(&ln, &cap, f) > 0) {
      sscanf(ln, "by-seed %llx tries %d", &by_seed, &tries);
      for (int s = 0; s < NSTREAM; s++) {
        std::string k = fmt("choices %s:", stream_name[s]);
        if (!strncmp(ln, k.c_str(), k.size())) {
          char *q = ln + k.size(), *e;
          for (;;) { unsigned long v = strtoul(q, &e, 10); if (e == q) break; c[s].push_back(v); q = e; }
        }
      }
    }
    fclose(f);
    std::string ef = outdir + fmt("/replay.%d.err", (int)getpid());
    RunOut o = run_child(*p, by_seed, by_seed ? nullptr : c, true, ef.c_str());
    while (o.status != 1 && --tries > 0) o = run_child(*p, by_seed, nullptr, true, ef.c_str());
    fwrite(R->notes, 1, R->note_len, stdout);
    FILE *e = fopen(ef.c_str(), "r");
    if (e) { char b[400]; int n = 0; while (fgets(b, sizeof b, e) && n++ < 40) fprintf(stdout, "  | %s", b); fclose(e); unlink(ef.c_str()); }
    printf("REPLAY status=%d sig=%s hash=%016llx msg=%s\n", o.status, o.sig.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    return o.status == 1 ? 1 : o.status ? 2 : 0;
  }
  if (only >= 0) {
    RunOut o = run_child(*p, run_seed(seed, only), nullptr, true, "/dev/stderr");
    fwrite(R->notes, 1, R->note_len, stdout);
    for (int k = 0; k < NCNT && R->cnt[k].name[0]; k++) printf("  cnt %s=%llu\n", R->cnt[k].name, (unsigned long long)R->cnt[k].v);
    printf("RUN status=%d sig=%s hash=%016llx edges=%llu nontrivial=%d msg=%s\n", o.status, o.sig.c_str(), (unsigned long long)o.hash, (unsigned long long)R->edges, R->nontriv, o.msg.c_str());
    return o.status == 1 ? 1 : o.status ? 2 : 0;
  }

  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = wall();
  std::set<std::string> knownset;
  { size_t a = 0; while (a < known.size()) { size_t b = known.find(',', a); if (b == std::string::npos) b = known.size(); if (b > a) knownset.insert(known.substr(a, b - a)); a = b + 1; } }
  std::vector<pid_t> ws;
  for (int w = 0; w < jobs; w++) {
    sh->found_idx[w] = ~0ull;
    pid_t q = fork();
    if (!q) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::unordered_set<uint64_t> ohs, covs, all;
      std::map<std::string, uint64_t> cnt, knownhits;
      uint64_t n = 0, edges_ = 0, simns = 0, harmful = 0, benign = 0, nontriv = 0, faultruns = 0, timeouts = 0, nch = 0;
      std::vector<std::string> samples;
      for (uint64_t i = w; i < runs && !sh->stop; i += jobs) {
        if (wall() - t0 > tlimit) break;
        RunOut o = run_child(*p, run_seed(seed, i), nullptr, i < 4);
        n++;
        if (o.timeout) { timeouts++; if (timeouts > 2) break; continue; }
        edges_ += R->edges;
        simns += R->sim_ns;
        harmful += R->harmful;
        benign += R->benign;
        faultruns += R->harmful + R->benign > 0;
        for (int s = 0; s < NSTREAM; s++) nch += R->nch[s];
        all.insert(R->hash);
        covs.insert(R->covsig);
        if (R->nontriv) { nontriv++; ohs.insert(R->ohash); }
        for (int k = 0; k < NCNT && R->cnt[k].name[0]; k++) cnt[R->cnt[k].name] += R->cnt[k].v;
        if (i < 4) samples.push_back(fmt("run %llu: ", (unsigned long long)i) + std::string(R->notes, std::min<uint32_t>(R->note_len, 1200)));
        if (o.status == 1) {
          if (knownset.count(o.sig)) { knownhits[o.sig]++; continue; }
          sh->found_idx[w] = i;
          sh->stop = 1;
          break;
        }
      }
      std::string fn = outdir + fmt("/w%d.%d", (int)getppid(), w);
      FILE *f = fopen(fn.c_str(), "w");
      fprintf(f, "N %llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)n, (unsigned long long)edges_, (unsigned long long)simns, (unsigned long long)harmful, (unsigned long long)benign, (unsigned long long)nontriv, (unsigned long long)faultruns, (unsigned long long)timeouts, (unsigned long long)nch);
      for (auto &kv : cnt) fprintf(f, "C %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
      for (auto &kv : knownhits) fprintf(f, "K %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
      for (auto &s : samples) fprintf(f, "S %s\n", jesc(s).c_str());
      for (auto h : ohs) fprintf(f, "O %llx\n", (unsigned long long)h);
      for (auto h : covs) fprintf(f, "V %llx\n", (unsigned long long)h);
      for (auto h : all) fprintf(f, "A %llx\n", (unsigned long long)h);
      fclose(f);
      _exit(0);
    }
    ws.push_back(q);
  }
  int bad = 0;
  for (auto q : ws) { int st; while (waitpid(q, &st, 0) < 0) {} if (st) bad++; }
  if (bad) { fprintf(stderr, "ERROR: %d worker(s) failed\n", bad); return 3; }
  std::unordered_set<uint64_t> ohs, covs, all;
  std::map<std::string, uint64_t> cnt, kh;
  uint64_t N[9] = {0};
  std::vector<std::string> samples;
  for (int w = 0; w < jobs; w++) {
    std::string fn = outdir + fmt("/w%d.%d", (int)getpid(), w);
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) { fprintf(stderr, "ERROR: no worker output\n"); return 3; }
    char *ln = nullptr;
    size_t cap = 0;
    while (getline(&ln, &cap, f) > 0) {
      unsigned long long v[9];
      char nm[128];
      if (*ln == 'N') { sscanf(ln + 2, "%llu %llu %llu %llu %llu %llu %llu %llu %llu", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8); for (int k = 0; k < 9; k++) N[k] += v[k]; }
      else if (*ln == 'C') { if (sscanf(ln + 2, "%llu %127[^\n]", v, nm) == 2) cnt[nm] += v[0]; }
      else if (*ln == 'K') { if (sscanf(ln + 2, "%llu %127[^\n]", v, nm) == 2) kh[nm] += v[0]; }
      else if (*ln == 'S') { std::string s(ln + 2); if (!s.empty()) s.pop_back(); samples.push_back(s); }
      else if (*ln == 'O') ohs.insert(strtoull(ln + 2, 0, 16));
      else if (*ln == 'V') covs.insert(strtoull(ln + 2, 0, 16));
      else if (*ln == 'A') all.insert(strtoull(ln + 2, 0, 16));
    }
    fclose(f);
    unlink(fn.c_str());
  }
  double search_s = wall() - t0;
  uint64_t idx = ~0ull;
  for (int w = 0; w < jobs; w++) idx = std::min<uint64_t>(idx, (uint64_t)sh->found_idx[w]);
  std::string vio = "null";
  int rc = 0;
  if (idx != ~0ull) {
    uint64_t sd = run_seed(seed, idx);
    RunOut a = run_child(*p, sd, nullptr, false);
    Choices c0;
    grab(c0);
    RunOut b = run_child(*p, sd, nullptr, false);
    // the simulator owns every choice, so a run repeats exactly unless the code under test depends on something
    // outside it (such as addresses); such a violation is still reported, and says so
    bool exact = a.status == 1 && b.status == 1 && a.sig == b.sig && a.hash == b.hash;
    if (!exact) {
      fprintf(stderr, "run %llu is not exactly repeatable (status %d/%d sig %s/%s hash %llx/%llx)\n", (unsigned long long)idx, a.status, b.status, a.sig.c_str(), b.sig.c_str(), (unsigned long long)a.hash, (unsigned long long)b.hash);
      for (int k = 0; k < 30 && a.status != 1; k++) { a = run_child(*p, sd, nullptr, false); grab(c0); }
      if (a.status != 1) { fprintf(stderr, "ERROR: run %llu is not repeatable\n", (unsigned long long)idx); return 3; }
    }
    bool rep_ok = exact && still(*p, c0, a.sig);
    int mruns = rep_ok ? minimise(*p, c0, a.sig, 15) : 0;
    std::string rf = outdir + fmt("/%s-%llx.replay", p->id, (unsigned long long)sd);
    RunOut m = rep_ok ? run_child(*p, 0, c0, true) : run_child(*p, sd, nullptr, true);
    for (int k = 0; k < 30 && !exact && m.status != 1; k++) m = run_child(*p, sd, nullptr, true);
    FILE *f = fopen(rf.c_str(), "w");
    fprintf(f, "# replay of a simulated run; %s --prop %s --replay <this file>\n", argv[0], p->id);
    fprintf(f, "property %s\nseed %llu run %llu runseed %llx\nsignature %s\nmessage %s\nhash %016llx\nminimised-in %d runs\n", p->id, (unsigned long long)seed, (unsigned long long)idx, (unsigned long long)sd, m.sig.c_str(), m.msg.c_str(), (unsigned long long)m.hash, mruns);
    if (!rep_ok) fprintf(f, "by-seed %llx tries %d\n", (unsigned long long)sd, exact ? 1 : 30);
    for (int s = 0; s < NSTREAM && rep_ok; s++) {
      fprintf(f, "choices %s:", stream_name[s]);
      for (auto v : c0[s]) fprintf(f, " %u", v);
      fprintf(f, "\n");
    }
    fprintf(f, "trace:\n");
    fwrite(R->notes, 1, R->note_len, f);
    fclose(f);
    if (m.status != 1 || (exact && m.sig != a.sig)) { fprintf(stderr, "ERROR: replay of the minimised choices does not reproduce\n"); return 3; }
    vio = fmt("{\"exact\":%s,\"sig\":\"%s\",\"msg\":\"%s\",\"replay\":\"%s\",\"run\":%llu,\"hash\":\"%016llx\"}", exact ? "true" : "false", jesc(m.sig).c_str(), jesc(m.msg).c_str(), jesc(rf).c_str(), (unsigned long long)idx, (unsigned long long)m.hash);
    rc = 1;
  } else if (N[7] > 2) {
    fprintf(stderr, "ERROR: %llu runs timed out\n", (unsigned long long)N[7]);
    return 3;
  }
  // determinism self-check: the first runs once more
  uint64_t det = 0;
  if (!rc)
    for (int i = 0; i < 3; i++) {
      RunOut a = run_child(*p, run_seed(seed, i), nullptr, false);
      RunOut b = run_child(*p, run_seed(seed, i), nullptr, false);
      if (a.hash != b.hash || a.status != b.status) { fprintf(stderr, "ERROR: run %d is not deterministic\n", i); return 3; }
      det++;
    }
  printf("{\"property\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"search_s\":%.2f,\"edges\":%llu,\"sim_ns\":%llu,\"harmful\":%llu,\"benign\":%llu,\"nontrivial\":%llu,\"fault_runs\":%llu,\"choices\":%llu,"
         "\"distinct_outcomes\":%zu,\"distinct_coverage\":%zu,\"distinct_executions\":%zu,\"determinism_rechecks\":%llu,\"rule\":\"%s\",",
         p->id, (unsigned long long)seed, (unsigned long long)N[0], search_s, (unsigned long long)N[1], (unsigned long long)N[2], (unsigned long long)N[3], (unsigned long long)N[4], (unsigned long long)N[5], (unsigned long long)N[6], (unsigned long long)N[8], ohs.size(), covs.size(), all.size(), (unsigned long long)det, jesc(p->rule).c_str());
  printf("\"counters\":{");
  bool first = true;
  for (auto &kv : cnt) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  printf("},\"known\":{");
  first = true;
  for (auto &kv : kh) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  printf("},\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", samples[i].c_str());
  printf("],\"violation\":%s}\n", vio.c_str());
  return rc;
}
} // namespace sim
