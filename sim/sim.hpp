// Deterministic simulator core.
// One seed decides: workload, schedule, faults, configuration and the content
// of fresh memory. All choices are drawn from labelled streams that are
// recorded, so a run can be replayed from its choices and minimised by editing
// them (0 is always the quiet choice; an exhausted stream yields 0).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { WORK = 0, SCHED = 1, FAULT = 2, CONF = 3, MEM = 4, NSTREAM = 5 };

uint32_t draw(Stream s, uint32_t n);             // uniform in [0,n); 0 is quiet
bool chance(Stream s, uint32_t permille);        // quiet = false
inline uint32_t W(uint32_t n) { return draw(WORK, n); }
inline int64_t Wr(int64_t lo, int64_t hi) { return lo + draw(WORK, (uint32_t)(hi - lo + 1)); }
inline bool Wc(uint32_t permille) { return chance(WORK, permille); }
double Wu();                                     // [0,1)
double Wd(double lo, double hi);                 // [lo,hi)
// a local generator seeded by one workload choice (bulk data)
struct Rng { uint64_t s; explicit Rng(uint64_t seed); uint64_t next(); uint32_t below(uint32_t n); double u(); double d(double lo,double hi){return lo+(hi-lo)*u();} };
Rng Wrng();

// ---------------------------------------------------------------- results
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // human-readable trace, hashed
void observe(const void *p, size_t n);           // goes into the run hash and the state measure
void observe_u(uint64_t v);
void observe_d(double v);
[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char *name, uint64_t n = 1);    // named counter for the evidence
void nontrivial();                               // mark this run as non-trivial

// ---------------------------------------------------------------- tasks
int spawn(const char *name, std::function<void()> fn);
void run_tasks();                                // until all have finished or crashed
void yield_point(const char *kind);              // a possible preemption
int cur_task();                                  // -1 outside tasks
bool task_crashed(int id);
void no_preempt(int d);                          // +1/-1 nesting
struct NoPreempt { NoPreempt(){no_preempt(1);} ~NoPreempt(){no_preempt(-1);} };
void set_preempt_rate(uint32_t mean_edges);      // mean distance of edge preemptions, 0 = off
uint64_t edges();                                // instrumented edges executed
extern uint64_t max_edges;                       // bound on work: exceeded = no progress
void crash_current();                            // the calling task stops here for good
int lone(std::function<void()> fn);              // run fn as the only task (fresh stack)

// ---------------------------------------------------------------- time
uint64_t now_ns();
void advance_ns(uint64_t d);

// ---------------------------------------------------------------- memory
struct AllocStats { int64_t live; uint64_t total; uint64_t failed; };
AllocStats alloc_stats();                        // operator new/delete, tracked
void alloc_track(bool on);                       // start/stop tracking live blocks
int64_t alloc_live_tracked();
extern bool abort_allowed;                       // process death is an accepted outcome from here on
extern const char* abort_sig;                    // signature used when a run dies

// ---------------------------------------------------------------- storage
// Simulated file system under /sim/
namespace fs {
struct Node { std::string data; int64_t fail_at = -1; int fail_errno = 0; bool isdir = false;
  // durable model not needed: process crash keeps written data
};
void put(const std::string &path, const std::string &data);
bool exists(const std::string &path);
std::string get(const std::string &path);
void erase(const std::string &path);
std::vector<std::string> list();
void reset();

// What may go wrong; rates in permille per operation, all off by default.
struct Faults {
  // benign: must never change a result
  uint32_t short_read = 0, eintr = 0, delay = 0;
  // harmful: may make the operation fail, must be reported
  uint32_t open_fail = 0, read_eio = 0, write_enospc = 0, write_eio = 0, short_write = 0,
           flush_fail = 0, close_fail = 0, rename_fail = 0, unlink_fail = 0;
  // sticky or one-shot position faults
  uint32_t crash = 0;              // crash the task at an I/O operation
  bool read_sticky = false;        // once EIO, always EIO on that open file
};
extern Faults faults;
uint64_t harmful_fired();          // harmful faults fired so far in this run
uint64_t benign_fired();
void clear_fired();
// read EIO when a read reaches this offset of this path (-1 off)
void bad_sector(const std::string &path, int64_t off);
bool bad_sector_hit(const std::string &path);
uint64_t opens(const std::string &path);
// hook called at every I/O operation (kind, path)
extern std::function<void(const char *, const std::string &)> io_hook;
extern bool one_process; // getpid() is the same in all tasks
} // namespace fs

// pick a swarm of benign faults / harmful faults for this run
void swarm_benign();
void swarm_read_faults();

// ---------------------------------------------------------------- driver
struct Property { const char *id; std::function<void()> run; const char *rule; };
int main_driver(int argc, char **argv, const std::vector<Property> &props);

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool same_double(double a, double b);            // bitwise equal or both NaN
bool close_to(double a, double b, double rtol, double atol = 0);
} // namespace sim
