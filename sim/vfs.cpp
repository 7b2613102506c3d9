// Simulated storage and clock behind the C library's own entry points.
// Paths below /sim/ live in the simulator; everything else passes through.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include "internal.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
void syscall_clock(timespec *t) { syscall(SYS_clock_gettime, CLOCK_MONOTONIC, t); }
namespace fs {
struct Open {
  std::shared_ptr<Node> n;
  std::string path;
  int64_t pos = 0;
  bool rd = false, wr = false, app = false, dead = false;
  int fd = -1;
  FILE *fp = nullptr;
};
static std::map<std::string, std::shared_ptr<Node>> files;
static std::map<int, Open *> fds;
static std::map<FILE *, Open *> fps;
static std::map<std::string, uint64_t> nopens;
static std::map<std::string, int64_t> badsec;
static std::map<std::string, bool> badhit;
static int nextfd = 1 << 20;
static uint64_t harmful = 0, benign = 0;
Faults faults;
std::function<void(const char *, const std::string &)> io_hook;
bool one_process = false;

void reset() {
  files.clear(); fds.clear(); fps.clear(); nopens.clear(); badsec.clear(); badhit.clear();
  nextfd = 1 << 20; harmful = benign = 0; faults = Faults(); io_hook = nullptr; one_process = false;
}
static std::string norm(const std::string &p) {
  std::string o;
  for (size_t i = 0; i < p.size(); i++) {
    if (p[i] == '/' && !o.empty() && o.back() == '/') continue;
    if (p[i] == '.' && !o.empty() && o.back() == '/' && (i + 1 == p.size() || p[i + 1] == '/')) { i++; continue; }
    o += p[i];
  }
  return o;
}
void put(const std::string &path, const std::string &data) { auto n = std::make_shared<Node>(); n->data = data; files[norm(path)] = n; }
bool exists(const std::string &path) { return files.count(norm(path)); }
std::string get(const std::string &path) { auto it = files.find(norm(path)); return it == files.end() ? std::string() : it->second->data; }
void erase(const std::string &path) { files.erase(norm(path)); }
std::vector<std::string> list() { std::vector<std::string> v; for (auto &f : files) v.push_back(f.first); return v; }
uint64_t harmful_fired() { return harmful; }
uint64_t benign_fired() { return benign; }
void clear_fired() { harmful = benign = 0; }
void bad_sector(const std::string &p, int64_t off) { if (off < 0) badsec.erase(p); else badsec[p] = off; badhit[p] = false; }
bool bad_sector_hit(const std::string &p) { return badhit[p]; }
uint64_t opens(const std::string &p) { return nopens[norm(p)]; }

static bool mine(const char *p) { return in_run && p && !strncmp(p, "/sim/", 5); }
static void fire(const char *kind, const std::string &path, bool harm) {
  count((std::string("fault.") + kind).c_str());
  if (harm) harmful++; else benign++;
  note("[fault] %s on %s", kind, path.c_str());
}
static void op(const char *kind, const std::string &path) {
  advance_ns(1000 + 50000);
  count("io_ops");
  if (faults.delay && chance(FAULT, faults.delay)) { uint32_t ms = 1 + draw(FAULT, 5000); advance_ns((uint64_t)ms * 1000000); fire("delay", path, false); }
  if (io_hook) { NoPreempt np; auto h = io_hook; h(kind, path); }
  if (faults.crash && in_task() && chance(FAULT, faults.crash)) { harmful++; crash_current(); }
  yield_point(kind);
}
static std::shared_ptr<Node> lookup(const std::string &p) { auto it = files.find(norm(p)); return it == files.end() ? nullptr : it->second; }

static int do_open(const char *path, int flags, Open **out) {
  std::string p = norm(path);
  op("open", p);
  nopens[p]++;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (faults.open_fail && chance(FAULT, faults.open_fail)) {
    static const int es[] = {EMFILE, EACCES, EIO, EINTR};
    errno = es[draw(FAULT, 4)];
    fire("open_fail", p, true);
    return -1;
  }
  auto n = lookup(p);
  if (n && n->isdir && wr) { errno = EISDIR; return -1; }
  if (!n) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    n = std::make_shared<Node>();
    files[p] = n;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (wr && (flags & O_TRUNC)) n->data.clear();
  Open *o = new Open;
  o->n = n; o->path = p; o->wr = wr; o->rd = (flags & O_ACCMODE) != O_WRONLY; o->app = flags & O_APPEND;
  o->fd = nextfd++;
  fds[o->fd] = o;
  *out = o;
  io_event(0x11);
  return o->fd;
}
static ssize_t do_read(Open *o, char *b, size_t n) {
  op("read", o->path);
  if (!o->rd) { errno = EBADF; return -1; }
  if (faults.eintr && chance(FAULT, faults.eintr)) { fire("eintr", o->path, false); errno = EINTR; return -1; }
  if (o->dead || (faults.read_eio && chance(FAULT, faults.read_eio))) {
    if (faults.read_sticky) o->dead = true;
    fire("read_eio", o->path, true);
    errno = EIO;
    return -1;
  }
  int64_t avail = (int64_t)o->n->data.size() - o->pos;
  if (avail <= 0) { io_event(0x12); return 0; }
  size_t k = std::min<size_t>(n, avail);
  if (faults.short_read && k > 1 && chance(FAULT, faults.short_read)) {
    uint32_t how = draw(FAULT, 3);
    k = how == 0 ? 1 + draw(FAULT, k) % k : how == 1 ? 1 + draw(FAULT, std::min<size_t>(k, 16)) : 1;
    if (k > (size_t)avail) k = avail;
    fire("short_read", o->path, false);
  }
  auto bs = badsec.find(o->path);
  if (bs != badsec.end() && o->pos + (int64_t)k > bs->second) {
    if (o->pos >= bs->second) { badhit[o->path] = true; fire("read_eio_sector", o->path, true); errno = EIO; return -1; }
    k = bs->second - o->pos;
  }
  memcpy(b, o->n->data.data() + o->pos, k);
  o->pos += k;
  io_event(0x13 + (k << 8));
  return k;
}
static ssize_t do_write(Open *o, const char *b, size_t n) {
  op("write", o->path);
  if (!o->wr) { errno = EBADF; return -1; }
  if (faults.eintr && chance(FAULT, faults.eintr)) { fire("eintr_write", o->path, true); errno = EINTR; return -1; }
  size_t k = n;
  int err = 0;
  if (faults.write_enospc && chance(FAULT, faults.write_enospc)) { err = ENOSPC; k = n ? draw(FAULT, n) : 0; fire("write_enospc", o->path, true); }
  else if (faults.write_eio && chance(FAULT, faults.write_eio)) { err = EIO; k = 0; fire("write_eio", o->path, true); }
  else if (faults.short_write && n > 1 && chance(FAULT, faults.short_write)) { k = 1 + draw(FAULT, n - 1); fire("short_write", o->path, false); }
  if (o->app) o->pos = o->n->data.size();
  if ((int64_t)o->n->data.size() < o->pos + (int64_t)k) o->n->data.resize(o->pos + k);
  memcpy(&o->n->data[0] + o->pos, b, k);
  o->pos += k;
  io_event(0x14 + (k << 8));
  if (err && !k) { errno = err; return -1; }
  if (err) o->dead = true, faults.write_enospc = 999; // the disk stays full
  // a crash in the middle of a write leaves the part already written
  if (faults.crash && in_task() && chance(FAULT, faults.crash)) { harmful++; if (k > 1) { size_t cut = draw(FAULT, k); o->n->data.resize(o->n->data.size() - cut); } crash_current(); }
  return k;
}
static int64_t do_seek(Open *o, int64_t off, int whence) {
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->pos : (int64_t)o->n->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->pos = base + off;
  io_event(0x15 + ((uint64_t)o->pos << 8));
  return o->pos;
}
static int do_close(Open *o) {
  std::string p = o->path;
  bool wr = o->wr;
  fds.erase(o->fd);
  delete o;
  op("close", p);
  if (wr && faults.close_fail && chance(FAULT, faults.close_fail)) { fire("close_fail", p, true); errno = EIO; return -1; }
  return 0;
}
// stdio cookies
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; do r = do_read((Open *)c, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  Open *o = (Open *)c;
  // as glibc does for real files: go on after a partial write
  size_t t = 0;
  while (t < n) { ssize_t r = do_write(o, b + t, n - t); if (r <= 0) break; t += r; }
  return t; // less than n = error
}
static int ck_seek(void *c, off64_t *off, int wh) { int64_t r = do_seek((Open *)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void *c) { return do_close((Open *)c); }
static int mode_flags(const char *m) {
  bool plus = strchr(m, '+');
  int f = *m == 'r' ? (plus ? O_RDWR : O_RDONLY) : *m == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
static FILE *wrap(Open *o, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  std::string m;
  for (const char *c = mode; *c && *c != ','; c++) if (strchr("rwa+b", *c)) m += *c;
  FILE *f = fopencookie(o, m.c_str(), io);
  o->fp = f;
  fps[f] = o;
  return f;
}
static void fill_stat(Node &n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = n.isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = n.data.size();
  st->st_nlink = 1;
  st->st_blksize = 4096;
  st->st_ino = 7;
  st->st_dev = 77;
}
static int do_stat(const char *p, struct stat *st) {
  std::string q = norm(p);
  op("stat", q);
  while (q.size() > 4 && q.back() == '/') q.pop_back();
  if (q == "/sim") { Node d; d.isdir = true; fill_stat(d, st); return 0; }
  auto n = lookup(q);
  if (!n) {
    for (auto &f : files) if (f.first.compare(0, q.size() + 1, q + "/") == 0) { Node d; d.isdir = true; fill_stat(d, st); return 0; }
    errno = ENOENT;
    return -1;
  }
  fill_stat(*n, st);
  return 0;
}
static int do_unlink(const char *p) {
  std::string q = norm(p);
  op("unlink", q);
  if (faults.unlink_fail && chance(FAULT, faults.unlink_fail)) { fire("unlink_fail", q, true); errno = EACCES; return -1; }
  if (!files.erase(q)) { errno = ENOENT; return -1; }
  io_event(0x16);
  return 0;
}
static int do_rename(const char *a, const char *b) {
  std::string p = norm(a), q = norm(b);
  op("rename", q);
  if (faults.rename_fail && chance(FAULT, faults.rename_fail)) { fire("rename_fail", q, true); errno = EACCES; return -1; }
  auto n = lookup(p);
  if (!n) { errno = ENOENT; return -1; }
  files.erase(p);
  files[q] = n;
  io_event(0x17);
  return 0;
}
static Open *of(int fd) { if (fd < (1 << 20)) return nullptr; auto it = fds.find(fd); return it == fds.end() ? nullptr : it->second; }
static Open *of(FILE *f) { auto it = fps.find(f); return it == fps.end() ? nullptr : it->second; }
} // namespace fs

void swarm_benign() {
  auto &f = fs::faults;
  f = fs::Faults();
  if (draw(CONF, 2)) f.short_read = 100 + draw(CONF, 800);
  if (draw(CONF, 2)) f.eintr = 20 + draw(CONF, 200);
  if (draw(CONF, 3) == 1) f.delay = 50;
}
void swarm_read_faults() {
  swarm_benign();
  auto &f = fs::faults;
  if (draw(CONF, 3) == 1) f.open_fail = 100 + draw(CONF, 500);
  if (draw(CONF, 2)) f.read_eio = 10 + draw(CONF, 300);
  f.read_sticky = draw(CONF, 2);
}
} // namespace sim

using namespace sim;
using namespace sim::fs;
#define REAL(name) static auto real = (decltype(&::name))dlsym(RTLD_NEXT, #name)

extern "C" {
FILE *fopen64(const char *p, const char *m) {
  REAL(fopen64);
  if (!mine(p)) return real(p, m);
  Open *o = nullptr;
  if (do_open(p, mode_flags(m), &o) < 0) return nullptr;
  return wrap(o, m);
}
FILE *fopen(const char *p, const char *m) {
  REAL(fopen);
  if (!mine(p)) return real(p, m);
  return fopen64(p, m);
}
FILE *fdopen(int fd, const char *m) noexcept {
  REAL(fdopen);
  if (Open *o = in_run ? of(fd) : nullptr) return wrap(o, m);
  return real(fd, m);
}
int fileno(FILE *f) noexcept {
  REAL(fileno);
  if (in_run) if (Open *o = of(f)) return o->fd;
  return real(f);
}
int fclose(FILE *f) {
  REAL(fclose);
  if (in_run) {
    auto it = fps.find(f);
    if (it != fps.end()) {
      Open *o = it->second;
      bool wr = o->wr;
      std::string p = o->path;
      fps.erase(it);
      bool ff = wr && faults.flush_fail && chance(FAULT, faults.flush_fail);
      if (ff) { // the buffered tail cannot be written: disk full at the last moment
        fire("flush_fail", p, true);
        uint32_t sv = faults.write_enospc;
        faults.write_enospc = 999;
        int r = real(f);
        int e = errno;
        faults.write_enospc = sv;
        errno = e;
        return r;
      }
      return real(f);
    }
  }
  return real(f);
}
static int vopen(const char *p, int fl, mode_t md, int at) {
  if (mine(p)) { Open *o; return do_open(p, fl, &o); }
  return (int)syscall(SYS_openat, at, p, fl, md);
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return vopen(p, fl, m, AT_FDCWD); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return vopen(p, fl, m, AT_FDCWD); }
int openat(int at, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return vopen(p, fl, m, at); }
int creat(const char *p, mode_t m) { return vopen(p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
static int tmpl(char *t, const char *suffix, int flags) {
  (void)suffix;
  size_t n = strlen(t);
  static int ctr = 0;
  snprintf(t + n - 6, 7, "%06d", ++ctr);
  Open *o;
  return do_open(t, O_RDWR | O_CREAT | O_EXCL | flags, &o);
}
int mkstemp(char *t) { REAL(mkstemp); return mine(t) ? tmpl(t, "", 0) : real(t); }
int mkstemp64(char *t) { REAL(mkstemp64); return mine(t) ? tmpl(t, "", 0) : real(t); }
int mkostemp(char *t, int f) { REAL(mkostemp); return mine(t) ? tmpl(t, "", f) : real(t, f); }
ssize_t read(int fd, void *b, size_t n) { if (in_run) if (Open *o = of(fd)) return do_read(o, (char *)b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (in_run) if (Open *o = of(fd)) return do_write(o, (const char *)b, n); return syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t off) { REAL(pread); if (in_run) if (Open *o = of(fd)) { int64_t s = o->pos; o->pos = off; ssize_t r = do_read(o, (char *)b, n); o->pos = s; return r; } return real(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (in_run) if (Open *o = of(fd)) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(o, (const char *)v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
  }
  return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept { if (in_run) if (Open *f = of(fd)) return do_seek(f, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (in_run) if (Open *f = of(fd)) return do_seek(f, o, w); return syscall(SYS_lseek, fd, o, w); }
int close(int fd) { if (in_run) if (Open *o = of(fd)) return do_close(o); return (int)syscall(SYS_close, fd); }
int fsync(int fd) { REAL(fsync); if (in_run) if (Open *o = of(fd)) { op("fsync", o->path); if (faults.flush_fail && chance(FAULT, faults.flush_fail)) { fire("fsync_fail", o->path, true); errno = EIO; return -1; } return 0; } return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (in_run) if (of(fd)) return fsync(fd); return real(fd); }
int ftruncate(int fd, off_t n) noexcept { REAL(ftruncate); if (in_run) if (Open *o = of(fd)) { o->n->data.resize(n); return 0; } return real(fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { REAL(ftruncate64); if (in_run) if (Open *o = of(fd)) { o->n->data.resize(n); return 0; } return real(fd, n); }
int stat(const char *p, struct stat *s) noexcept { REAL(stat); return mine(p) ? do_stat(p, s) : real(p, s); }
int stat64(const char *p, struct stat64 *s) noexcept { REAL(stat64); return mine(p) ? do_stat(p, (struct stat *)s) : real(p, s); }
int lstat(const char *p, struct stat *s) noexcept { REAL(lstat); return mine(p) ? do_stat(p, s) : real(p, s); }
int lstat64(const char *p, struct stat64 *s) noexcept { REAL(lstat64); return mine(p) ? do_stat(p, (struct stat *)s) : real(p, s); }
int fstat(int fd, struct stat *s) noexcept { REAL(fstat); if (in_run) if (Open *o = of(fd)) { fill_stat(*o->n, s); return 0; } return real(fd, s); }
int fstat64(int fd, struct stat64 *s) noexcept { REAL(fstat64); if (in_run) if (Open *o = of(fd)) { fill_stat(*o->n, (struct stat *)s); return 0; } return real(fd, s); }
int fstatat(int d, const char *p, struct stat *s, int f) noexcept { REAL(fstatat); return mine(p) ? do_stat(p, s) : real(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) noexcept { REAL(fstatat64); return mine(p) ? do_stat(p, (struct stat *)s) : real(d, p, s, f); }
int access(const char *p, int m) noexcept { REAL(access); struct stat s; return mine(p) ? do_stat(p, &s) : real(p, m); }
int faccessat(int d, const char *p, int m, int f) noexcept { REAL(faccessat); struct stat s; return mine(p) ? do_stat(p, &s) : real(d, p, m, f); }
int unlink(const char *p) noexcept { REAL(unlink); return mine(p) ? do_unlink(p) : real(p); }
int unlinkat(int d, const char *p, int f) noexcept { REAL(unlinkat); return mine(p) ? do_unlink(p) : real(d, p, f); }
int remove(const char *p) noexcept { REAL(remove); return mine(p) ? do_unlink(p) : real(p); }
int rename(const char *a, const char *b) noexcept { REAL(rename); return mine(a) ? do_rename(a, b) : real(a, b); }
int renameat(int d, const char *a, int e, const char *b) noexcept { REAL(renameat); return mine(a) ? do_rename(a, b) : real(d, a, e, b); }
int truncate(const char *p, off_t n) noexcept { REAL(truncate); if (!mine(p)) return real(p, n); auto f = lookup(p); if (!f) { errno = ENOENT; return -1; } f->data.resize(n); return 0; }
int ioctl(int fd, unsigned long rq, ...) noexcept { va_list a; va_start(a, rq); void *p = va_arg(a, void *); va_end(a); if (in_run && of(fd)) { errno = ENOTTY; return -1; } return (int)syscall(SYS_ioctl, fd, rq, p); }

// identity: one simulated process per task
pid_t getpid(void) noexcept { if (in_run) return 4242 + (sim::fs::one_process ? 0 : cur_task() + 1); return (pid_t)syscall(SYS_getpid); }

// clock
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (in_run) { t->tv_sec = now_ns() / 1000000000ull; t->tv_nsec = now_ns() % 1000000000ull; return 0; }
  return (int)syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *t) noexcept { time_t v; if (in_run) v = now_ns() / 1000000000ull; else { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int gettimeofday(struct timeval *__restrict tv, void *__restrict tz) noexcept { (void)tz; timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

// locks taken by the code under test: never block the simulator
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  REAL(pthread_mutex_lock);
  if (!in_task()) return real(m);
  static auto tr = (decltype(&::pthread_mutex_trylock))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  yield_point("lock");
  int r;
  int spins = 0;
  while ((r = tr(m)) == EBUSY) { if (!must_yield() || ++spins > 100000) fail("deadlock", "a task waits for a lock nobody will release"); }
  return r;
}
static int guard_depth = 0;
int __cxa_guard_acquire(long long *g) { static auto real = (int (*)(long long *))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); int r = real(g); if (r && in_run) { no_preempt(1); guard_depth++; } return r; }
void __cxa_guard_release(long long *g) { static auto real = (void (*)(long long *))dlsym(RTLD_NEXT, "__cxa_guard_release"); real(g); if (in_run && guard_depth) { guard_depth--; no_preempt(-1); } }
void __cxa_guard_abort(long long *g) { static auto real = (void (*)(long long *))dlsym(RTLD_NEXT, "__cxa_guard_abort"); real(g); if (in_run && guard_depth) { guard_depth--; no_preempt(-1); } }
int pthread_once(pthread_once_t *o, void (*f)(void)) { REAL(pthread_once); if (!in_task()) return real(o, f); no_preempt(1); int r = real(o, f); no_preempt(-1); return r; }
}
